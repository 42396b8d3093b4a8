"""C06  Spectral interpolation.  The interpolation routines run as written on arbitrary grid functions, intervals and points;
the contract: the value is that of the same combination of basis functions at the point, and the grid value at a point."""
import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib')
from spec import *
from C03 import rand
from C05 import CONF
def basis(fn,kind):
    """basis functions at an arbitrary point, and exactly at the ends"""
    def f(ctx):
        W=ctx.W; a=T.lift(ctx.var('a',-2.,1.)); b=T.lift(ctx.var('b',1.5,4.)); s=ctx.var('s',.02,.98); ranges(ctx,tidy=True)
        for lab,X,th in (('inside',a+(b-a)*s,T.lift(s)),('a',a,T.ZERO),('b',b,T.ONE)):
            for n1 in range(1,14):
                for k in range(n1):
                    if kind=='c': w=cheb(T.ONE-th*2,k)[0][k]*(Fr(1,2) if k==0 else 1)
                    else:
                        j=(k+1)//2; w=T.ONE if k==0 else T.cos(T.PI*2*th*j) if k%2 else T.sin(T.PI*2*th*j)
                        if kind=='f': w=w*(Fr(1,n1) if k==0 or (k==n1-1 and n1%2==0) else Fr(2,n1))
                    if kind!='f' and k<n1-1: continue
                    ctx.eq(f'{lab} n={n1} k={k}',W.call(fn,None,a,b,k,n1,X,ret='d'),w,tol=1e-11,scale=n1*n1)
    return f
def base3(pts):
    def f(ctx):
        s=I3(ctx); W=s.W; ranges(ctx,tidy=True); o=s.new(); W.call('spec_Coeffs',W.bx,s.u,o,ret='v')
        if pts:
            X={d:s.B.line(d) for d in (1,2,3)}
            for I in range(s.N):
                i,j,k=I%s.n[0],I//s.n[0]%s.n[1],I//s.n[0]//s.n[1]
                ctx.eq(f'grid value {I}',W.call('spec_interpolate',W.bx,o,X[1][i],X[2][j],X[3][k],ret='d'),s.v[I],tol=1e-10,scale=60)
        else:
            X=[s.inside(d) for d in (1,2,3)]; ctx.eq('value',W.call('spec_interpolate',W.bx,o,*X,ret='d'),s.at(X),tol=1e-10,scale=60)
            # on the faces
            for d in (1,2,3):
                for e in ('a','b'):
                    Y=list(X); Y[d-1]=T.lift(getattr(s.B,e)[d]); ctx.eq(f'value on face {e}{d}',W.call('spec_interpolate',W.bx,o,*Y,ret='d'),s.at(Y),tol=1e-10,scale=60)
        s.cmp('argument unchanged',s.u,s.v)
    return f
def plane(N):
    def f(ctx):
        s=I3(ctx); W=s.W; ranges(ctx,tidy=True); X=[s.inside(d) for d in (1,2,3)]; d=[k for k in (1,2,3) if k!=N]
        for p in range(s.n[N-1]):
            o=s.new(); W.call('spec_Coeffs_inplaneN',W.bx,N,p,s.u,o,ret='v')
            g=W.call('spec_interpolate_inplaneN',W.bx,N,p,o,X[d[0]-1],X[d[1]-1],ret='d')
            w=s.build(lambda e,m,i: m[1][p] if e==N else evalmode(s.B,e,m[0],X[e-1]),(1,1,1))[0]
            ctx.eq(f'value in plane {p}',g,w,tol=1e-10,scale=60)
    return f
def line(D):
    def f(ctx):
        s=I3(ctx); W=s.W; ranges(ctx,tidy=True); X=s.inside(D); d=[k for k in (1,2,3) if k!=D]; o=s.new()
        W.call('spec_analysis1',W.bx,D,s.u,o,ret='v')
        for p in range(s.n[d[0]-1]):
            for q in range(s.n[d[1]-1]):
                g=W.call('spec_interpolate_in_dir_at_i1_i2',W.bx,D,p,q,o,X,ret='d')
                w=s.build(lambda e,m,i: m[1][(p,q)[d.index(e)]] if e!=D else evalmode(s.B,e,m[0],X),(1,1,1))[0]
                ctx.eq(f'value on line {p} {q}',g,w,tol=1e-10,scale=60)
    return f
FN={'ChebExtrema':('cheb_coeffs_fromExtrema','cheb_basisfunc'),'ChebZeros':('cheb_coeffs_fromZeros','cheb_basisfunc'),'Fourier':('four_coeffs','four_basisfunc')}
def bm(D):
    """the row of interpolation weights"""
    def f(ctx):
        B=Box(ctx); W=B.W; s=ctx.var('s',.03,.97); ranges(ctx,tidy=True); n=B.n[D-1]
        for lab,X in (('inside',T.lift(B.a[D])+B.L(D)*s),('at a',T.lift(B.a[D])),('at b',T.lift(B.b[D]))):
            o=W.arr([3.25]*(n+1)); W.call('spec_Basis_times_CoeffMatrix_direc',W.bx,D,o,X,ret='v')
            o2=W.arr([3.25]*(n+1)); g,b=FN[W.bas[D-1]]
            W.call('spec_Basis_times_CoeffMatrix',B.a[D],B.b[D],n,o2,X,fptr(W,g),fptr(W,b),ret='v')
            for nm,p in (('box',o),('pars',o2)):
                r=[T.lift(W.get(p,i)) for i in range(n)]; ctx.eq('end',W.get(p,n),3.25)
                for m in modes(B,D): ctx.eq(f'{nm} {lab} {m[0]}',dot(r,m[1]),evalmode(B,D,m[0],X),tol=1e-10,scale=60)
    return f
def grids(ctx):
    """from grid 2 to grid 1 with other numbers of points"""
    W=ctx.W; n1=W.ns; n2=(4,3,3); s=I3(ctx); B=s.B; N1=s.N
    for k in (1,2,3): setpar(ctx,f'box0_n{k}',n2[k-1])
    g2=W.call('make_grid',0,ret='p'); bx2=W.call('vs_box',g2,0,ret='p'); bx1=W.bx
    for n in ('u','c','w'): W.call('enablevar',g2,W.ind(n),ret='v')
    W.bx=bx2; W.ns=n2
    try:
        B2=Box.__new__(Box); B2.__dict__.update(B.__dict__); B2.n=n2; s2=I3.__new__(I3); s2.__dict__.update(s.__dict__); s2.B=B2; s2.n=n2; s2.N=n2[0]*n2[1]*n2[2]
        s2.m={d:[m for m in modes(B2,d)] for d in (1,2,3)}; s2.c={(p,q,r):T.lift(ctx.var(f'd{p}{q}{r}',-1,1)) for p in range(n2[0]) for q in range(n2[1]) for r in range(n2[2])}
        s2.v=s2.build(lambda d,m,i: m[1][i])
        p=W.v(bx2,'u')
        for i in range(s2.N): W.set(p,i,s2.v[i])
        ranges(ctx,tidy=True); q=W.v(bx1,'u'); X=[[s.inside(d,f'x{d}_{i}') for i in range(N1)] for d in (1,2,3)]
        for i in range(N1):
            W.set(q,i,ctx.var(f'old{i}',-1,1))
            for d in (1,2,3): W.set(W.v(bx1,' XYZ'[d]),i,X[d-1][i])
        W.call('spec_interpolate_Var_from_grid2_to_grid1',W.g,g2,W.ind('u'),W.ind('c'),ret='v')
        for i in range(N1): ctx.eq(f'value {i}',W.get(q,i),s2.at([X[d][i] for d in range(3)]),tol=1e-10,scale=60)
        for i in range(s2.N): ctx.eq(f'grid 2 unchanged {i}',W.get(p,i),s2.v[i],tol=1e-14)
    finally: W.bx=bx1; W.ns=n1
def mk(sym,bas,ns,tt=(None,)*3,**k): return lambda: mkspec(sym,bas,ns,tt,**k)
cases=[]
def K(nm,f): cases.append(Case(nm,f,base=mk(True,('Fourier',)*3,(1,1,1)),rbase=mk(False,('Fourier',)*3,(1,1,1)),group='k',bounded='n<=13'))
K('cheb_basisfunc',basis('cheb_basisfunc','c')); K('cheb_basisfunc_FromSum',basis('cheb_basisfunc_FromSum','c'))
K('four_basisfunc',basis('four_basisfunc','f')); K('four_basisfunc_alt',basis('four_basisfunc_alt','a'))
def D(nm,f,c,t=(None,)*3): cases.append(Case(nm,f,base=mk(True,*c,t),rbase=mk(False,*c,t),group=f'{c}{t}',bounded='box of %dx%dx%d points'%c[1],timeout=400))
C2=[(('Fourier','ChebZeros','ChebExtrema'),(4,5,2))]
for i,c in enumerate(CONF[:3]+C2):
    L='/'.join({'ChebExtrema':'E','ChebZeros':'Z','Fourier':'F'}[b]+str(n) for b,n in zip(*c))
    D(f'spec_interpolate {L}',base3(False),c); D(f'grid values {L}',base3(True),c)
    for d in (1,2,3): D(f'spec_interpolate_inplaneN {d} {L}',plane(d),c); D(f'along a line {d} {L}',line(d),c); D(f'weights {d} {L}',bm(d),c)
FC=(('ChebExtrema','ChebZeros','Fourier'),(3,4,4))
D('spec_interpolate FFT',base3(False),FC,('1 NUMREC_FFT',)*3); D('grid values FFT',base3(True),FC,('1 NUMREC_FFT',)*3)
D('between grids',grids,(('ChebExtrema','ChebZeros','Fourier'),(2,2,2)))
if __name__=='__main__':
    main('C06',cases,level='proof',trusted=['BLAS: cblas_dgemv'])
