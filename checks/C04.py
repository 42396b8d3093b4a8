"""C04  Spectral transforms.  Every transform routine (explicit sums, the built-in FFTs, FFTW through the documented contract of
its library) runs as written on an arbitrary vector; contract: the result is the vector the documented convention defines
(so all back ends agree) and the two directions are inverse to each other."""
import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib')
from spec import *
from C03 import Dr,rand
C_=lambda p,q: T.cos(ang(Fr(p,q)))
S_=lambda p,q: T.sin(ang(Fr(p,q)))
# documented conventions
def zc(u):
    N=len(u); return [sm(u[k]*C_(j*(2*k+1),2*N) for k in range(N))*Fr(2,N) for j in range(N)]
def ze(c):
    N=len(c); return [c[0]/2+sm(c[k]*C_(k*(2*j+1),2*N) for k in range(1,N)) for j in range(N)]
def xc(u):
    N=len(u)-1; w=[Fr(1,2) if k in(0,N) else Fr(1) for k in range(N+1)]
    return [sm(u[k]*C_(j*k,N)*w[k] for k in range(N+1))*Fr(2,N)*(Fr(1,2) if j==N else 1) for j in range(N+1)]
def xe(c):
    N=len(c)-1; return [c[0]/2+sm(c[k]*C_(k*j,N) for k in range(1,N+1)) for j in range(N+1)]
def fc(u):
    N=len(u); r=[None]*N
    for j in range(N//2+1):
        if j==0: r[0]=sm(u)
        else:
            r[2*j-1]=sm(u[k]*C_(2*j*k,N) for k in range(N))
            if 2*j<N: r[2*j]=sm(u[k]*S_(2*j*k,N) for k in range(N))
    return r
def fe(c):
    N=len(c); r=[]
    for k in range(N):
        t=c[0]
        for j in range(1,N//2+1):
            w=1 if 2*j==N else 2; t=t+c[2*j-1]*C_(2*j*k,N)*w
            if 2*j<N: t=t+c[2*j]*S_(2*j*k,N)*w
        r.append(t/N)
    return r
def ac(u):
    N=len(u); r=fc(u); return [r[0]/N]+[x*(Fr(1,N) if i==N-1 and N%2==0 else Fr(2,N)) for i,x in enumerate(r) if i]
def ae(c):
    N=len(c); d=[c[0]*N]+[x*(N if i==N-1 and N%2==0 else Fr(N,2)) for i,x in enumerate(c) if i]; return fe(d)
FAM={'zeros':('cheb_coeffs_fromZeros','cheb_eval_onZeros',zc,ze),'extrema':('cheb_coeffs_fromExtrema','cheb_eval_onExtrema',xc,xe),
     'Fourier':('four_coeffs','four_eval',fc,fe),'Fourier alternative':('four_coeffs_alt','four_eval_alt',ac,ae)}
def kern(fam,suf,N,fftw=False):
    g,e,gc,ge=FAM[fam]; g+=suf; e+=suf
    def f(ctx):
        W=ctx.W
        if fftw:
            if ctx.sym: fftwstubs(W)
            W.call('init_FFTW3_plans',W.g)
        u=[T.lift(x) for x in rand(ctx,'u',N)]; c=[T.lift(x) for x in rand(ctx,'c',N)]; t=dict(tol=1e-12,scale=N)
        U=W.arr(u+[5.]); Cc=W.arr([0.]*N+[5.]); W.call(g,Cc,U,N-1,ret='v')
        k=[W.get(Cc,i) for i in range(N+1)]
        for i,w in enumerate(gc(u)): ctx.eq(f'coefficient {i}',k[i],w,**t)
        for i in range(N): ctx.eq(f'values unchanged {i}',W.get(U,i),u[i])
        ctx.eq('end of coefficients',k[N],5.); V=W.arr([0.]*N+[5.]); W.call(e,Cc,V,N-1,ret='v')
        for i in range(N): ctx.eq(f'there and back {i}',W.get(V,i),u[i],**t)
        for i in range(N): ctx.eq(f'coefficients unchanged {i}',W.get(Cc,i),k[i])
        ctx.eq('end of values',W.get(V,N),5.)
        D=W.arr(c+[5.]); W.call(e,D,V,N-1,ret='v'); v=[W.get(V,i) for i in range(N)]
        for i,w in enumerate(ge(c)): ctx.eq(f'value {i}',v[i],w,**t)
        W.call(g,D,V,N-1,ret='v')
        for i in range(N): ctx.eq(f'back and there {i}',W.get(D,i),c[i],**t)
    return f
def getco(N):
    """cheb_getcoeff: coefficients of the interpolant at the zeros of a function given as a pointer"""
    def f(ctx):
        W=ctx.W; a=ctx.var('a',-2.,1.); b=ctx.var('b',1.5,4.); o=W.arr([0.]*N); u=[T.lift(x) for x in rand(ctx,'f',N)]; seen=[]
        if ctx.sym:
            W.M.stubs['c04_f']=lambda M,x: (seen.append(T.lift(x)),u[len(seen)-1])[1]; fp=world.FP('c04_f')
        else:
            fp=world.C.CFUNCTYPE(world.C.c_double,world.C.c_double)(lambda x:(seen.append(T.const(Fr(x))),W.num(u[len(seen)-1]))[1]); ctx.keep=getattr(ctx,'keep',[])+[fp]
        W.call('cheb_getcoeff',a,b,o,N-1,fp,ret='v'); ctx.true('one evaluation per point',len(seen)==N)
        for k in range(N): ctx.eq(f'point {k}',seen[k],((T.lift(a)-b)*C_(2*k+1,2*N)+a+b)/2,tol=1e-13)
        for i,w in enumerate(zc(u)): ctx.eq(f'coefficient {i}',W.get(o,i),w,tol=1e-12,scale=N)
    return f
def ceval(N):
    def f(ctx):
        W=ctx.W; a=ctx.var('a',-2.,1.); b=ctx.var('b',1.5,4.); s=ctx.var('s',0.,1.); X=T.lift(a)+(T.lift(b)-a)*s; c=rand(ctx,'c',N)
        if ctx.sym: W.M.oracle=lambda M,q: False
        g=W.call('cheb_eval',a,b,W.arr(c),N-1,X,ret='d'); t=cheb((X*2-a-b)/(T.lift(a)-b),N-1)[0]
        ctx.eq('value',g,sm(T.lift(c[k])*t[k]*(Fr(1,2) if k==0 else 1) for k in range(N)),tol=1e-12,scale=N)
    return f
# ---- three-dimensional drivers
class D3(Dr):
    def __init__(s,ctx,arb=True):
        s.ctx=ctx; s.W=W=ctx.W; s.n=n=W.ns; s.N=n[0]*n[1]*n[2]; s.M={}
        for w in (3,4):
            for d in (1,2,3):
                m=n[d-1]; p=W.call('vs_mat',W.bx,w,d,ret='p')
                if arb:
                    for i in range(m*m): W.set(p,i,ctx.var(f'M{w}{d}_{i//m}{i%m}',-1,1))
                s.M[w,d]=[[T.lift(W.get(p,m*i+j)) for j in range(m)] for i in range(m)]
        s.v=[T.lift(x) for x in rand(ctx,'u',s.N)]; s.u=W.arr(s.v)
    def plane(s,N,p): return [I for I in range(s.N) if (I%s.n[0],I//s.n[0]%s.n[1],I//s.n[0]//s.n[1])[N-1]==p]
def one(fn,w,d,arb):
    def f(ctx):
        s=D3(ctx,arb); o=s.new(); W=s.W; a=(s.u,o) if w==3 else (o,s.u)
        W.call(fn,W.bx,d,*a,ret='v'); s.cmp('result',o,s.app(w,d,s.v)); s.keep()
        a=(s.u,s.u); W.call(fn,W.bx,d,*a,ret='v'); s.cmp('in place',s.u,s.app(w,d,s.v))
    return f
def mat(fn,w,d):
    def f(ctx):
        s=D3(ctx); o=s.new(); W=s.W; m=s.n[d-1]; q=[[ctx.var(f'Q{i}{j}',-1,1) for j in range(m)] for i in range(m)]
        s.M[9,d]=q; a=(s.u,o) if w==3 else (o,s.u)
        W.call(fn,W.bx,d,W.arr([x for r in q for x in r]),*a,ret='v'); s.cmp('result',o,s.app(9,d,s.v)); s.keep()
    return f
def inplane(fn,w,arb):
    def f(ctx):
        for N in (1,2,3):
            for p in range(ctx.W.ns[N-1]):
                for d in (1,2,3):
                    if d==N: continue
                    s=D3(ctx,arb); o=s.new(); W=s.W; a=(s.u,o) if w==3 else (o,s.u)
                    W.call(fn,W.bx,d,N,p,*a,ret='v'); P=s.plane(N,p); r=s.app(w,d,s.v)
                    s.cmp(f'N={N} p={p} d={d}',o,[r[I] if I in P else T.const(Fr(3.25)) for I in range(s.N)]); s.keep()
    return f
def all3(fn,w,dirs=(1,2,3),arb=True):
    def f(ctx):
        s=D3(ctx,arb); o=s.new(); W=s.W; a=(s.u,o) if w==3 else (o,s.u); r=s.v
        for d in dirs: r=s.app(w,d,r)
        W.call(fn,W.bx,*a,ret='v'); s.cmp('result',o,r); s.keep()
    return f
def plane3(fn,w):
    def f(ctx):
        for N in (1,2,3):
            p=1; s=D3(ctx); o=s.new(); W=s.W; a=(s.u,o) if w==3 else (o,s.u); r=s.v
            for d in (1,2,3):
                if d!=N: r=s.app(w,d,r)
            W.call(fn,W.bx,N,p,*a,ret='v'); P=s.plane(N,p); s.cmp(f'N={N}',o,[r[I] if I in P else T.const(Fr(3.25)) for I in range(s.N)]); s.keep()
    return f
def vlists(ctx):
    s=D3(ctx); W=s.W; L=[W.call('vlalloc',W.g,ret='p') for _ in 'uc']; names=('u','c','w','cw')
    for v,l in zip(L,(('u','w'),('c','cw'))):
        for n in l: W.call('vlpush',v,W.ind(n),ret='v')
    def put(n,v):
        for i in range(s.N): W.set(W.v(W.bx,n),i,v[i])
    u,w=s.v,[T.lift(x) for x in rand(ctx,'w',s.N)]; put('u',u); put('w',w); put('c',[0.]*s.N); put('cw',[0.]*s.N)
    A=lambda k,v: s.app(k,3,s.app(k,2,s.app(k,1,v)))
    W.call('spec_Coeffs_varlist',W.bx,*L,ret='v'); s.cmp('c',W.v(W.bx,'c'),A(3,u)); s.cmp('x',W.v(W.bx,'cw'),A(3,w)); s.cmp('u',W.v(W.bx,'u'),u)
    put('c',u); put('cw',w); W.call('spec_Eval_varlist',W.bx,*L,ret='v'); s.cmp('u back',W.v(W.bx,'u'),A(4,u)); s.cmp('w back',W.v(W.bx,'w'),A(4,w)); s.cmp('c kept',W.v(W.bx,'c'),u)
# ---- the matrices held by the box are those of its basis, and the back end is chosen as documented
def boxmats(d,fam):
    gc,ge=FAM[fam][2:]
    def f(ctx):
        B=Box(ctx,dirs=(d,)); n=B.n[d-1]; M=B.mat(3,d); E=B.mat(4,d)
        for j in range(n):
            e=[T.ONE if i==j else T.ZERO for i in range(n)]
            for i,(w,v) in enumerate(zip(gc(e),ge(e))): ctx.eq(f'Mcoeffs[{i}][{j}]',M[i][j],w,tol=1e-13,scale=n); ctx.eq(f'Meval[{i}][{j}]',E[i][j],v,tol=1e-13,scale=n)
    return f
def mk(sym,bas,ns,tt=(None,)*3,**k): return lambda: mkspec(sym,bas,ns,tt,**k)
cases=[]
def K(nm,f,N,tier='quick',**k): cases.append(Case(nm,f,base=mk(True,('Fourier',)*3,(N if 'FFTW' in nm else 1,1,1)),rbase=mk(False,('Fourier',)*3,(N if 'FFTW' in nm else 1,1,1)),group=nm if 'FFTW' in nm else 'k',bounded=f'n={N}',timeout=500,tier=tier)); cases[-1].lazy='FFTW' in nm
for fam in FAM:
    lo=2 if fam=='extrema' else 1
    for N in range(lo,33):
        K(f'{fam} N={N}',kern(fam,'',N),N,'quick' if N<=12 or N==16 else 'thorough')
    if fam=='Fourier alternative': continue
    for p in (1,2,3,4,5):
        N=2**p+(fam=='extrema')
        K(f'{fam} built-in FFT N={N}',kern(fam,'_numrecFFT',N),N,'quick' if p<=4 else 'thorough')
    for N in list(range(lo,10))+[16]:
        K(f'{fam} FFTW N={N}',kern(fam,'_FFTW3',N,True),N,'quick' if N<=9 else 'thorough')
for N in (1,2,3,4,7,8): K(f'cheb_getcoeff N={N}',getco(N),N); K(f'cheb_eval N={N}',ceval(N),N)
DB=('ChebExtrema','Fourier','ChebZeros'); SZ=(3,4,2); FF=('1 NUMREC_FFT',)*3
def D(n,f,t=(None,)*3):
    cases.append(Case(n,f,base=mk(True,DB,SZ,t,names=('u','c','w','cw')),rbase=mk(False,DB,SZ,t,names=('u','c','w','cw')),group=f'd{t}',bounded='box of 3x4x2 points, arbitrary matrices and values' if t[0] is None else 'box of 3x4x2 points, arbitrary values',timeout=300))
for d in (1,2,3):
    for nm,w in (('analysis1',3),('synthesis1',4)):
        D(f'spec_{nm} {d}',one('spec_'+nm,w,d,True)); D(f'spec_{nm} {d} FFT',one('spec_'+nm,w,d,False),FF); D(f'spec_{nm}_diffmatrix {d}',mat(f'spec_{nm}_diffmatrix',w,d))
for nm,w in (('analysis1',3),('synthesis1',4)):
    D(f'spec_{nm}_inplaneN',inplane(f'spec_{nm}_inplaneN',w,True)); D(f'spec_{nm}_inplaneN FFT',inplane(f'spec_{nm}_inplaneN',w,False),FF)
D('spec_Coeffs',all3('spec_Coeffs',3)); D('spec_Eval',all3('spec_Eval',4)); D('spec_Coeffs_old',all3('spec_Coeffs_old',3,arb=False))
D('spec_Coeffs_inplaneN',plane3('spec_Coeffs_inplaneN',3)); D('spec_Eval_inplaneN',plane3('spec_Eval_inplaneN',4)); D('variable lists',vlists)
for b,fam,ns in (('ChebExtrema','extrema',(2,3,4,5,6,9)),('ChebZeros','zeros',(1,2,3,4,5,8)),('Fourier','Fourier',(1,2,3,4,5,8))):
    for i,n in enumerate(ns):
        for tt in (None,'1 NUMREC_FFT'):
            d=i%3+1; bs=['Fourier']*3; z=[1]*3; t=[None]*3; bs[d-1]=b; z[d-1]=n; t[d-1]=tt
            nm=f'box matrices {b} n={n} direction {d}'+(' FFT' if tt else '')
            cases.append(Case(nm,boxmats(d,fam),base=mk(True,bs,z,t),rbase=mk(False,bs,z,t),group=nm,bounded=f'n={n}',timeout=300)); cases[-1].lazy=True
if __name__=='__main__':
    main('C04',cases,level='proof',trusted=['FFTW: the documented definitions of its real transforms','BLAS: cblas_dgemv'])
