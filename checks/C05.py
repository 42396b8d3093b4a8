"""C05  Spectral integration.  The coefficient recurrences, the integration matrices and the one-, two- and three-dimensional
integrals run as written on arbitrary intervals; the contract: exact on every function of the basis (and therefore on every
grid function, which is a combination of them), for the documented weights."""
import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib')
from spec import *
from C03 import rand
def kcheb(n):
    def f(ctx):
        W=ctx.W; a=ctx.var('a',-2.,1.); b=ctx.var('b',1.5,4.); c=rand(ctx,'c',n)
        o=W.arr([7.]*(n+1)); W.call('cheb_int',a,b,W.arr(c),o,n-1,ret='v'); g=[W.get(o,j) for j in range(n+1)]
        ctx.eq('nothing written past the end',g[n],7.); h=(T.lift(a)-b)/2
        # antiderivative of sum' c_m T_m , coefficients of T_1..T_{n-1}
        w=[T.ZERO]*(n+2)
        for m in range(n):
            x=T.lift(c[m])*(Fr(1,2) if m==0 else 1)
            if m==0: w[1]=w[1]+x
            elif m==1: w[2]=w[2]+x*Fr(1,4)
            else: w[m+1]=w[m+1]+x*Fr(1,2*(m+1)); w[m-1]=w[m-1]-x*Fr(1,2*(m-1)) if m>1 else w[m-1]
        for j in range(1,n): ctx.eq(f'coefficient {j}',g[j],w[j]*h,tol=1e-12,scale=n)
        # the documented constant: the integral vanishes at the end y=-1
        if n>1: ctx.eq('constant',T.lift(g[0])/2+sm(T.lift(g[j])*(-1)**j for j in range(1,n)),0.,tol=1e-12,scale=n)
    return f
def kfour(fn,n):
    def f(ctx):
        W=ctx.W; a=ctx.var('a',-2.,1.); b=ctx.var('b',1.5,4.); c=rand(ctx,'c',n); L=T.lift(b)-a; K=T.PI*2/L
        o=W.arr([7.]*(n+1)); W.call(fn,a,b,W.arr(c),o,n-1,ret='v'); g=[T.lift(W.get(o,j)) for j in range(n+1)]
        ctx.eq('nothing written past the end',g[n],7.)
        for j in range(n): ctx.eq(f'argument unchanged {j}',W.get(W.arr(c),j),c[j])
        def val(c,i):
            r=T.lift(c[0])
            for j in range(1,n//2+1):
                w=1 if 2*j==n else 2; r=r+T.lift(c[2*j-1])*four(j,'c',Fr(i,n))*w
                if 2*j<n: r=r+T.lift(c[2*j])*four(j,'s',Fr(i,n))*w
            return r/n
        def anti(i):
            r=T.lift(c[0])*L*Fr(i,n)
            for j in range(1,n//2+1):
                w=1 if 2*j==n else 2; r=r+T.lift(c[2*j-1])*four(j,'s',Fr(i,n))*w/(K*j)
                if 2*j<n: r=r-T.lift(c[2*j])*(four(j,'c',Fr(i,n)))*w/(K*j)
            return r/n
        for i in range(1,n): ctx.eq(f'difference {i}',val(g,i)-val(g,0),anti(i)-anti(0),tol=1e-12,scale=4*n)
    return f
def mats(d):
    def f(ctx):
        B=Box(ctx,dirs=(d,)); n=B.n[d-1]; M=B.mat(5,d)
        for l,v,I,an,ok in modes(B,d):
            if not ok: continue
            for i in range(1,n): ctx.eq(f'Int {l} at {i}',dot(M[i],v)-dot(M[0],v),an[i]-an[0],tol=1e-10,scale=n*n)
    return f
# -------- three dimensions
def int1(d):
    def f(ctx):
        s=I3(ctx); o=s.new(); s.W.call('spec_Integral1',s.W.bx,d,s.u,o,ret='v'); w=s.want((d,)); s.cmp('integral',o,w); s.cmp('argument unchanged',s.u,s.v)
        s.W.call('spec_Integral1',s.W.bx,d,s.u,s.u,ret='v'); s.cmp('in place',s.u,w)
    return f
def int2(d):
    def f(ctx):
        s=I3(ctx); o=s.new(); s.W.call('spec_2dIntegral',s.W.bx,d,s.u,o,ret='v'); s.cmp('integral',o,s.want(tuple(k for k in (1,2,3) if k!=d))); s.cmp('argument unchanged',s.u,s.v)
    return f
def int3(ctx):
    s=I3(ctx); o=s.new(); g=s.W.call('spec_3dIntegral',s.W.bx,s.u,o,ret='d'); w=s.want((1,2,3)); ctx.eq('integral',g,w[0],tol=1e-10,scale=40); s.cmp('argument unchanged',s.u,s.v)
def indef(d):
    """spec_Int1 with arbitrary integration matrices"""
    def f(ctx):
        W=ctx.W; n=W.ns; N=n[0]*n[1]*n[2]; m=n[d-1]; M=[[T.lift(ctx.var(f'I{i}{j}',-1,1)) for j in range(m)] for i in range(m)]
        for k in (1,2,3):
            p=W.call('vs_mat',W.bx,5,k,ret='p')
            for i in range(n[k-1]**2): W.set(p,i,M[i//m][i%m] if k==d else ctx.var(f'x{k}{i}',-1,1))
        v=[T.lift(x) for x in rand(ctx,'u',N)]; u=W.arr(v); o=W.arr([3.25]*N); W.call('spec_Int1',W.bx,d,u,o,ret='v'); st=(1,n[0],n[0]*n[1])[d-1]
        for I in range(N):
            i=I//st%m; ctx.eq(f'U[{I}]',W.get(o,I),sm(M[i][j]*v[I+(j-i)*st] for j in range(m)),tol=1e-12,scale=m); ctx.eq('argument unchanged',W.get(u,I),v[I])
    return f
def definite(d):
    """definite integral between two points inside the box, for integrands whose integral is in the span of the basis"""
    def f(ctx):
        s=I3(ctx); W=s.W; B=s.B; bas=W.bas[d-1]
        x=[T.lift(B.a[d])+B.L(d)*ctx.var(v,lo,lo+.3) for v,lo in (('s0',.1),('s1',.6))]
        ranges(ctx,tidy=True); n=B.n[d-1]
        for l,v,I,an,ok in s.m[d]:
            if bas in CHEB and int(l[1:])>n-2: continue
            if bas not in CHEB and (l=='1' or 2*int(l[1:])==n): continue
            st=(1,B.n[0],B.n[0]*B.n[1])[d-1]; g={}; u=[]
            for I_ in range(s.N):
                i=I_//st%n; b=I_-i*st; g.setdefault(b,ctx.var(f'g{l}_{b}',-1,1)); u.append(v[i]*g[b])
            def A(X):
                if bas in CHEB: m=int(l[1:]); return chebanti(cheb(B.y(d,X),m+1)[0],m)*(T.lift(B.a[d])-B.b[d])/2
                j=int(l[1:]); K=T.PI*2/B.L(d); th=(X-B.a[d])*K*j; return (T.sin(th) if l[0]=='c' else -T.cos(th))/(K*j)
            e=A(x[1])-A(x[0]); o=s.new(); W.call('spec_definiteInt1',W.bx,d,x[0],x[1],W.arr(u),o,ret='v')
            s.cmp(f'{l}',o,[e*g[I_-(I_//st%n)*st] for I_ in range(s.N)],tol=1e-9)
    return f
JN=('dXdx','dXdy','dXdz','dYdx','dYdy','dYdz','dZdx','dZdy','dZdz')
def jac(ctx,W,bx,N,neg=False,tag='',sing=None):
    J=[[T.lift(ctx.var(f'J{tag}{k}_{i}',*((.8,1.2) if k in(0,4,8) else (-.2,.2)))) for i in range(N)] for k in range(9)]
    if neg: J[0]=[-x for x in J[0]]; J[1]=[-x for x in J[1]]; J[2]=[-x for x in J[2]]
    if sing is not None:
        for k in (0,1,2): J[k][sing]=T.ZERO
    return J
def det(j): return j[0]*(j[4]*j[8]-j[5]*j[7])-j[1]*(j[3]*j[8]-j[5]*j[6])+j[2]*(j[3]*j[7]-j[4]*j[6])
def putJ(W,J):
    for k,n in enumerate(('dXdx','dYdx','dZdx')):
        W.call('enablevar',W.g,W.ind(n),ret='v')
        for l in range(3):
            p=W.v(W.bx,W.ind(n)+l)
            for i,x in enumerate(J[3*k+l]): W.set(p,i,x)
def noncart(ctx,W):
    """a coordinate map is present (what it is does not matter: the stored Jacobian is what counts)"""
    if ctx.sym: f=world.FP('sin')
    else: f=world.C.CFUNCTYPE(world.C.c_double)(lambda:0.); ctx.keep=getattr(ctx,'keep',[])+[f]
    W.call('vs_setx_of_X',W.bx,1,f,ret='v')
def inv(j):
    d=det(j); c=lambda a,b,e,f: (j[a]*j[f]-j[b]*j[e])/d
    return [c(4,5,7,8),c(2,1,8,7),c(1,2,4,5),c(5,3,8,6),c(0,2,6,8),c(2,0,5,3),c(3,4,6,7),c(1,0,7,6),c(0,1,3,4)]
def surface(nrm,met,cart):
    """weights of the surface element of the induced metric"""
    def f(ctx):
        s=I3(ctx); W=s.W; N=s.N; u=[T.lift(x) for x in rand(ctx,'q',N)]; ig=-1
        J=jac(ctx,W,W.bx,N)
        G=[[T.lift(ctx.var(f'g{c}_{i}',*((.9,1.1) if c in(0,3,5) else (-.1,.1)))) for i in range(N)] for c in range(6)]
        if not cart: putJ(W,J); noncart(ctx,W)
        if met:
            W.call('enablevar',W.g,W.ind('gxx'),ret='v'); ig=W.ind('gxx')
            for c in range(6):
                p=W.v(W.bx,ig+c)
                for i in range(N): W.set(p,i,G[c][i])
        o=s.new(); d=[k for k in (1,2,3) if k!=nrm]; o2=s.new(); wt=[]
        for i in range(N):
            g=[[T.lift(G[S6(a,b)][i]) if met else (T.ONE if a==b else T.ZERO) for b in range(3)] for a in range(3)]
            jj=[T.ONE if k in(0,4,8) else T.ZERO for k in range(9)] if cart else inv([J[k][i] for k in range(9)])
            e=lambda a,b: sm(jj[3*p+a]*g[p][q]*jj[3*q+b] for p in range(3) for q in range(3)); a,b=d[0]-1,d[1]-1
            wt.append(T.sqrt(T.fabs(e(a,a)*e(b,b)-e(a,b)*e(a,b))))
        W.call('spec_SurfaceIntegral',W.bx,ig,nrm,W.arr(u),o,ret='v')
        W.call('spec_2dIntegral',W.bx,nrm,W.arr([x*w for x,w in zip(u,wt)]),o2,ret='v')
        for i in range(N): ctx.eq(f'[{i}]',W.get(o,i),W.get(o2,i),tol=1e-9,scale=20)
    return f
def S6(a,b): return {(0,0):0,(0,1):1,(0,2):2,(1,1):3,(1,2):4,(2,2):5}[min(a,b),max(a,b)]
def sphere(at=None,three=False):
    """theta and phi on the full circle; u a combination of all theta modes times all phi modes times a polynomial in r"""
    def f(ctx):
        s=I3(ctx,lim={1:2}); W=s.W; B=s.B; n=B.n; N=s.N; n2=n[1]; X=B.line(1)
        dl=T.PI*Fr(1,(1+n2%2)*n2)
        def I(m):
            l=m[0]
            if l=='1': r=T.const(2)
            else:
                j=int(l[1:]); 
                if j==1: r=(T.sin(dl) if l[0]=='c' else T.cos(dl))*T.PI/2
                elif j%2: r=T.ZERO
                else: r=(T.cos(dl*j) if l[0]=='c' else -T.sin(dl*j))*Fr(2,1-j*j)
            return r*B.L(2)/(T.PI*2)
        w=s.build(lambda d,m,i: m[2] if d==3 else I(m) if d==2 else m[1][i]*X[i]*X[i])
        o=s.new()
        if at is not None:
            W.call('spec_sphericalDF2dIntegral_at_radial_index_i',W.bx,s.u,o,at,ret='v')
            for i in range(N):
                if i%n[0]==at: ctx.eq(f'U[{i}]',W.get(o,i),w[i],tol=1e-10,scale=40)
        elif three:
            g=W.call('spec_sphericalDF3dIntegral',W.bx,s.u,o,ret='d')
            a,b=T.lift(B.a[1]),T.lift(B.b[1]); h=(a-b)/2
            # int X^2 T_m(y) dX , X = (a+b)/2 + h y
            c0=(a+b)/2; q={}
            ty=lambda k: T.ZERO if k%2 else T.const(Fr(2,k+1))
            R=[(c0*c0*ty(m)+c0*h*ty(m+1)*2+h*h*ty(m+2))*(b-a)/2 for m in (0,1)]
            w=s.build(lambda d,m,i: m[2] if d==3 else I(m) if d==2 else R[int(m[0][1:])])
            ctx.eq('integral',g,w[0],tol=1e-10,scale=60)
        else: W.call('spec_sphericalDF2dIntegral',W.bx,s.u,o,ret='v'); s.cmp('U',o,w,scale=60)
        s.cmp('argument unchanged',s.u,s.v)
    return f
def vol(kind):
    def f(ctx):
        s=I3(ctx); W=s.W; N=s.N
        if kind=='cart':
            p=W.v(W.bx,'u'); 
            for i in range(N): W.set(p,i,s.v[i])
            ctx.eq('box',W.call('BoxVolumeIntegral',W.bx,W.ind('u'),ret='d'),s.want((1,2,3))[0],tol=1e-10,scale=40)
            ctx.eq('grid',W.call('GridVolumeIntegral',W.g,W.ind('u'),ret='d'),s.want((1,2,3))[0],tol=1e-10,scale=40)
            for i in range(N): ctx.eq('var unchanged',W.get(p,i),s.v[i],tol=1e-14)
            return
        J=jac(ctx,W,W.bx,N,neg=kind=='negative',sing=4 if kind=='singular' else None); dd=[det([J[k][i] for k in range(9)]) for i in range(N)]
        if ctx.sym: ranges(ctx)
        putJ(W,J); noncart(ctx,W); p=W.v(W.bx,'u')
        sg=-1 if kind=='negative' else 1; u=[s.v[i]*dd[i]*sg if not(kind=='singular' and i==4) else T.const(5) for i in range(N)]
        for i in range(N): W.set(p,i,u[i])
        g=W.call('BoxVolumeIntegral',W.bx,W.ind('u'),ret='d'); w=s.want((1,2,3))[0]
        if kind=='singular':
            # the integrand counts as zero where the Jacobian is singular
            o=s.new(); z=list(s.v); z[4]=T.ZERO; w=W.call('spec_3dIntegral',W.bx,W.arr(z),o,ret='d')
        ctx.eq('box',g,w,tol=1e-10,scale=40)
        for i in range(N): ctx.eq('var unchanged',W.get(p,i),u[i],tol=1e-14)
    return f
def mk(sym,bas,ns,tt=(None,)*3,pars=None,**k): return lambda: mkspec(sym,bas,ns,tt,pars=pars,**k)
cases=[]
def K(nm,f,N): cases.append(Case(nm,f,base=mk(True,('Fourier',)*3,(1,1,1)),rbase=mk(False,('Fourier',)*3,(1,1,1)),group='k',bounded=f'n={N}'))
for n in list(range(1,14))+[17]: K(f'cheb_int n={n}',kcheb(n),n)
for n in list(range(1,14)): K(f'four_int n={n}',kfour('four_int',n),n)
for n in (2,4,8,16): K(f'four_int_numrecFFT n={n}',kfour('four_int_numrecFFT',n),n)
QN={'ChebExtrema':(2,3,4,5,6,7,8),'ChebZeros':(2,3,4,5,6,7,8),'Fourier':(2,3,4,5,6,7,8,9)}
XN={'ChebExtrema':(11,14),'ChebZeros':(11,14),'Fourier':(12,13,15)}
def addm(b,n,d,tier='quick',tt=None):
    bs=['Fourier']*3; ns=[1]*3; t=[None]*3; bs[d-1]=b; ns[d-1]=n; t[d-1]=tt
    nm=f'matrices {b} n={n} direction {d}'+(' FFT' if tt else '')
    cases.append(Case(nm,mats(d),base=mk(True,bs,ns,t),rbase=mk(False,bs,ns,t),group=nm,timeout=600,tier=tier,bounded=f'n={n}')); cases[-1].lazy=True
for b in QN:
    for n in QN[b]: addm(b,n,1)
    for d in (2,3): addm(b,5,d); addm(b,4,d)
    for n in XN[b]: addm(b,n,1,'thorough')
for b,n in (('ChebExtrema',5),('ChebZeros',4),('Fourier',8)):
    for d in (1,2,3): addm(b,n,d,tt='1 NUMREC_FFT')
CONF=[(('ChebExtrema','ChebZeros','Fourier'),(3,4,5)),(('ChebZeros','Fourier','ChebExtrema'),(3,4,5)),(('Fourier','ChebExtrema','ChebZeros'),(3,4,5)),(('ChebExtrema',)*3,(4,3,5))]
def D(nm,f,c,t=(None,)*3,tier='quick'): cases.append(Case(nm,f,base=mk(True,*c,t),rbase=mk(False,*c,t),group=f'{c}{t}',bounded='box of %dx%dx%d points'%c[1],timeout=400,tier=tier))
for i,c in enumerate(CONF):
    L=' '.join(b[:5]+x[-3:] if b!='Fourier' else b for b,x in zip(c[0],c[0]))
    for d in (1,2,3): D(f'spec_Integral1 {d} {L}',int1(d),c); D(f'spec_2dIntegral {d} {L}',int2(d),c)
    D(f'spec_3dIntegral {L}',int3,c)
    if i<3:
        for d in (1,2,3): D(f'spec_Int1 {d} {L}',indef(d),c); D(f'spec_definiteInt1 {d} {L}',definite(d),c)
    D(f'volume Cartesian {L}',vol('cart'),c)
NC=(('ChebExtrema','ChebZeros','Fourier'),(2,2,2))
for k in ('positive','negative','singular'): D(f'volume {k} Jacobian',vol(k),NC)
for nrm in (1,2,3):
    for met in (0,1):
        for cart in (0,1): D(f'surface {nrm} metric={met} Cartesian={cart}',surface(nrm,met,cart),NC)
for n2 in (3,4,5,6,7,8,9,13):
    q='quick' if n2<10 else 'thorough'; t=(None,'1 NUMREC_FFT','1 NUMREC_FFT') if n2==8 else (None,)*3
    D(f'sphericalDF 2d n2={n2}',sphere(),(('ChebExtrema','Fourier','Fourier'),(3,n2,2)),t,q)
    D(f'sphericalDF at index n2={n2}',sphere(at=1),(('ChebExtrema','Fourier','Fourier'),(3,n2,2)),t,q)
    D(f'sphericalDF 3d n2={n2}',sphere(three=True),(('ChebExtrema','Fourier','Fourier'),(4,n2,2)),t,q)
FC=[(('ChebExtrema','ChebZeros','Fourier'),(5,4,4)),(('ChebZeros','Fourier','ChebExtrema'),(4,4,5))]
for c in FC:
    for d in (1,2,3): D(f'spec_Integral1 {d} {c[0]} FFT',int1(d),c,('1 NUMREC_FFT',)*3)
if __name__=='__main__':
    main('C05',cases,level='proof',trusted=['BLAS: cblas_dgemv'])
