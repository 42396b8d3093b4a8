"""Shared pieces for the checks of the spectral layer (C03-C08): a one-box grid with chosen bases and numbers of points on
arbitrary intervals [a_i,b_i]; all the matrices, coordinate arrays and function pointers come from sgrid's own
set_BoxStructures_fromPars run on those symbolic intervals."""
from phys import *
def mkspec(sym,bas,ns,tt=(None,None,None),filt=(0,0,0),pars=None,extra=None,physics='ADMvars',names=('u','c','w'),enable=()):
    d={'physics':physics,'boundary':'none','nboxes':'1'}
    for k in (1,2,3):
        d[f'box0_n{k}']=str(ns[k-1]); d[f'box0_basis{k}']=bas[k-1]; d[f'box0_min{k}']=str(-1.1+0.3*k); d[f'box0_max{k}']=str(1.2+0.4*k)
        if tt[k-1]: d[f'box0_TransformType{k}']=tt[k-1]
        if filt[k-1]: d[f'box0_filter{k}']=str(filt[k-1])
    d.update(pars or {})
    def ex(W):
        for n in names: W.call('AddVar',n,'','',ret='v')
        if extra: extra(W)
    W=mkworld(sym,d,extra=ex)
    for n in (*names,*enable): W.call('enablevar',W.g,W.ind(n),ret='v')
    W.bx=W.box[0]; W.ns=ns; W.bas=bas
    return W
class Box:
    """the box after set_BoxStructures_fromPars on arbitrary intervals"""
    def __init__(s,ctx,dirs=(1,2,3),pars={}):
        s.ctx=ctx; s.W=W=ctx.W; s.n=W.ns; s.a={}; s.b={}
        for k in dirs:
            s.a[k]=dpar(ctx,f'box0_min{k}',-2.,1.); s.b[k]=dpar(ctx,f'box0_max{k}',1.5,4.)
        for k,v in pars.items(): setpar(ctx,k,v)
        W.call('set_BoxStructures_fromPars',W.g,0)
    def lift(s,x): return x if isinstance(x,T.Term) else T.const(Fr(x)) if math.isfinite(x) else x
    def L(s,k): return T.lift(s.b[k])-T.lift(s.a[k])
    def mat(s,w,d):
        n=s.n[d-1]; p=s.W.call('vs_mat',s.W.bx,w,d,ret='p')
        return [[s.lift(s.W.get(p,n*i+j)) for j in range(n)] for i in range(n)]
    def line(s,d):
        """the collocation points along direction d"""
        n1,n2,n3=s.n; p=s.W.v(s.W.bx,' XYZ'[d]); st=(1,n1,n1*n2)[d-1]
        return [s.lift(s.W.get(p,st*i)) for i in range(s.n[d-1])]
    def y(s,d,X): return (X*2-s.a[d]-s.b[d])/(T.lift(s.a[d])-s.b[d])
    def unit(s,p,n): return [s.lift(s.W.get(p,i)) for i in range(n)]
def cheb(y,M):
    """T_0..T_M, first and second derivatives by their recurrences"""
    t=[T.ONE,y]; d=[T.ZERO,T.ONE]; e=[T.ZERO,T.ZERO]
    for m in range(2,M+1):
        t.append(y*t[-1]*2-t[-2]); d.append(t[m-1]*2+y*d[-1]*2-d[-2]); e.append(d[m-1]*4+y*e[-1]*2-e[-2])
    return t[:M+1],d[:M+1],e[:M+1]
def ang(q): return T.PI*T.const(Fr(q))
F4=lambda n:[(j,f) for j in range(n//2+1) for f in 'cs' if not(f=='s' and (j==0 or 2*j==n))]
def four(j,f,q,der=0):
    """der-th derivative with respect to theta of cos(j theta) or sin(j theta) at theta=2 pi q"""
    k=(der+(0 if f=='c' else 3))%4; x=ang(2*j*Fr(q)); v=(T.cos(x),-T.sin(x),-T.cos(x),T.sin(x))[k]
    return v*(j**der)
CHEB=('ChebExtrema','ChebZeros')
def basisfns(B,d):
    """for every function of the basis of direction d: label, values and first and second derivatives at the collocation points"""
    n=B.n[d-1]; X=B.line(d); bas=B.W.bas[d-1]
    if bas in CHEB:
        tt=[cheb(B.y(d,x),n-1) for x in X]; c=T.const(2)/(T.lift(B.a[d])-B.b[d])
        for m in range(n): yield f'T{m}',[t[0][m] for t in tt],[t[1][m]*c for t in tt],[t[2][m]*c*c for t in tt]
    else:
        K=T.PI*2/B.L(d)
        for j,f in F4(n): yield f'{f}{j}',[four(j,f,Fr(i,n)) for i in range(n)],[four(j,f,Fr(i,n),1)*K for i in range(n)],[four(j,f,Fr(i,n),2)*K*K for i in range(n)]
def dot(a,b): return sm(T.lift(x)*T.lift(y) for x,y in zip(a,b))
def points(ctx,B,d):
    """the collocation points are those of the basis"""
    n=B.n[d-1]; X=B.line(d); bas=B.W.bas[d-1]; a,b=T.lift(B.a[d]),T.lift(B.b[d])
    for i,x in enumerate(X):
        if bas=='ChebExtrema': w=((a-b)*T.cos(ang(Fr(i,n-1)))+a+b)/2
        elif bas=='ChebZeros': w=((a-b)*T.cos(ang(Fr(2*i+1,2*n)))+a+b)/2
        elif bas=='fd2_onesided': w=a+(b-a)*T.const(Fr(i,n-1))
        else: w=a+(b-a)*T.const(Fr(i,n))
        ctx.eq(f'X{d}[{i}]',x,w,tol=1e-13)
# ---------------------------------------------------------------- contract of the FFTW library (its documented transforms)
def fftwstubs(W):
    from exec import Obj,UNDEF
    M=W.M
    class Plan(Obj): pass
    def ck(n,k): return T.cos(ang(Fr(n,k)))
    def sk(n,k): return T.sin(ang(Fr(n,k)))
    def rd(p,n): return [T.lift(M.load(Ptr(p.o,p.f+8*i),8,'d')) for i in range(n)]
    def wr(p,v):
        for i,x in enumerate(v): M.store(Ptr(p.o,p.f+8*i),x,8)
    def plan(kind):
        def f(M,n,*a):
            if n<1 or kind=='r2r' and a[2]==3 and n<2: return None
            o=Plan('plan',8,'zero'); o.plan=(kind if kind!='r2r' else a[2],n); return Ptr(o,0)
        return f
    S=M.stubs
    S['fftw_plan_dft_r2c_1d']=plan('r2c'); S['fftw_plan_dft_c2r_1d']=plan('c2r'); S['fftw_plan_r2r_1d']=plan('r2r')
    S['fftw_malloc']=lambda M,n: Ptr(Obj('heap',n),0); S['fftw_free']=S['free']; S['fftw_destroy_plan']=lambda M,p: None
    def get(p,*kinds):
        if p is None or not hasattr(p.o,'plan') or p.o.plan[0] not in kinds: raise MemError('fftw: wrong or missing plan')
        return p.o.plan
    def r2c(M,p,u,c):
        k,n=get(p,'r2c'); x=rd(u,n); r=[]
        for m in range(n//2+1): r+=[sm(x[j]*ck(2*j*m,n) for j in range(n)),-sm(x[j]*sk(2*j*m,n) for j in range(n))]
        wr(c,r)
    def c2r(M,p,c,u):
        k,n=get(p,'c2r'); y=rd(c,2*(n//2+1)); r=[]
        for j in range(n):
            t=y[0]
            for m in range(1,(n+1)//2): t=t+(y[2*m]*ck(2*j*m,n)-y[2*m+1]*sk(2*j*m,n))*2
            if n%2==0: t=t+y[n]*(1 if j%2==0 else -1)
            r.append(t)
        for i in range(2*(n//2+1)): M.store(Ptr(c.o,c.f+8*i),T.var(f'fftw_destroyed_{i}_{len(M.path)}'),8)
        wr(u,r)
    def r2r(M,p,u,c):
        k,n=get(p,3,4,5)
        if u.o is c.o and u.f==c.f: raise MemError('fftw: in-place execution of an out-of-place plan')
        x=rd(u,n)
        if k==3: r=[x[0]+x[n-1]*(1 if m%2==0 else -1)+sm(x[j]*ck(j*m,n-1) for j in range(1,n-1))*2 for m in range(n)]
        elif k==5: r=[sm(x[j]*ck((2*j+1)*m,2*n) for j in range(n))*2 for m in range(n)]
        else: r=[x[0]+sm(x[j]*ck(j*(2*m+1),2*n) for j in range(1,n))*2 for m in range(n)]
        wr(c,r)
    S['fftw_execute_dft_r2c']=r2c; S['fftw_execute_dft_c2r']=c2r; S['fftw_execute_r2r']=r2r
# ---------------------------------------------------------------- integrals and values of the basis functions
def chebanti(t,m):
    """an antiderivative (with respect to y) of T_m, from the values t of T_0..T_{m+1}"""
    if m==0: return t[1]
    if m==1: return t[2]*Fr(1,4)
    return t[m+1]*Fr(1,2*(m+1))-t[m-1]*Fr(1,2*(m-1))
def modes(B,d):
    """for every function of the basis of direction d: label, values at the points, integral over [a,b], values of an
    antiderivative at the points, and whether the antiderivative is in the span of the basis as seen at the points"""
    n=B.n[d-1]; X=B.line(d); bas=B.W.bas[d-1]; a,b=T.lift(B.a[d]),T.lift(B.b[d])
    if bas in CHEB:
        tt=[cheb(B.y(d,x),n+1)[0] for x in X]; h=(a-b)/2
        for m in range(n):
            I=(b-a)*Fr(1,1-m*m) if m%2==0 else T.ZERO
            yield f'T{m}',[t[m] for t in tt],I,[chebanti(t,m)*h for t in tt],m<=n-2 or bas=='ChebZeros'
    else:
        K=T.PI*2/(b-a)
        for j,f in F4(n):
            v=[four(j,f,Fr(i,n)) for i in range(n)]
            if j==0: yield '1',v,b-a,[(b-a)*Fr(i,n) for i in range(n)],True
            else:
                an=[(four(j,'s',Fr(i,n)) if f=='c' else -four(j,'c',Fr(i,n)))/(K*j) for i in range(n)]
                yield f'{f}{j}',v,T.ZERO,an,True
def evalmode(B,d,l,x,N=None):
    """value of mode l at the point x of direction d (Chebyshev: x is X; Fourier: x is X)"""
    if l[0]=='T': return cheb(B.y(d,T.lift(x)),int(l[1:]))[0][int(l[1:])]
    if l=='1' or l=='c0': return T.ONE
    th=T.PI*2*(T.lift(x)-B.a[d])/B.L(d)*int(l[1:])
    return T.cos(th) if l[0]=='c' else T.sin(th)
class I3:
    """a grid function that is an arbitrary combination of the products of the basis functions (i.e. any grid function)"""
    def __init__(s,ctx,lim={}):
        s.ctx=ctx; s.B=B=Box(ctx); s.W=B.W; s.n=n=B.n; s.N=n[0]*n[1]*n[2]
        s.m={d:[m for i,m in enumerate(modes(B,d)) if i<lim.get(d,99)] for d in (1,2,3)}
        s.c={}
        for p in range(len(s.m[1])):
            for q in range(len(s.m[2])):
                for r in range(len(s.m[3])): s.c[p,q,r]=T.lift(ctx.var(f'c{p}{q}{r}',-1,1))
        s.v=s.build(lambda d,m,i: m[1][i]); s.u=s.W.arr(s.v)
    def build(s,F,n=None):
        """sum of c_pqr F(1,p,i) F(2,q,j) F(3,r,k)"""
        n=n or s.n; t={}
        for i in range(n[0]):
            f=[F(1,m,i) for m in s.m[1]]
            for q in range(len(s.m[2])):
                for r in range(len(s.m[3])): t[i,q,r]=sm(s.c[p,q,r]*f[p] for p in range(len(f)))
        t2={}
        for j in range(n[1]):
            f=[F(2,m,j) for m in s.m[2]]
            for i in range(n[0]):
                for r in range(len(s.m[3])): t2[i,j,r]=sm(t[i,q,r]*f[q] for q in range(len(f)))
        v=[None]*(n[0]*n[1]*n[2])
        for k in range(n[2]):
            f=[F(3,m,k) for m in s.m[3]]
            for j in range(n[1]):
                for i in range(n[0]): v[i+n[0]*(j+n[1]*k)]=sm(t2[i,j,r]*f[r] for r in range(len(f)))
        return v
    def want(s,dirs): return s.build(lambda d,m,i: m[2] if d in dirs else m[1][i])
    def new(s): return s.W.arr([3.25]*s.N)
    def cmp(s,l,p,w,tol=1e-10,scale=20):
        for I in range(s.N): s.ctx.eq(f'{l}[{I}]',s.W.get(p,I),w[I],tol=tol,scale=scale)
    def inside(s,d,nm=None,lo=.05,hi=.95): return T.lift(s.B.a[d])+s.B.L(d)*s.ctx.var(nm or f's{d}',lo,hi)
    def at(s,X):
        """the exact value at a point"""
        return s.build(lambda d,m,i: evalmode(s.B,d,m[0],X[d-1]),(1,1,1))[0]
def fptr(W,name):
    if W.sym: return world.FP(res(name))
    try: f=getattr(W.lib,name)
    except AttributeError: f=getattr(W.lib,res(name))
    return world.RP(world.C.cast(f,world.C.c_void_p).value)
