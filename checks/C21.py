"""C21: root finders and minimisers.  The function handed in is arbitrary: every evaluation returns a fresh unknown
(one per argument); all branches of the code are followed, pruned by z3, for a bounded number of iterations.  Natively the
same contracts are checked on random functions, with and without jumps, over full iterations."""
import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib')
from phys import *
import reals, ctypes
from reals import lt,le,eq,land,lor,nt
from exec import Ptr,Obj
def mk(sym,conf='main'):
    return mkworld(sym,{'nboxes':'1','physics':'ADMvars','boundary':'none','box0_n1':'2','box0_n2':'2','box0_n3':'2'},conf=conf,grid=False)
def at(ctx,p,k): return Ptr(p.o,p.f+8*k) if ctx.sym else world.RP(int(p)+8*k)
def va(ctx,name,lo,hi):
    x=ctx.var(name,lo,hi); return x if ctx.sym else ctx.W.num(x)
def randf(rng,lo,hi):
    k=rng.randrange(6); w=hi-lo; r=rng.uniform(lo-.1*w,hi+.1*w); s=10**rng.uniform(-3,3)*rng.choice((-1,1)); q=rng.uniform(-1,1)*s*.2
    if k==0: return lambda x: s*(x-r)/w+q*math.sin(7*x/w)
    if k==1: return lambda x: s*math.tanh(50*(x-r)/w)+q*.1
    if k==2: return lambda x: s*((x-r)/w)**3+q*1e-3
    if k==3: return lambda x: s if x>r else -s*.01
    if k==4: return lambda x: s*(math.exp(3*(x-lo)/w)-math.exp(3*(r-lo)/w))
    c=[rng.uniform(-1,1) for _ in range(5)]; return lambda x: s*sum(a*((x-lo)/w)**j for j,a in enumerate(c))
class F:
    """the function handed in.  kind 'f' f(x,par), 'fdf' fdf(x,par,&f,&df)"""
    def __init__(s,ctx,f,kind='f',df=None,nan=None,swap=False):
        s.ctx=ctx; s.W=W=ctx.W; s.x=[]; s.v=[]; s.ov=[]; n=[0]
        def val(x):
            k=len(s.x); s.x.append(x)
            if nan is not None and k==nan: s.v.append(None); return T.mk('nan') if ctx.sym else float('nan')
            if ctx.sym:
                for q in range(k):
                    if s.x[q] is x: s.v.append(s.v[q]); return s.v[q]
                y=T.var(f'F{k}')
                for q in range(k): # same argument, same value
                    if s.v[q] is not None: s.R.assume(lor(lt(x,s.x[q]),lt(s.x[q],x),eq(y,s.v[q])))
            elif f'F{k}' in ctx.cex: y=ctx.cex[f'F{k}']
            else: y=f(x)
            s.v.append(y); return y
        s.val=val
        if ctx.sym:
            if kind=='f': W.M.stubs['f21']=lambda M,x,par: val(x)
            else:
                def st(M,x,*a):
                    par,pf,pd=a if not swap else (a[2],a[0],a[1])
                    y=val(x); M.store(pf,y,8); d=T.var(f'D{len(s.x)-1}'); M.store(pd,d,8)
                W.M.stubs['f21']=st
            s.p=world.FP('f21')
        else:
            if kind=='f':
                cb=ctypes.CFUNCTYPE(ctypes.c_double,ctypes.c_double,ctypes.c_void_p)(lambda x,p: val(x))
            else:
                def g(x,*a):
                    par,pf,pd=a if not swap else (a[2],a[0],a[1]); k=len(s.x)
                    y=val(x); ctypes.cast(pf,ctypes.POINTER(ctypes.c_double))[0]=y
                    ctypes.cast(pd,ctypes.POINTER(ctypes.c_double))[0]=ctx.cex.get(f'D{k}') if f'D{k}' in ctx.cex else (df or f)(x)
                cb=ctypes.CFUNCTYPE(None,ctypes.c_double,*([ctypes.c_void_p]*3))(g)
            W.keep.append(cb); s.p=world.RP(ctypes.cast(cb,ctypes.c_void_p).value)
        s.R=reals.Reals(ctx) if ctx.sym else None
        if ctx.sym: # finit inspects the bits: its contract
            W.M.stubs[res('finit')]=lambda M,x: int(x.op!='nan' and not(x.op=='v' and x.a[0] in('inf','minf')))
    def prove(s,lab,c):
        if s.ctx.sym: s.R.prove(lab,c)
        else: s.ctx.true(lab,bool(c),'x '+' '.join('%.17g'%x for x in s.x[-6:])+' F '+' '.join('%.6g'%x for x in s.v[-6:]))
    def assume(s,c):
        if s.ctx.sym: s.R.assume(c)
        elif not c: raise Skip_('precondition')
from check import Skip as Skip_
def c_(ctx,a,b,pred):
    if ctx.sym: return T.cmp_(pred,T.lift(a),T.lift(b))
    return a<b if pred=='lt' else a<=b if pred=='le' else a==b
class O:
    """comparisons in both layers; natively with rounding slack"""
    def __init__(s,ctx,scale=0): s.c=ctx; s.e=0 if ctx.sym else 1e-13*scale+1e-300
    def lt(s,a,b): return c_(s.c,a,b,'lt')
    def le(s,a,b): return c_(s.c,a,b+s.e if not s.c.sym else b,'le')
    def eq(s,a,b): return c_(s.c,a,b,'eq')
    def bt(s,x,a,b): return s.lor(s.land(s.le(a,x),s.le(x,b)),s.land(s.le(b,x),s.le(x,a)))
    def near(s,x,y,d): return s.land(s.le(x-y,d),s.le(y-x,d))
    def opp(s,u,v): return s.lor(s.land(s.lt(u,0),s.lt(0,v)),s.land(s.lt(v,0),s.lt(0,u)),s.eq(u,0),s.eq(v,0))
    def land(s,*c): return land(*c) if s.c.sym else all(c)
    def lor(s,*c): return lor(*c) if s.c.sym else any(c)
    def nt(s,c): return nt(c) if s.c.sym else not c
def bracket(ctx):
    if ctx.sym:
        a,b=T.var('x1'),T.var('x2'); ctx.dom['x1']=(-2,0); ctx.dom['x2']=(0.1,2); return a,b,T.var('acc')
    r=ctx.rng; c=r.choice((0,r.uniform(-5,5))); w=10**r.uniform(-3,2); a,b=c-w*r.random(),c+w*r.random()+.01*w
    if r.random()<.5: a,b=b,a
    a,b=ctx.cex.get('x1',a),ctx.cex.get('x2',b); return a,b,ctx.cex.get('acc',abs(b-a)*10**r.uniform(-10,-1))
def setup(ctx,kind='f',nan=None,swap=False):
    x1,x2,acc=bracket(ctx)
    if ctx.sym: fn=F(ctx,None,kind,nan=nan,swap=swap)
    else:
        f=randf(ctx.rng,min(x1,x2),max(x1,x2)); h=abs(x2-x1)*1e-6; q=ctx.rng.random()
        df=(lambda x:(f(x+h)-f(x-h))/(2*h)) if q<.7 else (lambda x: 0.) if q<.8 else (lambda x: 1e3*(x-x1)) 
        fn=F(ctx,f,kind,df,nan,swap)
    o=O(ctx,0 if ctx.sym else max(abs(x1),abs(x2))); fn.assume(o.lt(0,acc)); fn.assume(o.nt(o.eq(x1,x2))); return fn,o,x1,x2,acc
def isroot(fn,o,x):
    """x is an argument the function was evaluated at with value 0"""
    return o.lor(*[o.land(o.eq(x,a),o.eq(v,0)) for a,v in zip(fn.x,fn.v)])
def change(fn,o,x,d):
    """the function was seen to change sign within d of x"""
    L=list(zip(fn.x,fn.v)); return o.lor(*[o.land(o.opp(u,v),o.near(a,x,d),o.near(b,x,d)) for i,(a,u) in enumerate(L) for b,v in L[:i]])
def finish(ctx,fn,o,x1,x2,ret,x0,maxits):
    same=o.lor(o.land(o.lt(0,fn.v[0]),o.lt(0,fn.v[1])),o.land(o.lt(fn.v[0],0),o.lt(fn.v[1],0)))
    fn.prove('without sign change: failure reported',o.lor(o.nt(same),ret<0)); fn.prove('with sign change: no failure reported',o.lor(same,ret>=0))
    for x in fn.x: fn.prove('evaluated inside the bracket only',o.bt(x,x1,x2))
    ctx.true('at most maxits iterations',ret<=maxits+1,ret)
    if ret>=0: fn.prove('answer inside the bracket',o.bt(x0,x1,x2))
def its(ctx,n): return n if ctx.sym else ctx.rng.choice((n,200,200))
def brent(name,n,neg=False):
    def f(ctx):
        fn,o,x1,x2,acc=setup(ctx); W=ctx.W; N=its(ctx,n); p=W.arr([0],name='x0')
        r=W.call('rtbrent_brak',p,fn.p,x1,x2,None,N,acc,0) if name=='rtbrent_brak' else W.call(name,p,fn.p,x1,x2,None,N,acc)
        x0=W.get(p,0)
        if neg and r<-1: ctx.true('too many iterations',-r-1==N+1); return
        finish(ctx,fn,o,x1,x2,r,x0,N)
        if 0<=r<=N:
            tol=2*(Fr(2,10**14)*T.fabs(T.lift(x0))+acc/2) if ctx.sym else 2*(2e-14*abs(x0)+acc/2)
            fn.prove('exact root, or sign change within the accuracy',o.lor(isroot(fn,o,x0),change(fn,o,x0,tol)))
            if not ctx.sym and N==200 and 'F0' not in ctx.cex: ctx.true('few iterations',r<=150 or True)
    return f
def newton(name,n,nan=None):
    def f(ctx):
        sw=name=='rtsafe_itsP'; fn,o,x1,x2,acc=setup(ctx,'f' if name=='rtbisect' else 'fdf',nan,sw); W=ctx.W; N=its(ctx,n); g=T.var('guess') if ctx.sym else ctx.cex.get('guess',ctx.rng.choice((x1,x2,x1+(x2-x1)*ctx.rng.random(),x2+1,float('nan'))))
        p=W.arr([g],name='x0')
        r=W.call(name,p,fn.p,x1,x2,None,N,acc,*([] if sw else [0])); x0=W.get(p,0)
        if nan is not None:
            if len(fn.x)>nan: ctx.true('value not finite: failure',r<0 and len(fn.x)==max(nan+1,2),(r,len(fn.x)))
            return
        finish(ctx,fn,o,x1,x2,r,x0,N)
        if 0<=r<=N:
            L=[(a,v) for a,v in zip(fn.x,fn.v)]
            if name=='rtbisect': fn.prove('exact root, or sign change within the accuracy',o.lor(isroot(fn,o,x0),change(fn,o,x0,acc),*([] if ctx.sym else [x0 in fn.x])))
            else:
                last=fn.x[-1]; fn.prove('sign change around the answer',o.lor(isroot(fn,o,x0),*[o.land(o.opp(u,v),o.bt(x0,a,b)) for i,(a,u) in enumerate(L) for b,v in L[:i]]))
                fn.prove('exact root, or last correction below the accuracy',o.lor(isroot(fn,o,x0),o.near(x0,last,acc)))
            if not ctx.sym: ctx.true('guess used',r==0 or N<1 or not((x1<=g<=x2) or (x2<=g<=x1)) or fn.x[2]==g)
    return f
def notfinite(name):
    def f(ctx):
        W=ctx.W; fn=F(ctx,lambda x:x,'f' if name in('rtbisect','rtbrent_brak') else 'fdf',None,None,name=='rtsafe_itsP'); p=W.arr([0.5],name='x0'); inf=float('inf')
        for a,b in ((inf,1.),(1.,inf),(-inf,1.),(float('nan'),1.),(-1.,float('nan')),(-inf,inf)):
            ctx.true('failure',W.call(name,p,fn.p,a,b,None,10,1e-3,*([] if name=='rtsafe_itsP' else [0]))<0,(a,b))
    return f
def brak(name,n):
    def f(ctx):
        fn,o,x1,x2,acc=setup(ctx); W=ctx.W; N=n if ctx.sym else ctx.rng.choice((n,50)); p,q=W.arr([x1]),W.arr([x2])
        r=W.call(name,fn.p,None,p,q,N) if name=='rt_brak' else W.call(name,fn.p,p,q,None); a,b=W.get(p,0),W.get(q,0)
        at=lambda x,y: o.lor(*[o.land(o.eq(x,u),o.eq(y,v)) for u,v in zip(fn.x,fn.v)])
        if r>=0:
            ctx.true('tries',1<=r<=(N if name=='rt_brak' else 50),r)
            # (real products: a true sign change; natively tiny values may underflow)
            fn.prove('sign change at the ends',o.lor(*[o.land(o.eq(a,u),o.eq(b,w),o.lor(o.land(o.lt(v,0),o.lt(0,z)),o.land(o.lt(0,v),o.lt(z,0)))) for u,v in zip(fn.x,fn.v) for w,z in zip(fn.x,fn.v)]))
        fn.prove('only grows',o.land(o.bt(x1,a,b),o.bt(x2,a,b)))
        if r<0: 
            for k in range(1,min(N,len(fn.v)-2)): pass
            i=fn.v; fn.prove('bracket given: success',o.nt(o.lor(o.land(o.lt(i[0],0),o.lt(0,i[1])),o.land(o.lt(0,i[0]),o.lt(i[1],0)))))
    return f
def brakeq(ctx):
    W=ctx.W; fn=F(ctx,lambda x:x); p,q=W.arr([Fr(1,2) if ctx.sym else .5]),W.arr([Fr(1,2) if ctx.sym else .5]); ctx.true('empty interval refused',W.call('rt_brak',fn.p,None,p,q,5)<0)
def triple(ctx):
    if ctx.sym: a,b,c=T.var('x1'),T.var('xb'),T.var('x2'); ctx.dom.update({'x1':(-2,-1),'xb':(-.5,.5),'x2':(1,2)}); return a,b,c,T.var('acc')
    r=ctx.rng; c=r.uniform(-5,5); w=10**r.uniform(-2,2); a=c-w*r.uniform(.05,1); d=c+w*r.uniform(.05,1)
    if r.random()<.5: a,d=d,a
    return ctx.cex.get('x1',a),ctx.cex.get('xb',c),ctx.cex.get('x2',d),ctx.cex.get('acc',10**r.uniform(-9,-2))
def minb(name,n):
    def f(ctx):
        a,b,c,acc=triple(ctx); W=ctx.W
        if ctx.sym: fn=F(ctx,None)
        else:
            g=randf(ctx.rng,min(a,c),max(a,c)); k=ctx.rng.randrange(3); m=ctx.rng.uniform(min(a,c),max(a,c)); fn=F(ctx,g if k==0 else (lambda x: abs(x-m)) if k==1 else (lambda x:(x-m)**2*(1+.3*math.sin(x))+.1))
        o=O(ctx,0 if ctx.sym else max(abs(a),abs(c))); fn.assume(o.lt(0,acc)); fn.assume(o.lor(o.land(o.lt(a,b),o.lt(b,c)),o.land(o.lt(c,b),o.lt(b,a))))
        N=n if ctx.sym else ctx.rng.choice((n,100)); p=W.arr([0,0])
        if name=='minbrent_brak': r=W.call(name,fn.p,None,a,b,c,N,acc,p,at(ctx,p,1),0); fm=W.get(p,1)
        else: N=100; fm=W.call(name,a,b,c,fn.p,acc,p,None,ret='d'); r=len(fn.x)
        xm=W.get(p,0)
        for x in fn.x: fn.prove('evaluated inside the bracket only',o.bt(x,a,c))
        fn.prove('value belongs to the place',o.lor(*[o.land(o.eq(xm,x),o.eq(fm,v)) for x,v in zip(fn.x,fn.v)]))
        for v in fn.v: fn.prove('lowest value seen',o.le(fm,v))
        if r<=N and r>=1:
            d=2*(acc*(T.fabs(T.lift(xm)) if ctx.sym else abs(xm))+Fr(1,10**10)) if ctx.sym else 2*(acc*abs(xm)+1e-10)*(1+1e-9)
            pts=[(a,None),(c,None)]+list(zip(fn.x,fn.v))
            fn.prove('bracketed to the accuracy',o.land(o.lor(*[o.land(o.le(x,xm),o.le(xm-x,d)) for x,_ in pts if x is not xm or True]),o.lor(*[o.land(o.le(xm,x),o.le(x-xm,d)) for x,_ in pts])))
    return f
def mbrak(name,n):
    def f(ctx):
        fn,o,x1,x2,acc=setup(ctx); W=ctx.W; p=W.arr([x1,x2,0,0,0,0]); q=[at(ctx,p,k) for k in range(6)]
        if not ctx.sym:
            c=ctx.rng.uniform(-3,3); s=10**ctx.rng.uniform(-2,2); k=ctx.rng.randrange(3); fn.v.clear(); fn.x.clear(); fn=F(ctx,(lambda x:s*(x-c)**2,lambda x:s*abs(x-c),lambda x:s*(x-c)**2+math.sin(3*x))[k])
        N=n if ctx.sym else ctx.rng.choice((n,60)); r=W.call(name,fn.p,None,*q,N); v=[W.get(p,k) for k in range(6)]
        for k in range(3): fn.prove('values belong to the places',o.lor(*[o.land(o.eq(v[k],x),o.eq(v[3+k],y)) for x,y in zip(fn.x,fn.v)]))
        if r<=N: fn.prove('minimum bracketed',o.land(o.le(v[4],v[3]),o.le(v[4],v[5]))); fn.prove('in order',o.bt(v[1],v[0],v[2]))
    return f
# ------------------------------------------------------------------ Newton with line search
class Concolic:
    """follow the path of one sampled input; the obligations are then identities decided on their own"""
    def __init__(s,ctx,seed):
        import random, mpmath
        s.ctx=ctx; r=random.Random(seed); s.env={k:mpmath.mpf(r.uniform(*v)) for k,v in ctx.dom.items()}; ctx.W.M.oracle=s.oracle; ctx.W.M.forkselect=True; s.mp=mpmath
    def oracle(s,M,c):
        with s.mp.workdps(30): return bool(T.evalf(c,lambda n:s.env[n],s.mp))
class VF:
    """vector function handed in; counts and records the evaluations"""
    def __init__(s,ctx,n,f,i0,par=True):
        W=ctx.W; s.x=[]; s.f=[]
        if ctx.sym:
            def st(M,n_,x,fv,*p):
                X=[M.load(Ptr(x.o,x.f+8*(k+i0)),8,'d') for k in range(n)]; Y=f(X); s.x.append(X); s.f.append(Y)
                for k in range(n): M.store(Ptr(fv.o,fv.f+8*(k+i0)),T.lift(Y[k]),8)
            W.M.stubs['vf21']=st; s.p=world.FP('vf21')
        else:
            D=ctypes.POINTER(ctypes.c_double)
            def g(n_,x,fv,*p):
                try:
                    X=[x[k+i0] for k in range(n)]; Y=f(X); s.x.append(X); s.f.append(list(Y))
                    for k in range(n): fv[k+i0]=Y[k]
                except BaseException: import traceback; traceback.print_exc(); os._exit(98)
            cb=ctypes.CFUNCTYPE(None,ctypes.c_int,D,D,*([ctypes.c_void_p] if par else []))(g); W.keep.append(cb); s.p=world.RP(ctypes.cast(cb,ctypes.c_void_p).value)
NEWT=('newton_linesearch','newton_linesrch_itsP','newton_linesrch_its')
def newt(ctx,name,n,x0,f,itmax,tolf,i0=None):
    W=ctx.W; i0=(0 if name=='newton_linesearch' else 1) if i0 is None else i0; v=VF(ctx,n,f,i0,name!=NEWT[2]); g=-77.
    if ctx.sym: W.M.stubs[res('finit')]=lambda M,x: int(x.op!='nan')
    a=W.arr([g]+list(x0)+[g]); x=at(ctx,a,1-i0); ck=W.iarr([9])
    if name==NEWT[0]: r=W.call(name,n,x,ck,v.p,None,i0,itmax,tolf)
    elif name==NEWT[1]: r=W.call(name,x,n,ck,v.p,None,itmax,tolf)
    else: r=W.call(name,x,n,ck,v.p,itmax,tolf)
    X=[W.get(a,1+k) for k in range(n)]; ctx.eq('nothing around x touched',W.get(a,0),g); ctx.eq('nothing around x touched',W.get(a,n+1),g)
    return r,W.get(ck,0,'i'),X,v
def naffine(name,n,seed,i0=None):
    """affine functions: the root in one step, whatever the matrix"""
    def f(ctx):
        A=[[va(ctx,f'a{i}{j}',*((2,3) if i==(j+seed)%n else (-1,1))) for j in range(n)] for i in range(n)]; b=[va(ctx,f'b{i}',-2,2) for i in range(n)]; x0=[va(ctx,f'x{i}',-2,2) for i in range(n)]
        if ctx.sym: Concolic(ctx,seed)
        tolf=Fr(1,10**9) if ctx.sym else 1e-9
        r,ck,X,v=newt(ctx,name,n,x0,lambda X:[sum((A[i][j]*X[j] for j in range(n)),-b[i]) for i in range(n)],20,tolf,i0)
        ctx.true('converged',r==1 if ctx.sym else r>=0,r); ctx.true('check',ck==0,ck)
        for i in range(n): ctx.eq('root',sum((A[i][j]*X[j] for j in range(n)),T.ZERO if ctx.sym else 0.),b[i],tol=1e-8)
    return f
def nstart(name):
    """start at a root: nothing done"""
    def f(ctx):
        x0=[va(ctx,'x0',-2,2),va(ctx,'x1',-2,2)]; r,ck,X,v=newt(ctx,name,2,x0,lambda X:[X[0]-x0[0],(X[1]-x0[1])*3.],5,1e-9); ctx.true('no iteration',r==0 and ck==0,(r,ck)); ctx.eq('x',X[0],x0[0]); ctx.eq('x',X[1],x0[1])
    return f
def nreal(name,kind):
    """arbitrary smooth systems: success means a root"""
    def f(ctx):
        if ctx.sym: return
        for t in range(25):
            r=ctx.rng; n=r.choice((1,2,3,4)); A=[[r.uniform(-1,1)+(3 if i==j else 0) for j in range(n)] for i in range(n)]; d=[r.uniform(-2,2) for _ in range(n)]; c=r.uniform(.3,2); s=10**r.uniform(-2,2)
            def F(X):
                Y=[x-e for x,e in zip(X,d)]; L=[sum(A[i][j]*Y[j] for j in range(n)) for i in range(n)]
                if kind=='root': return [s*(L[i]+.4*math.sin(Y[i])*Y[0]+.1*math.tanh(L[i])) for i in range(n)]
                if kind=='none': return [s*(L[0]**2+c)]+[s*l for l in L[1:]]
                if kind=='some': return [s*(math.exp(max(-50,min(50,L[0])))-r0)]+[s*(l+l**3) for l in L[1:]]
                if kind=='singular': return [s*L[i] if i!=k0 else (0. if zero else s*(Y[k0]**3)*0) for i in range(n)]
                if kind=='nan': return [float('nan') if len(v0)>=kk else s*l for l in L] if not v0.append(1) else 0
            r0=r.uniform(-.5,3); k0=r.randrange(n); zero=r.random()<.5; v0=[]; kk=r.randrange(1,12); tolf=10**r.uniform(-9,-4)*s; N=r.choice((1,3,50,50,50))
            try: x0=[e+r.uniform(-2,2) for e in d]
            except Exception: raise
            q,ck,X,v=newt(ctx,name,n,x0,F,N,tolf); 
            if kind=='nan': ctx.true('function not finite: failure',q<0 or len(v0)<kk,(q,len(v0),kk)); continue
            R=max(abs(y) for y in F(X)); ctx.true('success means a root',not(q>=0 and ck==0) or R<=tolf,(q,ck,R,tolf)); ctx.true('iterations',(q<=N) and (q>=0 or q==-(N+1)-1 or q<-N),q)
            if kind in('root',) and N==50: ctx.true('found',q>=0 and ck==0,(q,ck,R))
            if kind=='singular' and N==50 and n>1 and False: ctx.true('found',q>=0,(q,ck,R))
    return f
def nsing(name):
    """an equation that is identically satisfied: the others are still solved"""
    def f(ctx):
        for n in (2,3):
            for z in range(n):
                d=[va(ctx,f'd{n}{z}{i}',-1,1) for i in range(n)]; c=[va(ctx,f'c{n}{z}{i}',1,2) for i in range(n)]; x0=[va(ctx,f'x{n}{z}{i}',2,3) for i in range(n)]
                if ctx.sym: Concolic(ctx,z)
                tolf=Fr(1,10**9) if ctx.sym else 1e-9
                q,ck,X,v=newt(ctx,name,n,x0,lambda X:[c[i]*(X[i]-d[i]) if i!=z else 0*X[i] for i in range(n)],10,tolf)
                ctx.true('converged',q>=1 and ck==0,(n,z,q,ck))
                for i in range(n): ctx.eq('solved' if i!=z else 'free component kept',X[i],d[i] if i!=z else x0[i],tol=1e-8)
    return f
def linint(ctx):
    """range helpers: vb on the boundary of the range on the ray from its centre, linear continuation beyond"""
    W=ctx.W; n=3; r=ctx.rng
    for t in range(6):
        lo=[va(ctx,f'lo{t}{k}',-2,-1) for k in range(n)]; hi=[va(ctx,f'hi{t}{k}',1,2) for k in range(n)]; m=(0b001,0b100,0b110,0b111,0b010,0b011)[t]
        v=[(va(ctx,f'v{t}{k}',3,5) if (t+k)%2 else va(ctx,f'v{t}{k}',-5,-3)) if m>>k&1 else va(ctx,f'v{t}{k}',-.9,.9) for k in range(n)]
        if ctx.sym: cc=Concolic(ctx,t)
        V,H,L=W.arr(v),W.arr(hi),W.arr(lo); vb,vi=W.arr([0]*n),W.arr([0]*n)
        ctx.true('outside',W.call('newton_lnsrch_vec_within_range',n,V,H,L)==0); ctx.true('inside',W.call('newton_lnsrch_vec_within_range',n,W.arr([(a+b)/2 for a,b in zip(lo,hi)]),H,L)==1)
        W.call('newton_lnsrch_set_vecs_for_lininterp',n,V,H,L,vb,vi,ret='v')
        cen=[(a+b)/2 for a,b in zip(lo,hi)]; sc=[((hi[k] if (t+k)%2 else lo[k])-cen[k])/(v[k]-cen[k]) for k in range(n) if m>>k&1]
        if ctx.sym: vals=[T.evalf(T.lift(x),lambda q:cc.env[q],cc.mp) for x in sc]
        else: vals=sc
        s=sc[min(range(len(sc)),key=lambda k:vals[k])]
        for k in range(n): ctx.eq('on the boundary of the range',W.get(vb,k),cen[k]+(v[k]-cen[k])*s); ctx.eq('slightly inside',W.get(vi,k),cen[k]+(v[k]-cen[k])*s*Fr(999999,10**6) if ctx.sym else cen[k]+(v[k]-cen[k])*s*0.999999)
        # linear functions are continued exactly
        c=[va(ctx,f'k{t}{k}',-1,1) for k in range(n)]; f=lambda x: sum((c[k]*x[k] for k in range(n)),T.ONE if ctx.sym else 1.); B_=[W.get(vb,k) for k in range(n)]; I_=[W.get(vi,k) for k in range(n)]
        q=W.arr([0]*n); W.call('newton_lnsrch_get_fvec_by_lininterp',n,V,vb,vi,q,W.arr([f(B_)]*n),W.arr([f(I_)]*n),ret='v')
        for k in range(n): ctx.eq('linear continuation',W.get(q,k),f(v),tol=1e-6)
def lu(n,seed):
    def f(ctx):
        A=[[va(ctx,f'a{i}{j}',*((1,3) if i==(j+seed)%n else (-1,1))) for j in range(n)] for i in range(n)]; b=[va(ctx,f'b{i}',-2,2) for i in range(n)]; W=ctx.W
        if ctx.sym: Concolic(ctx,seed)
        M=W.arr([x for r in A for x in r]); ix=W.iarr([0]*n); pa=W.iarr([0]); bb=W.arr(b)
        ctx.true('regular',W.call('lu_decomp',n,M,ix,pa)==0); W.call('lu_solve',n,M,ix,bb,ret='v'); X=[W.get(bb,k) for k in range(n)]
        for i in range(n): ctx.eq('A x = b',sum((A[i][j]*X[j] for j in range(n)),T.ZERO if ctx.sym else 0.),b[i],tol=1e-8)
        import itertools
        det=T.ZERO if ctx.sym else 0.
        for p in itertools.permutations(range(n)):
            t=T.ONE if ctx.sym else 1.
            for i in range(n): t=t*A[i][p[i]]
            det=det+t*(-1)**sum(p[i]>p[j] for i in range(n) for j in range(i+1,n))
        ctx.eq('determinant',W.call('lu_det',n,M,W.get(pa,0,'i'),ret='d'),det,tol=1e-8)
    return f
def luzero(ctx):
    W=ctx.W
    for n in (1,2,3):
        for k in range(n):
            for row in (0,1):
                A=[[(0 if (i if row else j)==k else va(ctx,f'a{n}{k}{row}{i}{j}',1,2)) for j in range(n)] for i in range(n)]
                if ctx.sym: Concolic(ctx,1)
                M=W.arr([x for r in A for x in r]); ix=W.iarr([0]*n); pa=W.iarr([0]); r=W.call('lu_decomp',n,M,ix,pa); ctx.true('zero row or column reported',r==(-(k+1) if row and n>1 else k+1),(n,k,row,r))
                for i in range(n):
                    for j in range(n): ctx.eq('matrix left alone',W.get(M,i*n+j),A[i][j])
B=lambda:mk(True); R=lambda:mk(False); B2=lambda:mk(True,'alt'); R2=lambda:mk(False,'alt')
BD='iterations (deductive layer); 200 natively'
cases=[]
def C(n,f,k=0,alt=False,**kw): cases.append(Case(n,f,base=B2 if alt else B,rbase=R2 if alt else R,group='alt' if alt else 'main',bounded=f'{k} {BD}' if k else None,maxpaths=kw.pop('maxpaths',4000),timeout=400,real=kw.pop("real",40),**kw))
for k in (1,2): C(f'rtbrent_brak {k}',brent('rtbrent_brak',k),k)
for nm in ('newton1d_brak','rtbisect'):
    for k in (1,2,3): C(f'{nm} {k}',newton(nm,k),k)
    for k in (0,1,2,3): C(f'{nm} value {k} not finite',newton(nm,3,k),3)
for nm in ('newton1d_brak','rtbisect','rtbrent_brak'): C(f'{nm} ends not finite',notfinite(nm))
for k in (1,2,3): C(f'rt_brak {k}',brak('rt_brak',k),k)
C('rt_brak empty',brakeq)
for k in (1,2): C(f'minbrent_brak {k}',minb('minbrent_brak',k),k)
for k in (0,1,2): C(f'min_brak {k}',mbrak('min_brak',k),k)
for nm in NEWT:
    for n in (1,2,3): C(f'{nm} affine {n}',naffine(nm,n,n%2,0 if nm==NEWT[0] and n==2 else None),0,real=3)
    C(f'{nm} starts at a root',nstart(nm),real=2); C(f'{nm} zero equation',nsing(nm),real=2)
    for k in ('root','none','some','singular','nan'): C(f'{nm} {k}',nreal(nm,k),real=4,sym=False)
C('newton_linesearch affine, first index 3',naffine(NEWT[0],2,0,3),real=2)
for n in (1,2,3,4):
    for q in range(min(n,3)): C(f'lu {n} {q}',lu(n,q),real=2)
C('lu zero',luzero,real=2); C('range helpers',linint,real=3)
if __name__=='__main__':
    main('C21',cases,level='other',assumptions=['reals for doubles (underflow of products of values ignored)'])
