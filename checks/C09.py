"""C09  Time integrators.  The integrator under contract is sgrid's evolve() (list duplication, storage, vlcopy/vladd/vladdto/
vlaverage and the loops over boxes and points all execute as written).  The right-hand side is arbitrary: every call stores a
fresh unknown k_i per variable, box and point.  Contract: there is one strictly lower-triangular table A and one row b such
that, for every variable, box and point, call i receives u0+dt*sum_j A_ij k_j, the result is u0+dt*sum_j b_j k_j, the previous
level is u0, and (A,b) satisfies the order conditions for all rooted trees up to the advertised order."""
import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib')
from phys import *
import ctypes, numpy, functools
VARS=[('uA',''),('uB','i'),('uC','(ij)')]
def mk(sym,pars,method=True):
    def ex(W):
        for n,t in VARS: W.call('AddVar',n,t,'',ret='v')
        W.call('AddVar','bystander','i','',ret='v')
    W=mkworld(sym,{'physics':'ADMvars evolve',**boxpars(2,4),**pars},extra=ex)
    v=W.call('vlalloc',W.g,ret='p')
    for n,t in VARS: W.call('vlpush',v,W.ind({'':n,'i':n+'x','(ij)':n+'xx'}[t]),ret='v')
    W.call('enablevarlist',v,ret='v'); W.call('enablevar',W.g,W.ind('bystanderx'),ret='v'); W.u=v
    W.ix=[W.call('vl_idx',v,i) for i in range(W.call('vl_n',v))]; W.nm=[varname(W,i) for i in W.ix]
    return W
# ------------------------------------------------------------------ rooted trees up to order 5
@functools.lru_cache(None)
def trees(n):
    if n==1: return [()]
    out=set()
    def part(rem,mx,cur):
        if rem==0: out.add(tuple(sorted(cur))); return
        for k in range(min(rem,mx),0,-1):
            for t in trees(k): part(rem-k,k,cur+[t])
    part(n-1,n-1,[]); return sorted(out)
def size(t): return 1+sum(size(c) for c in t)
def gam(t):
    g=size(t)
    for c in t: g*=gam(c)
    return g
def phi(t,A,i):
    p=1
    for c in t: p*=sum(A[i][j]*phi(c,A,j) for j in range(len(A)))
    return p
def order_conditions(ctx,A,b,order):
    for n in range(1,order+1):
        for t in trees(n):
            v=sum(float(b[i])*phi(t,[[float(x) for x in r] for r in A],i) for i in range(len(b)))
            ctx.true(f'order {n} tree {t}',abs(v-1/gam(t))<1e-10,(v,1/gam(t)))
# ------------------------------------------------------------------ driver
class Drive:
    def __init__(s,ctx,alg):
        s.ctx=ctx; s.W=W=ctx.W; s.nb=W.nb; s.calls=[]; s.alg=alg; s.algstates=[]; s.grow=0
        if ctx.sym:
            s.N=W.M.sym('N',1)
            for b in range(s.nb): W.call('vs_setnnodes',W.box[b],s.N,ret='v')
            W.M.stubs['verif_rhs']=lambda M,*a:s.rhs(*a); W.M.stubs['verif_alg']=lambda M,*a:s.algc(*a)
            fr,fa=world.FP('verif_rhs'),world.FP('verif_alg')
            s.pts=[0]
            s.I=W.M.generic(0,s.N)
        else:
            s.n=W.call('vs_nnodes',W.box[0]); s.pts=range(s.n)
            P=ctypes.c_void_p
            fr=ctypes.CFUNCTYPE(None,P,P,ctypes.c_double,P)(lambda a,b,d,c: s.rhs(world.RP(a),world.RP(b),d,world.RP(c)))
            fa=ctypes.CFUNCTYPE(None,P,P)(lambda a,b: s.algc(world.RP(a),world.RP(b)))
        W.call('evolve_vlregister',W.u,ret='v'); W.call('evolve_rhsregister',fr,ret='v')
        if alg: W.call('evolve_algebraicConditionsregister',fa,ret='v')
    def load(s,b,i):
        """values of variable i in box b at the contract's points"""
        p=s.W.v(s.W.box[b],i)
        if p is None: return None
        if s.ctx.sym: return [s.W.M.load(Ptr(p.o,p.f+8*s.I),8,'d')]
        return [T.const(Fr(x)) for x in s.W.vec(p,s.n)] if s.ctx.sym else list(s.W.vec(p,s.n))
    def store(s,b,i,vals):
        p=s.W.v(s.W.box[b],i)
        if s.ctx.sym:
            s.W.M.store(Ptr(p.o,p.f+8*s.I),vals[0],8)
        else:
            a=s.W.vec(p,s.n)
            for k,x in enumerate(vals): a[k]=x
    def state(s,vl):
        n=s.W.call('vl_n',vl); ix=[s.W.call('vl_idx',vl,j) for j in range(n)]
        return ix,{(b,j):s.load(b,ix[j]) for b in range(s.nb) for j in range(n)}
    def init(s,tag):
        s.u0={}
        for b in range(s.nb):
            for j,i in enumerate(s.W.ix):
                s.u0[b,j]=[s.fresh(f'{tag}b{b}:{s.W.nm[j]}',p) for p in s.pts]
                s.store(b,i,s.u0[b,j]) if not s.ctx.sym else s.symset(b,i,f'{tag}b{b}:{s.W.nm[j]}')
            i=s.W.ind('bystanderx')
            s.store(b,i,[s.fresh(f'{tag}b{b}:by',p) for p in s.pts]) if not s.ctx.sym else s.symset(b,i,f'{tag}b{b}:by')
    def symset(s,b,i,n): s.W.call('vs_setv',s.W.box[b],i,s.ctx.field(n,s.N),ret='v')
    def fresh(s,n,p):
        if s.ctx.sym: return T.var(f'{n}@{s.I}')
        return s.ctx.rng.uniform(-1,1)
    def rhs(s,un,up,dt,uc):
        W=s.W; c=len(s.calls); ixn,_=s.state(un); ixp,pre=s.state(up); ixc,cur=s.state(uc)
        s.ctx.true(f'call {c}: lists have all variables',len(ixn)==len(ixp)==len(ixc)==len(W.ix))
        s.ctx.true(f'call {c}: result not the input',not set(ixn)&set(ixc))
        zero=(dt.op=='c' and dt.a[0]==0) if isinstance(dt,T.Term) else dt==0
        K={}
        for b in range(s.nb):
            for j in range(len(ixn)):
                k=[s.fresh(f'{s.tag}k{c}b{b}:{W.nm[j]}',p) for p in s.pts]; K[b,j]=k
                s.store(b,ixn[j],k if zero else [x+dt*y for x,y in zip(pre[b,j],k)])
        s.calls.append(dict(cur=cur,pre=pre,K=K,dt=dt,zero=zero,time=W.call('vl_time',uc,ret='d')))
        return None
    def algc(s,un,up):
        s.algstates.append((len(s.calls),s.state(un)[1])); return None
def lin(ctx,D,rows,u0,dt):
    """coefficients c_j with row=u0+dt*sum c_j k_j; exact from the terms, least squares on the numbers"""
    m=len(D.calls); out=[]
    if ctx.sym:
        kn=[[c['K'][key][0] for c in D.calls] for key in rows]
        key0=next(iter(rows)); t=rows[key0][0]
        # coefficient: value at u0=0, dt=1, k=e_j
        names=T.variables([t]); out=[]
        for j in range(m):
            env={n:T.ZERO for n in names}
            for n in names:
                if n=='dt': env[n]=T.ONE
                if n==D.calls[j]['K'][key0][0].a[0]: env[n]=T.ONE
            v=T.subst(t,env)
            v=T.lift(v); out.append(Fr(v.a[0]) if v.op=='c' else Fr(T.evalf(v,{})))
        return out
    Ms=[];R=[]
    for key,vals in rows.items():
        for p in range(len(vals)):
            Ms.append([dt*c['K'][key][p] for c in D.calls]); R.append(vals[p]-u0[key][p])
    if m==0: return []
    return list(numpy.linalg.lstsq(numpy.array(Ms),numpy.array(R),rcond=None)[0])
def combo(u0,dt,c,K):
    r=[]
    for p in range(len(u0)):
        x=T.lift(u0[p]) if isinstance(u0[p],T.Term) else u0[p]
        for j,cj in enumerate(c):
            if cj: x=x+dt*(T.const(cj) if isinstance(x,T.Term) or isinstance(K[j][p],T.Term) else cj)*K[j][p]
        r.append(x)
    return r
def step(ctx,D,it,order,tag,method,t0):
    W=ctx.W; D.calls=[]; D.algstates=[]; D.tag=tag
    dt=ctx.var('dt',0.01,0.3); dtn=dt if ctx.sym else ctx.num(dt)
    W.call('vs_setdt',W.g,dt,ret='v'); W.call('vs_settime',W.g,t0,ret='v'); W.call('vs_setiter',W.g,it,ret='v')
    D.init(tag)
    if ctx.sym: W.M.oracle=lambda M,c: (False if c.op=='cmp' and c.a[0]=='eq' and 'dt' in T.variables(c) else None)
    W.call('evolve',W.g)
    _,fin=D.state(W.u); m=len(D.calls)
    dbg=method=='debug'
    u0=D.u0
    # every state handed to the right-hand side, and the result, are combinations with one table for all variables/boxes/points
    A=[]
    for i,c in enumerate(D.calls):
        a=[x for x in lin(ctx,D,c['cur'],u0,dtn)]
        if not ctx.sym: a=[0 if abs(x)<1e-13 else x for x in a]
        A.append(a)
        ctx.true(f'{tag} stage {i} explicit',all(x==0 for x in a[i:]),a)
        for key in u0:
            w=combo(u0[key],dtn,a,[q['K'][key] for q in D.calls])
            for p,(x,y) in enumerate(zip(c['cur'][key],w)): ctx.eq(f'{tag} stage {i} input b{key[0]} {W.nm[key[1]]}',x,y,tol=1e-11)
        if not c['zero']:
            ctx.eq(f'{tag} stage {i} step size',c['dt'],dt)
            for key in u0:
                for x,y in zip(c['pre'][key],u0[key]): ctx.eq(f'{tag} stage {i} base b{key[0]} {W.nm[key[1]]}',x,y)
    if dbg:
        ctx.true(f'{tag} one evaluation',m==1,m)
        for key in u0:
            for x,y in zip(fin[key],D.calls[0]['K'][key]): ctx.eq(f'{tag} rate left in place',x,y)
    else:
        b=lin(ctx,D,fin,u0,dtn)
        if not ctx.sym: b=[0 if abs(x)<1e-13 else x for x in b]
        for key in u0:
            w=combo(u0[key],dtn,b,[q['K'][key] for q in D.calls])
            for x,y in zip(fin[key],w): ctx.eq(f'{tag} result b{key[0]} {W.nm[key[1]]}',x,y,tol=1e-11)
        order_conditions(ctx,A,b,order)
    if method=='rk':     # abscissae: stage times are t + c_i dt with c_i the row sums
        for i,c in enumerate(D.calls): ctx.eq(f'{tag} stage {i} time',c['time'],t0+dt*sum((T.const(Fr(x)) for x in A[i]),T.ZERO),tol=1e-11)
    # previous level and bystanders
    for b in range(D.nb):
        for j,n in enumerate(W.nm):
            v=D.load(b,W.ind(n+'_p'))
            ctx.true(f'{tag} previous level stored b{b} {n}',v is not None)
            for x,y in zip(v or [],u0[b,j]): ctx.eq(f'{tag} previous level b{b} {n}',x,y)
        for x in (D.load(b,W.ind('bystanderx')) if ctx.sym else []): ctx.eq(f'{tag} bystander b{b}',x,T.var(f'{tag}b{b}:by@{D.I}'))
    if D.alg:            # algebraic conditions are applied to every stage state and to the result
        def last(i): return next((st for c,st in reversed(D.algstates) if c==i),None)
        for i,c in enumerate(D.calls):
            if method=='rk':
                st=last(i); ctx.true(f'{tag} algebraic conditions before evaluation {i}',st is not None)
                for key in u0:
                    for x,y in zip((st or {}).get(key,[]),c['cur'][key]): ctx.eq(f'{tag} state conditioned before evaluation {i}',x,y)
        st=last(m); ctx.true(f'{tag} algebraic conditions on result',st is not None)
        for key in u0:
            for x,y in zip((st or {}).get(key,[]),fin[key]): ctx.eq(f'{tag} result conditioned',x,y)
    return fin
def case(meth,order,pars=(),alg=False,steps=2):
    pars=dict(pars)
    def fn(ctx):
        W=ctx.W
        for k,v in pars.items(): setpar(ctx,k,v)
        D=Drive(ctx,alg)
        for s in range(steps): step(ctx,D,s,order,f's{s}:',meth,ctx.var('t0',0.1,2.) if s==0 else ctx.var('t1',2.,3.))
        ch=pars.get('evolve_compute_change','').split()
        if ch:
            _,fin=D.state(W.u)
            for b in range(D.nb):
                for j,n in enumerate(W.nm):
                    if n in ch:
                        for x,y,z in zip(D.load(b,W.ind(n+'_change')),fin[b,j],D.u0[b,j]): ctx.eq(f'change b{b} {n}',x,y-z,tol=1e-11)
    return fn
P0={}
BASE=lambda: mk(True,{}); RB=lambda: mk(False,{})
C=lambda n,*a,**k: Case(n,case(*a,**k),base=BASE,rbase=RB,group='b',timeout=300)
ORD={'rk1':1,'euler':1,'rk2':2,'rk2a':2,'midpoint':2,'rk3':3,'rk3a':3,'rk3b':3,'rk4':4,'rk4a':4,'rk5':5}
cases=[C('euler','euler',1,{'evolution_method':'euler'}),C('euler debug','debug',1,{'evolution_method':'euler','evolve_euler_debug':'yes'}),
 C('icn','icn',2,{'evolution_method':'icn'}),C('icn conditions','icn',2,{'evolution_method':'icn'},alg=True),C('euler conditions','euler',1,{'evolution_method':'euler'},alg=True)]
for n,o in ORD.items():
    cases.append(C(f'rk {n}','rk',o,{'evolution_method':'rk','evolution_method_rk':n,**({'evolve_compute_change':'uA uBy'} if n=='rk3' else {})}))
    cases.append(C(f'rk {n} conditions','rk',o,{'evolution_method':'rk','evolution_method_rk':n},alg=True,steps=1))
if __name__=='__main__':
    main('C09',cases,level='proof',assumptions=['the right-hand side writes its result list only','all boxes have the same symbolic number of points N>=1'])
