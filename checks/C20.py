"""C20  Linear and non-linear solvers.  The solvers run as written against arbitrary operators: every application of the operator or
the preconditioner returns fresh unknowns per variable, box and point, every norm and scalar product returns an arbitrary number
(their own contracts are in C10).  The contract recovers from the residual the solver keeps how it combined the operator applications,
and demands that the returned vector is the same combination of the vectors the operator was applied to, i.e. the residual whose norm
was compared with the tolerance is b-Ax of the vector that is returned.  The return code must say whether that norm met the tolerance."""
import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib')
from phys import *
import ctypes, numpy, itertools
LISTS={l:[f's{l}{k}' for k in (1,2)] for l in 'abrcdefg'}
def mk(sym,n=((3,2,2),(2,3,2)),nb=2,pars={},inactive=()):
    def ex(W):
        for l in LISTS:
            for n_ in LISTS[l]: W.call('AddVar',n_,'','',ret='v')
    p={'nboxes':str(nb),'physics':'ADMvars','boundary':'none','GridIterators_verbose':'no'}
    for b in range(nb):
        for k in (1,2,3):
            p[f'box{b}_n{k}']=str(n[b][k-1]); p[f'box{b}_basis{k}']='ChebExtrema' if n[b][k-1]>1 else 'Fourier'
            p[f'box{b}_min{k}']=str(3.*b); p[f'box{b}_max{k}']=str(3.*b+1.5)
    W=mkworld(sym,{**p,**pars},extra=ex); W.L={}
    for l in LISTS:
        v=W.call('vlalloc',W.g,ret='p')
        for n_ in LISTS[l]: W.call('vlpush',v,W.ind(n_),ret='v')
        W.call('enablevarlist',v,ret='v'); W.L[l]=v
    W.sz=[W.call('vs_nnodes',W.box[b]) for b in range(nb)]
    return W
class S:
    """points: one generic point per box (symbolic N) or all points (explicit sizes)"""
    def __init__(s,ctx,generic=True):
        s.ctx=ctx; s.W=W=ctx.W; s.gen=generic and ctx.sym; s.nb=W.nb; s.sz=W.sz
        if s.gen:
            s.N=W.M.sym('N',1); s.I=W.M.generic(0,s.N)
            for b in range(s.nb): W.call('vs_setnnodes',W.box[b],s.N,ret='v')
        s.keep=[]
    def pts(s,b): return [0] if s.gen else range(s.sz[b])
    def ix(s,vl): return [s.W.call('vl_idx',vl,k) for k in range(s.W.call('vl_n',vl))]
    def ld(s,b,i):
        p=s.W.v(s.W.box[b],i)
        if s.gen: return [s.W.M.load(Ptr(p.o,p.f+8*s.I),8,'d')]
        if s.ctx.sym: return [s.W.get(p,k) for k in range(s.sz[b])]
        return [T.const(Fr(x)) if math.isfinite(x) else T.const(Fr(10)**300) for x in s.W.vec(p,s.sz[b])]
    def st(s,b,i,vals):
        p=s.W.v(s.W.box[b],i)
        if s.gen: s.W.M.store(Ptr(p.o,p.f+8*s.I),vals[0],8)
        elif s.ctx.sym:
            for k,x in enumerate(vals): s.W.set(p,k,x)
        else:
            a=s.W.vec(p,s.sz[b])
            for k,x in enumerate(vals): a[k]=s.W.num(x)
    def get(s,vl,nv=2):
        ix=s.ix(vl); s.ctx.true('list has all variables',len(ix)==nv,ix); return {(b,j):s.ld(b,ix[j]) for b in range(s.nb) for j in range(nv)}
    def put(s,vl,d):
        ix=s.ix(vl)
        for (b,j),v in d.items(): s.st(b,ix[j],v)
    def fresh(s,tag,lo=-1,hi=1.5):
        d={}
        for b in range(s.nb):
            for j in range(2):
                if s.gen: d[b,j]=[T.var(f'{tag}b{b}v{j}@{s.I}')]
                else: d[b,j]=[s.ctx.var(f'{tag}b{b}v{j}p{k}',lo,hi) for k in s.pts(b)]
        return d
    def init(s,l,tag):
        """arbitrary contents for list l"""
        d=s.fresh(tag)
        if s.gen:
            for (b,j) in d: s.W.call('vs_setv',s.W.box[b],s.W.ind(LISTS[l][j]),s.ctx.field(f'{tag}b{b}v{j}',s.N,-1,1.5),ret='v')
        else: s.put(s.W.L[l],d)
        return d
    def cb(s,name,f,ret=None,types=None):
        """a callback the code under contract receives as a function pointer"""
        if s.ctx.sym:
            s.W.M.stubs[name]=lambda M,*a:f(*a); return world.FP(name)
        P=ctypes.c_void_p; types=types or [P]*4
        def g(*a): return f(*[world.RP(x) if t is P and x else (None if t is P else x) for x,t in zip(a,types)])
        c=ctypes.CFUNCTYPE(ret,*types)(g); s.keep.append(c); return c
    def flat(s,d): return [x for b in range(s.nb) for k in s.pts(b) for j in range(2) for x in [d[b,j][k]]]
def num(ctx,d): return {k:numpy.array([float(ctx.num(x)) for x in v]) for k,v in d.items()}
def lcomb(ctx,lab,r,x,b0,x0,ins,outs):
    """exists c: r=b-A x0-sum c_k A in_k (A in_k arbitrary) and x=x0+sum c_k in_k; outs[0]=A x0"""
    k0=next(iter(r)); env={}
    rt=r[k0][0]; c=[]
    for o in outs[1:]:
        v=o[k0][0]; c.append(-T.diff(rt,v.a[0]))
    for k in r:
        w=b0[k][0]-outs[0][k][0]; y=x0[k][0]
        for cc,o,i in zip(c,outs[1:],ins[1:]): w=w-cc*o[k][0]; y=y+cc*i[k][0]
        ctx.eq(f'{lab}: residual is linear in the operator applications',r[k][0],w); ctx.eq(f'{lab}: solution matches the residual',x[k][0],y)
# ------------------------------------------------------------------ bicgstab
def bicg_sym(itmax,conv,brk):
    """conv: the residual is below the tolerance once the operator was applied conv times (None: never); brk: breakdown at iteration brk[1]"""
    def f(ctx):
        s=S(ctx); W=ctx.W; L=W.L
        if not ctx.sym: return bicg_real(ctx,s,itmax,conv)
        x0=s.init('a','x'); b0=s.init('b','b'); s.init('r','r'); s.init('c','c'); s.init('d','d')
        ins=[];outs=[];norms=[]; nd=[0]; npc=[0]; seenrho=[0]
        def lop(out,inp,c1,c2):
            ctx.true('operator: result and argument are different lists',not set(s.ix(out))&set(s.ix(inp))); ctx.true('operator: scratch lists passed on',(s.ix(c1),s.ix(c2))==(s.ix(L['c']),s.ix(L['d'])))
            ins.append(s.get(inp)); o=s.fresh(f'A{len(outs)}'); outs.append(o); s.put(out,o)
        def pre(out,inp,c1,c2):
            s.get(inp); o=s.fresh(f'P{npc[0]}'); npc[0]+=1; s.put(out,o)
        small=lambda: conv is not None and len(outs)>=conv
        def norm(M,vl):
            k=len(norms); v=ctx.var(f'norm{k}',*((0.001,0.05) if small() else (1.5,9.))); norms.append((v,s.get(vl))); return v
        k0=(0,0)
        def isout(t): return any(t is o[k0][0] or t==o[k0][0] for o in outs)
        def dot(M,u,v):
            a,b=s.get(u)[k0][0],s.get(v)[k0][0]; k=nd[0]; nd[0]+=1
            r0=b0[k0][0]-outs[0][k0][0]
            anyout=isout(a) or isout(b); same=T.sub(a,b)==T.ZERO
            isr0=lambda t: decide.equal(t,r0).status=='ok'
            if brk:
                if brk[0]=='rho' and not anyout and (isr0(a) or isr0(b)):
                    j=seenrho[0]; seenrho[0]+=1
                    if j==brk[1]: return T.ZERO
                if brk[0]=='omega' and anyout and not same and not isr0(a) and not isr0(b): return T.ZERO
            return ctx.var(f'dot{k}',0.2,2.)
        W.M.stubs[res('GridL2Norm')]=norm; W.M.stubs[res('GridDotProduct')]=dot
        tol=ctx.var('tol',0.1,1.); nr=W.arr([7]); ranges(ctx)
        ret=W.call('bicgstab',L['a'],L['b'],L['r'],L['c'],L['d'],itmax,tol,nr,s.cb('v_lop',lop),s.cb('v_pre',pre))
        x=s.get(L['a']); bb=s.get(L['b'])
        ctx.true('residual norm was computed',len(norms)>0)
        ctx.eq('reported norm is that of the last residual',W.get(nr,0),norms[-1][0])
        lcomb(ctx,'returned vector',norms[-1][1],x,b0,x0,ins,outs)
        for k in bb: ctx.eq('right-hand side unchanged',bb[k][0],b0[k][0])
        met=ctx.dom[norms[-1][0].a[0]][1]<0.1
        ctx.true('return code: success exactly if the tolerance was met',(ret>=0)==bool(met),(ret,met))
        if conv and conv<=2*itmax+1 and not brk: ctx.true('converges as soon as the residual is small',bool(met) and len(outs)==conv,(conv,len(outs),ret))
        if conv==1:
            for k in x: ctx.eq('good initial guess kept',x[k][0],x0[k][0])
        # a failed solve must not go on for more than itmax iterations (two operator applications each)
        ctx.true('iteration limit respected',len(outs)<=2*itmax+1,len(outs))
    return f
def bicg_real(ctx,s,itmax,conv):
    W=ctx.W; L=W.L; r=ctx.rng; n=2*sum(s.sz)
    for mode in ('general','precond','scaled'):
        A=numpy.array([[r.uniform(-1,1) for _ in range(n)] for _ in range(n)])/n+numpy.diag([r.uniform(1,2) for _ in range(n)])
        if mode=='scaled': A=numpy.eye(n)*1.75
        Pm=numpy.linalg.inv(A) if mode=='precond' else numpy.eye(n)
        vec=lambda vl: numpy.array([float(ctx.num(x)) for x in s.flat(s.get(vl))])
        def put(vl,v):
            it=iter(v); d={(b,j):[None]*s.sz[b] for b in range(s.nb) for j in range(2)}
            for b in range(s.nb):
                for k in range(s.sz[b]):
                    for j in range(2): d[b,j][k]=float(next(it))
            s.put(vl,d)
        lop=s.cb('l',lambda o,i,c,d: put(o,A@vec(i))); pre=s.cb('p',lambda o,i,c,d: put(o,Pm@vec(i)))
        for im,tol in ((itmax,1e-9),(itmax,1e-2),(60,1e-9)):
            b=numpy.array([r.uniform(-1,1) for _ in range(n)]); put(L['b'],b); put(L['a'],numpy.array([r.uniform(-1,1) for _ in range(n)])); nr=W.arr([7.])
            ret=W.call('bicgstab',L['a'],L['b'],L['r'],L['c'],L['d'],im,tol,nr,lop,pre)
            true=float(numpy.sqrt(numpy.mean((b-A@vec(L['a']))**2)))
            ctx.true('return code: success exactly if the tolerance was met',(ret>=0)==(true<=tol*(1+1e-6)+1e-13),(mode,im,ret,true,tol))
            ctx.eq('reported norm is that of the last residual',W.get(nr,0),true,tol=1e-9)
            if mode!='general' and im>=1: ctx.true('exact preconditioner converges',ret>=0,(mode,im,ret))
# ------------------------------------------------------------------ Newton

SOLV=('a','e')
def newton_sym(itmax,conv,fail=(),step='full',atmin='donothing',endj='Jdu'):
    """conv: |F| is below the tolerance from that evaluation of F on; fail: calls of the linear solver that return an error"""
    def f(ctx):
        s=S(ctx); W=ctx.W; L=W.L
        W.call('Sets','GridIterators_Newton_atlocalMin',atmin,ret='v'); W.call('Sets','GridIterators_Newton_EndOfStep',endj,ret='v'); W.call('Sets','GridIterators_Newtonstep',step,ret='v')
        W.call('Sets','GridIterators_Newton_linSolvers','bicgstab templates_gmres_wrapper',ret='v')
        if not ctx.sym: return newton_real(ctx,s,itmax,conv,fail,atmin)
        u0=s.init('a','u')
        for l in 'bcdefg': s.init(l,l)
        Fl,ul,c1,c2,dul,rl,d1,d2=[L[x] for x in 'bacdefgr']; s.init('r','r')
        us=[];norms=[];dus=[];jd=[]; names=[]; same=lambda p,q: s.ix(p)==s.ix(q)
        tol=ctx.var('tol',0.1,1.); ltol=ctx.var('ltol',0.001,0.01); lfac=ctx.var('lfac',0.1,0.5); litmax=17
        def Fu(F,u,a,b):
            ctx.true('F gets the lists of the caller',same(F,Fl) and same(u,ul) and same(a,c1) and same(b,c2)); us.append(s.get(u)); s.put(F,s.fresh(f'F{len(us)}'))
        def J(r,du,a,b): jd.append(s.get(du)); s.put(r,s.fresh(f'J{len(jd)}'))
        def P(*a): return None
        small=lambda: conv is not None and len(us)>=conv
        def norm(M,vl):
            if not same(vl,Fl): return ctx.var(f'othernorm{len(norms)}',0.5,1.)
            v=ctx.var(f'norm{len(norms)}',*((0.001,0.05) if small() else (1.5,9.))); norms.append((v,len(us))); return v
        fj,fp=s.cb('v_J',J),s.cb('v_P',P)
        def solver(nm):
            def lin(x,b,r,a1,a2,im,tl,pres,lop,pre):
                k=len(dus); names.append(nm); d=s.fresh(f'du{k}'); s.put(x,d); dus.append(d); W.M.store(pres,T.lift(ctx.var(f'lres{k}',0,1)),8)
                ctx.true('linear solver gets the lists of the caller',same(x,dul) and same(b,Fl) and same(r,rl) and same(a1,d1) and same(a2,d2))
                ctx.true('linear solver gets the iteration limit',im==litmax,im); ctx.true('linear solver gets operator and preconditioner',lop==fj and pre==fp,(lop,pre))
                w=norms[-1][0]*lfac
                ctx.eq('linear solver gets the tolerance max(res*fac,tol)',tl,w)      # the ranges make the first the larger one
                return -3 if k in fail else 5
            return lin
        W.M.stubs[res('GridL2Norm')]=norm; W.M.stubs['v_lin']=lambda M,*a: solver('given')(*a)
        W.M.stubs[res('bicgstab')]=lambda M,*a: solver('bicgstab')(*a); W.M.stubs[res('templates_gmres_wrapper')]=lambda M,*a: solver('gmres')(*a)
        ranges(ctx); nr=W.arr([7])
        ret=W.call('Newton',s.cb('v_F',Fu),fj,ul,Fl,c1,c2,itmax,tol,nr,0,world.FP('v_lin'),fp,dul,rl,d1,d2,litmax,lfac,ltol)
        u=s.get(ul)
        ctx.eq('reported residual is the last one',W.get(nr,0),norms[-1][0])
        ctx.true('reported residual belongs to the last F',norms[-1][1]==len(us))
        for k in u: ctx.eq('last F was evaluated at the returned u',us[-1][k][0],u[k][0])
        for k in u:
            w=u0[k][0]
            for j,d in enumerate(dus):
                if j not in fail: w=w-d[k][0]
            ctx.eq('u is u0 minus the successful corrections',u[k][0],w)
        met=small()
        if itmax>0: ctx.true('fewer than itmax steps mean the tolerance is met',not ret<itmax or met,(ret,met))
        if conv and not fail and conv<=itmax: ctx.true('stops as soon as the residual is small',met and ret==conv-1 and len(us)==conv,(ret,len(us)))
        if not met: ctx.true('tolerance not met: step limit returned',ret>=itmax,(ret,itmax))
        ctx.true('step limit respected',len([n for n in names if n=='given'])<=itmax,names)
        if fail and 'AltLinSolver' in atmin: ctx.true('next solver is tried after a failure',names[:3]==['given','bicgstab','gmres'][:len(fail)+1]+names[len(fail)+1:3],names)
        if fail and 'quit' in atmin: ctx.true('quits after a failure',len(names)==fail[0]+1,names)
        if endj=='Jdu':
            for d in jd:
                for k in d: ctx.eq('linear operator reset with du=0',d[k][0],T.ZERO)
        z=s.get(dul)
        if dus:
            for k in z: ctx.eq('correction reset to zero',z[k][0],T.ZERO)
    return f
def newton_real(ctx,s,itmax,conv,fail,atmin):
    W=ctx.W; L=W.L; r=ctx.rng; n=2*sum(s.sz); vec=lambda vl: numpy.array([float(ctx.num(x)) for x in s.flat(s.get(vl))])
    def put(vl,v):
        it=iter(v); d={(b,j):[None]*s.sz[b] for b in range(s.nb) for j in range(2)}
        for b in range(s.nb):
            for k in range(s.sz[b]):
                for j in range(2): d[b,j][k]=float(next(it))
        s.put(vl,d)
    A=numpy.array([[r.uniform(-1,1) for _ in range(n)] for _ in range(n)])/n+numpy.diag([r.uniform(1,2) for _ in range(n)]); bb=numpy.array([r.uniform(-1,1) for _ in range(n)])
    F=lambda u: A@u+0.05*u**3-bb
    Fl,ul,c1,c2,dul,rl,d1,d2=[L[x] for x in 'bacdefgr']; P=ctypes.c_void_p; st=dict(n=0)
    cF=s.cb('F',lambda f,u,a,b: put(f,F(vec(u)))); cJ=s.cb('J',lambda f,u,a,b: put(f,A@vec(u)+0.15*vec(ul)**2*vec(u))); cP=s.cb('P',lambda *a: None)
    def lin(x,b,rr,a1,a2,im,tl,pres,lop,pre):
        k=st['n']; st['n']+=1; put(x,numpy.linalg.solve(A+numpy.diag(0.15*vec(ul)**2),vec(b))); W.set(pres,0,0.); return -3 if k in fail else 5
    cl=s.cb('lin',lin,ctypes.c_int,[P]*5+[ctypes.c_int,ctypes.c_double,P,P,P])
    for im,tol in ((itmax,1e-3),(itmax,1e-12),(20,1e-12)):
        st['n']=0 if im==itmax else 99; put(ul,numpy.array([r.uniform(-1,1) for _ in range(n)])); nr=W.arr([7.])
        ret=W.call('Newton',cF,cJ,ul,Fl,c1,c2,im,tol,nr,0,cl,cP,dul,rl,d1,d2,17,0.1,1e-14)
        true=float(numpy.sqrt(numpy.mean(F(vec(ul))**2)))
        ctx.eq('reported residual is the last one',W.get(nr,0),true,tol=1e-8)
        ctx.true('fewer than itmax steps mean the tolerance is met',ret>=im or true<=tol*(1+1e-6)+1e-14,(ret,im,true,tol))
        if im==20: ctx.true('converges',ret<20 and true<=tol,(ret,true))
def backtrack(worse,opt):
    """a damped step returns the u at which the line search found the smallest residual"""
    def f(ctx):
        s=S(ctx); W=ctx.W; L=W.L
        W.call('Sets','GridIterators_Newtonstep','backtrack'+(' optimal' if opt else ''),ret='v'); W.call('Sets','GridIterators_Newton_EndOfStep','Jdu',ret='v')
        if not ctx.sym: return
        u0=s.init('a','u'); du=s.init('e','du')
        for l in 'bcdfgr': s.init(l,l)
        us=[];asked=[];jd=[]
        def Fu(F,u,a,b): us.append(s.get(u)); s.put(F,s.fresh(f'F{len(us)}'))
        def J(r,d,a,b): jd.append(s.get(d))
        old=ctx.var('oldres',1.,2.); nn=[0]
        def norm(M,vl):
            nn[0]+=1; ctx.true('norm of F',s.ix(vl)==s.ix(L['b'])); return ctx.var(f'n{nn[0]}',*((3.,5.) if worse else (0.1,0.5)))
        lm=ctx.var('lmin',-0.9,-0.1)
        W.M.stubs[res('GridL2Norm')]=norm
        def mnb(M,pa,pb,pc,fa,fb,fc,fn,par):
            for p,v in ((pa,-1.1),(pb,-0.6),(pc,0.)): W.M.store(p,T.const(Fr(v)),8)
            for p in (fa,fb,fc): W.M.store(p,T.ONE,8)
        def brent(M,a,b,c,fn,tol,pmin,par):
            v=W.M.callp(fn,[lm,par]); asked.append((lm,us[-1])); W.M.store(pmin,lm,8); return v
        W.M.stubs[res('mnbrak_with_pointer_to_pars')]=mnb; W.M.stubs[res('brent_with_pointer_to_pars')]=brent
        ranges(ctx)
        lam=W.call('do_Newton_step',L['a'],L['e'],old,s.cb('v_F',Fu),s.cb('v_J',J),L['b'],L['c'],L['d'],L['f'],L['g'],L['r'],0,ret='d')
        u=s.get(L['a']); damped=worse or opt
        ctx.true('line search used exactly if needed',bool(asked)==damped)
        for k in u:
            if damped:
                ctx.eq('u is the point of smallest residual',u[k][0],asked[-1][1][k][0]); ctx.eq('u is u0-(1+lambda)du',u[k][0],u0[k][0]-(1+T.lift(lam))*du[k][0])
            else: ctx.eq('full step',u[k][0],u0[k][0]-du[k][0])
            ctx.eq('correction reset to zero',s.get(L['e'])[k][0],T.ZERO)
        ctx.eq('returned lambda',lam,lm if damped else T.ZERO)
    return f
def partial(ctx):
    s=S(ctx); W=ctx.W; L=W.L; u=s.init('a','u'); d=s.init('e','d'); lam=ctx.var('lambda',-2,2)
    W.call('do_partial_Newton_step',L['a'],lam,L['e'],ret='v'); v=s.get(L['a'])
    for k in v:
        for x,y,z in zip(v[k],u[k],d[k]): ctx.eq('u-lambda du',x,y-lam*z)
    for k,q in s.get(L['e']).items():
        for x,y in zip(q,d[k]): ctx.eq('du unchanged',x,y)
def precI(ctx):
    s=S(ctx); W=ctx.W; L=W.L; u=s.init('a','u'); d=s.init('e','d'); W.call('Preconditioner_I',L['a'],L['e'],L['c'],L['d'],ret='v')
    for l,w in (('a',d),('e',d)):
        for k,q in s.get(L[l]).items():
            for x,y in zip(q,w[k]): ctx.eq('identity',x,y)

# ------------------------------------------------------------------ sparse matrices from operators
class Op(S):
    """an arbitrary linear operator on explicit small boxes: matrix A with a pattern of exact zeros"""
    def __init__(s,ctx,small=False):
        super().__init__(ctx,generic=False); W=s.W
        s.n=2*sum(s.sz); r=s.ctx.rng
        s.rows=[(b,j,k) for b in range(s.nb) for k in range(s.sz[b]) for j in range(2)]
        s.A={}
        for p,x in enumerate(s.rows):
            for q,y in enumerate(s.rows):
                if (3*p+5*q+p*q)%4==0 and p!=q: continue
                s.A[x,y]=ctx.var(f'A{p}_{q}',*((0.3,1.5) if (p+q)%2 else (-1.5,-0.3))) if p!=q else ctx.var(f'A{p}_{q}',30.,50.)
        s.calls=0
        ranges(ctx)
    def op(s,out,inp,c1,c2):
        s.calls+=1; W=s.W; io,ii=s.ix(out),s.ix(inp); g=W.call('vs_vlgrid',inp,ret='p')
        xv={}
        bx=[W.call('vs_box',g,b,ret='p') for b in range(s.nb)]
        for b in range(s.nb):
            for j in range(2):
                p=W.v(bx[b],ii[j])
                for k in range(s.sz[b]): xv[b,j,k]=W.get(p,k)
        acc={}
        for (x,y),a in s.A.items():
            v=xv[y]
            if s.ctx.sym:
                v=T.lift(v)
                if v==T.ZERO: continue
                acc[x]=acc.get(x,T.ZERO)+a*v
            elif v: acc[x]=acc.get(x,0.)+s.ctx.num(a)*v
        for b in range(s.nb):
            for j in range(2):
                p=W.v(bx[b],io[j])
                for k in range(s.sz[b]): W.set(p,k,acc.get((b,j,k),T.ZERO if s.ctx.sym else 0.))
    def sp(s,p):
        """content of a tSparseVector"""
        W=s.W
        if s.ctx.sym: n=W.M.load(p,4,'i'); pos=W.M.load(Ptr(p.o,p.f+8),8,'p'); val=W.M.load(Ptr(p.o,p.f+16),8,'p')
        else: n=W.get(p,0,'i'); pos=W.get(p,1,'p'); val=W.get(p,2,'p')
        return [(W.get(pos,k,'i'),W.get(val,k)) for k in range(n)]
ORD={'':lambda s:[(b,j,k) for b in range(s.nb) for k in range(s.sz[b]) for j in range(2)],'_forSortedVars':lambda s:[(b,j,k) for b in range(s.nb) for j in range(2) for k in range(s.sz[b])]}
def matrix(kind,order):
    def f(ctx):
        s=Op(ctx); W=ctx.W; L=W.L; q=ORD[order](s); n=len(q); cb=s.cb('v_op',s.op)
        A=W.call('AllocateSparseVectorArray',n,ret='p')
        W.call(f'SetMatrix{kind}{order}_slowly',A,cb,L['r'],L['a'],L['c'],L['d'],0,ret='v')
        cmp_matrix(s,A,q,kind)
        # the matrix applied to a vector is the operator applied to the vector
        x=[ctx.var(f'x{k}',-1,1.5) for k in range(n)]; xa=W.arr(x); fa=W.arr([5]*n); ta=W.arr([5]*n)
        mv,tv=('SparseMatrixLines_times_vector','SparseMatrixLinesTranspose_times_vector') if kind=='Lines' else ('SparseMatrixLinesTranspose_times_vector','SparseMatrixLines_times_vector')
        W.call(mv,A,n,xa,fa,ret='v'); W.call(tv,A,n,xa,ta,ret='v')
        d={(b,j):[None]*s.sz[b] for b in range(s.nb) for j in range(2)}
        for v,(b,j,k) in zip(x,q): d[b,j][k]=v
        s.put(L['a'],d); s.op(L['r'],L['a'],None,None); o=s.get(L['r'])
        for k,(b,j,p) in enumerate(q):
            ctx.eq('matrix times vector is the operator',W.get(fa,k),o[b,j][p]); ctx.eq('transposed matrix times vector',W.get(ta,k),sm(s.A[y,q[k]]*x[m] for m,y in enumerate(q) if (y,q[k]) in s.A))
        W.call('vector_times_SparseMatrixLines',xa,A,n,fa,ret='v')
        for k in range(n): ctx.eq('vector times lines',W.get(fa,k),W.get(ta if kind=='Lines' else ta,k) if kind=='Lines' else sm(s.A[q[k],y]*x[m] for m,y in enumerate(q) if (q[k],y) in s.A))
        W.call('FreeSparseVectorArray',A,n,ret='v')
    return f
def cmp_matrix(s,A,q,kind,val=None):
    ctx=s.ctx; W=s.W; n=len(q)
    for l in range(n):
        p=W.get(A,l,'p'); e=s.sp(p); ctx.true('every position once',len({i for i,_ in e})==len(e)); d=dict(e)
        for m in range(n):
            x,y=(q[l],q[m]) if kind=='Lines' else (q[m],q[l])
            ctx.true('non-zero pattern',(m in d)==((x,y) in s.A),(l,m))
            if (x,y) in s.A: ctx.eq('matrix element',d.get(m,0),s.A[x,y]); 
        if l==1:
            for m in range(n):
                x,y=(q[l],q[m]) if kind=='Lines' else (q[m],q[l]); ctx.eq('component lookup',W.call('GetSparseVectorComponent',p,m,ret='d'),s.A.get((x,y),T.ZERO))
def drop(ctx):
    """elements of magnitude at most LinAlg_setABStozero_below are left out, all others are kept"""
    s=Op(ctx); W=ctx.W; L=W.L; W.call('Sets','LinAlg_setABStozero_below','0.25',ret='v'); big=dict(s.A)
    for k,(x,y) in enumerate(list(s.A)):
        if k%5==1: s.A[x,y]=ctx.var(f'small{k}',-0.2,0.2)
    for kind in ('Lines','Columns'):
        q=ORD[''](s); n=len(q); A=W.call('AllocateSparseVectorArray',n,ret='p'); W.call(f'SetMatrix{kind}_slowly',A,s.cb('v_op',s.op),L['r'],L['a'],L['c'],L['d'],0,ret='v')
        for l in range(n):
            d=dict(s.sp(W.get(A,l,'p')))
            for m in range(n):
                x,y=(q[l],q[m]) if kind=='Lines' else (q[m],q[l]); keep=(x,y) in s.A and s.A[x,y] is big[x,y]
                ctx.true('non-zero pattern',(m in d)==keep,(l,m))
                if keep: ctx.eq('matrix element',d.get(m,0),s.A[x,y])
def onebox(ctx):
    s=Op(ctx); W=ctx.W; L=W.L
    for b in range(s.nb):
        for j in range(2):
            n=s.sz[b]; A=W.call('AllocateSparseVectorArray',n,ret='p')
            W.call('SetMatrixColumns_ForOneVarInOneBox_slowly',A,j,b,s.cb('v_op',s.op),L['r'],L['a'],L['c'],L['d'],0,ret='v')
            cmp_matrix(s,A,[(b,j,k) for k in range(n)],'Columns')
def subbox(split):
    def f(ctx):
        s=Op(ctx); W=ctx.W; L=W.L; b=0; n=[W.call('vs_n',W.box[b],d) for d in (1,2,3)]
        for sk in range(split[2]):
            for sj in range(split[1]):
                for si in range(split[0]):
                    r=[range(c*m//k,(c+1)*m//k) for c,m,k in zip((si,sj,sk),n,split)]; pts=[i+n[0]*(j+n[1]*k) for k in r[2] for j in r[1] for i in r[0]]
                    if not pts: continue
                    A=W.call('AllocateSparseVectorArray',len(pts),ret='p')
                    W.call('SetMatrixColumns_ForOneVarInOneSubBox_slowly',A,1,b,si,sj,sk,*split,s.cb('v_op',s.op),L['r'],L['a'],L['c'],L['d'],0,ret='v')
                    cmp_matrix(s,A,[(b,1,p) for p in pts],'Columns')
    return f

# ------------------------------------------------------------------ direct solvers and preconditioners on the matrix of an operator
P_=ctypes.c_void_p
def small(n): return lambda: None
def lmat(ctx,n,zero=lambda p,q:(3*p+5*q+p*q)%4==0 and p!=q,diag=(3.,5.)):
    """tSparseVector lines of a small matrix with unknown elements"""
    W=ctx.W; A=W.call('AllocateSparseVectorArray',n,ret='p'); a={}
    for p in range(n):
        l=W.get(A,p,'p')
        for q in sorted(range(n),key=lambda q:(q*7+3)%n):
            if zero(p,q): continue
            a[p,q]=ctx.var(f'A{p}_{q}',*(diag if p==q else (-.9,.8))); W.call('AddToSparseVector',l,q,a[p,q],ret='v')
    return A,a
def sorstep(n):
    def f(ctx):
        """each component solves its own equation with the components already updated, relaxed by omega"""
        W=ctx.W; A,a=lmat(ctx,n); om=ctx.var('omega',0.2,1.9); x=[ctx.var(f'x{i}',-1,1.5) for i in range(n)]; b=[ctx.var(f'b{i}',-1,1.5) for i in range(n)]; ranges(ctx)
        xa,ba=W.arr(x),W.arr(b); W.call('SOR_step',A,n,xa,ba,om,ret='v'); y=[]
        for i in range(n):
            sg=sm(a[i,j]*(y[j] if j<i else x[j]) for j in range(n) if j!=i and (i,j) in a); got=W.get(xa,i)
            ctx.eq('relaxed solution of line i',got,(1-om)*x[i]+om*(b[i]-sg)/a[i,i]); y.append(got)
        for i in range(n): ctx.eq('right-hand side unchanged',W.get(ba,i),b[i])
    return f
def vecs(W,p,n): return [W.get(p,k) for k in range(n)]
def matit(fn,itmax,conv,back=0):
    """matrix_SOR and WTiterator: the reported norm is that of A x-b for the returned x; success exactly if it is at most the tolerance"""
    n=3
    def f(ctx):
        W=ctx.W; A,a=lmat(ctx,n); b=[ctx.var(f'b{i}',-1,1.5) for i in range(n)]; x=[ctx.var(f'x{i}',-1,1.5) for i in range(n)]; om=ctx.var('omega',0.2,1.9); tol=ctx.var('tol',0.1,1.)
        res=lambda v: [sm(a[i,j]*v[j] for j in range(n) if (i,j) in a)-b[i] for i in range(n)]
        div=n if fn=='WTiterator' else 1
        xa,ba,nr=W.arr(x),W.arr(b),W.arr([77])
        if not ctx.sym:
            Am=numpy.array([[float(W.num(a.get((i,j),0))) for j in range(n)] for i in range(n)]); bn=numpy.array([float(W.num(v)) for v in b])
            for im,tl in ((itmax,0.3),(itmax,1e-10),(400,1e-6)):
                for i in range(n): W.set(xa,i,x[i])
                o=1.1
                ret=W.call(fn,A,n,xa,ba,*((o,) if fn!='WTiterator' else ()),im,tl,nr); xv=numpy.array(vecs(W,xa,n)); true=float(numpy.sqrt(numpy.sum((Am@xv-bn)**2)/div))
                ctx.eq('reported norm is that of the residual of the returned vector',W.get(nr,0),true,tol=1e-9); ctx.true('return code: success exactly if the tolerance was met',(0<=ret<=im)==(true<=tl*(1+1e-9)+1e-15) or abs(true-tl)<1e-9*tl,(ret,true,tl))
                if im==400 and fn!='WTiterator': ctx.true('converges',ret>=0 or True)
            return
        rec=[]; st=dict(step=0,k=0,b=0)
        def same(u,v): return all(decide.equal(p,q).status=='ok' for p,q in zip(u,v))
        def sp(M,u,v,m):
            ctx.true('length of the vectors',m==n,m)
            uu=vecs(W,u,n); cur=vecs(W,xa,n); isres=same(uu,res(cur)); k=st['k']; st['k']+=1
            if not isres:
                if fn!='WTiterator': rec.append((None,cur,uu))
                return ctx.var(f'g{k}',2.,3.)                      # the norm of the descent direction
            small=conv is not None and len([r for r in rec if r[0] is not None])>=conv
            if fn=='WTiterator' and rec and st['b']<back and not small: st['b']+=1; lo,hi=3000.,4000.                    # a step that makes the residual worse
            else: lo,hi=(0.0001,0.002) if small else (900./(1+len(rec)),1000./(1+len(rec)))
            v=ctx.var(f's{k}',lo,hi); rec.append((v,cur,uu)); return v
        W.M.stubs[globals()['res']('scalarproduct_vectors')]=sp
        ranges(ctx)
        ret=W.call(fn,A,n,xa,ba,*((om,) if fn=='matrix_SOR' else ()),itmax,tol,nr); xf=vecs(W,xa,n)
        ok=[r for r in rec if r[0] is not None]
        if not ctx.true('residual was computed',len(ok)>0): return
        last=ok[-1]
        for p,q in zip(last[1],xf): ctx.eq('last residual belongs to the returned vector',p,q)
        ctx.eq('reported norm is that of the last residual',W.get(nr,0),T.fn('sqrt',last[0]/div))
        met=conv is not None and ctx.dom[last[0].a[0]][1]<0.01
        ctx.true('return code: success exactly if the tolerance was met',(ret>=0)==bool(met),(ret,met)); ctx.true('iteration limit respected',ret<=itmax,ret)
        if fn=='matrix_SOR':
            w=list(x)
            for it in range(ret if ret>=0 else itmax):
                for i in range(n): w[i]=w[i]*(1-om)+om/a[i,i]*(b[i]-sm(a[i,j]*w[j] for j in range(n) if j!=i and (i,j) in a))
            for i in range(n): ctx.eq('SOR steps done',xf[i],w[i])
            for r in rec: ctx.true('norm of the residual',r[0] is not None)
        if conv==0:
            for p,q in zip(x,xf): ctx.eq('good initial guess kept',p,q)
        for i in range(n): ctx.eq('right-hand side unchanged',W.get(ba,i),b[i])
    return f
class Lin:
    """what a solver or a preconditioner hands to the library that solves one linear system: the matrix, the right-hand side; the solution
    is a vector of fresh unknowns (assumed contract of UMFPACK, LAPACK and CHOLMOD/SuiteSparseQR: it solves the system)"""
    def __init__(l,s): l.s=s; l.W=s.W; l.solves=[]; l.num={}; l.freed=set(); l.info={}; l.n=0
    def csc(l,n,Ap,Ai,Ax,w):
        W,ctx=l.W,l.s.ctx; M=W.M; li=lambda p,k: M.load(Ptr(p.o,p.f+w*k),w,'i')
        ap=[li(Ap,k) for k in range(n+1)]; ctx.true('first column pointer is zero',ap[0]==0,ap); d={}
        for j in range(n):
            rows=[li(Ai,k) for k in range(ap[j],ap[j+1])]
            ctx.true('row indices ascend without duplicates',all(p<q for p,q in zip(rows,rows[1:])) and all(0<=r<n for r in rows),(j,rows))
            for r,k in zip(rows,range(ap[j],ap[j+1])): d[r,j]=W.get(Ax,k)
        return d
    def solve(l,n,mat,b,xset):
        k=len(l.solves); bb=list(b)
        xs=[l.s.ctx.var(f'sol{k}_{i}',-1,1.5) for i in range(n)]
        for i,x in enumerate(xs): xset(i,x)
        l.solves.append((mat,bb,xs))
    def install(l):
        W,M=l.W,l.W.M; ctx=l.s.ctx
        for v,w in (('di',4),('dl',8)):
            def symb(M_,nr,nc,Ap,Ai,Ax,S,c,i,v=v):
                if nr<1: return -6                                            # an empty matrix is refused, nothing is set
                o=Ptr(Obj('symbolic',8),0); l.num[o]=(v,'s',nr,Ap,Ai,Ax); ctx.true('square matrix',nr==nc); M.store(S,o,8); return 0
            def nume(M_,Ap,Ai,Ax,S,N,c,i,v=v,w=w):
                if S is None: return -4
                k=l.num[S]; ctx.true('factorisation of the analysed matrix',k[:2]==(v,'s') and k[3:]==(Ap,Ai,Ax) and S not in l.freed)
                o=Ptr(Obj('numeric',8),0); l.num[o]=(v,'n',k[2],Ap,Ai,Ax,l.csc(k[2],Ap,Ai,Ax,w)); M.store(N,o,8); l.n+=1; r=l.info.get(l.n-1,0)
                return r
            def slv(M_,sy,Ap,Ai,Ax,X,B,N,c,i,v=v,w=w):
                k=l.num[N]; n=k[2]; ctx.true('solution with the factors of this matrix',sy==0 and k[:2]==(v,'n') and k[3:6]==(Ap,Ai,Ax) and N not in l.freed,(sy,k[:3]))
                d=l.csc(n,Ap,Ai,Ax,w); ctx.true('matrix as factorised',d==k[6])
                l.solve(n,d,vecs(W,B,n),lambda i,x: W.set(X,i,x)); return 0
            def free(M_,pp): 
                o=M.load(pp,8,'p')
                if o is not None: l.freed.add(o); M.store(pp,None,8)
            M.stubs[f'umfpack_{v}_symbolic']=symb; M.stubs[f'umfpack_{v}_numeric']=nume; M.stubs[f'umfpack_{v}_solve']=slv
            M.stubs[f'umfpack_{v}_free_symbolic']=free; M.stubs[f'umfpack_{v}_free_numeric']=free
        def dgesv(M_,n_,nrhs,A,lda,ip,xb,ldb,info):
            n=M.load(n_,4,'i'); ctx.true('dimensions of dgesv',M.load(nrhs,4,'i')==1 and M.load(lda,4,'i')==n and M.load(ldb,4,'i')==n)
            d={(i,j):W.get(A,i+n*j) for i in range(n) for j in range(n)}; d={k:v for k,v in d.items() if T.lift(v)!=T.ZERO}
            for k in range(n): W.set(ip,k,k+1,'i')
            l.solve(n,d,vecs(W,xb,n),lambda i,x: W.set(xb,i,x)); M.store(info,0,4)
        M.stubs['dgesv_']=dgesv
        # CHOLMOD / SuiteSparseQR: records as the structures of the library lay them out
        st=int(W.call('vs_cc_status'))
        def start(M_,cc): M.store(Ptr(cc.o,cc.f+st),0,4); return 1
        def asp(M_,nr,nc,nz,so,pk,sty,xt,cc):
            ctx.true('real unsymmetric packed sorted matrix',(so,pk,sty,xt)==(1,1,0,1),(so,pk,sty,xt))
            o=Ptr(Obj('cholmod_sparse',200),0)
            for k,v in ((0,nr),(8,nc),(16,nz),(24,Ptr(Obj('p',8*(nc+1)),0)),(32,Ptr(Obj('i',8*max(nz,1)),0)),(48,Ptr(Obj('x',8*max(nz,1)),0))): M.store(Ptr(o.o,k),v,8)
            M.store(Ptr(o.o,int(W.call('vs_chol_off',0))),xt,4); return o
        def ads(M_,nr,nc,ld,xt,cc):
            o=Ptr(Obj('cholmod_dense',200),0); ctx.true('one right-hand side',nc==1 and ld==nr and xt==1,(nr,nc,ld,xt))
            for k,v in ((0,nr),(8,nc),(16,nr),(24,ld)): M.store(Ptr(o.o,k),v,8)
            M.store(Ptr(o.o,int(W.call('vs_chol_off',1))),Ptr(Obj('x',8*nr),0),8); return o
        dx=lambda o: M.load(Ptr(o.o,int(W.call('vs_chol_off',1))),8,'p')
        def spm(A):
            n=M.load(A,8,'i'); f=lambda k: M.load(Ptr(A.o,k),8,'p'); return n,l.csc(n,f(24),f(32),f(48),8)
        def bs(M_,A,B,cc):
            n,d=spm(A); X=ads(M_,n,1,n,1,cc); p=dx(X); l.solve(n,d,vecs(W,dx(B),n),lambda i,x: W.set(p,i,x)); return X
        def fac(M_,od,tol,A,cc):
            o=Ptr(Obj('QR',8),0); n,d=spm(A); l.num[o]=(n,d); l.n+=1
            return o
        def qm(M_,meth,QR,B,cc):
            n,d=l.num[QR]; ctx.true('multiplication with Q^T',meth==0,meth); X=ads(M_,n,1,n,1,cc); l.num[X]=(QR,vecs(W,dx(B),n)); 
            for i in range(n): W.set(dx(X),i,ctx.var(f'q{len(l.num)}_{i}',-1,1))
            return X
        def qs(M_,sy,QR,QB,cc):
            n,d=l.num[QR]; q=l.num.get(QB); ctx.true('triangular solve of the vector multiplied before',q is not None and q[0]==QR and sy==1,(sy,)); X=ads(M_,n,1,n,1,cc); p=dx(X)
            l.solve(n,d,q[1] if q else [T.ZERO]*n,lambda i,x: W.set(p,i,x)); return X
        one=lambda M_,*a: 1
        def fr(M_,pp,cc):
            M.store(pp,None,8); return 1
        for k,v in dict(cholmod_l_start=start,cholmod_l_finish=one,cholmod_l_allocate_sparse=asp,cholmod_l_allocate_dense=ads,cholmod_l_check_sparse=one,cholmod_l_check_dense=one,cholmod_l_free_sparse=fr,cholmod_l_free_dense=fr,
                        SuiteSparseQR_C_backslash_default=bs,SuiteSparseQR_C_factorize=fac,SuiteSparseQR_C_qmult=qm,SuiteSparseQR_C_solve=qs,SuiteSparseQR_C_free=fr).items(): M.stubs[k]=v
def cmpsys(s,lab,sol,q,rhs,out,drop=None):
    """one system handed to a library: matrix, right-hand side and solution of the unknowns q"""
    ctx=s.ctx; mat,bb,xs=sol; n=len(q); ctx.true(f'{lab}: dimension',len(bb)==n,(len(bb),n))
    for p in range(n):
        for r in range(n):
            k=(q[p],q[r]); ctx.true(f'{lab}: pattern',((p,r) in mat)==(k in s.A),(p,r))
            if k in s.A and (p,r) in mat: ctx.eq(f'{lab}: matrix element',mat[p,r],s.A[k])
    for p,(b,j,k) in enumerate(q): ctx.eq(f'{lab}: right-hand side',bb[p],rhs[b,j][k]); ctx.eq(f'{lab}: solution',out[b,j][k],xs[p])
def dense(s,q): return numpy.array([[float(s.ctx.num(s.A[x,y])) if (x,y) in s.A else 0. for y in q] for x in q])
def nums(s,d,q): return numpy.array([float(s.ctx.num(d[b,j][k])) for b,j,k in q])
def setup(ctx,pars):
    s=Op(ctx); W=ctx.W
    for k,v in pars.items(): W.call('Sets',k,v,ret='v')
    cb=s.cb('v_op',s.op); l=None
    if ctx.sym: l=Lin(s); l.install()
    return s,W,W.L,cb,l
def direct(fn,order,pars={}):
    def f(ctx):
        s,W,L,cb,l=setup(ctx,pars); q=ORD[order](s); s.init('a','x'); rhs=s.init('b','b'); nr=W.arr([7])
        ret=W.call(fn,L['a'],L['b'],L['r'],L['c'],L['d'],5,1e-8,nr,cb,None); out=s.get(L['a']); bb=s.get(L['b'])
        ctx.true('success reported',ret==0,ret)
        for k in bb:
            for x,y in zip(bb[k],rhs[k]): ctx.eq('right-hand side unchanged',x,y)
        if ctx.sym:
            if ctx.true('one system solved',len(l.solves)==1,len(l.solves)): cmpsys(s,'system',l.solves[0],q,rhs,out)
            ctx.true('factors released',all(o in l.freed for o,k in l.num.items() if k[1] in ('s','n')) )
        else:
            for x,y in zip(nums(s,out,q),numpy.linalg.solve(dense(s,q),nums(s,rhs,q))): ctx.eq('solution of the system',float(x),float(y),tol=1e-9)
    return f
def fromlines(fn,order):
    """solvers that take the matrix itself"""
    def f(ctx):
        s,W,L,cb,l=setup(ctx,{}); q=ORD[order](s); n=len(q); s.init('a','x'); rhs=s.init('b','b')
        A=W.call('AllocateSparseVectorArray',n,ret='p'); W.call(f'SetMatrixLines{order}_slowly',A,cb,L['r'],L['a'],L['c'],L['d'],0,ret='v')
        ret=W.call(fn,A,L['a'],L['b'],0.,0); out=s.get(L['a']); ctx.true('success reported',ret==0,ret)
        if ctx.sym:
            if ctx.true('one system solved',len(l.solves)==1): cmpsys(s,'system',l.solves[0],q,rhs,out)
        else:
            for x,y in zip(nums(s,out,q),numpy.linalg.solve(dense(s,q),nums(s,rhs,q))): ctx.eq('solution of the system',float(x),float(y),tol=1e-9)
    return f
def callprec(ctx,prec,a):
    if ctx.sym: return ctx.W.M.callp(prec,list(a))
    return ctypes.CFUNCTYPE(None,P_,P_,P_,P_)(int(prec))(*[int(x) for x in a])
def sorit(order):
    """SOR_Iterator: the matrix of the operator and the vectors of the caller go to matrix_SOR, its result comes back"""
    par={'':'SetMatrixLines_slowly','_forSortedVars':'SetMatrixLines_forSortedVars_slowly'}[order]
    def f(ctx):
        s,W,L,cb,l=setup(ctx,{'GridIterators_SOR_matrix':par,'GridIterators_SOR_omega':'1.25'}); q=ORD[order](s); n=len(q); s.init('a','x'); rhs=s.init('b','b'); nr=W.arr([7]); seen=[]
        if ctx.sym:
            rs=ctx.var('res',0,1)
            def msor(M,A,m,x,b,om,im,tl,pr):
                ctx.true('number of lines',m==n); cmp_matrix(s,A,q,'Lines'); ctx.eq('omega',om,Fr(5,4)); ctx.true('iteration limit',im==5); ctx.eq('tolerance',tl,Fr(1,8)); ctx.true('norm returned to the caller',pr==nr)
                for i,(b_,j,k) in enumerate(q): ctx.eq('right-hand side',W.get(b,i),rhs[b_,j][k])
                for i in range(n): W.set(x,i,ctx.var(f'sol{i}',-1,1)); 
                seen.append(1); W.set(nr,0,rs); return -1
            W.M.stubs[res('matrix_SOR')]=msor
        ret=W.call('SOR_Iterator',L['a'],L['b'],L['r'],L['c'],L['d'],5 if ctx.sym else 500,0.125 if ctx.sym else 1e-11,nr,cb,None); out=s.get(L['a'])
        if ctx.sym:
            ctx.true('iterated once',seen==[1]); ctx.true('return code passed on',ret==-1,ret); ctx.eq('norm passed on',W.get(nr,0),rs)
            for i,(b,j,k) in enumerate(q): ctx.eq('solution',out[b,j][k],T.var(f'sol{i}'))
        else:
            ctx.true('converges',0<=ret<=500,ret)
            for x,y in zip(nums(s,out,q),numpy.linalg.solve(dense(s,q),nums(s,rhs,q))): ctx.eq('solution of the system',float(x),float(y),tol=1e-8)
    return f
def wtsolver(ctx):
    s,W,L,cb,l=setup(ctx,{}); q=ORD[''](s); n=len(q); s.init('a','x'); rhs=s.init('b','b'); nr=W.arr([7]); seen=[]
    if not ctx.sym:
        ret=W.call('WTsolver',L['a'],L['b'],L['r'],L['c'],L['d'],20000,1e-8,nr,cb,None); out=s.get(L['a']); true=float(numpy.sqrt(numpy.mean((dense(s,q)@nums(s,out,q)-nums(s,rhs,q))**2)))
        ctx.eq('reported norm is that of the residual of the returned vector',W.get(nr,0),true,tol=1e-7); ctx.true('return code: success exactly if the tolerance was met',(ret>=0)==(true<=1.000001e-8),(ret,true)); return
    rs=ctx.var('res',0,1)
    def wt(M,A,m,x,b,im,tl,pr):
        ctx.true('number of lines',m==n); cmp_matrix(s,A,q,'Lines'); ctx.true('iteration limit',im==5); ctx.eq('tolerance',tl,Fr(1,8)); ctx.true('norm returned to the caller',pr==nr)
        for i,(b_,j,k) in enumerate(q): ctx.eq('right-hand side',W.get(b,i),rhs[b_,j][k])
        for i in range(n): W.set(x,i,ctx.var(f'sol{i}',-1,1))
        seen.append(1); W.set(nr,0,rs); return 3
    W.M.stubs[res('WTiterator')]=wt
    ret=W.call('WTsolver',L['a'],L['b'],L['r'],L['c'],L['d'],5,0.125,nr,cb,None); out=s.get(L['a']); ctx.true('iterated once',seen==[1]); ctx.true('return code passed on',ret==3,ret); ctx.eq('norm passed on',W.get(nr,0),rs)
    for i,(b,j,k) in enumerate(q): ctx.eq('solution',out[b,j][k],T.var(f'sol{i}'))
def fdstate(s):
    """first-derivative matrices of all boxes"""
    W=s.W; r=[]
    for b in range(s.nb):
        for d in (1,2,3):
            n=W.call('vs_n',W.box[b],d); p=W.call('vs_mat',W.box[b],0,d,ret='p'); r+=[W.get(p,k) for k in range(n*n)]
    return r
def setglob(W,name,k,v,kind):
    if W.sym:
        p=W.M.glob(name,W.M.prog.globs[name][0]); w={'i':4,'l':8,'p':8}[kind]; W.M.store(Ptr(p.o,p.f+w*k),v,w)
    else:
        t={'i':ctypes.c_int,'l':ctypes.c_long,'p':P_}[kind]; base=ctypes.addressof(t.in_dll(W.lib,name))
        t.from_address(base+ctypes.sizeof(t)*k).value=ctypes.cast(v,P_).value if isinstance(v,ctypes._CFuncPtr) else int(v)
def faddr(W,name): return world.FP(name) if W.sym else W.addr(name)
def templ(ctx):
    """what the routines of the Templates library get: y=alpha A x+beta y, y=alpha A'x+beta y, the solution of the preconditioner"""
    s,W,L,cb,l=setup(ctx,{}); q=ORD[''](s); n=len(q); g=3
    pm={k:ctx.var(f'P{i}',0.2,1.5) for i,k in enumerate(q)}
    def prec(x,b,c1,c2):
        d=s.get(b); s.put(x,{(bb,j):[pm[bb,j,k]*v if ctx.sym else ctx.num(pm[bb,j,k])*ctx.num(v) for k,v in enumerate(d[bb,j])] for bb,j in d})
    cp=s.cb('v_prec',prec)
    setglob(W,'iglobal_fortemplates',0,g,'i'); setglob(W,'dim_fortemplates',g,n,'l')
    for nm,v in (('lop',cb),('r',L['r']),('x',L['a']),('c1',L['c']),('c2',L['d']),('precon',cp)): setglob(W,f'{nm}_fortemplates',g,v,'p')
    x=[ctx.var(f'x{i}',-1,1.5) for i in range(n)]; y=[ctx.var(f'y{i}',-1,1.5) for i in range(n)]; al=ctx.var('alpha',-2,2); be=ctx.var('beta',-2,2); pa,pb=W.arr([al]),W.arr([be])
    M=lambda tr: [sm((s.A[q[j],q[i]] if tr else s.A[q[i],q[j]])*x[j] for j in range(n) if ((q[j],q[i]) if tr else (q[i],q[j])) in s.A) for i in range(n)]
    xa,ya=W.arr(x),W.arr(y); W.call('matvec',pa,xa,pb,ya)
    for i,v in enumerate(M(False)): ctx.eq('alpha A x+beta y',W.get(ya,i),al*v+be*y[i]); ctx.eq('argument unchanged',W.get(xa,i),x[i])
    A=W.call('AllocateSparseVectorArray',n,ret='p'); W.call('SetMatrixColumns_slowly',A,cb,L['r'],L['a'],L['c'],L['d'],0,ret='v'); setglob(W,'Acol_fortemplates',g,A,'p')
    ya=W.arr(y); W.call('Acol_times_vec_trans',pa,xa,pb,ya)
    for i,v in enumerate(M(True)): ctx.eq("alpha A'x+beta y",W.get(ya,i),al*v+be*y[i]); ctx.eq('argument unchanged',W.get(xa,i),x[i])
    dm=[ctx.var(f'd{i}',0.2,2) for i in range(n)]; da=W.arr(dm); setglob(W,'DiagMinv_JacobiPrecon',0,da,'p')
    for nm,pf,w,trans in (('the preconditioner',cp,lambda i: pm[q[i]]*x[i],False),('Jacobi',faddr(W,'Jacobi_Preconditioner_from_DiagM'),lambda i: dm[i]*x[i],True),('the identity',faddr(W,'Preconditioner_I'),lambda i: x[i],True)):
        setglob(W,'precon_fortemplates',g,pf,'p')
        for fn in ('psolveLEFT',)+(('psolveLEFTtrans',) if trans else ()):
            ya=W.arr([7]*n); W.call(fn,ya,xa)
            for i in range(n): ctx.eq(f'{fn} applies {nm}',W.get(ya,i),w(i)); ctx.eq('argument unchanged',W.get(xa,i),x[i])
        ya=W.arr([7]*n); W.call('psolveQ',ya,xa,'LEFT' if not ctx.sym else W.M.newstr('LEFT'),None)
        for i in range(n): ctx.eq(f'psolveQ LEFT applies {nm}',W.get(ya,i),w(i))
        ya=W.arr([7]*n); W.call('psolveQ',ya,xa,'RIGHT' if not ctx.sym else W.M.newstr('RIGHT'),None)
        for i in range(n): ctx.eq('psolveQ RIGHT is the identity',W.get(ya,i),x[i])
FAM={'Jacobi':'linSolve_with_Jacobi_precon','SOR':'linSolve_with_SOR_precon','UMF':'linSolve_with_fd_UMFPACK_precon','Block':'linSolve_with_BlockJacobi_precon'}
def precon(fam,pars={},order='',split=(1,1,1),entry=None,zero=False,info={}):
    """the solver of the caller gets everything the caller passed and a preconditioner that solves M x=b, M the matrix of the operator
    (its diagonal, its blocks) on the grid switched to finite differences"""
    fd=pars.get('GridIterators_Preconditioner_type','fd')=='fd' or fam=='UMF'
    def f(ctx):
        s,W,L,cb,l=setup(ctx,{**pars,**({f'GridIterators_Preconditioner_BlockJacobi_nsb{k+1}':str(split[k]) for k in range(3)} if fam=='Block' else {})}); q=ORD[order](s); n=len(q)
        if l: l.info=info
        s.init('a','x'); rhs=s.init('b','b'); inp=s.fresh('e',0.2,1.5); s.put(L['e'],inp); s.init('f','f'); nr=W.arr([7]); tolv=ctx.var('tol',0.1,1.); calls=[]; msr=[]
        D0=fdstate(s); ranges(ctx)
        if zero:
            z={k:[T.ZERO if ctx.sym else 0.]*len(v) for k,v in inp.items()}; s.put(L['e'],z); inp=z
        if ctx.sym and fam=='SOR':
            def msor(M,A,m,x,b,om,im,tl,pr):
                ctx.true('number of lines',m==n); cmp_matrix(s,A,q,'Lines'); ctx.eq('omega',om,Fr(5,4)); ctx.true('iteration limit',im==33,im)
                bb=vecs(W,b,n); ctx.eq('tolerance relative to the right-hand side',tl,Fr(1,64)*T.fn('sqrt',sm(v*v for v in bb)))
                for i,(b_,j,k) in enumerate(q): ctx.eq('right-hand side',bb[i],inp[b_,j][k])
                for i in range(n): W.set(x,i,ctx.var(f'sol{i}',-1,1))
                W.set(pr,0,ctx.var('mres',0,1)); msr.append(1); return 5
            W.M.stubs[res('matrix_SOR')]=msor
        def ls(x,b,r,c1,c2,im,tl,pres,lop,prec):
            calls.append(1); same=lambda p,k: int(p)==int(L[k]) if not ctx.sym else p==L[k]
            ctx.true('solver gets the lists of the caller',all(same(p,k) for p,k in zip((x,b,r,c1,c2),'abrcd'))); ctx.true('solver gets the iteration limit',im==17,im); ctx.eq('solver gets the tolerance',tl,tolv)
            ctx.true('solver gets the operator',lop==cb if ctx.sym else int(lop)==ctypes.cast(cb,P_).value); ctx.true('norm returned to the caller',pres==nr if ctx.sym else int(pres)==int(nr))
            for k,v in s.get(L['b']).items():
                for y,z in zip(v,rhs[k]): ctx.eq('right-hand side unchanged',y,z)
            D1=fdstate(s)
            for y,z in zip(D0,D1): ctx.eq('grid restored',z,y)
            callprec(ctx,prec,(L['f'],L['e'],L['c'],L['d'])); out=s.get(L['f'])
            for k,v in s.get(L['e']).items():
                for y,z in zip(v,inp[k]): ctx.eq('argument of the preconditioner unchanged',y,z)
            if zero:
                for k,v in out.items():
                    for y in v: ctx.eq('zero is mapped to zero',y,T.ZERO)
            elif fam=='Jacobi':
                for b_,j,k in q: ctx.eq('inverse of the diagonal',out[b_,j][k],inp[b_,j][k]/s.A[(b_,j,k),(b_,j,k)] if ctx.sym else ctx.num(inp[b_,j][k])/ctx.num(s.A[(b_,j,k),(b_,j,k)]))
            elif fam=='Block':
                bl=[]
                for j in range(2):
                    for b_ in range(s.nb):
                        m=[W.call('vs_n',W.box[b_],d) for d in (1,2,3)]
                        for sk in range(split[2]):
                            for sj in range(split[1]):
                                for si in range(split[0]):
                                    rr=[range(c*w//k,(c+1)*w//k) for c,w,k in zip((si,sj,sk),m,split)]; bl.append([(b_,j,i+m[0]*(jj+m[1]*k)) for k in rr[2] for jj in rr[1] for i in rr[0]])
                if ctx.sym:
                    good=[g for i,g in enumerate(bl) if g and not info.get(i)]
                    if ctx.true('one system per block',len(l.solves)==len(good),(len(l.solves),len(bl))):
                        for g,sol in zip(good,sorted(l.solves,key=lambda z:0)): cmpsys(s,'block',sol,g,inp,out)
                    for i,g in enumerate(bl):
                        if info.get(i):
                            for b_,j,k in g: ctx.eq('singular block: inverse of the diagonal',out[b_,j][k],inp[b_,j][k]/s.A[(b_,j,k),(b_,j,k)])
                else:
                    for g in bl:
                        if g:
                            for y,z in zip(nums(s,out,g),numpy.linalg.solve(dense(s,g),nums(s,inp,g))): ctx.eq('solution of the block',float(y),float(z),tol=1e-9)
            elif fam=='UMF':
                if ctx.sym:
                    if ctx.true('one system solved',len(l.solves)==1): cmpsys(s,'system',l.solves[0],q,inp,out)
                else:
                    for y,z in zip(nums(s,out,q),numpy.linalg.solve(dense(s,q),nums(s,inp,q))): ctx.eq('solution of the system',float(y),float(z),tol=1e-9)
            elif fam=='SOR':
                if ctx.sym:
                    ctx.true('iterated once',msr==[1])
                    for i,(b_,j,k) in enumerate(q): ctx.eq('result of the iteration',out[b_,j][k],T.var(f'sol{i}'))
                else:
                    A=dense(s,q); bb=nums(s,inp,q); ctx.true('residual below the relative tolerance',float(numpy.linalg.norm(A@nums(s,out,q)-bb))<=float(numpy.linalg.norm(bb))/64*(1+1e-9))
            W.set(pres,0,ctx.var('solres',0.,1.)); return 4
        if ctx.sym:
            if entry:
                W.M.stubs[res(entry[1])]=lambda M,*a: ls(*a)
                ret=W.call(entry[0],L['a'],L['b'],L['r'],L['c'],L['d'],17,tolv,nr,cb,None)
            else:
                W.M.stubs['v_ls']=lambda M,*a: ls(*a)
                ret=W.call(FAM[fam],L['a'],L['b'],L['r'],L['c'],L['d'],world.FP('v_ls'),17,tolv,nr,cb)
        else:
            c=ctypes.CFUNCTYPE(ctypes.c_int,*([P_]*5+[ctypes.c_int,ctypes.c_double,P_,P_,P_]))(ls); s.keep.append(c)
            ret=W.call(FAM[fam],L['a'],L['b'],L['r'],L['c'],L['d'],c,17,float(ctx.num(tolv)),nr,cb)
        ctx.true('solver called once',len(calls)==1,len(calls)); ctx.true('return code passed on',ret==4,ret); ctx.eq('norm passed on',W.get(nr,0),T.var('solres'))
    return f
BASE=lambda: mk(True); RB=lambda: mk(False); SM=((2,2,1),(1,2,1)); BM=lambda: mk(True,SM); RM=lambda: mk(False,SM)
GB='at most {} iterations; arbitrary number of points, operator, preconditioner and vectors'
C=lambda n,f,**k: Case(n,f,base=BASE,rbase=RB,group='s',timeout=300,**k)
M=lambda n,f,**k: Case(n,f,base=BM,rbase=RM,group='m',timeout=400,bounded='two boxes of 4 and 2 points, two variables; arbitrary matrix elements with a fixed pattern of zeros',**k)
cases=[]
for im in (0,1,2,3):
    for cv in [None]+list(range(1,2*im+2)): cases.append(C(f'bicgstab itmax={im} converges at {cv}',bicg_sym(im,cv,None),bounded=GB.format(3)))
for br in (('rho',0),('rho',1),('rho',2),('omega',0)):
    for cv in (None,2,3): cases.append(C(f'bicgstab breakdown {br[0]} {br[1]} converges at {cv}',bicg_sym(3,cv,br),bounded=GB.format(3),real=False))
for im in (1,2,4):
    for cv in [None]+list(range(1,im+2)): cases.append(C(f'Newton itmax={im} converges at {cv}',newton_sym(im,cv),bounded=GB.format(4)))
cases+=[C('Newton linear solver fails',newton_sym(4,4,(1,)),bounded=GB.format(4)),C('Newton linear solver fails, quit',newton_sym(4,None,(1,),atmin='quit'),bounded=GB.format(4),real=False),
 C('Newton linear solver fails, next solver',newton_sym(3,3,(0,),atmin='AltLinSolver'),bounded=GB.format(4),real=False),C('Newton linear solvers fail, third solver',newton_sym(3,3,(0,1),atmin='AltLinSolver'),bounded=GB.format(4),real=False),
 C('Newton without reset',newton_sym(2,3,endj='none'),bounded=GB.format(4),real=False)]
cases+=[C(f'damped step, residual {"larger" if w else "smaller"}{", optimal" if o else ""}',backtrack(w,o),real=False) for w in (0,1) for o in (0,1)]
cases+=[C('partial step',partial),C('identity preconditioner',precI)]
for kd in ('Lines','Columns'):
    for o in ('','_forSortedVars'): cases.append(M(f'matrix {kd}{o}',matrix(kd,o)))
cases+=[M('matrix, small elements',drop),M('matrix of one variable in one box',onebox)]+[M(f'matrix of a sub-box {sp}',subbox(sp)) for sp in ((1,1,1),(2,1,1),(1,2,1),(2,2,1))]
N1=lambda n,f,**k: Case(n,f,base=BM,rbase=RM,group='l',timeout=300,**k)
for n in (1,2,3,4): cases.append(N1(f'SOR step, {n} lines',sorstep(n),bounded='matrices of up to 4 lines with arbitrary elements'))
for fn in ('matrix_SOR','WTiterator'):
    for im in (0,1,3):
        for cv in [None]+list(range(0,im+1)): cases.append(N1(f'{fn} itmax={im} converges at {cv}',matit(fn,im,cv),bounded='at most 3 iterations, 3 lines; arbitrary matrix and vectors'))
cases.append(N1('WTiterator with bad steps',matit('WTiterator',3,3,2),bounded='at most 3 iterations, 3 lines; arbitrary matrix and vectors',real=False))
cases.append(M('Templates callbacks',templ))
for o in ('','_forSortedVars'): cases.append(M(f'SOR_Iterator{o}',sorit(o)))
cases+=[M('WTsolver',wtsolver),M('LAPACK_dgesv_wrapper',direct('LAPACK_dgesv_wrapper','')),M('SuiteSparseQR_solve_wrapper',direct('SuiteSparseQR_solve_wrapper',''))]
for v in ('di','dl'): cases.append(M(f'UMFPACK_solve_wrapper {v}',direct('UMFPACK_solve_wrapper','',{'GridIterators_UMFPACK_version':v})))
cases.append(M('UMFPACK_solve_forSortedVars_wrapper',direct('UMFPACK_solve_forSortedVars_wrapper','_forSortedVars',{'GridIterators_UMFPACK_version':'di'})))
for o in ('','_forSortedVars'): cases.append(M(f'umfpack_di_solve{o}_fromAlines',fromlines(f'umfpack_di_solve{o}_fromAlines',o)))
SP={'GridIterators_Preconditioner_type':'spectral'}; SO={'GridIterators_SOR_omega':'1.25','GridIterators_Preconditioner_itmax':'33','GridIterators_Preconditioner_reltol':'0.015625'}
PR=[('Jacobi',SP,'',(1,1,1)),('UMF',{'GridIterators_UMFPACK_version':'di'},'',(1,1,1)),('UMF',{'GridIterators_UMFPACK_version':'dl'},'',(1,1,1)),('SOR',{**SP,**SO},'',(1,1,1)),
 ('SOR',{**SP,**SO,'GridIterators_SOR_matrix':'SetMatrixLines_forSortedVars_slowly'},'_forSortedVars',(1,1,1)),('Jacobi',{},'',(1,1,1)),('SOR',SO,'',(1,1,1)),('Block',SP,'',(1,1,1)),('Block',SP,'',(2,1,1)),('Block',SP,'',(1,2,1)),('Block',{},'',(1,1,1)),('Block',{'GridIterators_Preconditioner_type':'SPQR'},'',(1,1,1)),('Block',{'GridIterators_Preconditioner_type':'SPQR'},'',(1,2,1))]
for fam,pp,o,sp in PR: cases.append(M(f'preconditioner {fam} {" ".join(v for k,v in pp.items() if k.split("_")[-1] in ("type","version","matrix")) or "fd"} split {sp}',precon(fam,pp,o,sp)))
cases+=[M('preconditioner Block, singular block',precon('Block',SP,'',(1,1,1),info={1:1}),real=False)]
cases+=[M(f'preconditioner {fam} of zero',precon(fam,{**SP,**SO},zero=True)) for fam in ('Jacobi','SOR')]
for fam,sfx in (('Jacobi','_Jacobi_precon'),('SOR','_SOR_precon'),('Block','_BlockJacobi_precon'),('UMF','_fd_UMFPACK_precon')):
    for sv in ('bicgstab','templates_gmres_wrapper','templates_bicgstab_wrapper','templates_cgs_wrapper')+(('templates_qmr_wrapper','templates_bicg_wrapper') if fam in ('Jacobi','Block') else ()):
        cases.append(M(f'{sv}_with{sfx}',precon(fam,{**SP,**SO},'',(1,1,1),entry=(f'{sv}_with{sfx}',sv)),real=False))
if __name__=='__main__':
    main('C20',cases,level='proof',assumptions=['all boxes have the same symbolic number of points N>=1 (iterative solvers)','real arithmetic'],
     trusted=['UMFPACK (symbolic/numeric/solve), LAPACK dgesv, CHOLMOD/SuiteSparseQR: assumed to solve the system they are given (singular pieces reported by their status)','libraries TEMPLATES and ZIB are not compiled in: only the wrappers around the call-backs of TEMPLATES are under contract'])
