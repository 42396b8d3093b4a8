"""Runner shared by all checks.

A property is a list of Cases.  A Case is one Python function fn(ctx) that drives functions of /repo and states
their contracts as  ctx.eq(label, got, want) / ctx.true(label, cond).  It is executed in two worlds:

  deductive   ctx.sym: the functions are executed symbolically over the LLVM IR of /repo's current sources, for symbolic
              field values, parameters and (where the case asks for it) symbolic sizes; every eq is an obligation handed to
              the back ends of decide.py; paths are forked and each path's obligations are generated.
  real        the same script against the natively compiled code; used (a) to replay every refuted obligation on the
              counterexample and on random inputs, (b) as bounded stand-in for what the deductive layer cannot decide.

A violation is reported only when the real code disagrees with the contract on a concrete input."""
import re, os, sys, json, time, random, traceback, pickle, select, signal, math, hashlib, fnmatch
from fractions import Fraction as Fr
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('OMP_NUM_THREADS','2'); os.environ.setdefault('OPENBLAS_NUM_THREADS','1')
import terms as T, decide, build, world
from world import Sym, Real, Machine, Undecided, PathEnd, MemError, Infeasible, IE, ICond, Obj, Ptr, FP
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NPROC=8

class Skip(Exception): pass
class Mismatch(Exception): pass

class Ctx:
    def __init__(s,sym,W,env=None,seed=1,decisions=()):
        s.sym=sym; s.W=W; s.env=env if env is not None else {}; s.rng=random.Random(f'ctx{seed}'); s.seed=seed
        s.dom={}; s.obl=[]; s.defs={}; s.cex={}; s.notes=[]; s.covered=set(); s.tol=1e-8; s.special={}
        if not sym: W.env=s.env
    # ---- inputs
    def var(s,name,lo=0.3,hi=1.7):
        """real-valued input"""
        s.dom[name]=(lo,hi)
        if not s.sym and name not in s.env:
            s.env[name]=s.pick(name,lo,hi)
        return T.var(name)
    def pick(s,name,lo,hi):
        if name in s.cex: return s.cex[name]
        if '@' in name:
            g=name.split('@')[0]+'@I'
            if g in s.cex: return s.cex[g]
        return s.rng.uniform(lo,hi)
    def field(s,name,n,lo=0.3,hi=1.7,sym_init=None):
        """array of n doubles (n may be symbolic in the deductive world)"""
        if s.sym:
            o=Obj(name,n*8,None); s.dom[name+'@*']=(lo,hi)
            def init(f,sz,kind,name=name):
                idx=f//8 if type(f) is int else f.divexact(8)
                if idx is None: raise Undecided('unaligned read')
                v=T.var(f'{name}@{idx}')
                return v
            o.init=init
            return Ptr(o,0)
        vals=[]
        for i in range(n):
            nm=f'{name}@{i}'
            if nm not in s.env: s.env[nm]=s.pick(nm,lo,hi)
            vals.append(s.env[nm])
        return s.W.arr(vals,name)
    def choose(s,name,seq):
        if name in s.cex: s.env[name]=s.cex[name]
        if name not in s.env: s.env[name]=s.rng.choice(list(seq))
        return s.env[name]
    def num(s,t):
        """value in the real world"""
        return evalnum(t,s.env)
    # ---- contracts
    def eq(s,label,got,want,tol=None,scale=1.0,**opt):
        s.obl.append(('eq',label,got,want,tol or s.tol,scale,opt))
    def true(s,label,cond,info=''):
        s.obl.append(('true',label,bool(cond),str(info)[:300],None,None,{}))
        return bool(cond)
    def rejects(s,label,fn):
        """the code must refuse: errorexit (process ends with a failure status).  Nothing of the world may be used afterwards in the deductive layer."""
        if s.sym:
            try: fn()
            except PathEnd: s.true(label,True); return
            s.true(label,False,'returned'); return
        pid=os.fork()
        if pid==0:
            try: fn()
            except BaseException: pass
            os._exit(0)
        st=os.waitpid(pid,0)[1]
        s.true(label,os.WIFEXITED(st) and os.WEXITSTATUS(st)!=0,f'status {st}')
    def ieq(s,label,got,want):
        """integers that may be symbolic"""
        if type(got) is int and type(want) is int: s.true(label,got==want,f'{got} instead of {want}'); return
        if got is None or want is None or isinstance(got,(Ptr,)) : s.true(label,got is want or got==want,f'{got} instead of {want}'); return
        s.true(label,s.W.M.entails(ICond('eq',got,want)) is True,f'{got} instead of {want}')
    def cover(s,*names): s.covered.update(names)
    # ---- real/ symbolic helpers
    def call(s,*a,**k): return s.W.call(*a,**k)
    def domain(s,path=()):
        vs=s.dom
        def d(rng):
            env={}
            for k,(lo,hi) in vs.items():
                if not k.endswith('@*'): env[k]=Fr(rng.uniform(lo,hi)).limit_denominator(100000)
            return env
        return d

class DefEnv(dict):
    """variable values: explicit, else by array default ranges"""
def evalnum(t,env):
    if isinstance(t,(int,float,Fr)): return float(t)
    if t is None: raise ValueError('None')
    import mpmath
    old=mpmath.mp.dps; mpmath.mp.dps=30
    try:
        r=T.evalf(t,lambda n: mpmath.mpf(env[n]),mpmath)
        if isinstance(r,mpmath.mpc): return float('nan')
        return float(r)
    except ZeroDivisionError: return float('nan')
    finally: mpmath.mp.dps=old

class Case:
    def __init__(s,name,fn,base=None,sym=True,real=1,group=None,maxpaths=64,timeout=240,tier='quick',bounded=None,note='',rbase=None,pathskip=None,paths_required=None):
        s.name=name; s.fn=fn; s.base=base; s.sym=sym; s.real=real; s.maxpaths=maxpaths; s.timeout=timeout; s.tier=tier
        s.bounded=bounded; s.note=note; s.rbase=rbase
        s.group=group if group is not None else (id(base) if base else 0)

# ---------------------------------------------------------------- forked execution with a bounded pool
class Pool:
    def __init__(s,n=NPROC): s.n=n; s.live={}
    def run(s,tasks,on,deadline):
        """tasks: list of (key,fn,timeout) (may grow through on's return value)"""
        q=list(tasks); res={}
        while q or s.live:
            while q and len(s.live)<s.n and time.time()<deadline:
                key,fn,to=q.pop(0); s.spawn(key,fn,min(to,deadline-time.time()))
            if not s.live:
                if q:
                    for key,fn,to in q: on(key,('timeout',))
                return
            fds=list(s.live); rl,_,_=select.select(fds,[],[],1.0)
            now=time.time()
            for fd in fds:
                st=s.live[fd]
                if fd in rl:
                    d=os.read(fd,1<<20)
                    if d: st['buf']+=d; continue
                    os.close(fd); _,w=os.waitpid(st['pid'],0); del s.live[fd]
                    r=None
                    if st['buf']:
                        try: r=pickle.loads(st['buf'])
                        except Exception as e: r=('exc','unpickle '+str(e))
                    if r is None and st['ph'][0]==0: r=('setup',w,'died during set-up')
                    if r is None:
                        err=''
                        try: err=open(st['err'],errors='replace').read()[-600:]
                        except OSError: pass
                        r=('signal',os.WTERMSIG(w),err) if os.WIFSIGNALED(w) else ('exit',os.WEXITSTATUS(w),err)
                    try: os.remove(st['err'])
                    except OSError: pass
                    q.extend(on(st['key'],r) or [])
                elif now>st['end']:
                    try: os.killpg(st['pid'],signal.SIGKILL)
                    except OSError: pass
                    try: os.kill(st['pid'],signal.SIGKILL)
                    except OSError: pass
                    os.close(fd); os.waitpid(st['pid'],0); del s.live[fd]
                    try: os.remove(st['err'])
                    except OSError: pass
                    q.extend(on(st['key'],('timeout',)) or [])
    def spawn(s,key,fn,to):
        r,w=os.pipe(); ef=f'{build.BUILD}/.err.{os.getpid()}.{time.time_ns()}'
        sys.stdout.flush(); sys.stderr.flush()
        import mmap
        ph=mmap.mmap(-1,16)
        pid=os.fork()
        if pid==0:
            try:
                os.close(r); os.setpgid(0,0)
                for fd in s.live: os.close(fd)
                import resource
                resource.setrlimit(resource.RLIMIT_CORE,(0,0))
                dn=os.open('/dev/null',os.O_RDWR); e=os.open(ef,os.O_WRONLY|os.O_CREAT|os.O_TRUNC,0o600)
                os.dup2(dn,0); os.dup2(dn,1); os.dup2(e,2)
                global PHASE
                PHASE=ph
                try: res=('ok',fn())
                except BaseException as ex: res=('exc',traceback.format_exc()[-3000:])
                with os.fdopen(w,'wb') as f: pickle.dump(res,f)
            finally: os._exit(0)
        os.close(w)
        s.live[r]={'pid':pid,'key':key,'end':time.time()+to,'buf':b'','err':ef,'ph':ph}

# ---------------------------------------------------------------- leaf tasks
def run_sym(case,mk,decisions,seed):
    t0=time.time()
    if PHASE is not None: PHASE[0]=1
    W=mk()
    M=W.M; M.dec=list(decisions); M.dpos=0
    ctx=Ctx(True,W,seed=seed)
    out={'decisions':None,'res':[],'end':None,'calls':{},'smt':0}
    try: case.fn(ctx)
    except PathEnd as e: out['end']=('pathend',str(e))
    except MemError as e:
        out["end"]=("memerror",str(e))
        if os.environ.get("VTRACE"): traceback.print_exc(file=open("/tmp/vtrace","w"))
    except Infeasible as e: out['end']=('infeasible',str(e))
    except Skip as e: out['end']=('skip',str(e))
    except Undecided as e: out['end']=('undecided',str(e)[:400])
    except T.DivZero as e: out['end']=('undecided','divzero')
    out['dpos']=M.dpos; out['dec']=M.dec[:M.dpos]; out['path']=[(T.show(c) if isinstance(c,T.Term) else repr(c),b) for c,b in M.path]
    out['calls']={k:v for k,v in M.calls.items() if not k.startswith('vs_') and not k.startswith('vl_')}
    out['t_exec']=time.time()-t0
    conds=[(c,b) for c,b in M.path if isinstance(c,T.Term)]
    sub={}; degenerate=None
    for c,b in conds:
        if c.op=='cmp' and c.a[0]=='eq' and b:
            x,y=c.a[1],c.a[2]
            if x.op=='v' and not T.variables(y): sub[x.a[0]]=y
            elif y.op=='v' and not T.variables(x): sub[y.a[0]]=x
            elif x.op=='v' and y.op=='v': sub[x.a[0]]=y
            else: degenerate=T.show(c)
    def pathok(env):
        import mpmath
        for c,b in conds:
            if c.op=='cmp' and c.a[0]=='eq': continue
            try: r=bool(T.evalf(c,lambda n:env[n] if n in env else mpmath.mpf(0.5),mpmath))
            except Exception: return False
            if r!=b: return False
        return True
    funs=getattr(W,'funs',None)
    dom=ctx.domain()
    vs_all=sorted(set(T.variables([c for c,_ in conds])))
    wild=[(k[:-2],r) for k,r in ctx.dom.items() if k.endswith('@*')]
    def domain_for(terms):
        names=sorted(set(T.variables(terms))|set(vs_all))
        hints=[]
        for c,b in conds:
            if c.op=='cmp':
                x,y=c.a[1],c.a[2]
                for u,w in ((x,y),(y,x)):
                    if u.op=='v' and not T.variables(w):
                        try: hints.append((u.a[0],float(T.evalf(w,{}))))
                        except Exception: pass
        def d(rng):
            for t in range(1500):
                env=dom(rng)
                if t>=100:   # widen: other magnitudes, some inputs small, values near the constants compared with
                    sc=10**rng.uniform(-3,3) if t%2 else 1
                    for k in list(env):
                        if t%3==0 and rng.random()<.5: env[k]=env[k]*Fr(rng.choice((1,-1,1,1,100)),rng.choice((1,1,10,100,1000)))
                for u,w in hints:
                    if rng.random()<.7: env[u]=Fr(w+(rng.choice((-1,1))*10**rng.uniform(-3,1))*max(1e-3,abs(w) if rng.random()<.7 else 1)).limit_denominator(10**7)
                for n in names:
                    if n not in env:
                        r=next((r for k,r in wild if n.startswith(k+'@')),(0.3,1.7))
                        env[n]=Fr(rng.uniform(*r)).limit_denominator(100000)
                        if t>=100 and rng.random()<(.9 if t%4==0 else .4): env[n]=env[n]/rng.choice((10,100,1000,-10,-1000))
                for k,v in sub.items():
                    env[k]=Fr(T.evalf(v,{})).limit_denominator(10**9) if not T.variables(v) else env.get(T.variables(v)[0],0)
                if not conds or pathok({k:float(v) for k,v in env.items()}): return env
            raise decide.DomainFail()
        return d
    ctl=False
    for kind,label,got,want,tol,scale,opt in ctx.obl:
        t1=time.time()
        if kind=='res': out['res'].append((label,got,want,tol,0.0)); continue
        if kind=='true':
            out['res'].append((label,'ok' if got else 'bad','concrete',None if got else want,0.0)); continue
        try:
            if isinstance(got,(int,)) and isinstance(want,int) or isinstance(got,IE) or isinstance(want,IE):
                d=got-want
                if isinstance(d,int): r=decide.Result('ok' if d==0 else 'bad','int',None if d==0 else (got,want))
                else:
                    e=M.entails(ICond('eq',got,want)); r=decide.Result('ok' if e else 'bad' if e is False else 'unknown','z3',repr((got,want)))
            else:
                if got is world.UNDEF or type(got).__name__=='UndefV': r=decide.Result('bad','undef','undefined value')
                else:
                    g,w=T.lift(got),T.lift(want)
                    if sub: g,w=T.subst(g,sub),T.subst(w,sub)
                    try: r=decide.equal(g,w,domain_for([g,w]),seed=seed,special=opt.get('special') or ctx.special or None,funs=funs,points=opt.get('points',6),path=conds)
                    except decide.DomainFail: r=decide.Result('unknown','domain','no input reaches this path in the sampled domain')
                    if r.status!='ok' and degenerate: r=decide.Result('unknown','degenerate',degenerate)
                    if r.status=='ok' and not ctl and r.method!='syntactic':
                        # vacuity control: the same obligation with a perturbed contract must be refuted
                        try: rc=decide.equal(g,T.add(T.mul(w,T.const(Fr(1001,1000))),T.const(Fr(1,997))),domain_for([g,w]),seed=seed,special=opt.get('special') or ctx.special or None,funs=funs,points=3,path=conds)
                        except decide.DomainFail: rc=None
                        if rc is not None and rc.status=='ok': r=decide.Result('unknown','vacuity','perturbed contract was accepted')
                        ctl=True
        except Exception as e: r=decide.Result('unknown','error',traceback.format_exc()[-400:])
        info=r.info
        if r.status=='bad' and isinstance(info,tuple) and isinstance(info[0],dict):
            info=({k:float(v) for k,v in info[0].items()},)+tuple(info[1:])
        elif info is not None: info=str(info)[:400]
        out['res'].append((label,r.status,r.method,info,time.time()-t1))
    out['ctl']=ctl; out['smt']=getattr(M,'smt',0); out['notes']=ctx.notes; out['oob']=list(getattr(M,'oob',[]))[:20]
    return out

PHASE=None
def run_real(case,mk,cex,seed):
    W=mk()
    if PHASE is not None: PHASE[0]=1
    ctx=Ctx(False,W,seed=seed); ctx.cex=cex or {}
    W.env=ctx.env
    try: case.fn(ctx)
    except Skip as e: return {'bad':[],'n':0,'skip':str(e)}
    bad=[]; n=0; worst=0.0
    for kind,label,got,want,tol,scale,opt in ctx.obl:
        n+=1
        if kind=='true':
            if not got: bad.append((label,'false',want))
            continue
        try: g=evalnum(got,ctx.env); w=evalnum(want,ctx.env)
        except KeyError as e: raise
        sc=max(abs(g),abs(w),scale) if math.isfinite(g) and math.isfinite(w) else 1
        d=abs(g-w)
        if math.isnan(w): continue       # contract itself undefined there
        if not d<=tol*sc: bad.append((label,g,w))
        else: worst=max(worst,d/sc)
    env={k:v for k,v in ctx.env.items() if isinstance(v,(int,float,str,list,tuple,bool))}
    if len(env)>400: env={k:env[k] for k in list(env)[:400]}
    return {'bad':bad,'n':n,'env':env if bad else None,'worst':worst}

# ---------------------------------------------------------------- driver
RESOURCE=r'(?i)timeout|timed out|time limit|budget|out of memory|MemoryError|signal|killed'
def group_proc(pid,group,cases,seed,tier,deadline,wfd,nproc):
    """runs all cases that share a symbolic base; streams results"""

class Check:
    def __init__(s,pid,cases,level='proof',trusted=(),assumptions=(),technique='',bounded_note='',min_obl=1,extra=None,open_=()):
        s.pid=pid; s.cases=cases; s.level=level; s.trusted=list(trusted); s.assume=list(assumptions); s.min_obl=min_obl; s.extra=extra; s.open=list(open_)
    def known(s):
        out=[]
        try:
            for l in open(HERE+'/known-findings.txt'):
                l=l.strip()
                if l.startswith('finding:'):
                    f=l[8:].split(None,2)
                    if f[0]==f'property={s.pid}': out.append((f[1].split('=',1)[1],f[2]))
        except OSError: pass
        return out
    def main(s):
        import argparse
        ap=argparse.ArgumentParser(); ap.add_argument('--replay'); ap.add_argument('--tier',default=os.environ.get('VERIF_TIER','quick')); ap.add_argument('--case'); ap.add_argument('-v',action='store_true'); ap.add_argument('--nosym',action='store_true'); ap.add_argument('--noreal',action='store_true'); ap.add_argument('--budget',type=float)
        a=ap.parse_args()
        seed=int(os.environ.get('VERIF_SEED','1'))
        if a.replay: return s.replay(a.replay)
        t0=time.time()
        budget=a.budget or (700 if a.tier=='quick' else 3400)
        deadline=t0+budget
        cases=[c for c in s.cases if (a.tier=='thorough' or c.tier=='quick') and (not a.case or fnmatch.fnmatch(c.name,a.case))]
        R={}    # case -> record
        for c in cases: R[c.name]={'paths':[],'real':[],'fail':[],'symstate':None}
        st={'undec':[], 'ok':0,'meth':{}, 'bad':[], 'tsolve':0.0,'texec':0.0,'funcs':{},'smt':0,'ctl':0,'npaths':0,'pathend':0}
        build_err=None
        try:
            world.program('main') if any(c.sym for c in cases) and any(getattr(c,'conf','main')=='main' for c in cases) else None
            confs={getattr(c,'conf','main') for c in cases}
            for cf in confs:
                if any(c.sym for c in cases if getattr(c,'conf','main')==cf): world.program(cf)
                if any(c.real for c in cases if getattr(c,'conf','main')==cf) : world.reallib(cf)
        except build.BuildError as e: build_err=str(e)[-1500:]
        if build_err:
            print('cannot build /repo:',build_err); s.finish(a,seed,t0,cases,R,st,[],['build failed: '+build_err[:300]]); return 2
        bases={}
        def basefor(c):
            if c.base is None: return (lambda c=c: Sym(getattr(c,'conf','main')))
            k=c.group
            if getattr(c,'lazy',False): return c.base        # built in the forked child
            if k not in bases:
                try: bases[k]=('ok',c.base())
                except (Undecided,PathEnd,MemError) as e: bases[k]=('err',f'{type(e).__name__}: {e}')
                except Exception as e: bases[k]=('err',traceback.format_exc()[-500:])
            b=bases[k]
            if b[0]=='err': return b[1]
            return lambda: b[1]
        pool=Pool()
        if not a.nosym:
            tasks=[]
            for c in cases:
                if not c.sym: continue
                mk=basefor(c)
                if isinstance(mk,str): R[c.name]['symstate']='base: '+mk; st['undec'].append((c.name,'*','base: '+mk[:300])); continue
                c._mk=mk
                tasks.append(((c,()),(lambda c=c,mk=mk: run_sym(c,mk,(),seed)),c.timeout))
            def on(key,r):
                c,dec=key; rec=R[c.name]; new=[]
                if r[0]!='ok':
                    st['undec'].append((c.name,'*',f'{r[0]} {str(r[1])[-500:] if len(r)>1 else ""}')); return
                o=r[1]; st['npaths']+=1; st['texec']+=o['t_exec']; st['smt']+=o['smt']
                if o.get('ctl'): st['ctl']+=1
                for k,v in o['calls'].items(): st['funcs'][k]=st['funcs'].get(k,0)+v
                rec['paths'].append(o)
                e=o['end']
                if e:
                    if e[0]=='undecided': st['undec'].append((c.name,'*',e[1]))
                    elif e[0]=='memerror': st['bad'].append((c,'memory-safety',e[1],{},'exec')); 
                    elif e[0]=='pathend': st['pathend']+=1; st['undec'].append((c.name,'*','the program ends (errorexit) on a path the preconditions allow'))
                for label,status,meth,info,dt in o['res']:
                    st['tsolve']+=dt
                    if status=='ok' and meth=='mp': st.setdefault('mp',[]).append((c.name,label,info))
                    if status=='ok': st['ok']+=1; st['meth'][meth]=st['meth'].get(meth,0)+1
                    elif status=='bad':
                        cex=info[0] if isinstance(info,tuple) else {}
                        st['bad'].append((c,label,info,cex,meth))
                    else: st['undec'].append((c.name,label,f'{meth} {info}'))
                # fork siblings
                full=o['dec']
                for i in range(len(dec),len(full)):
                    if full[i] is True:
                        nd=full[:i]+[False]
                        rec['np']=rec.get('np',1)+1
                        if rec['np']>c.maxpaths: 
                            if not rec.get('pl'): st['undec'].append((c.name,'*','path limit')); rec['pl']=1
                            break
                        new.append(((c,tuple(nd)),(lambda c=c,nd=tuple(nd): run_sym(c,c._mk,nd,seed)),c.timeout))
                return new
            pool.run(tasks,on,t0+budget*0.75)
            for c in cases:
                p=R[c.name].get('paths')
                if p and not any(o['res'] for o in p) and not any(o['end'] and o['end'][0] in('memerror','undecided','pathend') for o in p): st['undec'].append((c.name,'*','no obligations'))
        # ---- real world: replays of refuted obligations + random samples
        viol=[]; realn=0; realobl=0; undec_replay=[]; rerr=[]; worst=0.0
        if not a.noreal:
            tasks=[]
            def mkreal(c):
                if c.rbase: return c.rbase
                return lambda: Real(getattr(c,'conf','main'))
            perc={}
            for c,label,info,cex,meth in st['bad']: perc.setdefault(c.name,(c,[]))[1].append(cex)
            for c in cases:
                if not c.real: continue
                mk=mkreal(c)
                n=c.real
                und=any(u[0]==c.name for u in st['undec'])
                if und or c.name in perc: n=max(n,6)
                if a.tier=='thorough': n*=4
                for k in range(n): tasks.append(((c,'random',k),(lambda c=c,mk=mk,k=k: run_real(c,mk,{},seed*1000+k)),c.timeout))
                if c.name in perc:
                    seen=set()
                    for cex in perc[c.name][1][:12]:
                        h=repr(sorted(cex.items()))
                        if h in seen: continue
                        seen.add(h)
                        tasks.insert(0,((c,'cex',cex),(lambda c=c,mk=mk,cex=cex: run_real(c,mk,cex,seed)),c.timeout))
            def on2(key,r):
                nonlocal realn,realobl,worst
                c,kind,k=key; realn+=1
                if r[0]=='ok':
                    o=r[1]; realobl+=o['n']; worst=max(worst,o.get('worst',0))
                    if o['bad']: viol.append((c,kind,k,o['bad'],o['env']))
                elif r[0]=='signal': viol.append((c,kind,k,[('crash',f'signal {r[1]}',r[2])],k if kind=='cex' else {'seed':seed*1000+k}))
                elif r[0]=='exit' and r[1]!=0: viol.append((c,kind,k,[('exit',f'program terminated with status {r[1]}: {str(r[2])[-200:]}','')],k if kind=='cex' else {'seed':seed*1000+k}))
                else:
                    rerr.append((c.name,kind,str(r)[-700:]))
            pool.run(tasks,on2,deadline)
        bad_unreplayed=[]
        vc={v[0].name for v in viol}
        for c,label,info,cex,meth in st['bad']:
            if c.name not in vc:
                if not c.real or a.noreal: bad_unreplayed.append((c,label,info,cex,meth))
                else: st['undec'].append((c.name,label,f'refuted by {meth} but the real code agrees with the contract on the replayed input: {str(info)[:300]}'))
        st['real']=(realn,realobl,worst); st['rerr']=rerr
        return s.finish(a,seed,t0,cases,R,st,viol,[],bad_unreplayed)
    def finish(s,a,seed,t0,cases,R,st,viol,notes,unrep=()):
        pid=s.pid; evd=os.environ.get('VERIF_EVIDENCE',HERE+'/evidence'); os.makedirs(evd,exist_ok=True)
        known=s.known(); rep=[]; kf=[]
        for c,kind,k,bad,env in viol:
            left=[]
            for b in bad:
                key=f'{c.name}:{b[0]}'
                m=next((w for p,w in known if fnmatch.fnmatchcase(key,p)),None)
                if m: kf.append((key,m))
                else: left.append(b)
            if left: rep.append((c,kind,k,left,env))
        unrep=[u for u in unrep if not any(fnmatch.fnmatchcase(f'{u[0].name}:{u[1]}',p) for p,_ in known)]
        # obligations the verifier did not accept for a reason other than running out of time or memory
        hard=[u for u in st['undec'] if not re.search(RESOURCE,str(u[2])) and not any(fnmatch.fnmatchcase(f'{u[0]}:{u[1]}',p) for p in s.open) and not any(fnmatch.fnmatchcase(f'{u[0]}:{u[1]}',p) for p,_ in known)]
        tot=st['ok']+len(st['undec'])+len(st['bad'])
        cov={'obligations':tot,'discharged':st['ok'],
             'checker_cmd':f'python3-vt /verif/checks/{pid}.py --tier {a.tier}',
             'trusted_base':['clang 18 front end and the opt passes '+build.PASSES+' (C to LLVM IR)','vlib/exec.py symbolic executor and vlib/llir.py IR reader','vlib/decide.py (polynomial identity test over a 377-bit prime field tower, mpmath 60 digits, z3 for integer conditions)','libc/libm contracts in vlib/exec.py']+s.trusted,
             'functions_under_contract':sorted(st['funcs']),'functions_under_contract_count':len(st['funcs']),
             'discharged_by':st['meth'],'solver_seconds':round(st['tsolve'],2),'execution_seconds':round(st['texec'],2),'smt_queries':st['smt'],
             'paths':st['npaths'],'paths_ending_in_exit':st['pathend'],'vacuity_controls_refuted':st['ctl'],
             'undischarged':[list(map(str,u)) for u in st['undec']][:60],'undischarged_count':len(st['undec']),
             'refuted':[[c.name,l,str(i)[:200]] for c,l,i,_,_ in st['bad']][:40],
             'real_code_runs':st.get('real',(0,0,0))[0],'real_code_contract_evaluations':st.get('real',(0,0,0))[1],'real_code_worst_rel_error':st.get('real',(0,0,0))[2],
             'real_errors':st.get('rerr',[])[:20],
             'bounded_cases':[f'{c.name}: {c.bounded}' for c in cases if c.bounded],
             'cases':[c.name for c in cases],
             'inexact_literals':sorted(map(repr,T.inexact_literals))[:40]}
        if s.level!='proof':
            cov.update({'evaluations':st.get('real',(0,0,0))[1]+tot,'distinct_nontrivial':st.get('real',(0,0,0))[0]+st['npaths'],'rule':'a case is one driver script with one random input or one symbolic path; non-trivial when it generated at least one contract evaluation','samples':[c.name for c in cases][:8]})
            cov['explanation']='see level_note in MANIFEST.json'
        ev={'property':pid,'tier':a.tier,'seed':seed,'level':s.level,'coverage':cov,
            'assumptions':['machine doubles read as real numbers in the deductive layer (rounding, overflow, NaN outside)']+s.assume+notes,
            'wall_s':round(time.time()-t0,2),'violations':len(rep)+len(unrep)+(1 if hard and not rep and not unrep else 0)}
        p=f'{evd}/{pid}.json'; tmp=f'{p}.{os.getpid()}'
        json.dump(ev,open(tmp,'w'),indent=1,default=str); os.replace(tmp,p)
        if a.v:
            for u in st.get('mp',[])[:12]: print('MP',str(u)[:200])
            for u in st['undec'][:40]: print('UNDECIDED',str(u)[:300])
            for c,l,i,_,m in st['bad'][:40]: print('REFUTED',c.name,l,m,str(i)[:200])
            for e in st.get('rerr',[])[:3]: print('REALERR',str(e)[-700:])
        print(f'{pid} [{a.tier}] obligations {tot} discharged {st["ok"]} {st["meth"]} undecided {len(st["undec"])} refuted {len(st["bad"])} paths {st["npaths"]} functions {len(st["funcs"])} | real runs {st.get("real")} errors {len(st.get("rerr",[]))} | {time.time()-t0:.1f}s')
        for key,w in sorted(set(kf)): print(f'KNOWN-FINDING: property={pid} {w}')
        if rep:
            c,kind,k,bad,env=rep[0]
            rp=f'{evd}/replay_{pid}.json'
            json.dump({'property':pid,'case':c.name,'kind':kind,'cex':env or (k if kind=='cex' else None),'seed':(seed if kind=='cex' else seed*1000+k),'failed':[list(map(str,b)) for b in bad[:50]],
              'obligations_refuted':[[c2.name,l,str(i)[:400]] for c2,l,i,_,_ in st['bad']][:40],'all':[[r[0].name,[list(map(str,b)) for b in r[3][:5]]] for r in rep[:30]]},open(rp,'w'),indent=1,default=str)
            for c,kind,k,bad,env in rep[:6]:
                for b in bad[:3]: print(f'  failed: {c.name}: {b[0]}: real code gives {b[1]}, contract {b[2]} ({kind} input)')
            print(f'VIOLATION property={pid} replay={rp}')
            return 1
        if unrep:
            rp=f'{evd}/replay_{pid}.json'
            json.dump({'property':pid,'failed_obligations':[[c.name,l,str(i)[:2000],m] for c,l,i,_,m in unrep]},open(rp,'w'),indent=1,default=str)
            for c,l,i,_,m in unrep[:6]: print(f'  failed obligation {c.name}: {l}: {str(i)[:300]}')
            print(f'VIOLATION property={pid} replay={rp} no-failing-input-found')
            return 1
        if hard and not rep:
            rp=f'{evd}/replay_{pid}.json'
            json.dump({'property':pid,'obligations_not_accepted':[list(map(str,u)) for u in hard]},open(rp,'w'),indent=1,default=str)
            for u in hard[:6]: print(f'  obligation not accepted {u[0]}: {u[1]}: {str(u[2])[:300]}')
            print(f'VIOLATION property={pid} replay={rp} no-failing-input-found')
            return 1
        return 0
    def replay(s,path):
        d=json.load(open(path)); c=next(c for c in s.cases if c.name==d['case'])
        mk=c.rbase or (lambda: Real(getattr(c,'conf','main')))
        r=world.child(run_real,c,mk,d.get('cex') or {},d.get('seed',1))
        print(json.dumps(r,indent=1,default=str)[:4000]); return 1 if r[0]!='ok' or r[1]['bad'] else 0
def main(*a,**k): sys.exit(Check(*a,**k).main())
