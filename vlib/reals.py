"""Path conditions over the reals decided by z3: pruning of infeasible branches and discharge of order obligations.
Products and quotients of unknowns are first kept abstract (fresh unknowns that obey the sign rules, so every answer
'proved' is sound); if that is not enough the exact nonlinear problem is tried."""
import terms as T
from fractions import Fraction as Fr
import z3, time
class Reals:
    def __init__(s,ctx,timeout=4000,prune=True):
        s.ctx=ctx; s.M=ctx.W.M; s.base=[]; s.timeout=timeout; s.cache=({},{}); s.side=({},{}); s.nq=0; s.t=0.; s.prune=prune; s.memo={}
        s.M.oracle=s.oracle; s.M.reals=s
    # ---- translation.  mode 0: abstract products; mode 1: exact
    def tr(s,t,m):
        c=s.cache[m]
        if t.id in c: return c[t.id]
        for u in T.topo([t]):
            if u.id not in c: c[u.id]=s.tr1(u,m)
        return c[t.id]
    def tr1(s,u,m):
        c=s.cache[m]; o=u.op; g=lambda k: c[u.a[k].id]
        if o=='c': return z3.RealVal(str(u.a[0]))
        if o=='v': return z3.Real(u.a[0])
        if o=='pi': x=z3.Real('pi#'); s.add(u,m,z3.And(x>z3.RealVal('3.14159265358979'),x<z3.RealVal('3.1415926535898'))); return x
        if o=='+': return g(0)+g(1)
        if o=='neg': return -g(0)
        if o=='*':
            a,b=g(0),g(1)
            if u.a[0].op=='c' or u.a[1].op=='c' or m==1: return a*b
            r=z3.Real(f'p#{u.id}'); s.add(u,m,s.sign(r,a,b)); 
            if u.a[0] is u.a[1]: s.add(u,m,r>=0)
            return r
        if o=='/':
            a,b=g(0),g(1); r=z3.Real(f'q#{u.id}')
            if m==1: s.add(u,m,z3.Implies(b!=0,r*b==a))
            else: s.add(u,m,z3.Implies(b!=0,s.sign(r,a,b)))
            return r
        if o=='f' and u.a[0] in('fabs','abs'):
            x=c[u.a[1].id]; return z3.If(x>=0,x,-x)
        if o=='f' and u.a[0]=='sqrt':
            x=c[u.a[1].id]; r=z3.Real(f's#{u.id}'); s.add(u,m,z3.And(r>=0,z3.Implies(x>0,r>0)))
            if m==1: s.add(u,m,z3.Implies(x>=0,r*r==x))
            return r
        if o=='f' and u.a[0] in('fmax','fmin'):
            x,y=c[u.a[1].id],c[u.a[2].id]; return z3.If(x>=y,x,y) if u.a[0]=='fmax' else z3.If(x<=y,x,y)
        if o=='cmp': return {'lt':lambda a,b:a<b,'le':lambda a,b:a<=b,'eq':lambda a,b:a==b}[u.a[0]](c[u.a[1].id],c[u.a[2].id])
        if o=='not': return z3.Not(g(0))
        if o=='ite': return z3.If(g(0),g(1),g(2))
        if o=='nan': raise Exc('nan')
        return z3.Real(f'o#{u.id}')
    def sign(s,r,a,b):
        return z3.And(z3.Implies(z3.And(a>0,b>0),r>0),z3.Implies(z3.And(a<0,b<0),r>0),z3.Implies(z3.And(a>0,b<0),r<0),z3.Implies(z3.And(a<0,b>0),r<0),z3.Implies(a==0,r==0))
    def add(s,u,m,f): s.side[m].setdefault(u.id,[]).append(f)
    # ---- facts
    def assume(s,c): 
        if c is True: return
        s.base.append(c); s.memo={}
    def facts(s): return s.base+[c if b else T.not_(c) for c,b in s.M.path if isinstance(c,T.Term)]
    def check(s,terms,m,timeout):
        """unsat / sat / unknown of the conjunction"""
        t0=time.time(); sv=z3.Solver() if m==0 else z3.SolverFor('QF_NRA'); sv.set('timeout',timeout)
        for x in terms: sv.add(s.tr(x,m))
        for u in T.topo(list(terms)):
            for f in s.side[m].get(u.id,()): sv.add(f)
        r=sv.check(); s.nq+=1; s.t+=time.time()-t0; s.M.smt=getattr(s.M,'smt',0)+1
        return str(r),(sv.model() if r==z3.sat else None)
    def implied(s,c,exact=False):
        """True / False / None"""
        f=s.facts()
        for m in ((0,1) if exact else (0,)):
            to=s.timeout if m else 1500
            if s.check(f+[T.not_(c)],m,to)[0]=='unsat': return True
            if s.check(f+[c],m,to)[0]=='unsat': return False
        return None
    def oracle(s,M,c):
        if not s.prune: return None
        k=(c.id,len(M.path)); 
        if k in s.memo and s.memo[k][0]==[x[1] for x in M.path]: return s.memo[k][1]
        r=s.implied(c); s.memo[k]=([x[1] for x in M.path],r); return r
    # ---- obligations
    def prove(s,label,c):
        """the condition holds on this path, for all inputs"""
        ctx=s.ctx
        if isinstance(c,bool):
            if c: ctx.obl.append(('res',label,'ok','concrete',None,None,{})); return
            c=None
        f=s.facts(); g=f+([T.not_(c)] if c is not None else [])
        r,_=s.check(g,0,3000)
        if r=='unsat': ctx.obl.append(('res',label,'ok','z3-lra',None,None,{})); return
        r,mo=s.check(g,1,s.timeout)
        if r=='unsat': ctx.obl.append(('res',label,'ok','z3-nra',None,None,{})); return
        if r=='sat':
            env={}
            for d in mo.decls():
                n=d.name()
                if '#' in n: continue
                v=mo[d]
                try: env[n]=float(Fr(v.as_fraction())) if z3.is_rational_value(v) else float(v.approx(20).as_fraction())
                except Exception: pass
            ctx.obl.append(('res',label,'bad','z3-nra',(env,'counterexample',T.show(c,6) if c is not None else 'path reachable'),None,{})); return
        ctx.obl.append(('res',label,'unknown','z3',T.show(c,6) if c is not None else 'path reachable',None,{}))
class Exc(Exception): pass
def lt(a,b): return L(T.cmp_('lt',T.lift(a),T.lift(b)))
def le(a,b): return L(T.cmp_('le',T.lift(a),T.lift(b)))
def eq(a,b): return L(T.cmp_('eq',T.lift(a),T.lift(b)))
def L(x): return x
def nt(a): return (not a) if isinstance(a,bool) else T.not_(a)
def ite(c,a,b): return (a if c else b) if isinstance(c,bool) else T.mk('ite',c,a,b)
def land(*cs):
    r=True
    for c in cs:
        if c is False or r is False: return False
        if c is True: continue
        r=c if r is True else T.mk('ite',r,c,FALSE)
    return r
def lor(*cs):
    r=False
    for c in cs:
        if c is True or r is True: return True
        if c is False: continue
        r=c if r is False else T.mk('ite',r,TRUE,c)
    return r
TRUE=T.mk('cmp','le',T.ZERO,T.ZERO); FALSE=T.mk('cmp','lt',T.ZERO,T.ZERO)
def absle(x,t): return land(le(x,t),le(T.neg(T.lift(x)),t))
