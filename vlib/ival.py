"""Interval evaluation of terms (double endpoints, each operation rounded outward by a relative 1e-14): decides branch
conditions from the preconditions a contract states as ranges of its inputs."""
import math
from terms import topo
import terms as T
INF=math.inf; TW=2*math.pi
def wid(lo,hi):
    if lo!=lo or hi!=hi: return (-INF,INF)
    return (lo-abs(lo)*1e-14-1e-300 if lo!=-INF else lo, hi+abs(hi)*1e-14+1e-300 if hi!=INF else hi)
def mul(a,b):
    ps=[]
    for x in a:
        for y in b: ps.append(0. if x==0 or y==0 else x*y)
    return wid(min(ps),max(ps))
def div(a,b):
    if b[0]<=0<=b[1]: return (-INF,INF)
    return mul(a,wid(1/b[1],1/b[0]))
def sinr(lo,hi):
    if hi-lo>=TW or lo==-INF or hi==INF: return (-1.,1.)
    e=1e-12*(1+abs(lo)+abs(hi)); lo-=e; hi+=e
    m=[math.sin(lo),math.sin(hi)]; a,b=min(m),max(m)
    if math.floor((hi-math.pi/2)/TW)!=math.floor((lo-math.pi/2)/TW): b=1.
    if math.floor((hi+math.pi/2)/TW)!=math.floor((lo+math.pi/2)/TW): a=-1.
    return (max(-1.,a-1e-15),min(1.,b+1e-15))
def mono(f,lo,hi):
    def g(x):
        try: return f(x)
        except OverflowError: return INF
    return wid(g(lo),g(hi))
def evali(t,env,default=None):
    """env: name -> (lo,hi)"""
    r={}
    for x in topo([t]):
        op,a=x.op,x.a
        if op=='c': q=a[0]; f=float(q); v=(f,f) if f==q else wid(f,f)
        elif op=='pi': v=wid(math.pi,math.pi)
        elif op=='v':
            v=env.get(a[0])
            if v is None: v=default(a[0]) if default else (-INF,INF)
        elif op=='+': p,q=r[a[0].id],r[a[1].id]; v=wid(p[0]+q[0],p[1]+q[1])
        elif op=='*':
            p,q=r[a[0].id],r[a[1].id]
            if a[0] is a[1]:
                m=sorted((abs(p[0]),abs(p[1]))); v=wid(0. if p[0]<=0<=p[1] else m[0]*m[0],m[1]*m[1]); v=(max(0.,v[0]),v[1])
            else: v=mul(p,q)
        elif op=='/': v=div(r[a[0].id],r[a[1].id])
        elif op=='neg': p=r[a[0].id]; v=(-p[1],-p[0])
        elif op=='cmp':
            p,q=r[a[1].id],r[a[2].id]; d=a[0]
            if d=='lt': v=True if p[1]<q[0] else False if p[0]>=q[1] else None
            elif d=='le': v=True if p[1]<=q[0] else False if p[0]>q[1] else None
            else: v=False if p[1]<q[0] or q[1]<p[0] else True if p==q and p[0]==p[1] else None
        elif op=='not': v=None if r[a[0].id] is None else not r[a[0].id]
        elif op=='ite':
            c=r[a[0].id]; p,q=r[a[1].id],r[a[2].id]
            v=p if c is True else q if c is False else (min(p[0],q[0]),max(p[1],q[1]))
        elif op=='f':
            n=a[0]; p=r[a[1].id]
            if n=='sqrt': v=mono(math.sqrt,max(0.,p[0]),max(0.,p[1]))
            elif n=='exp': v=mono(math.exp,*p)
            elif n=='log': v=(-INF,INF) if p[0]<=0 else mono(math.log,*p)
            elif n=='sin': v=sinr(*p)
            elif n=='cos': v=sinr(p[0]+math.pi/2,p[1]+math.pi/2)
            elif n in('acos','asin'):
                a,b=max(-1.,min(1.,p[0])),max(-1.,min(1.,p[1])); f=getattr(math,n); v=wid(f(min(a,b)),f(max(a,b))) if n=='asin' else wid(f(max(a,b)),f(min(a,b)))
            elif n=='atan': v=mono(math.atan,*p)
            elif n=='fabs': v=(0. if p[0]<=0<=p[1] else min(abs(p[0]),abs(p[1])),max(abs(p[0]),abs(p[1])))
            elif n=='atan2':
                q=r[a[2].id]
                if q[0]>0: v=wid(*(lambda z:(min(z),max(z)))([math.atan2(s,c) for s in p for c in q]))
                elif p[0]>0: v=wid(*(lambda z:(min(z),max(z)))([math.atan2(s,c) for s in p for c in q]))
                else: v=(-math.pi-1e-12,math.pi+1e-12)
            elif default: v=default(x) or (-INF,INF)
            else: v=(-INF,INF)
        else: v=(-INF,INF)
        r[x.id]=v
    return r[t.id]
def multilinear(t):
    """{frozenset of variables: rational coefficient} of a polynomial of degree one in each variable, or None"""
    r={}
    for x in topo([t]):
        op,a=x.op,x.a
        if op=='c': v={frozenset():a[0]}
        elif op=='v': v={frozenset([a[0]]):1}
        elif op=='neg': p=r[a[0].id]; v=p and {k:-c for k,c in p.items()}
        elif op in '+*' and len(a)==2:
            p,q=r[a[0].id],r[a[1].id]
            if p is None or q is None: v=None
            elif op=='+':
                v=dict(p)
                for k,c in q.items(): v[k]=v.get(k,0)+c
            else:
                v={}
                for k,c in p.items():
                    for l,d in q.items():
                        if v is None or k&l: v=None; break
                        v[k|l]=v.get(k|l,0)+c*d
            if v is not None: v={k:c for k,c in v.items() if c}; v=v if len(v)<=64 else None
        else: v=None
        r[x.id]=v
    return r[t.id]
def corners(t,env):
    """exact range of a multilinear polynomial on a box: it is attained at the corners"""
    import itertools; from fractions import Fraction as F
    p=multilinear(t)
    if p is None: return None
    vs=sorted(set().union(*p)) if p else []
    if len(vs)>8 or any(v not in env or INF in map(abs,env[v]) for v in vs): return None
    lo=hi=None
    for c in itertools.product(*[tuple(map(F,env[v])) for v in vs]):
        e=dict(zip(vs,c)); s=F(0)
        for k,q in p.items():
            for v in k: q=q*e[v]
            s+=q
        lo=s if lo is None else min(lo,s); hi=s if hi is None else max(hi,s)
    return lo,hi
def decide(c,env,default=None,depth=12,split=None):
    if c.op=='cmp' and split is None and c.a[0] in('lt','le'):
        v=corners(T.add(c.a[1],T.neg(c.a[2])),env)
        if v:
            if c.a[0]=='lt': r=True if v[1]<0 else False if v[0]>=0 else None
            else: r=True if v[1]<=0 else False if v[0]>0 else None
            if r is not None: return r
    elif c.op=='not' and split is None: r=decide(c.a[0],env,default,depth); return None if r is None else not r
    return decide1(c,env,default,depth,split)
def decide1(c,env,default=None,depth=12,split=None):
    """True/False when the condition has that value on the whole domain, else None; bisects the widest variables"""
    v=evali(c,env,default)
    if v is not None or depth==0: return v
    if split is None: split=[n for n in T.variables(c) if n in env]
    if not split: return None
    n=max(split,key=lambda k:(env[k][1]-env[k][0])/(abs(env[k][1])+abs(env[k][0])+1e-30)); lo,hi=env[n]; m=(lo+hi)/2
    if not lo<m<hi: return None
    r1=decide1(c,{**env,n:(lo,m)},default,depth-1,split)
    if r1 is None: return None
    r2=decide1(c,{**env,n:(m,hi)},default,depth-1,split)
    return r1 if r1==r2 else None
def canc(t,memo={}):
    """the same rational function with common factors cancelled (non-rational subterms are kept as atoms)"""
    if t.id in memo: return memo[t.id]
    import sympy as S
    at={}; sy={}
    def atom(x):
        if x.id not in sy: sy[x.id]=S.Symbol(f'z{len(sy)}'); at[sy[x.id]]=x
        return sy[x.id]
    r={}
    for x in T.topo([t]):
        op,a=x.op,x.a
        if op=='c': v=S.Rational(a[0].numerator,a[0].denominator)
        elif op=='+': v=r[a[0].id]+r[a[1].id]
        elif op=='*': v=r[a[0].id]*r[a[1].id]
        elif op=='/': v=r[a[0].id]/r[a[1].id]
        elif op=='neg': v=-r[a[0].id]
        elif op=='^': v=r[a[0].id]**a[1]
        else: v=atom(x)
        r[x.id]=v
    e=S.cancel(r[t.id])
    def back(q):
        if q.is_Rational: 
            from fractions import Fraction as F
            return T.const(F(int(q.p),int(q.q)))
        if q.is_Symbol: return at[q]
        if q.is_Add:
            o=T.ZERO
            for w in q.args: o=o+back(w)
            return o
        if q.is_Mul:
            o=T.ONE
            for w in q.args: o=o*back(w)
            return o
        if q.is_Pow and q.exp.is_Integer: return T.powi(back(q.base),int(q.exp))
        raise ValueError(q)
    o=back(e); memo[t.id]=o; return o
def tidy(c):
    """cancel inside the two sides of a comparison"""
    if c.op=='not': return T.not_(tidy(c.a[0]))
    if c.op!='cmp': return c
    def side(x):
        if x.op=='f' and x.a[0]=='fabs': return T.fabs(canc(x.a[1]))
        return canc(x)
    return T.cmp_(c.a[0],side(c.a[1]),side(c.a[2]))
