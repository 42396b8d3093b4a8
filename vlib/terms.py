"""Hash-consed terms over the reals: what a double computes when machine arithmetic is read as real
arithmetic.  A term is built by symbolic execution of the code under contract and by the contracts."""
from fractions import Fraction as Fr
import math

class Term:
    __slots__=('op','a','id','__weakref__')
    def __add__(s,o): return add(s,lift(o))
    def __radd__(s,o): return add(lift(o),s)
    def __sub__(s,o): return sub(s,lift(o))
    def __rsub__(s,o): return sub(lift(o),s)
    def __mul__(s,o): return mul(s,lift(o))
    def __rmul__(s,o): return mul(lift(o),s)
    def __truediv__(s,o): return div(s,lift(o))
    def __rtruediv__(s,o): return div(lift(o),s)
    def __neg__(s): return neg(s)
    def __pow__(s,n):
        if isinstance(n,int): return powi(s,n)
        return pow_(s,lift(n))
    def __repr__(s): return show(s)
    __hash__=object.__hash__
    def __eq__(s,o): return s is o
    def __bool__(s): raise TypeError('truth value of a symbolic term')
_tab={}
_n=[0]
def mk(op,*a):
    k=(op,)+tuple(x.id if isinstance(x,Term) else ('#',x) for x in a)
    t=_tab.get(k)
    if t is None:
        t=Term(); t.op=op; t.a=a; t.id=_n[0]; _n[0]+=1
        _tab[k]=t
    return t
def const(x): return mk('c',Fr(x))
ZERO=const(0); ONE=const(1); MONE=const(-1); TWO=const(2); HALF=const(Fr(1,2))
PI=mk('pi')
def var(n): return mk('v',n)
def lift(x):
    if isinstance(x,Term): return x
    if isinstance(x,float): return fconst(x)
    return const(x)
def isc(t): return t.op=='c'
def add(a,b):
    if a.op=='c':
        if b.op=='c': return const(a.a[0]+b.a[0])
        if a is ZERO: return b
    elif b is ZERO: return a
    if b.op=='neg' and b.a[0] is a: return ZERO
    if a.op=='neg' and a.a[0] is b: return ZERO
    return mk('+',a,b) if a.id<=b.id else mk('+',b,a)
def neg(a):
    if a.op=='c': return const(-a.a[0])
    if a.op=='neg': return a.a[0]
    return mk('neg',a)
def sub(a,b):
    if a is b: return ZERO
    return add(a,neg(b))
def mul(a,b):
    if a.op=='c':
        if b.op=='c': return const(a.a[0]*b.a[0])
        if a is ZERO: return ZERO
        if a is ONE: return b
        if a is MONE: return neg(b)
    elif b.op=='c':
        return mul(b,a)
    if a.op=='neg': return neg(mul(a.a[0],b))
    if b.op=='neg': return neg(mul(a,b.a[0]))
    return mk('*',a,b) if a.id<=b.id else mk('*',b,a)
class DivZero(Exception): pass
def div(a,b):
    if b.op=='c':
        if b.a[0]==0: return mk('nan')          # reported when it reaches an obligation
        return mul(const(1/b.a[0]),a)
    if a is ZERO: return ZERO
    if a is b: return ONE
    if a.op=='neg': return neg(div(a.a[0],b))
    if b.op=='neg': return neg(div(a,b.a[0]))
    return mk('/',a,b)
def powi(a,n):
    if n==0: return ONE
    if n<0: return div(ONE,powi(a,-n))
    r=None; b=a
    while n:
        if n&1: r=b if r is None else mul(r,b)
        n>>=1
        if n: b=mul(b,b)
    return r
def fn(name,*a): return mk('f',name,*a)
def sqrt(a):
    if a.op=='c' and a.a[0]>=0:
        n,d=a.a[0].numerator,a.a[0].denominator
        rn,rd=math.isqrt(n),math.isqrt(d)
        if rn*rn==n and rd*rd==d: return const(Fr(rn,rd))
    return fn('sqrt',a)
def root(a,k):
    if k==2: return sqrt(a)
    return fn('root',a,const(k))
def pow_(a,b):
    if b.op=='c':
        e=b.a[0]
        if e.denominator==1: return powi(a,int(e))
        if e.denominator<=12:
            return powi(root(a,e.denominator),e.numerator)
    if a is ZERO: return ZERO
    if a is ONE: return ONE
    if a.op=='f' and a.a[0]=='exp': return exp(mul(a.a[1],b))
    return fn('exp',mul(b,fn('log',a)))
def exp(a):
    if a is ZERO: return ONE
    if a.op=='f' and a.a[0]=='log': return a.a[1]
    return fn('exp',a)
def log(a):
    if a is ONE: return ZERO
    if a.op=='f' and a.a[0]=='exp': return a.a[1]
    return fn('log',a)
def sin(a):
    if a is ZERO: return ZERO
    if a.op=='f' and a.a[0]=='asin': return a.a[1]
    return fn('sin',a)
def cos(a):
    if a is ZERO: return ONE
    if a.op=='f' and a.a[0]=='acos': return a.a[1]
    if a.op=='*':                            # cos(n acos(y)) is the Chebyshev polynomial T_n(y)
        for c,x in((a.a[0],a.a[1]),(a.a[1],a.a[0])):
            if c.op=='c' and x.op=='f' and x.a[0]=='acos' and Fr(c.a[0]).denominator==1 and 0<abs(c.a[0])<=64:
                y=x.a[1]; t0,t1=ONE,y
                for _ in range(abs(int(c.a[0]))-1): t0,t1=t1,sub(mul(mul(TWO,y),t1),t0)
                return t1
    return fn('cos',a)
def tan(a):
    if a is ZERO: return ZERO
    if a.op=='f' and a.a[0]=='atan': return a.a[1]
    return div(sin(a),cos(a))
def sinh(a): return mul(HALF,sub(exp(a),div(ONE,exp(a))))
def cosh(a): return mul(HALF,add(exp(a),div(ONE,exp(a))))
def tanh(a): return div(sinh(a),cosh(a))
def atan(a): return ZERO if a is ZERO else fn('atan',a)
def atan2(y,x): return fn('atan2',y,x)
def acos(a): return fn('acos',a)
def asin(a): return fn('asin',a)
def fabs(a):
    if a.op=='c': return const(abs(a.a[0]))
    if a.op=='neg': a=a.a[0]
    if a.op=='f' and a.a[0] in('fabs','sqrt','exp'): return a
    return fn('fabs',a)
def cmp_(pred,a,b):
    """pred in lt le eq; returns True/False or a condition term"""
    if a.op=='c' and b.op=='c':
        x,y=a.a[0],b.a[0]
        return {'lt':x<y,'le':x<=y,'eq':x==y}[pred]
    if a is b: return pred!='lt'
    if a.op in('c','pi') and b.op in('c','pi') or (numeric(a) and numeric(b)):
        x,y=num(a),num(b)
        if x is not None and y is not None and abs(x-y)>1e-12*(abs(x)+abs(y)): return x<y if pred!='eq' else False
    if pred=='eq' and a.id>b.id: a,b=b,a
    return mk('cmp',pred,a,b)
def not_(c):
    if c is True: return False
    if c is False: return True
    if c.op=='not': return c.a[0]
    return mk('not',c)
def ite(c,a,b):
    if c is True: return a
    if c is False: return b
    if a is b: return a
    return mk('ite',c,a,b)
_numeric={}
def numeric(t):
    r=_numeric.get(t.id)
    if r is None:
        if t.op in('c','pi'): r=True
        elif t.op in('v','nan'): r=False
        elif t.op=='f': r=all(numeric(x) for x in t.a[1:] if isinstance(x,Term))
        else: r=all(numeric(x) for x in t.a if isinstance(x,Term))
        _numeric[t.id]=r
    return r
def num(t):
    try: return evalf(t,{})
    except Exception: return None

# --------------------------------------------------------------- literal reading
_fc={}
def fconst(d):
    t=_fc.get(d)
    if t is None: t=_fc[d]=_fconst(d)
    return t
inexact_literals=set()
meanings=[]   # (double, term): a literal within a few units in the last place of the double is that rounded (or constant-folded) term
def meaning(t):
    meanings.append((float(evalf(t,{})),t)); _fc.clear()
def _simplest(d,qmax):
    f=Fr(d).limit_denominator(qmax)
    return f
def _fconst(d):
    if isinstance(d,Fr): # long double literal
        f=d.limit_denominator(10**6)
        if abs(f-d)<=abs(d)*Fr(1,2**62): return const(f)
        try: return fconst(float(d))
        except OverflowError: return const(d)
    if d!=d or d in(float('inf'),float('-inf')): return mk('nan') if d!=d else mk('v','inf' if d>0 else 'minf')
    e=Fr(d)
    if e.denominator<=2**20 and abs(e)<2**40: return const(e)
    r=repr(d).lower().split('e')[0].replace('.','').replace('-','').strip('0')
    if len(r)<=14: return const(Fr(repr(d)))
    for x,t in meanings:
        if abs(x-d)<=4*math.ulp(d): return t
        if abs(x+d)<=4*math.ulp(d): return neg(t)
    f=e.limit_denominator(200000)
    big=f==0 or float(f)!=d or abs(f.numerator)*f.denominator>2**36
    if not big: return const(f)
    q=Fr(d/math.pi).limit_denominator(2000)   # before rationals with large terms: these match anything
    if q and abs(q.numerator)*q.denominator<2**30 and abs(float(q)*math.pi-d)<=2*math.ulp(d): return mul(const(q),PI)
    if f!=0 and float(f)==d: return const(f)
    # a literal written with 15 digits stands for the constant it abbreviates (rounded or truncated to those digits)
    tol=max(2*math.ulp(d),1.001*10.**(math.floor(math.log10(abs(d)))-14) if len(r)==15 and abs(d)>1e-200 else 0)
    near=lambda x:abs(x-d)<=tol
    for base,mkb in ((math.pi,lambda q:mul(const(q),PI)),(1/math.pi,lambda q:div(const(q),PI))):
        q=Fr(d/base).limit_denominator(2000)
        if q and near(float(q)*base): return mkb(q)
    q=Fr(d*d).limit_denominator(5000); s=1 if d>0 else -1
    if q and near(s*math.sqrt(q)): return mul(const(s),sqrt(const(q)))
    q=Fr(d*d*math.pi).limit_denominator(5000)
    if q and near(s*math.sqrt(float(q)/math.pi)): return mul(const(s),sqrt(div(const(q),PI)))
    q=Fr(d*d/math.pi).limit_denominator(5000)
    if q and near(s*math.sqrt(float(q)*math.pi)): return mul(const(s),sqrt(mul(const(q),PI)))
    for k in (2,-2,3,-3,4,-4):
        q=Fr(d/math.pi**k).limit_denominator(200)
        if q and near(float(q)*math.pi**k):
            t=const(q)
            for _ in range(abs(k)): t=mul(t,PI) if k>0 else div(t,PI)
            return t
    for k in (1,-1,2,-2):
        q=Fr(d*d/math.pi**(2*k)).limit_denominator(100)
        if q and near(s*math.sqrt(q)*math.pi**k):
            t=mul(const(s),sqrt(const(q)))
            for _ in range(abs(k)): t=mul(t,PI) if k>0 else div(t,PI)
            return t
    inexact_literals.add(d)
    return const(e)

# --------------------------------------------------------------- traversal
def topo(roots):
    seen=set(); out=[]
    st=[(r,False) for r in roots if isinstance(r,Term)]
    while st:
        t,done=st.pop()
        if done: out.append(t); continue
        if t.id in seen: continue
        seen.add(t.id); st.append((t,True))
        for x in t.a:
            if isinstance(x,Term) and x.id not in seen: st.append((x,False))
    return out
def variables(t):
    return sorted({x.a[0] for x in topo([t] if isinstance(t,Term) else t) if x.op=='v'})
def size(t): return len(topo([t]))

def subst(roots,m):
    """m: {var name: Term}; simultaneous substitution"""
    single=isinstance(roots,Term)
    rs=[roots] if single else list(roots)
    c={}
    for t in topo(rs):
        c[t.id]=rebuild(t,[c[x.id] if isinstance(x,Term) else x for x in t.a],m)
    out=[c[r.id] for r in rs]
    return out[0] if single else out
def rebuild(t,a,m={}):
    op=t.op
    if op=='v': return m.get(t.a[0],t)
    if op in('c','pi','nan'): return t
    if op=='+': return add(*a)
    if op=='*': return mul(*a)
    if op=='/': return div(*a)
    if op=='neg': return neg(a[0])
    if op=='cmp': return cmp_(a[0],a[1],a[2])
    if op=='not': return not_(a[0])
    if op=='ite': return ite(*a)
    if op=='f':
        f=CONS.get(a[0])
        return f(*a[1:]) if f else mk('f',*a)
    raise ValueError(op)
CONS={'sqrt':sqrt,'root':lambda x,k:root(x,int(k.a[0])),'exp':exp,'log':log,'sin':sin,'cos':cos,'atan':atan,'fabs':fabs,'acos':acos,'asin':asin,'atan2':atan2}

def diff(t,v,dfun=None,cache=None):
    """derivative of term t w.r.t. variable name v.  dfun(term,v): derivative of an uninterpreted function node."""
    c={} if cache is None else cache
    for x in topo([t]):
        if x.id in c: continue
        op,a=x.op,x.a
        if op=='v': d=ONE if a[0]==v else (dfun(x,v) if dfun else ZERO)
        elif op in('c','pi','nan'): d=ZERO
        elif op=='+': d=add(c[a[0].id],c[a[1].id])
        elif op=='*': d=add(mul(c[a[0].id],a[1]),mul(a[0],c[a[1].id]))
        elif op=='neg': d=neg(c[a[0].id])
        elif op=='/':
            da,db=c[a[0].id],c[a[1].id]
            d=div(da,a[1]) if db is ZERO else div(sub(mul(da,a[1]),mul(a[0],db)),mul(a[1],a[1]))
        elif op=='ite': d=ite(a[0],c[a[1].id],c[a[2].id])
        elif op in('cmp','not'): d=ZERO
        elif op=='f':
            n=a[0]; u=a[1]
            if all(c[y.id] is ZERO for y in a[1:]): d=ZERO
            else:
                du=c[u.id]
                if n=='sqrt': d=div(du,mul(TWO,x))
                elif n=='root': d=div(mul(du,x),mul(a[2],u))
                elif n=='exp': d=mul(x,du)
                elif n=='log': d=div(du,u)
                elif n=='sin': d=mul(cos(u),du)
                elif n=='cos': d=neg(mul(sin(u),du))
                elif n=='atan': d=div(du,ONE+u*u)
                elif n=='asin': d=div(du,sqrt(ONE-u*u))
                elif n=='acos': d=neg(div(du,sqrt(ONE-u*u)))
                elif n=='atan2':
                    y,z=a[1],a[2]; d=div(c[y.id]*z-y*c[z.id],y*y+z*z)
                elif n=='fabs': d=mul(div(u,x),du)
                elif dfun: d=dfun(x,v,c)
                else: raise ValueError('diff of '+str(n))
        else: raise ValueError(op)
        c[x.id]=d
    return c[t.id]

# --------------------------------------------------------------- numeric evaluation
def evalf(t,env,mp=None,funs=None):
    """numeric value; mp: mpmath module for high precision (else floats)"""
    M=mp or math
    r={}
    num=(lambda q:M.mpf(q.numerator)/q.denominator) if mp else (lambda q:q.numerator/q.denominator)
    for x in topo([t]):
        op,a=x.op,x.a
        if op=='c': v=num(a[0])
        elif op=='pi': v=+M.pi
        elif op=='v':
            v=env[a[0]] if not callable(env) else env(a[0])
        elif op=='+': v=r[a[0].id]+r[a[1].id]
        elif op=='*': v=r[a[0].id]*r[a[1].id]
        elif op=='/': v=r[a[0].id]/r[a[1].id]
        elif op=='neg': v=-r[a[0].id]
        elif op=='cmp':
            p,q=r[a[1].id],r[a[2].id]; v={'lt':p<q,'le':p<=q,'eq':p==q}[a[0]]
        elif op=='not': v=not r[a[0].id]
        elif op=='ite': v=r[a[1].id] if r[a[0].id] else r[a[2].id]
        elif op=='f':
            n=a[0]; ar=[r[y.id] for y in a[1:]]
            if n=='root': v=ar[0]**(M.mpf(1)/ar[1]) if mp else ar[0]**(1/ar[1])
            elif n=='fabs': v=abs(ar[0])
            elif n in('sqrt','exp','log','sin','cos','atan','asin','acos','atan2'): v=getattr(M,n)(*ar)
            elif n in('floor','ceil'): v=getattr(M,n)(*ar)
            elif n=='erf': v=M.erf(*ar)
            elif n=='fmod': v=ar[0]-ar[1]*int(ar[0]/ar[1])
            elif funs and n in funs: v=funs[n](*ar)
            elif funs and callable(funs.get('*')): v=funs['*'](n,*ar)
            else: raise ValueError('evalf '+str(n))
        elif op=='nan': v=float('nan')
        else: raise ValueError(op)
        r[x.id]=v
    return r[t.id]

def show(t,depth=6):
    if not isinstance(t,Term): return str(t)
    if depth==0: return '…'
    op,a=t.op,t.a
    s=lambda x:show(x,depth-1)
    if op=='c': return str(a[0])
    if op=='v': return str(a[0])
    if op=='pi': return 'pi'
    if op=='neg': return '-'+s(a[0])
    if op in'+*/': return '('+s(a[0])+op+s(a[1])+')'
    if op=='f': return f'{a[0]}('+','.join(s(x) for x in a[1:])+')'
    if op=='cmp': return f'({s(a[1])} {a[0]} {s(a[2])})'
    return op+'('+','.join(s(x) for x in a)+')'
