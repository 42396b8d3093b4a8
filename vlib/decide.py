"""Back ends that discharge  lhs == rhs  obligations over the reals.

1. 'syntactic'  both sides are the same hash-consed term.
2. 'pit'        polynomial-identity test: the terms are interpreted by a ring homomorphism into GF(P0) at random
                points (exp/sin/cos/pi interpreted through a tower of fields P3|P2-1, P2|P1-1, P1|P0-1 so that
                exp(a+b)=exp(a)exp(b), cos^2+sin^2=1, and exact values at rational multiples of pi hold;
                sqrt/k-th roots by field roots; any other function uninterpreted, keyed by argument value).
                A difference that is not identically zero survives with probability < deg/P0 (P0 ~ 2^377).
3. 'mp'         when 2 says different: 60-digit evaluation at random real points.  If all agree to 1e-40 the
                obligation is recorded as discharged numerically only (weaker), else refuted with the point.
"""
import random
from fractions import Fraction as Fr
import mpmath
from terms import *
import terms as T
P=[279849972570337932848012652402654065883724086772874096497687435740252954026882182076858646540991807981451416761601,
   516745267140842404187155831443546361074126091138102805670453061434243472732362638361601,
   1011999310264322851029133946830969556010567117837855358425601,
   1951709016363539551888312631088001]
LCM=144403552893600*4   # lcm(1..32)*4 divides every P-1
# keep the arithmetic honest: recomputed, not trusted
import math as _m
_L=1
for _i in range(1,33): _L=_L*_i//_m.gcd(_L,_i)
LCM=_L*4
for _k in range(4): assert (P[_k]-1)%LCM==0
for _k in range(3): assert (P[_k]-1)%P[_k+1]==0

class NonResidue(Exception): pass
class Undef(Exception): pass
def tonelli(a,p):
    a%=p
    if a==0: return 0
    if pow(a,(p-1)//2,p)!=1: raise NonResidue()
    q=p-1;s=0
    while q%2==0: q//=2;s+=1
    z=2
    while pow(z,(p-1)//2,p)!=p-1: z+=1
    m=s;c=pow(z,q,p);t=pow(a,q,p);r=pow(a,(q+1)//2,p)
    while t!=1:
        i=0;tt=t
        while tt!=1: tt=tt*tt%p;i+=1
        b=pow(c,1<<(m-i-1),p);m=i;c=b*b%p;t=t*c%p;r=r*b%p
    return r
def kroot(a,k,p):
    """a k-th root (k prime dividing p-1 or coprime) by the AMM reduction for small k"""
    a%=p
    if a==0: return 0
    if k==1: return a
    for q in (2,3,5,7,11):
        if k%q==0 and k!=q: return kroot(kroot(a,q,p),k//q,p)
    if k==2: return tonelli(a,p)
    if (p-1)%k: return pow(a,pow(k,-1,p-1),p)
    if pow(a,(p-1)//k,p)!=1: raise NonResidue()
    s=p-1;e=0
    while s%k==0: s//=k;e+=1
    # find non-residue
    z=2
    while pow(z,(p-1)//k,p)==1: z+=1
    g=pow(z,s,p)             # order k^e
    u=pow(k,-1,s) if s>1 else 0
    x=pow(a,u,p)             # x^k = a * (elt of k-power order)
    err=pow(x,k,p)*pow(a,-1,p)%p  # order k-power and itself a k-th power g^(k j)
    # discrete log of err to base g^k , digits base k
    base=pow(g,k,p); j=0
    order=k**(e-1); gam=pow(base,order//k,p) if e>1 else 1
    cur=err
    for i in range(e-1):
        h=pow(cur,k**(e-2-i),p); d=0; gg=1
        while gg!=h:
            gg=gg*gam%p; d+=1
            if d>k: raise NonResidue()
        j+=d*k**i
        cur=cur*pow(base,-d*k**i,p)%p
    return x*pow(g,-j,p)%p
_gen={}
def subgen(l,order):
    """element of exact order `order` in GF(P[l])* """
    k=(l,order)
    if k not in _gen:
        p=P[l]; fs=[q for q in (2,3,5,7,11,13,17,19,23,29,31,P[l+1] if l<3 else 0) if q and order%q==0]
        g=2
        while True:
            h=pow(g,(p-1)//order,p)
            if all(pow(h,order//q,p)!=1 for q in fs): break
            g+=1
        _gen[k]=h
    return _gen[k]
IMAG=[pow(subgen(l,LCM),LCM//4,P[l]) for l in range(4)]

def pipart(t,cache):
    """exact rational r with t = r*pi + rest"""
    for x in topo([t]):
        if x.id in cache: continue
        op,a=x.op,x.a
        if op=='pi': r=Fr(1)
        elif op=='+': r=cache[a[0].id]+cache[a[1].id]
        elif op=='neg': r=-cache[a[0].id]
        elif op=='*' and a[0].op=='c': r=a[0].a[0]*cache[a[1].id]
        elif op=='*' and a[1].op=='c': r=a[1].a[0]*cache[a[0].id]
        elif op=='/' and a[1].op=='c': r=cache[a[0].id]/a[1].a[0]
        else: r=Fr(0)
        cache[x.id]=r
    return cache[t.id]

POSITIVE=set()      # uninterpreted functions whose contract says they are positive (their values are squares)
class Sample:
    """one random homomorphism; evaluates terms in any of the 4 levels with shared memo tables"""
    def __init__(s,rng,special=None,sums=None):
        s.rng=rng; s.vals=[{} for _ in range(4)]; s.memo=[{} for _ in range(4)]; s.fn=[{} for _ in range(4)]; s.cond={}
        s.pic={}; s.special=special or {}; s.force={}; s.loose=False
        s.pi=[pow(rng.randrange(2,p),2,p) for p in P]
    def varval(s,l,n):
        d=s.memo[l]
        if n not in d:
            sp=s.special.get(n)
            if sp is not None: d[n]=sp%P[l] if isinstance(sp,int) else s.ev(sp,l)
            else: d[n]=s.rng.randrange(P[l])
        return d[n]
    def fr(s,q,l): 
        p=P[l]
        if q.denominator==1: return q.numerator%p
        return q.numerator*pow(q.denominator,-1,p)%p
    def E(s,arg,l,imag):
        """exp(arg) or exp(i*arg) in level l"""
        if l>=3: raise Undef('exp nesting too deep')
        q=P[l+1]; g=subgen(l,q)
        v=s.ev(arg,l+1)
        if imag:
            r=pipart(arg,s.pic)
            v=(v-s.fr(r,l+1)*s.pi[l+1])*IMAG[l+1]%q
            r=r%2
            if (LCM//2)%r.denominator: raise Undef(f'root of unity {r}')
            z=pow(subgen(l,LCM),int(r*(LCM//2))%LCM,P[l])
            return pow(g,v,P[l])*z%P[l]
        return pow(g,v,P[l])
    def ev(s,t,l=0):
        V=s.vals[l]; p=P[l]
        if t.id in V: return V[t.id]
        # iterative post-order
        st=[t]
        while st:
            x=st[-1]
            if x.id in V: st.pop(); continue
            op,a=x.op,x.a
            if op=='ite':
                c=a[0]
                br=a[1] if s.truth(c,l) else a[2]
                if br.id not in V: st.append(br); continue
                V[x.id]=V[br.id]; st.pop(); continue
            if op=='f' and a[0] in('exp','sin','cos'):
                n=a[0]
                if n=='exp':
                    v=s.E(a[1],l,False)
                else:
                    e=s.E(a[1],l,True); ei=pow(e,-1,p)
                    v=(e+ei)*pow(2,-1,p)%p if n=='cos' else (e-ei)*pow(2*IMAG[l],-1,p)%p
                V[x.id]=v; st.pop(); continue
            todo=[y for y in a if isinstance(y,Term) and y.id not in V]
            if todo: st.extend(todo); continue
            st.pop()
            if op=='c': v=s.fr(a[0],l)
            elif op=='v': v=s.varval(l,a[0])
            elif op=='pi': v=s.pi[l]
            elif op=='+': v=(V[a[0].id]+V[a[1].id])%p
            elif op=='*': v=V[a[0].id]*V[a[1].id]%p
            elif op=='neg': v=-V[a[0].id]%p
            elif op=='/':
                d=V[a[1].id]
                if d==0: raise ZeroDivisionError(show(a[1],4))
                v=V[a[0].id]*pow(d,-1,p)%p
            elif op=='f':
                n=a[0]; ar=tuple(V[y.id] for y in a[1:])
                if n=='sqrt' or n=='root':
                    k=2 if n=='sqrt' else int(a[2].a[0])
                    key=('root',k,ar[0])
                    if key not in s.fn[l]:
                        try: w=s.fn[l][key]=kroot(ar[0],k,p)
                        except NonResidue:
                            if not s.loose: raise
                            w=s.fn[l][key]=s.rng.randrange(1,p)     # an arbitrary function of its argument
                        if w: s.fn[l][('root',k,pow(ar[0],-1,p))]=pow(w,-1,p)
                    v=s.fn[l][key]
                elif n=='fabs':
                    key=('fabs',)+ar; nk=('fabs',(-ar[0])%p)
                    if key not in s.fn[l]:
                        v=s.rng.choice((ar[0],-ar[0]%p)); s.fn[l][key]=v; s.fn[l][nk]=v
                    v=s.fn[l][key]
                elif n in('atan','asin'):
                    key=(n,)+ar
                    if key not in s.fn[l]:
                        v=s.rng.randrange(p); s.fn[l][key]=v; s.fn[l][(n,-ar[0]%p)]=-v%p
                    v=s.fn[l][key]
                else:
                    key=(n,)+ar
                    if key not in s.fn[l]: s.fn[l][key]=pow(s.rng.randrange(p),2,p) if n in POSITIVE else s.rng.randrange(p)
                    v=s.fn[l][key]
            elif op=='nan': raise Undef('constant division by zero')
            else: raise Undef('op '+op)
            V[x.id]=v
        return V[t.id]
    def assume(s,c,b):
        pred,x,y=c.a
        try: d=(s.ev(x)-s.ev(y))%P[0]
        except Undef: return
        if d==0: return
        s.cond[(0,d)]=b; s.cond[(0,-d%P[0])]=not b
    def truth(s,c,l):
        if c.op=='not': return not s.truth(c.a[0],l)
        pred,a,b=c.a
        d=(s.ev(a,l)-s.ev(b,l))%P[l]
        if d==0: return pred!='lt'
        if pred=='eq': return False
        k=(l,d)
        if k not in s.cond:
            r=s.force.get((c.id),None)
            if r is None: r=s.rng.random()<.5
            s.cond[k]=r; s.cond[(l,-d%P[l])]=not r
        return s.cond[k]

class Result:
    def __init__(s,status,method,info=None): s.status=status; s.method=method; s.info=info
    def __repr__(s): return f'{s.status}[{s.method}] {s.info or ""}'

def haspred(t,cache={}):
    return any(x.op in('ite',) or (x.op=='f' and x.a[0]=='fabs') for x in topo([t]))

def pit_zero(t,seed=1,samples=2,special=None,retries=60,path=(),loose=False):
    """True: identically zero (w.p.);  False: some sample non-zero;  None: cannot evaluate"""
    n=samples if not haspred(t) else 24
    path=[(c,b) for c,b in path if isinstance(c,Term) and c.op=='cmp' and c.a[0]!='eq']
    done=0; err=None
    for k in range(retries+n):
        s=Sample(random.Random(f'{seed}/{k}'),special); s.loose=loose
        try:
            for c,b in path: s.assume(c,b)
            v=s.ev(t)
        except NonResidue: err='nonresidue'; continue
        except ZeroDivisionError as e: err='division by zero '+str(e); continue
        except Undef as e: return None,str(e)
        if v!=0: return (None,'nonresidue') if loose else (False,None)
        done+=1
        if done>=n: return True,None
    if err=='nonresidue' and not loose: return pit_zero(t,seed,samples,special,0,path,True)
    return None,err
DPS=60
class DomainFail(Exception): pass
def anyfun(seed,amp=.3):
    """an arbitrary uninterpreted function: a fixed pseudo-random value for every (name, arguments to 35 digits)"""
    m={}
    def f(n,*a):
        k=(n,)+tuple(mpmath.nstr(mpmath.mpf(x),35) for x in a)
        if k not in m: m[k]=mpmath.mpf(random.Random(f'{seed}{k}').uniform(-amp if n not in POSITIVE else amp/4,amp))
        return m[k]
    return {'*':f}
def mp_zero(lhs,rhs,domain=None,seed=1,points=6,tol=mpmath.mpf(10)**-35,funs=None,tries=200):
    """domain(rng)-> {var: Fraction/float}; default: each variable uniform in (0.3,1.7)"""
    old=mpmath.mp.dps; mpmath.mp.dps=DPS
    try:
        if funs is None: funs=anyfun(seed)
        vs=variables([lhs,rhs]); rng=random.Random(f'mp{seed}'); ok=0; worst=0
        for k in range(tries):
            env=domain(rng) if domain else {}
            for v in vs:
                if v not in env: env[v]=Fr(rng.randrange(300,1700),1000)
            e2={v:mpmath.mpf(Fr(x).numerator)/Fr(x).denominator for v,x in env.items()}
            try:
                a=evalf(lhs,e2,mpmath,funs); b=evalf(rhs,e2,mpmath,funs)
            except (ZeroDivisionError,ValueError,TypeError) as ex: last=ex; continue
            if isinstance(a,mpmath.mpc) or isinstance(b,mpmath.mpc) or mpmath.isnan(a) or mpmath.isnan(b) : continue
            d=abs(a-b); sc=abs(a)+abs(b)+mpmath.mpf(10)**-10
            if d>tol*sc: return False,(env,float(a),float(b))
            worst=max(worst,float(d/sc)); ok+=1
            if ok>=points: return True,worst
        return None,f'only {ok} evaluable points'
    finally: mpmath.mp.dps=old

def rounded(lhs,rhs,domain,seed,funs,points=6,tries=60):
    """do the two sides differ by no more than what rounding of their numeric constants to double precision explains?
    (first-order propagation of 16 ulp per constant that is not a short dyadic number: literals with 15 digits; all operations exact).
    Returns the largest ratio difference/bound over random points, or None."""
    old=mpmath.mp.dps; mpmath.mp.dps=DPS
    if any(x.op in('ite','cmp','not','nan') or x.op=='f' and x.a[0]=='fmod' for x in topo([lhs,rhs])): mpmath.mp.dps=old; return None
    mp=mpmath; u=mp.mpf(2)**-48
    def ev(t,env):
        v={}; e={}
        for x in topo([t]):
            op,a=x.op,x.a; i=x.id
            if op=='c':
                q=a[0]; v[i]=mp.mpf(q.numerator)/q.denominator
                e[i]=mp.mpf(0) if q.denominator&(q.denominator-1)==0 and q.denominator<=1024 and abs(q)<2**30 else abs(v[i])*u
            elif op=='pi': v[i]=+mp.pi; e[i]=v[i]*u
            elif op=='v': v[i]=env[a[0]]; e[i]=mp.mpf(0)
            elif op=='neg': v[i]=-v[a[0].id]; e[i]=e[a[0].id]
            else:
                if op in '+*/': A,B=v[a[0].id],v[a[1].id]; ea,eb=e[a[0].id],e[a[1].id]
                if op=='+': v[i]=A+B; e[i]=ea+eb
                elif op=='*': v[i]=A*B; e[i]=abs(A)*eb+abs(B)*ea
                elif op=='/': v[i]=A/B; e[i]=(ea+abs(v[i])*eb)/abs(B)
                elif op=='f':
                    n=a[0]; ar=[v[y.id] for y in a[1:]]; er=[e[y.id] for y in a[1:]]
                    f=lambda z: (z[0]**(mp.mpf(1)/z[1]) if n=='root' else abs(z[0]) if n=='fabs' else getattr(mp,n)(*z) if n in('sqrt','exp','log','sin','cos','atan','asin','acos','atan2','floor','ceil','erf') else funs[n](*z) if n in funs else funs['*'](n,*z))
                    v[i]=f(ar); e[i]=mp.mpf(0)
                    for k in range(len(ar)):
                        if er[k]:
                            h=mp.mpf(10)**-25; e[i]+=er[k]*abs(f(ar[:k]+[ar[k]+h]+ar[k+1:])-v[i])/h
                else: raise ValueError(op)
        return v[t.id],e[t.id]
    try:
        if funs is None: funs=anyfun(seed)
        vs=variables([lhs,rhs]); rng=random.Random(f'mp{seed}'); ok=0; worst=0
        for k in range(tries):
            env=domain(rng) if domain else {}
            for q in vs:
                if q not in env: env[q]=Fr(rng.randrange(300,1700),1000)
            e2={q:mp.mpf(Fr(x).numerator)/Fr(x).denominator for q,x in env.items()}
            try: a,ea=ev(lhs,e2); b,eb=ev(rhs,e2)
            except (ZeroDivisionError,ValueError,TypeError,AttributeError): continue
            if any(isinstance(z,mp.mpc) or mp.isnan(z) for z in (a,b,ea,eb)): continue
            d=abs(a-b)
            if d>ea+eb or d>1e-11*(abs(a)+abs(b)): return None
            if d: worst=max(worst,float(d/(ea+eb)))
            ok+=1
            if ok>=points: return worst
        return None
    finally: mpmath.mp.dps=old

def lognorm(roots):
    """rewrites valid where the logarithms are defined: log of products, quotients, roots and variables is expanded
    (a variable under a log is written exp(ln v)), exp of sums splits off rational multiples of logs"""
    vs=set()
    def lvars(u):
        if u.op=='v': vs.add(u.a[0])
        elif u.op in('*','/'): lvars(u.a[0]); lvars(u.a[1])
        elif u.op=='f' and u.a[0] in('sqrt','root'): lvars(u.a[1])
    for x in topo(roots):
        if x.op=='f' and x.a[0]=='log': lvars(x.a[1])
    m={v:exp(var('ln '+v)) for v in vs}
    c={}
    def lg(u):
        if u.op=='f' and u.a[0]=='exp': return u.a[1]
        if u.op=='*': return add(lg(u.a[0]),lg(u.a[1]))
        if u.op=='/': return sub(lg(u.a[0]),lg(u.a[1]))
        if u.op=='f' and u.a[0]=='sqrt': return mul(HALF,lg(u.a[1]))
        if u.op=='f' and u.a[0]=='root': return div(lg(u.a[1]),u.a[2])
        if u is ONE: return ZERO
        return fn('log',u)
    def summands(u,k,out):
        if u.op=='+': summands(u.a[0],k,out); summands(u.a[1],k,out)
        elif u.op=='neg': summands(u.a[0],neg(k),out)
        elif u.op=='*' and u.a[0].op=='+': 
            for q in u.a[0].a: summands(mul(q,u.a[1]),k,out)
        elif u.op=='*' and u.a[1].op=='+': 
            for q in u.a[1].a: summands(mul(u.a[0],q),k,out)
        elif u.op=='*' and u.a[0].op=='neg': summands(mul(u.a[0].a[0],u.a[1]),neg(k),out)
        elif u.op=='*' and u.a[1].op=='neg': summands(mul(u.a[0],u.a[1].a[0]),neg(k),out)
        elif u.op=='*' and u.a[0].op=='c': summands(u.a[1],mul(k,u.a[0]),out)
        elif u.op=='/' and u.a[0].op=='+':
            for q in u.a[0].a: summands(div(q,u.a[1]),k,out)
        elif u.op=='*' and 'c' not in (u.a[0].op,u.a[1].op):
            # pull numeric factors outwards
            for i in (0,1):
                if u.a[i].op=='*' and u.a[i].a[0].op=='c': return summands(mul(u.a[i].a[1],u.a[1-i]),mul(k,u.a[i].a[0]),out)
                if u.a[i].op=='*' and (u.a[i].a[0].op=='+' or u.a[i].a[1].op=='+'):
                    w=u.a[i]; j=0 if w.a[0].op=='+' else 1
                    for q in w.a[j].a: summands(mul(mul(q,w.a[1-j]),u.a[1-i]),k,out)
                    return
            out.append((k,u))
        else: out.append((k,u))
    def ex(u):
        out=[]; summands(u,ONE,out); r=ONE; rest=ZERO
        for k,x in out:
            if x.op=='f' and x.a[0]=='log' and k.op=='c' and k.a[0].denominator<=12: r=mul(r,pow_(x.a[1],k))
            else: rest=add(rest,mul(k,x))
        return mul(r,exp(rest))
    for x in topo(roots):
        a=[c[y.id] if isinstance(y,Term) else y for y in x.a]
        if x.op=='f' and x.a[0]=='log': c[x.id]=lg(a[1])
        elif x.op=='f' and x.a[0]=='exp': c[x.id]=ex(a[1])
        else: c[x.id]=rebuild(x,a,m)
    return [c[r.id] for r in roots]
def equal(lhs,rhs,domain=None,seed=1,special=None,funs=None,points=6,assume=None,path=()):
    lhs=lift(lhs); rhs=lift(rhs)
    if lhs is rhs: return Result('ok','syntactic')
    try:
        z,info=pit_zero(sub(lhs,rhs),seed,special=special,path=path)
        if not z and any(x.op=='f' and x.a[0]=='log' for x in topo([lhs,rhs])):
            l2,r2=lognorm([lhs,rhs])
            if l2 is r2: return Result('ok','syntactic')
            z2,i2=pit_zero(sub(l2,r2),seed,special=special,path=path)
            if z2: z=z2
    except RecursionError: z,info=None,'recursion'
    if z: return Result('ok','pit')
    z2,info2=mp_zero(lhs,rhs,domain,seed,funs=funs,points=points)
    if z2 is False:
        r=rounded(lhs,rhs,domain,seed,funs)
        if r is not None: return Result('ok','rounded',f'largest ratio of difference to effect of rounding the constants {r:.2f}')
        if z is False or z is None: return Result('bad','pit+mp' if z is False else 'mp',info2)
    if z2: return Result('ok','mp',f'pit:{z} {info}; worst {info2:.1e}')
    return Result('unknown','pit' if z is False else 'none',f'{info} / {info2}')
