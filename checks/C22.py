"""C22  Spherical harmonics.  sgrid's functions run as written for arbitrary angles and every order and spin weight up to a stated
degree; the oracle is the definition: Legendre polynomials from Rodrigues' formula, Y_l^m with the Condon-Shortley phase, and
the spin-weighted harmonics from Y_l^m by the spin raising and lowering operators.  The discrete transform behind the
Y_lm filter is compared with exact integrals over the sphere."""
import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib')
from spec import *
from C03 import rand
from math import factorial as fac
# ------------------------------------------------------------------ the definition, exactly
def rodrigues(l):
    """coefficients of P_l(x)=1/(2^l l!) d^l/dx^l (x^2-1)^l"""
    p=[Fr(0)]*(2*l+1)
    for k in range(l+1): p[2*k]=Fr((-1)**(l-k)*math.comb(l,k))
    for _ in range(l): p=[p[i]*i for i in range(1,len(p))]
    return [x/(2**l*fac(l)) for x in p]
def alp(l,m):
    """P_l^m, m>=0, with the Condon-Shortley phase, as {(power of cos, power of sin): coefficient}"""
    p=rodrigues(l)
    for _ in range(m): p=[p[i]*i for i in range(1,len(p))]
    return {(i,m):(-1)**m*x for i,x in enumerate(p) if x}
def ylm(l,m):
    """(square of the normalisation times 4 pi, Laurent polynomial)"""
    a=abs(m); d=alp(l,a); n=Fr((2*l+1)*fac(l-a),fac(l+a))
    if m<0: d={k:(-1)**a*v for k,v in d.items()}
    return n,d
def lin(*ts):
    r={}
    for c,di,dj,d in ts:
        for (i,j),v in d.items():
            k=(i+di,j+dj); r[k]=r.get(k,0)+c*v
    return {k:v for k,v in r.items() if v}
def dth(d):
    r={}
    for (i,j),v in d.items():
        if i: r[i-1,j+1]=r.get((i-1,j+1),0)-i*v
        if j: r[i+1,j-1]=r.get((i+1,j-1),0)+j*v
    return r
def edth(d,s,m):      # -(d_theta - m/sin - s cot)
    return lin((-1,0,0,dth(d)),(m,0,-1,d),(s,1,-1,d))
def edthbar(d,s,m):   # -(d_theta + m/sin + s cot)
    return lin((-1,0,0,dth(d)),(-m,0,-1,d),(-s,1,-1,d))
def sylm(l,m,s):
    n,d=ylm(l,m)
    if abs(s)>l: return None
    for k in range(abs(s)): d=edth(d,k,m) if s>0 else edthbar(d,-k,m)
    if s<0: d={k:(-1)**abs(s)*v for k,v in d.items()}
    return n*Fr(fac(l-abs(s)),fac(l+abs(s))),d
def evalL(d,c,s,top=None):
    """value with c=cos, s=sin"""
    r=T.ZERO
    for (i,j),v in d.items():
        t=T.const(v)
        for _ in range(i): t=t*c
        for _ in range(abs(j)): t=t*s if j>0 else t/s
        r=r+t
    return r
def red(d):
    """reduce with sin^2=1-cos^2 to a polynomial (only sin powers 0, 1 and negative ones that cancel)"""
    m=min([j for _,j in d]+[0]); sh=-m+(m%2)
    e={}
    for (i,j),v in d.items():
        j+=sh; q,b=divmod(j,2)
        for k in range(q+1):
            key=(i+2*k,b); e[key]=e.get(key,0)+v*(-1)**k*math.comb(q,k)
    return {k:v for k,v in e.items() if v},sh
def integral(d):
    """integral of the Laurent polynomial times sin(theta) over [0,pi] (even powers of sin only)"""
    # divide by (1-x^2)^(sh/2): do the division exactly
    e,sh=red(d); assert all(b==0 for _,b in e),e
    n=max([i for i,_ in e]+[0])+1; p=[Fr(0)]*n
    for (i,_),v in e.items(): p[i]=v
    for _ in range(sh//2):
        q=[Fr(0)]*len(p)                                        # p=(1-x^2) q
        for i in range(len(p)): q[i]=p[i]+(q[i-2] if i>1 else 0)
        assert all(q[i]==0 for i in range(max(0,len(p)-2),len(p))); p=q
    return sum(v*2/(i+1) for i,v in enumerate(p) if i%2==0)
# ------------------------------------------------------------------ cases on functions
def angles(ctx):
    h=ctx.var('h',.05,1.5); p=T.lift(ctx.var('phi',.1,6.)); h=T.lift(h); C,S=T.cos(h),T.sin(h)
    return h+h,p,C*C-S*S,T.const(2)*S*C
FP4=lambda n:T.sqrt(T.const(n)/(T.PI*4))
def swsh(L,s):
    def f(ctx):
        W=ctx.W; th,ph,c,sn=angles(ctx); ranges(ctx)
        for l in L:
            for m in range(-l,l+1):
                d=sylm(l,m,s)
                if d is None: w=wi=T.ZERO
                else: t=FP4(d[0])*evalL(d[1],c,sn); w,wi=t*T.cos(ph*m),t*T.sin(ph*m)
                ctx.eq(f'Re l={l} m={m}',W.call('Re_sYlm',l,m,s,th,ph,ret='d'),w,tol=1e-10,scale=1)
                ctx.eq(f'Im l={l} m={m}',W.call('Im_sYlm',l,m,s,th,ph,ret='d'),wi,tol=1e-10,scale=1)
    return f
def tabs(Lm):
    def f(ctx):
        W=ctx.W; th,ph,c,sn=angles(ctx); ranges(ctx); x=c
        n=(Lm+1)*(Lm+2)//2; R=W.arr([7.]*n+[3.]); I=W.arr([7.]*n+[3.]); W.call('set_YlmTabs',Lm,th,ph,R,I,ret='v')
        ctx.eq('end',W.get(R,n),3.); ctx.eq('end Im',W.get(I,n),3.)
        P=W.arr([7.]*n+[3.]); W.call('set_PlmTab',Lm,x,P,ret='v'); ctx.eq('end P',W.get(P,n),3.); o=W.arr([0.]); o2=W.arr([0.])
        for l in range(Lm+1):
            for m in range(-l,l+1):
                q,d=ylm(l,m); t=FP4(q)*evalL(d,c,sn)
                W.call('Ylm_from_Tabs',Lm,R,I,l,m,o,o2,ret='v')
                ctx.eq(f'Re Y {l} {m}',W.get(o,0),t*T.cos(ph*m),tol=1e-10); ctx.eq(f'Im Y {l} {m}',W.get(o2,0),t*T.sin(ph*m),tol=1e-10)
                if m<0: continue
                w=evalL(alp(l,m),c,sn); sc=1+fac(l+m)/fac(l)
                ctx.eq(f'P {l} {m}',W.call('PLegendre',l,m,x,ret='d'),w,tol=1e-10,scale=sc); ctx.eq(f'P table {l} {m}',W.call('Plm_from_Tab',Lm,P,l,m,ret='d'),w,tol=1e-10,scale=sc)
    return f
def slow(L):
    def f(ctx):
        W=ctx.W; th,ph,c,sn=angles(ctx); ranges(ctx)
        for l in range(L+1):
            for m in range(-l,l+1):
                q,d=ylm(l,m); t=FP4(q)*evalL(d,c,sn)
                ctx.eq(f'Re Y {l} {m}',W.call('Re_Ylm_slowly',l,m,th,ph,ret='d'),t*T.cos(ph*m),tol=1e-10); ctx.eq(f'Im Y {l} {m}',W.call('Im_Ylm_slowly',l,m,th,ph,ret='d'),t*T.sin(ph*m),tol=1e-10)
                if m>=0: ctx.eq(f'P {l} {m}',W.call('Plm_slowly',l,m,c,ret='d'),evalL(alp(l,m),c,sn),tol=1e-10,scale=1+fac(l+m)/fac(l))
    return f
def poles(ctx):
    """exactly on the axis"""
    W=ctx.W; ph=T.lift(ctx.var('phi',.1,6.)); ranges(ctx)
    for nm,x,th in (('north',1.,0.),('south',-1.,None)):
        for l in range(6):
            for m in range(l+1):
                w=0 if m else (1 if x>0 else (-1)**l); ctx.eq(f'P {nm} {l} {m}',W.call('PLegendre',l,m,x,ret='d'),w)
    for l in range(4):
        for s in range(-3,4):
            for m in range(-l,l+1):
                v=T.ZERO
                if m==-s and abs(s)<=l: v=FP4(2*l+1)*T.const((-1)**abs(s))           # sYlm(0)=(-1)^s sqrt((2l+1)/4pi) delta_{m,-s} e^{i m phi}
                ctx.eq(f'sY north {l} {m} {s}',W.call('Re_sYlm',l,m,s,T.ZERO if ctx.sym else 0.,ph,ret='d'),v*T.cos(ph*m))
def lemma(ctx):
    """the definitions above are orthonormal on the sphere"""
    for s in range(-3,4):
        for m in range(-3,4):
            for l in range(max(abs(s),abs(m)),6):
                for k in range(l,6):
                    a,b=sylm(l,m,s),sylm(k,m,s); p=lin(*[(v,i,j,b[1]) for (i,j),v in a[1].items()])
                    I=integral(p)*Fr(1,2)
                    ctx.true(f'{s} {m} {l} {k}',I*I*a[0]*b[0]==(1 if l==k else 0))
# ------------------------------------------------------------------ coefficients of derivatives
def coefs(L):
    def f(ctx):
        W=ctx.W; ranges(ctx); n=(L+1)*(L+2)
        pairs=[(l,m) for l in range(L+1) for m in range(l+1)]; c={}
        for l,m in pairs: c[l,m]=(T.lift(ctx.var(f'r{l}{m}',-1,1)),T.lift(ctx.var(f'i{l}{m}',-1,1)) if m else T.ZERO)
        A=W.arr([x for p in pairs for x in c[p]]); o=W.arr([7.]*n+[3.]); q=W.arr([7.]*n+[3.])
        W.call('SphHarm_dphi_forRealFunc',A,o,L,ret='v'); W.call('SphHarm_sin_theta_dtheta_forRealFunc',A,q,L,ret='v')
        ctx.eq('end',W.get(o,n),3.); ctx.eq('end theta',W.get(q,n),3.)
        for k,(l,m) in enumerate(pairs):
            R,I=c[l,m]; ctx.eq(f'dphi Re {l} {m}',W.get(o,2*k),-I*m); ctx.eq(f'dphi Im {l} {m}',W.get(o,2*k+1),R*m)
            ctx.eq(f'unchanged {l} {m}',W.get(A,2*k),R)
        # sin(theta) d/dtheta of Y_l'^m projected on Y_l^m, by exact integration
        for k,(l,m) in enumerate(pairs):
            w=[T.ZERO,T.ZERO]
            for lp in range(max(m,l-1),min(L,l+1)+1):
                a,b=ylm(l,m),ylm(lp,m); d=lin((1,0,1,dth(b[1]))); p=lin(*[(v,i,j,d) for (i,j),v in a[1].items()])
                I=integral(p)*Fr(1,2)
                if I:
                    e=T.sqrt(T.const(a[0]*b[0]))*T.const(I); w=[w[0]+e*c[lp,m][0],w[1]+e*c[lp,m][1]]
            ctx.eq(f'sin theta dtheta Re {l} {m}',W.get(q,2*k),w[0],tol=1e-12,scale=10); ctx.eq(f'sin theta dtheta Im {l} {m}',W.get(q,2*k+1),w[1],tol=1e-12,scale=10)
    return f
# ------------------------------------------------------------------ the discrete transform and the filter
def pts(bw): return [(T.cos(ang(Fr(2*j+1,4*bw))),T.sin(ang(Fr(2*j+1,4*bw)))) for j in range(2*bw)]
def pml(bw,l,m):
    """P_l^m normalised to one on [-1,1], at the points"""
    q,d=ylm(l,m); return [T.sqrt(T.const(q/2))*evalL(d,c,s) for c,s in pts(bw)]
def generic(ctx):
    """the branch "coefficient != 0" of the synthesis: a computed coefficient that is an expression in the unknowns is taken to be
    non-zero (a zero one contributes nothing on either branch, see the obligations 'zero coefficient')"""
    if not ctx.sym: return
    old=ctx.W.M.oracle
    def orc(M,c):
        r=old(M,c) if old else None
        if r is None and c.op=='cmp' and c.a[0]=='eq' and any(x.op=='c' and x.a[0]==0 for x in c.a[1:]): return False
        return r
    ctx.W.M.oracle=orc
def table(BW):
    def f(ctx):
        W=ctx.W; ranges(ctx); generic(ctx)
        for bw in BW:
            ws=W.arr([0.]*(18*bw)); wt=W.arr([7.]*(4*bw)+[3.]); W.call('makeweights',bw,wt,ret='v'); ctx.eq('end',W.get(wt,4*bw),3.)
            w=[T.lift(W.get(wt,j)) for j in range(2*bw)]; P=pts(bw)
            for j in range(2*bw): ctx.eq(f'odd weight {bw} {j}',W.get(wt,2*bw+j),w[j]*P[j][1],tol=1e-13)
            # exact integration of every polynomial of degree below 2 bw
            for l in range(2*bw): ctx.eq(f'quadrature {bw} degree {l}',sm(w[j]*(T.ONE if not l else mono(P[j][0],l)) for j in range(2*bw)),Fr(2,l+1) if l%2==0 else 0,tol=1e-13)
            for m in range(bw):
                n=2*bw*(bw-m); pl=W.arr([7.]*n+[3.]); W.call('PmlTableGen',bw,m,pl,ws,ret='v'); ctx.eq(f'end {bw} {m}',W.get(pl,n),3.)
                for l in range(m,bw):
                    for j,x in enumerate(pml(bw,l,m)): ctx.eq(f'table {bw} m={m} l={l} {j}',W.get(pl,2*bw*(l-m)+j),x,tol=1e-12,scale=10)
                # analysis after synthesis
                c=[T.lift(ctx.var(f'c{bw}_{m}_{i}',-1,1)) for i in range(bw-m)]; C=W.arr(c); S=W.arr([0.]*(2*bw)); S2=W.arr([5.]*(2*bw)); R=W.arr([7.]*(bw-m)+[3.])
                W.call('Naive_SynthesizeX',C,bw,m,S,pl,ret='v'); W.call('Naive_AnalysisX',S,bw,m,wt,R,pl,ws,ret='v'); ctx.eq(f'end a {bw} {m}',W.get(R,bw-m),3.)
                for i in range(bw-m): ctx.eq(f'round trip {bw} {m} {i}',W.get(R,i),c[i],tol=1e-11,scale=10)
                for z in range(bw-m):
                    d=[T.ZERO if i==z else x for i,x in enumerate(c)]; W.call('Naive_SynthesizeX',W.arr(d),bw,m,S2,pl,ret='v')
                    for j in range(2*bw): ctx.eq(f'zero coefficient {bw} {m} {z} {j}',W.get(S2,j),sm(d[l-m]*pml(bw,l,m)[j] for l in range(m,bw)),tol=1e-11,scale=10)
                for j in range(2*bw): ctx.eq(f'synthesis {bw} {m} {j}',W.get(S,j),sm(c[l-m]*pml(bw,l,m)[j] for l in range(m,bw)),tol=1e-11,scale=10)
    return f
def mono(x,k):
    r=T.ONE
    for _ in range(k): r=r*x
    return r
def sph(sym,n): return mkspec(sym,('ChebExtrema','Fourier','Fourier'),n,pars={'box0_Coordinates':'SphericalDF','box0_min1':'1','box0_max1':'2','box0_min2':'0','box0_max2':'2*pi','box0_min3':'0','box0_max3':'2*pi'},enable=('temp1',))
def filt(sh):
    def f(ctx):
        W=ctx.W; n1,n2,n3=W.ns; bw=n2//4; N=n1*n2*n3; ranges(ctx)
        v,w=[[T.lift(x) for x in rand(ctx,nm,N)] for nm in 'uw']
        for nm,q in (('u',v),('w',w)):
            p=W.v(W.bx,nm)
            for i in range(N): W.set(p,i,q[i])
        generic(ctx)
        vl=W.call('vlalloc',W.g,ret='p'); W.call('vlpush',vl,W.ind('u'),ret='v'); W.call('Naive_YlmFilter_lmshift',vl,sh,ret='v')
        out={}
        wt=[T.const(Fr(2,bw))*P[1]*sm(T.sin(ang(Fr((2*j+1)*(2*k+1),4*bw)))/(2*k+1) for k in range(bw)) for j,P in enumerate(pts(bw))]
        for i in range(n1):
            val=lambda j,k: v[i+n1*(j+n2*k)]
            for j in range(n2//2):
                for k in range(n3):
                    t=T.ZERO; out[i,j,k]=t
            for m in range(n3//2+1):
                for fn in 'cs' if 0<m<n3//2 else 'c':
                    nrm=T.const(Fr(1 if m in(0,n3//2) else 2,n3)); e=[four(m,fn,Fr(k,n3)) for k in range(n3)]
                    cj=[nrm*sm(e[k]*val(j,k) for k in range(n3)) for j in range(n2//2)]
                    for l in range(m,bw+sh):
                        P=pml(bw,l,m); a=sm(wt[j]*P[j]*cj[j] for j in range(2*bw))
                        for j in range(n2//2):
                            for k in range(n3): out[i,j,k]=out[i,j,k]+a*P[j]*e[k]
            for j in range(n2):
                for k in range(n3):
                    g=W.get(W.v(W.bx,'u'),i+n1*(j+n2*k)); q=out[i,j,k] if j<n2//2 else out[i,n2-j-1,(k+n3//2)%n3]
                    ctx.eq(f'filtered {i} {j} {k}',g,q,tol=1e-11,scale=20)
        for I in range(N): ctx.eq(f'other variable {I}',W.get(W.v(W.bx,'w'),I),w[I])
    return f
def keep(bw):
    """lemma on the discrete projection the filter contract uses: it is the identity on harmonics of degree below bw and removes degree bw"""
    def f(ctx):
        P=pts(bw); wt=[T.const(Fr(2,bw))*P[j][1]*sm(T.sin(ang(Fr((2*j+1)*(2*k+1),4*bw)))/(2*k+1) for k in range(bw)) for j in range(2*bw)]
        for m in range(bw):
            for l in range(m,bw):
                for q in range(m,bw+1):
                    ctx.eq(f'{m} {l} {q}',sm(wt[j]*pml(bw,l,m)[j]*pml(bw,q,m)[j] for j in range(2*bw)),1 if l==q else 0,tol=1e-12)
    return f
def modecomp(ctx):
    """the harmonics put on the grid of the mode computer, including the doubly covered points"""
    W=ctx.W; n1,n2,n3=W.ns; L=1; ranges(ctx); r,q=W.ind('u'),W.ind('w')
    for s in (-2,-1,0,1):
        ctx.true('number of modes',W.call('ModeComputer_set_sYlm_inbox',W.bx,r,q,s,L)==(L+1)**2)
        i=0
        for l in range(L+1):
            for m in range(-l,l+1):
                for j in range(n2):
                    for k in range(n3):
                        J,K=(j,k) if j<n2//2 else (n2-1-j,(k+n3//2)%n3)
                        th=ang(Fr(2*J,n2)+Fr(1,n2)); c,sn=T.cos(th),T.sin(th); d=sylm(l,m,s); t=FP4(d[0])*evalL(d[1],c,sn) if d else T.ZERO; ph=ang(Fr(2*K,n3))
                        I=i+n1*(j+n2*k)
                        ctx.eq(f's={s} Re {l} {m} {j} {k}',W.get(W.v(W.bx,'u'),I),t*T.cos(ph*m),tol=1e-12); ctx.eq(f's={s} Im {l} {m} {j} {k}',W.get(W.v(W.bx,'w'),I),t*T.sin(ph*m),tol=1e-12)
                i+=1
base=lambda sym:mkspec(sym,('Fourier',)*3,(1,1,1))
cases=[]
def K(nm,f,b='degree',**k): cases.append(Case(nm,f,base=lambda:base(True),rbase=lambda:base(False),group='k',bounded=b,timeout=600,**k))
for s in range(-3,4): K(f'spin weight {s}',swsh(range(0,6),s),'l<=5')
for s in (-2,0,2): K(f'spin weight {s}, high degree',swsh(range(6,9),s),'l<=8',tier='thorough')
K('tables',tabs(6),'l<=6'); K('tables short',lambda ctx:(tabs(0)(ctx)),'l=0'); K('slow functions',slow(4),'l<=4'); K('poles',poles,'l<=5'); K('orthonormality of the definition',lemma,'l<=5')
for L in (0,1,4): K(f'derivative coefficients lmax={L}',coefs(L),f'lmax={L}')
K('Legendre transform',table((1,2,3)),'bandwidth<=3'); K('Legendre transform 4',table((4,)),'bandwidth 4'); K('projection',keep(3),'bandwidth 3')
for n,sh in (((2,8,4),0),((1,8,6),0),((1,8,4),-1),((1,12,6),0),((1,4,2),0)):
    cases.append(Case(f'Y_lm filter {n} {sh}',filt(sh),base=lambda n=n:sph(True,n),rbase=lambda n=n:sph(False,n),group=f'f{n}',bounded='box of %dx%dx%d points'%n,timeout=600))
cases.append(Case('mode computer',modecomp,base=lambda:sph(True,(4,4,4)),rbase=lambda:sph(False,(4,4,4)),group='m',bounded='box of 4x4x4 points',timeout=600))
if __name__=='__main__':
    main('C22',cases,level='proof',trusted=['BLAS: cblas_dgemv'])
