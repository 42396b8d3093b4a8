"""C25  Post-Newtonian binary.  The right-hand side of the orbit equations, the orbital radius, the constants and the wave form
run as written for arbitrary masses, spins, orbital normal, frequency, phase and direction.  Conservation (|S1|, |S2|, |L|, total
angular momentum) is decided on sgrid's own derivatives; the expansions are compared, coefficient by coefficient, with the
published ones (tables over monomials), the wave form also with the published polarisations H+, Hx of Blanchet, Iyer, Will and
Wiseman (1996), which sgrid does not use."""
import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib')
from spec import *
import pndata
GE='0.577215664901532860606512090082402431042'
# the constants that the compiler folds, so that their rounded values in the code can be recognised
gamma=T.const(Fr(GE)); _a=T.const(Fr(16447322263,139708800))
for _t in (gamma,_a,T.const(Fr(273811877,1088640)),_a-gamma*Fr(1712,105),_a-gamma*Fr(1712,105)+T.PI*T.PI*Fr(16,3),T.log(T.const(16))*Fr(856,105),T.const(Fr(-273811877,1088640))+T.PI*T.PI*Fr(451,48)-T.const(Fr(88*1039,3*4620)),T.PI*T.PI*2045736-56198689): T.meaning(_t)
PP={'physics':'PN_CircularOrbit_GWs','PN_CircularOrbit_GWs_lmax':'1','PN_CircularOrbit_GWs_sphere_Lmax':'1'}
def mk(sym,n=(4,4,4),extra=None):
    d=dict(PP); d.update({'nboxes':'1','boundary':'none','box0_Coordinates':'SphericalDF','box0_basis1':'Fourier','box0_basis2':'Fourier','box0_basis3':'Fourier',
      'box0_min1':'1','box0_max1':'5','box0_min2':'0','box0_max2':'2*pi','box0_min3':'0','box0_max3':'2*pi'})
    for k in (1,2,3): d[f'box0_n{k}']=str(n[k-1])
    def ex(W):
        for v in 'abcdefgh': W.call('AddVar',v,'','',ret='v')
    W=mkworld(sym,d,'alt',extra=ex)
    for v in 'abcdefgh': W.call('enablevar',W.g,W.ind(v),ret='v')
    W.bx=W.box[0]; W.ns=n; return W
def dotp(a,b): return sm(x*y for x,y in zip(a,b))
def cross(a,b): return [a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]]
class O:
    """state: v=(m omega)^(1/3), masses, spins, unit normal, phase"""
    def __init__(s,ctx,unit=True,up=False,pars={}):
        s.ctx=ctx; s.W=W=ctx.W
        s.m1=T.lift(ctx.var('m1',.4,.9)); s.m2=T.lift(ctx.var('m2',.2,.39)); s.m=s.m1+s.m2; s.nu=s.m1*s.m2/(s.m*s.m); s.d=(s.m1-s.m2)/s.m
        s.om=T.lift(ctx.var('om',.005,.08)); s.v=T.root(s.m*s.om,3)
        s.S1=[T.lift(ctx.var(f's1{k}',.05,.3)) for k in range(3)]; s.S2=[T.lift(ctx.var(f's2{k}',-.2,.1)) for k in range(3)]
        p,q=T.lift(ctx.var('Lp',.2,.8)),T.lift(ctx.var('Lq',.1,.7)); w=T.ONE+p*p+q*q
        s.L=[p*2/w,q*2/w,(w-2)/w*(-1)] if not up else [T.ZERO,T.ONE,T.ZERO]
        Ly=s.L
        if not unit:
            Ly=[T.lift(ctx.var(f'L{k}',lo,hi)) for k,(lo,hi) in enumerate(((.1,.7),(.1,.7),(-.6,-.2)))] if not up else [T.ZERO,T.lift(ctx.var('L1',.7,1.4)),T.ZERO]
            nn=T.sqrt(Ly[0]*Ly[0]+Ly[1]*Ly[1]+Ly[2]*Ly[2]); s.L=[x/nn for x in Ly]
        s.Phi=T.lift(ctx.var('Phi',.1,6.)); s.r=T.lift(ctx.var('r',5.,9.))
        for k,x in pars.items(): setpar(ctx,'PN_CircularOrbit_GWs_'+k,x)
        ranges(ctx); s.y=[s.r,s.om]+s.S1+s.S2+Ly+[s.Phi]
        s.c1=[x/(s.m1*s.m1) for x in s.S1]; s.c2=[x/(s.m2*s.m2) for x in s.S2]
    def rhs(s):
        W=s.W; W.call('PN_CircOrbit_compute_constants',s.m1,s.m2,ret='v'); setg(s.ctx,'tsdamp',1e100)
        y=W.arr(s.y+[11.]); o=W.arr([7.]*12+[3.]); W.call('PN_CircOrbit_derivs',T.lift(s.ctx.var('t',0,9)),y,o,ret='v'); s.Y=[T.lift(W.get(y,i)) for i in range(13)]
        s.ctx.eq('end',W.get(o,12),3.); s.ctx.eq('start',W.get(o,0),7.)
        return [T.lift(W.get(o,i)) for i in range(12)]
def setg(ctx,name,x):
    W=ctx.W
    if ctx.sym: W.M.store(W.M.glob(name,W.M.prog.globs[name][0]),T.lift(x),8)
    else: W.glob(name,'d').value=ctx.num(x)
# ------------------------------------------------------------------ the equations
def precession(up):
    def f(ctx):
        s=O(ctx,unit=False,up=up); D=s.rhs(); L=s.L; v=s.v; m=s.m; nu=s.nu
        for k in range(3): ctx.eq(f'normal is normalised {k}',s.Y[8+k],L[k])
        for k in list(range(8))+[11]: ctx.eq(f'state unchanged {k}',s.Y[k],s.y[k])
        d1,d2,dl=D[2:5],D[5:8],D[8:11]
        ctx.eq('|S1| constant',dotp(s.S1,d1),0,tol=1e-11); ctx.eq('|S2| constant',dotp(s.S2,d2),0,tol=1e-11); ctx.eq('|L| constant',dotp(L,dl),0,tol=1e-11)
        for k in range(3): ctx.eq(f'J conserved at fixed frequency {k}',nu*m*m/v*dl[k]+d1[k]+d2[k],0,tol=1e-11)
        # Buonanno et al 2003 (2), (3), (9)
        v6=v**6
        def Om(mA,mB,SB): return [v6/(m*2)*(nu*(T.const(4)+mB*3/mA)/v*L[k]+(SB[k]-dotp(L,SB)*3*L[k])/(m*m)) for k in range(3)]
        for nm,S,o,got in (('S1',s.S1,Om(s.m1,s.m2,s.S2),d1),('S2',s.S2,Om(s.m2,s.m1,s.S1),d2)):
            w=cross(o,S)
            for k in range(3): ctx.eq(f'd{nm} {k}',got[k],w[k],tol=1e-11)
        o=[v6/(m*m*m*2)*((T.const(4)+s.m2*3/s.m1)*s.S1[k]+(T.const(4)+s.m1*3/s.m2)*s.S2[k]-v*3/(nu*m*m)*(s.S1[k]*dotp(L,s.S2)+s.S2[k]*dotp(L,s.S1))) for k in range(3)]; w=cross(o,L)
        for k in range(3): ctx.eq(f'dL {k}',dl[k],w[k],tol=1e-11)
        if up: ctx.eq('phase rate, orbit in the reference plane',D[11],s.om)
        else: # the phase counts from the ascending node in the zx plane, which moves with the projection of L
            ctx.eq('phase rate',D[11],s.om-L[1]*(L[2]*dl[0]-L[0]*dl[2])/(L[0]*L[0]+L[2]*L[2]),tol=1e-11)
    return f
def kidder(s,flags,ss=True):
    """Kidder (1995) (4.14) / Buonanno et al 2003 (1): coefficients of v^2, v^3, v^4"""
    nu=s.nu; l1,l2=dotp(s.L,s.c1),dotp(s.L,s.c2); m=s.m
    a2=-(T.const(743)+nu*924)/336
    a3=T.PI*4-sm((mA*mA/(m*m)*113+nu*75)*l for mA,l in ((s.m1,l1),(s.m2,l2)))/12
    a4=-nu*(dotp(s.c1,s.c2)*247-l1*l2*721)/48
    return a2,a3,a4
def buon(s):
    nu=s.nu; a2,a3,a4=kidder(s,None); g=gamma; pi=T.PI
    a4=a4+T.const(Fr(34103,18144))+nu*Fr(13661,2016)+nu*nu*Fr(59,18)
    a5=-(T.const(4159)+nu*15876)*pi/672
    a6=T.const(Fr(16447322263,139708800))-g*Fr(1712,105)+pi*pi*Fr(16,3)+nu*(T.const(Fr(-273811877,1088640))+pi*pi*Fr(451,48)-T.const(Fr(88*1039,3*4620)))+nu*nu*Fr(541,896)-nu*nu*nu*Fr(5605,2592)-T.log(s.v*s.v*16)*Fr(856,105)
    a7=(T.const(Fr(-4415,4032))+nu*Fr(358675,6048)+nu*nu*Fr(91495,1512))*pi
    return a2,a3,a4,a5,a6,a7
def lead(s): return s.nu*Fr(96,5)*s.om*s.om*s.v**5
def flagset(ctx,off):
    p={f'OrbitOv{k}':('0' if k==off else '1') for k in range(1,8)}; return p
def omega(typ,off=None):
    def f(ctx):
        pars={'OrbitEOMtype':typ}; pars.update(flagset(ctx,off)); vc=None
        s=O(ctx,pars=pars); v=s.v
        D=s.rhs(); V=[T.ONE if k==0 else (T.ZERO if k==off else v**k) for k in range(8)]
        if typ.startswith('Kidder'): a=dict(zip((2,3,4),kidder(s,None)))
        else: a=dict(zip(range(2,8),buon(s)))
        if typ.endswith('v2cut'):
            B=T.const(1/Fr(651,1000)**2); b={2:a[2]+B,3:a[3]}; b[4]=a[4]+b[2]*B
            if not typ.startswith('Kidder'):
                b[5]=a[5]+b[3]*B; b[6]=a[6]+b[4]*B; b[7]=a[7]+b[5]*B
                e=dict(b); e[6]=b[6]+b[2]**3/3; e[7]=b[7]+b[2]**2*b[3]
                x=sm(e[k]*V[k] for k in e); E=T.exp(x*2); th=(E-1)/(E+1); BB=T.const(1/Fr(614,1000)**2)
                w=lead(s)*(T.ONE-B*V[2])*(T.ONE+th+T.const(85)*(T.ONE-BB*v*v)**2*BB**5*v**8*V[2])
            else: w=lead(s)*(T.ONE-B*V[2])*(T.ONE+sm(b[k]*V[k] for k in b))
        elif typ.endswith('v6cut'):
            B=T.const(1/Fr(3,5)**6)
            if 6 in a: a[6]=a[6]+B
            w=lead(s)*(T.ONE-B*V[6])*(T.ONE+sm(a[k]*V[k] for k in a))
        else: w=lead(s)*(T.ONE+sm(a[k]*V[k] for k in a))
        ctx.eq('d omega/dt',D[1],w,tol=1e-11,scale=.05)
    return f
def t4(typ,off=None,ls=(1,1,1,1)):
    tab={'TaylorT4':pndata.T4,'TaylorT4_bug':pndata.T4_bug}[typ]
    def f(ctx):
        p=flagset(ctx,off); p['OrbitEOMtype']=typ
        for k,x in zip(('OLS1','OLS2','OLS3','OSS1'),ls): p['Orbit'+k]=str(x)
        s=O(ctx,pars=p); D=s.rhs(); l1,l2=dotp(s.L,s.c1),dotp(s.L,s.c2); v=s.v
        cs=[(a+b)/2 for a,b in zip(s.c1,s.c2)]; ca=[(a-b)/2 for a,b in zip(s.c1,s.c2)]; xs,xa=dotp(s.L,cs),dotp(s.L,ca)
        val=dict(d=s.d,xs=xs*ls[0],xa=xa*ls[0],xs2=xs*xs*ls[1],xa2=xa*xa*ls[1],xs3=xs*xs*xs*ls[2],xa3=xa*xa*xa*ls[2],ss=dotp(cs,cs)*ls[3],aa=dotp(ca,ca)*ls[3],sa=dotp(cs,ca)*ls[3],pi=T.PI,
                 lnv=T.log(v),ln2=T.log(T.const(16))/4,nu=s.nu,GammaE=gamma)
        w=T.ZERO
        for k,txt in tab.items():
            if k==off: continue
            for mon in txt.split():
                n,c=mon.split(':'); num=Fr(c)
                t=T.const(num)
                if n!='1':
                    for q in n.split('*'):
                        q,e=(q.split('^')+['1'])[:2]
                        for _ in range(int(e)): t=t*val[q]
                w=w+(t*v**k if k else t)
        ctx.eq('d omega/dt',D[1],lead(s)*w,tol=1e-11,scale=.05)
    return f
def tables(ctx):
    """the tables: exchange of the two bodies, the published non-spinning series and leading spin-orbit and spin-spin terms"""
    for nm,tab in (('T4',pndata.T4),('T4_bug',pndata.T4_bug)):
        for k,txt in tab.items():
            M={}
            for mon in txt.split():
                n,c=mon.split(':'); M[n]=Fr(c); par=sum(int((q.split('^')+['1'])[1])*{'xa3':3,'xa2':2}.get(q.split('^')[0],1) for q in n.split('*') if q.split('^')[0] in('d','xa','xa2','xa3','sa'))
                ctx.true(f'{nm} symmetric under exchange: v^{k} {n}',par%2==0)
            ns={2:{'1':Fr(-743,336),'nu':Fr(-11,4)},4:{'1':Fr(34103,18144),'nu':Fr(13661,2016),'nu^2':Fr(59,18)},3:{'pi':4,'d*xa':Fr(-113,12),'xs':Fr(-113,12),'xs*nu':Fr(19,3)},
                5:{'pi':Fr(-4159,672),'pi*nu':Fr(-189,8)},6:{'1':Fr(16447322263,139708800),'GammaE':Fr(-1712,105),'pi^2':Fr(16,3),'nu':Fr(-56198689,217728),'pi^2*nu':Fr(451,48),'nu^2':Fr(541,896),'nu^3':Fr(-5605,2592),'lnv':Fr(-1712,105),'ln2':Fr(-3424,105)},
                7:{'pi':Fr(-4415,4032),'pi*nu':Fr(358675,6048),'pi*nu^2':Fr(91495,1512)}}.get(k,{})
            for n,c in ns.items(): ctx.true(f'{nm} v^{k} {n}',M.get(n)==c,M.get(n))
            if k==4:
                # 2PN spin-spin: 721/48 and -247/48 between the bodies, 719/96 and -233/96 for each body with itself, as (m_i/m)^2 weights
                get=lambda n:M.get(n,0)
                if nm=='T4':
                    ctx.true('S1 S2',4*0==0)
                    # chi1=chi2, equal masses (d=0,nu=1/4): aligned: 719/96/2... in the table's own variables
                    al=get('xs2')+get('xs2*nu')/4; pr=get('ss')+get('ss*nu')/4
                    ctx.true('equal masses, aligned',al==Fr(721,48)/4+2*Fr(719,96)/4); ctx.true('equal masses, products',pr==-Fr(247,48)/4-2*Fr(233,96)/4)
def radius(ctx):
    s=O(ctx); W=ctx.W; W.call('PN_CircOrbit_compute_constants',s.m1,s.m2,ret='v'); m,nu,v=s.m,s.nu,s.v; l1,l2=dotp(s.L,s.c1),dotp(s.L,s.c2)
    w=m/(v*v)*(T.ONE-(T.const(3)-nu)/3*v*v-v**3/3*sm((mA*mA/(m*m)*2+nu*3)*l for mA,l in ((s.m1,l1),(s.m2,l2)))+(nu*(T.const(Fr(19,4))+nu/9)-nu/2*(dotp(s.c1,s.c2)-l1*l2*3))*v**4)
    ctx.eq('radius',W.call('PN_CircOrbit_compute_r',W.arr(s.y),ret='d'),w,tol=1e-11,scale=20)
# ------------------------------------------------------------------ the wave form
def frame(s,up):
    L=s.L
    if up: e1=[T.ONE,T.ZERO,T.ZERO]; e2=[T.ZERO,T.ZERO,-L[1]]; return e1,cross(L,e1)
    q=T.sqrt(L[0]*L[0]+L[2]*L[2]); e1=[L[2]/q,T.ZERO,-L[0]/q]; return e1,cross(L,e1)
def outer(a,b): return [[x*y for y in b] for x in a]
def sym2(a,b): return [[a[i]*b[j]+a[j]*b[i] for j in range(3)] for i in range(3)]
def comb(*ts): return [[sm(c*t[i][j] for c,t in ts) for j in range(3)] for i in range(3)]
def wave(up=False,A=(1,1,1,0),unit=True):
    def f(ctx):
        s=O(ctx,unit=unit,up=up,pars={f'AmpOv{k+1}':str(x) for k,x in enumerate(A)}); W=ctx.W; m,nu,d,r=s.m,s.nu,s.d,s.r; L=s.L
        th,ph=T.lift(ctx.var('th',.3,2.8)),T.lift(ctx.var('ph',.1,6.)); Dst=T.lift(ctx.var('D',1.,9.)); ts,ta,t=T.lift(ctx.var('ts',3.,5.)),T.lift(ctx.var('tau',5.,9.)),T.lift(ctx.var('time',0.,9.))
        W.call('PN_CircOrbit_compute_constants',s.m1,s.m2,ret='v'); setg(ctx,'tsdamp',ts); setg(ctx,'taudamp',ta); ranges(ctx)
        o1,o2=W.arr([0.]),W.arr([0.]); W.call('compute_hcross_hplus',t,W.arr(s.y),o1,o2,Dst,th,ph,s.m1,s.m2,0 if ctx.sym else None,ret='v')
        N=[T.sin(th)*T.cos(ph),T.sin(th)*T.sin(ph),T.cos(th)]; et=[T.cos(th)*T.cos(ph),T.cos(th)*T.sin(ph),-T.sin(th)]; ep=[-T.sin(ph),T.cos(ph),T.ZERO]
        e1,e2=frame(s,up); c,sn=T.cos(s.Phi),T.sin(s.Phi); n=[a*c+b*sn for a,b in zip(e1,e2)]; l=[b*c-a*sn for a,b in zip(e1,e2)]
        nn,ll,nl=outer(n,n),outer(l,l),sym2(n,l); a,b=dotp(N,n),dotp(N,l)
        S=[x+y for x,y in zip(s.S1,s.S2)]; De=[m*(y/s.m2-x/s.m1) for x,y in zip(s.S1,s.S2)]
        Sd=lambda p,q:[x*p+y*d*q for x,y in zip(S,De)]
        # Kidder (1995) (4.9)
        P0=comb((2,ll),(-2,nn)); P05=comb((d*a*3,nl),(d*b,nn),(-d*b*2,ll))
        f1=(T.ONE-nu*3)*Fr(2,3)
        P1=comb((f1*(a*a*5-b*b)+(T.const(19)-nu*3)/3,nn),(f1*(b*b*3-a*a*7)-(T.const(19)-nu*3)/3,ll),(-f1*a*b*8,nl),(T.ONE/(m*m),sym2(n,cross(De,N))))
        g=d*(T.ONE-nu*2); X=cross(Sd(1,1),N)
        P15=comb((g*(b**3/2-a*a*b*Fr(37,4))-d*b*(T.const(101)-nu*12)/12,nn),(g*(a*a*b*Fr(58,4)-b**3*2)+d*b*(T.const(19)-nu*4)/2,ll),(g*(a*b*b*Fr(15,2)-a**3*Fr(65,12))-d*a*(T.const(149)-nu*36)/12,nl),
            (-T.const(2)/(m*m)*dotp(L,Sd(5,3)),ll),(T.const(12)/(m*m)*dotp(L,Sd(2,1)),nn),(-T.const(2)/(m*m),sym2(l,cross(n,Sd(1,1)))),(-T.ONE/(m*m),sym2(n,cross(l,Sd(9,5)))),(-b*2/(m*m),sym2(X,n)),(-a*2/(m*m),sym2(X,l)))
        mu=s.m1*s.m2/m
        SS=comb((dotp(s.S1,s.S2)-dotp(n,s.S1)*dotp(n,s.S2)*5,nn),(dotp(n,s.S2),sym2(n,s.S1)),(dotp(n,s.S1),sym2(n,s.S2)))
        q=m/r; h=comb((1,P0),(T.sqrt(q)*A[0],P05),(q*A[1],P1),(q*T.sqrt(q)*A[2],P15),(q*q*A[3]*T.const(-6)/(mu*m*m*m),SS))
        pre=s.m1*s.m2*2/(Dst*r)/(T.ONE+T.exp((t-ts)/(ta*m)))
        hp=pre*sm(h[i][j]*(et[i]*et[j]-ep[i]*ep[j]) for i in range(3) for j in range(3))/2; hx=pre*sm(h[i][j]*(et[i]*ep[j]+ep[i]*et[j]) for i in range(3) for j in range(3))/2
        ctx.eq('h+',W.get(o2,0),hp,tol=1e-10,scale=1); ctx.eq('hx',W.get(o1,0),hx,tol=1e-10,scale=1)
    return f
def p15(ctx):
    """only the direction of the normal enters the 3/2 order term"""
    s=O(ctx,unit=False); W=ctx.W; ranges(ctx); lam,n=[W.arr([0.]+[T.lift(ctx.var(f'{q}{k}',-1,1)) for k in range(3)]) for q in 'ln']; th,ph=ctx.var('th',.3,2.8),ctx.var('ph',.1,6.); R=[]
    y2=s.y[:8]+s.L+[s.Phi]
    for y in (s.y,y2):
        q=W.call('dmatrix',1,3,1,3,ret='p'); W.call('compute_P15Qc',W.arr(y),lam,n,T.lift(th),T.lift(ph),q,s.m1-s.m2,s.m1,s.m2,s.nu,ret='v')
        R.append([[W.get(W.get(q,i,'p'),j) for j in (1,2,3)] for i in (1,2,3)])
    for i in range(3):
        for j in range(3): ctx.eq(f'{i}{j}',R[0][i][j],R[1][i][j],tol=1e-11,scale=1)
def polar(ctx):
    """no spins: the H+ of Blanchet, Iyer, Will and Wiseman (1996), order by order, without the tail term that Kidder's (4.9) does not contain.
    Orbit in the zx plane (normal -y); observer in the plane of the normal and the z axis at inclination i to the normal"""
    s=O(ctx,up=True); W=ctx.W; m,nu,d=s.m,s.nu,s.d; r=T.lift(ctx.var("r_",5.,9.)); w=T.sqrt(m/r); th=T.lift(ctx.var('th',.3,2.8)); Dst=T.lift(ctx.var('D',1.,9.)); ranges(ctx)
    W.call('PN_CircOrbit_compute_constants',s.m1,s.m2,ret='v'); setg(ctx,'tsdamp',1e100); setg(ctx,'taudamp',12.)
    y=[r,s.om]+[0.]*6+s.L+[s.Phi]; Q={}
    for k,A in enumerate(((0,0,0,0),(1,0,0,0),(0,1,0,0),(0,0,1,0))):
        for j,x in enumerate(A): setpar(ctx,f'PN_CircularOrbit_GWs_AmpOv{j+1}',str(x))
        o1,o2=W.arr([0.]),W.arr([0.]); W.call('compute_hcross_hplus',0.,W.arr(y),o1,o2,Dst,th,T.PI/2,s.m1,s.m2,0 if ctx.sym else None,ret='v'); Q[k]=T.lift(W.get(o2,0))*Dst*r/(s.m1*s.m2*2)
    for k in (1,2,3): Q[k]=(Q[k]-Q[0])/w**k
    # N=(0,sin th,cos th), normal (0,1,0): cos i=sin th; ascending node along x; n=(cos Phi,0,-sin Phi): psi counts from the node
    # N=(0,sin th,cos th): cos i=sin th, sin i=cos th; the node is the x axis; sgrid's H+ has the opposite sign (basis e_theta, e_phi along the node), N the opposite sense
    c,sn=T.sin(th),T.cos(th); ch=cheb(T.cos(s.Phi),6)[0]; C=lambda k:ch[k]; c2,c4,s2=c*c,c*c*c*c,sn*sn
    H0=-(T.ONE+c2)*C(2); H5=-sn*d/8*((T.const(5)+c2)*C(1)-(T.ONE+c2)*C(3)*9)
    H1=(T.const(19)+c2*9-c4*2-nu*(T.const(19)-c2*11-c4*6))*C(2)/6-s2*(T.ONE+c2)*(T.ONE-nu*3)*C(4)*Fr(4,3)
    H15=sn*d/192*((T.const(57)+c2*60-c4-nu*2*(T.const(49)-c2*12-c4))*C(1)-((T.const(73)+c2*40-c4*9)-nu*2*(T.const(25)-c2*8-c4*9))*C(3)*Fr(27,2)+(T.ONE-nu*2)*s2*(T.ONE+c2)*C(5)*Fr(625,2))
    # Kidder expands in m/r: m/r = x (1 + (1-nu/3) x + ...)
    g=T.ONE-nu/3; Q0,Q5,Q1,Q15=(Q[k] for k in range(4))
    ctx.eq('order 0',Q0,-H0); ctx.eq('order 1/2',Q5,H5); ctx.eq('order 1',Q1+Q0*g,-H1); ctx.eq('order 3/2',Q15+Q5*g*Fr(3,2),H15)
# ------------------------------------------------------------------ fields on the sphere
def sphere(ctx):
    """h+ and hx at every point of the sphere, and psi4 as the second time derivative, with the single-point functions left arbitrary"""
    W=ctx.W; n1,n2,n3=W.ns; ranges(ctx)
    if not ctx.sym: return
    M=W.M; calls=[]
    def hh(M_,time,y,hx,hp,D,th,ph,m1,m2,p):
        tag=T.lift(M.load(y,8,'d')); calls.append((time,D,m1,m2)); k=(T.lift(th),T.lift(ph),tag)
        M.store(hx,X(*k),8); M.store(hp,P(*k),8)
    def X(th,ph,tag): return T.sin(th*2)*T.cos(ph)*tag+T.cos(th)*tag*tag
    def P(th,ph,tag): return T.cos(th)*T.sin(ph)*tag+T.sin(th)*tag*tag*tag
    M.stubs[res('compute_hcross_hplus')]=hh
    y0,t,dt=T.lift(ctx.var('y0',1,2)),T.lift(ctx.var('t',0,1)),T.lift(ctx.var('dt',.1,.2)); D,m1,m2=[T.lift(ctx.var(x,1,2)) for x in ('D','m1','m2')]
    def xo(M_,a,b,t1,t2,y): M.store(y,T.lift(M.load(y,8,'d'))+(T.lift(t2)-t1)*7+(T.lift(t2)-t1)*(T.lift(t2)-t1)*3,8); ctx.eq('masses handed on',a,m1); ctx.eq('masses handed on 2',b,m2)
    M.stubs[res('PN_CircOrbit_xodeint')]=xo
    I=lambda i,j,k:i+n1*(j+n2*k)
    def pt(j,k):
        J,K=(j,k) if j<n2//2 else (n2-1-j,(k+n3//2)%n3)
        return ang(Fr(2*J,n2)+Fr(1,n2)),ang(Fr(2*K,n3))
    y=W.arr([y0]+[0.5]*11)
    W.call('compute_hplus_hcross_on_sphere',W.bx,W.ind('a'),W.ind('b'),y,D,m1,m2,1,2,1,ret='v')
    for j in range(n2):
        for k in range(n3):
            for i in (1,2): ctx.eq(f'h+ {i} {j} {k}',W.get(W.v(W.bx,'a'),I(i,j,k)),P(*pt(j,k),y0)); ctx.eq(f'hx {i} {j} {k}',W.get(W.v(W.bx,'b'),I(i,j,k)),X(*pt(j,k),y0))
            ctx.eq(f'other radii {j} {k}',W.get(W.v(W.bx,'a'),I(0,j,k)),0)
    W.call('compute_FDpsi4_and_hplus_hcross_on_sphere',W.bx,*[W.ind(x) for x in 'cdab'],y,D,m1,m2,t,dt,0,n1-1,1,ret='v')
    ym=y0-dt*7+dt*dt*3; yp=y0+dt*7+dt*dt*3
    for j in range(n2):
        for k in range(n3):
            p=pt(j,k); w=(P(*p,yp)+P(*p,ym)-P(*p,y0)*2)/(dt*dt); wi=-(X(*p,yp)+X(*p,ym)-X(*p,y0)*2)/(dt*dt)
            for i in range(n1):
                for v,x in (('c',w),('d',wi),('a',P(*p,y0)),('b',X(*p,y0))): ctx.eq(f'{v} {i} {j} {k}',W.get(W.v(W.bx,v),I(i,j,k)),x,tol=1e-9)
    ctx.eq('state unchanged',W.get(y,0),y0)
    for c in calls[:3]: ctx.eq('distance',c[1],D)
def modes_(ctx):
    """mode coefficients: the integral over the sphere of conj(Y) H, for arbitrary H and Y on the grid"""
    W=ctx.W; n1,n2,n3=W.ns; ranges(ctx); from C03 import rand
    N=n1*n2*n3; F={}
    for v in 'abcd':
        F[v]=[T.lift(x) for x in rand(ctx,v,N)]; p=W.v(W.bx,v)
        for i in range(N): W.set(p,i,F[v][i])
    for sg in (1,-1):
        W.call('compute_sYlmModes_of_H',W.bx,*[W.ind(x) for x in 'abcd'],1,W.ind('e'),W.ind('f'),sg,ret='v')
        g,h=[[W.get(W.v(W.bx,v),i) for i in range(N)] for v in 'ef']
        # the same integral through sgrid's own quadrature (C05) of the product
        p,q=W.v(W.bx,'g'),W.v(W.bx,'h'); X=W.v(W.bx,'X')
        for i in range(N):
            j,k=i//n1%n2,i//n1//n2; s=i if j<n2//2 else i%n1+n1*(n2-1-j+n2*((k+n3//2)%n3)); r=W.get(X,i); r2=T.lift(r)*r
            W.set(p,i,(F['c'][s]*F['a'][s]+F['d'][s]*F['b'][s]*sg)/r2); W.set(q,i,(F['c'][s]*F['b'][s]*sg-F['d'][s]*F['a'][s])/r2)
        W.call('spec_sphericalDF2dIntegral',W.bx,p,p,ret='v'); W.call('spec_sphericalDF2dIntegral',W.bx,q,q,ret='v')
        for i in range(4): ctx.eq(f'{sg} Re {i}',g[i],W.get(p,i),tol=1e-11,scale=10); ctx.eq(f'{sg} Im {i}',h[i],W.get(q,i),tol=1e-11,scale=10)
cases=[]
def K(nm,f,**k): cases.append(Case(nm,f,base=lambda:mk(True),rbase=lambda:mk(False),group='k',timeout=400,real=2,**k))
K('precession',precession(False)); K('precession, orbit in the reference plane',precession(True))
K('Kidder1995',omega('Kidder1995')); K('BuonannoEtAl2003',omega('BuonannoEtAl2003'))
for t in ('Kidder1995_v2cut','BuonannoEtAl2003_v2cut','Kidder1995_v6cut','BuonannoEtAl2003_v6cut'): K(t,omega(t))
for k in range(2,8): K(f'BuonannoEtAl2003 without v^{k}',omega('BuonannoEtAl2003',off=k)); K(f'TaylorT4 without v^{k}',t4('TaylorT4',off=k))
K('TaylorT4',t4('TaylorT4')); K('TaylorT4_bug',t4('TaylorT4_bug'))
for i in range(4): K(f'TaylorT4 spin switch {i}',t4('TaylorT4',ls=tuple(int(j!=i) for j in range(4))))
K('tables',tables); K('radius',radius)
K('wave form',wave()); K('wave form with spin-spin term',wave(A=(1,1,1,1))); K('wave form, orbit in the reference plane',wave(up=True)); K('published polarisations',polar); K('P15 with a normal not of unit length',p15)
K('fields on the sphere',sphere); K('modes',modes_)
if __name__=='__main__':
    main('C25',cases,level='proof')
