import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib')
from phys import *
GRID=dict(boxpars(2,5))
PARS={'physics':'ADMvars SingleBH TestID','SingleBH_type':'KerrSchild','SingleBH_ConformalFactor':'no','TestID_type':'1dGaugeWave',**GRID}
def world_(sym):
    W=mkworld(sym,PARS)
    for n in ('x','y','z','gxx','Kxx','alpha','betax','betadotx','psi','dpsiopsix','ddpsiopsixx','K_initial'): W.call('enablevar',W.g,W.ind(n),ret='v')
    return W
BASE=lambda: world_(True)
RB=lambda: world_(False)
class Data:
    """values left by the initial data routine as functions of x,y,z: symbolic terms (differentiated exactly), or, when the
    real code is run, a 5x5x5 stencil of points around a random centre (differentiated by 4th order differences)"""
    def __init__(s,ctx,lo,hi):
        s.ctx=ctx; s.W=W=ctx.W; s.cache={}; s.F=None
        if ctx.sym:
            s.F=Fields(ctx,ranges={'x':lo and (lo[0],hi[0]),'y':(lo[1],hi[1]),'z':(lo[2],hi[2])}); s.nb=W.nb
        else:
            s.nb=1; s.h=2e-3; r=ctx.rng
            s.c=[r.uniform(lo[k],hi[k]) for k in R3]
            for b in range(W.nb):
                nn=W.call('vs_nnodes',W.box[b]); assert nn==125
                for k,n in enumerate(('x','y','z')):
                    v=W.vec(W.v(W.box[b],n),nn)
                    for i in range(nn): v[i]=s.c[k]+s.h*((i//5**k)%5-2)
            s.arr={}
    def raw(s,b,n,k):
        W=s.W; key=(b,n,k)
        if key not in s.arr: s.arr[key]=list(W.vec(W.v(W.box[b],W.ind(n)+k),125))
        return s.arr[key]
    def v(s,b,n,k=0):
        if s.ctx.sym: return T.lift(s.F.out(b,s.W.ind(n)+k,'I'))
        return T.const(Fr(s.raw(b,n,k)[62]))
    def X(s,b):
        if s.ctx.sym: return [T.var(f'b{b}:{n}@I') for n in 'xyz']
        return [T.const(Fr(x)) for x in s.c]
    def D(s,t,b,c):
        x=f'b{b}:{"xyz"[c]}@I'
        k=(t,x)
        if k not in s.cache: s.cache[k]=T.diff(t,x)
        return s.cache[k]
    W1=[1/12,-8/12,0,8/12,-1/12]; W2=[-1/12,16/12,-30/12,16/12,-1/12]
    def d(s,b,n,k=0):
        if s.ctx.sym: return [s.D(s.v(b,n,k),b,c) for c in R3]
        a=s.raw(b,n,k); return [T.const(Fr(sum(s.W1[i]*a[62+(i-2)*5**c] for i in range(5))/s.h)) for c in R3]
    def dd(s,b,n,k=0):
        if s.ctx.sym:
            q=s.d(b,n,k); return [[s.D(q[min(i,j)],b,max(i,j)) for j in R3] for i in R3]
        a=s.raw(b,n,k); r=[[None]*3 for _ in R3]
        for c in R3:
            for e in R3:
                if c==e: x=sum(s.W2[i]*a[62+(i-2)*5**c] for i in range(5))/s.h**2
                else: x=sum(s.W1[i]*s.W1[j]*a[62+(i-2)*5**c+(j-2)*5**e] for i in range(5) for j in range(5))/s.h**2
                r[c][e]=T.const(Fr(x))
        return r
    def boxes(s): return range(s.nb)
def physical(D,b):
    """physical metric and its true derivatives (product rule on psi^4 gbar, psi and gbar differentiated), K and its derivatives"""
    psi=D.v(b,'psi'); dp=D.d(b,'psi'); ddp=D.dd(b,'psi'); f=T.powi(psi,4); p3=4*T.powi(psi,3); p2=12*psi*psi
    df=[p3*dp[i] for i in R3]; ddf=[[p3*ddp[i][j]+p2*dp[i]*dp[j] for j in R3] for i in R3]
    G={};DG={};DDG={}
    for k in range(6):
        g=D.v(b,'gxx',k); dg=D.d(b,'gxx',k); ddg=D.dd(b,'gxx',k)
        G[k]=f*g; DG[k]=[f*dg[c]+df[c]*g for c in R3]
        DDG[k]=[[f*ddg[c][e]+df[c]*dg[e]+df[e]*dg[c]+ddf[c][e]*g for e in R3] for c in R3]
    S=lambda d:[[d[S3[i,j]] for j in R3] for i in R3]
    K=[D.v(b,'Kxx',k) for k in range(6)]; dK=[D.d(b,'Kxx',k) for k in range(6)]
    return S(G),S(DG),S(DDG),S(K),S(dK)
def constraints(D,b):
    g,dg,ddg,K,dK=physical(D,b); gi=inv3(g); Ric,G=ricci(g,gi,dg,ddg)
    trK=sm(gi[i][j]*K[i][j] for i in R3 for j in R3); K2=sm(gi[i][k]*gi[j][l]*K[i][j]*K[k][l] for i in R3 for j in R3 for k in R3 for l in R3)
    Rs=sm(gi[i][j]*Ric[i][j] for i in R3 for j in R3)
    DK=[[[dK[i][j][c]-sm(G[d][c][i]*K[d][j]+G[d][c][j]*K[i][d] for d in R3) for c in R3] for j in R3] for i in R3]
    ham=Rs+trK*trK-K2
    mom=[sm(gi[b_][c]*(DK[a][b_][c]-DK[b_][c][a]) for b_ in R3 for c in R3) for a in R3]
    return ham,mom,(g,dg,gi,Ric,G,K,dK,trK)
def stationary(D,b,geo):
    """lapse and shift along which neither metric nor extrinsic curvature changes"""
    g,dg,gi,Ric,G,K,dK,trK=geo; al=D.v(b,'alpha'); dal=D.d(b,'alpha'); ddal=D.dd(b,'alpha')
    be=[D.v(b,'betax',i) for i in R3]; dbe=[D.d(b,'betax',i) for i in R3]
    Lie=lambda X,dX:[[sm(be[k]*dX[i][j][k]+X[k][j]*dbe[k][i]+X[i][k]*dbe[k][j] for k in R3) for j in R3] for i in R3]
    Lg=Lie(g,dg); LK=Lie(K,dK)
    dtg=[-2*al*K[i][j]+Lg[i][j] for i,j in P3]
    dtK=[-(ddal[i][j]-sm(G[k][i][j]*dal[k] for k in R3))+al*(Ric[i][j]-2*sm(gi[k][l]*K[i][k]*K[l][j] for k in R3 for l in R3)+trK*K[i][j])+LK[i][j] for i,j in P3]
    return dtg,dtK
def conf_derivs(ctx,D,b):
    psi=D.v(b,'psi'); dp=D.d(b,'psi'); ddp=D.dd(b,'psi')
    for c in R3: ctx.eq(f'b{b} dpsiopsi{c}',D.v(b,'dpsiopsix',c)*psi,dp[c],tol=1e-5,scale=1.)
    for k,(i,j) in enumerate(P3): ctx.eq(f'b{b} ddpsiopsi{i}{j}',D.v(b,'ddpsiopsixx',k)*psi,ddp[i][j],tol=1e-4,scale=1.)
def common(ctx,D,b,geo):
    g,dg,gi,Ric,G,K,dK,trK=geo
    ctx.eq(f'b{b} K_initial is the trace of K',D.v(b,'K_initial'),trK,tol=1e-8,scale=1.)
def bh(kind,conf,spin,lapse='donothing',shift='donothing',parts=('c','s','p')):
    def fn(ctx):
        W=ctx.W; setpar(ctx,'SingleBH_type',kind); setpar(ctx,'SingleBH_ConformalFactor',conf)
        setpar(ctx,'SingleBH_initial_lapse',lapse); setpar(ctx,'SingleBH_initial_shift',shift)
        M=dpar(ctx,'BHmass1',0.4,1.2)
        for n in ('x','y','z'):
            if spin: dpar(ctx,f'BHs{n}1',-0.4,0.4)
            else: setpar(ctx,f'BHs{n}1','0.0')
        D=Data(ctx,(1.2,0.7,-1.9),(2.6,1.9,-0.6))
        W.call('SingleBH',W.g)
        for b in D.boxes():
            ham,mom,geo=constraints(D,b)
            if 'c' in parts:
                ctx.eq(f'b{b} Hamiltonian constraint',ham,T.ZERO,tol=1e-4,scale=1.)
                for i in R3: ctx.eq(f'b{b} momentum constraint {i}',mom[i],T.ZERO,tol=1e-4,scale=1.)
                common(ctx,D,b,geo)
            if 'p' in parts: conf_derivs(ctx,D,b)
            if 's' in parts:
                if lapse=='donothing' and shift=='donothing':
                    dtg,dtK=stationary(D,b,geo)
                    for k,(i,j) in enumerate(P3):
                        ctx.eq(f'b{b} stationary metric {i}{j}',dtg[k],T.ZERO,tol=1e-5,scale=1.); ctx.eq(f'b{b} stationary K {i}{j}',dtK[k],T.ZERO,tol=1e-4,scale=1.)
            if lapse=='one': ctx.eq(f'b{b} lapse one',D.v(b,'alpha'),T.ONE)
            if shift=='zero':
                for i in R3: ctx.eq(f'b{b} shift zero {i}',D.v(b,'betax',i),T.ZERO); ctx.eq(f'b{b} dt shift zero {i}',D.v(b,'betadotx',i),T.ZERO)
            # mass and spin: asymptotics / horizon are fixed by the closed form of the metric
            x=D.X(b); r2=sm(q*q for q in x); g=geo[0]
            if kind=='isotropic':
                p=1+M/(2*T.sqrt(r2))
                for k,(i,j) in enumerate(P3): ctx.eq(f'b{b} isotropic metric {i}{j}',g[i][j],T.powi(p,4) if i==j else T.ZERO)
            elif not spin:
                for k,(i,j) in enumerate(P3): ctx.eq(f'b{b} Kerr-Schild metric {i}{j}',g[i][j],(T.ONE if i==j else T.ZERO)+2*M/T.sqrt(r2)*x[i]*x[j]/r2)
            else:
                a=[T.lift(ctx.dpars[f'BHs{n}1']) if ctx.sym else T.const(Fr(ctx.env[f'BHs{n}1'])) for n in 'xyz']
                a2=sm(q*q for q in a); ax=sm(p*q for p,q in zip(a,x))
                r=T.sqrt((r2-a2+T.sqrt((r2-a2)*(r2-a2)+4*ax*ax))/2); H=M*T.powi(r,3)/(T.powi(r,4)+ax*ax)
                cr=[a[(i+1)%3]*x[(i+2)%3]-a[(i+2)%3]*x[(i+1)%3] for i in R3]
                l=[(r*r*x[i]-r*cr[i]+ax*a[i])/(r*(r*r+a2)) for i in R3]
                for k,(i,j) in enumerate(P3): ctx.eq(f'b{b} Kerr-Schild metric {i}{j}',g[i][j],(T.ONE if i==j else T.ZERO)+2*H*l[i]*l[j])
    return fn
def wave(kind,lapse='donothing',shift='donothing'):
    def fn(ctx):
        W=ctx.W; setpar(ctx,'TestID_type',kind); setpar(ctx,'TestID_initial_lapse',lapse); setpar(ctx,'TestID_initial_shift',shift)
        A=dpar(ctx,'TestID_amplitude',0.05,0.5) if kind=='1dGaugeWave' or ctx.sym else dpar(ctx,'TestID_amplitude',1e-5,2e-5)
        D=Data(ctx,(1.2,0.7,-1.9),(2.6,1.9,-0.6))
        L=[]
        for b in range(W.nb):
            lo=ctx.var(f'xlo{b}',-1.5,-0.5); hi=ctx.var(f'xhi{b}',0.5,1.5)
            W.call('vs_setbbox',W.box[b],0,lo,ret='v'); W.call('vs_setbbox',W.box[b],1,hi,ret='v'); L.append(T.lift(hi)-T.lift(lo) if ctx.sym else T.const(Fr(ctx.env[f'xhi{b}']))-T.const(Fr(ctx.env[f'xlo{b}'])))
        W.call('TestID',W.g)
        Av=T.lift(A) if ctx.sym else T.const(Fr(ctx.env['TestID_amplitude']))
        for b in D.boxes():
            ham,mom,geo=constraints(D,b); g,dg,gi,Ric,G,K,dK,trK=geo
            first=lambda t:T.subst([T.diff(t,'TestID_amplitude')],{'TestID_amplitude':T.ZERO})[0]
            lin=kind=='1dLinearWave'
            f=(lambda t: first(t)) if lin and ctx.sym else (lambda t:t)
            ctx.eq(f'b{b} Hamiltonian constraint',f(ham),T.ZERO,tol=1e-4 if not lin else 1e-6,scale=1.)
            if lin and ctx.sym: ctx.eq(f'b{b} Hamiltonian constraint, zeroth order',T.subst([ham],{'TestID_amplitude':T.ZERO})[0],T.ZERO)
            for i in R3: ctx.eq(f'b{b} momentum constraint {i}',f(mom[i]),T.ZERO,tol=1e-4 if not lin else 1e-6,scale=1.)
            common(ctx,D,b,geo); conf_derivs(ctx,D,b)
            arg=2*T.PI*D.X(b)[0]/L[b]; s=Av*T.sin(arg); c=-Av*T.cos(arg)*2*T.PI/L[b]     # wave profile a(x-t) and its time derivative at t=0
            want=[1+s,T.ZERO,T.ZERO,T.ONE,T.ZERO,T.ONE] if not lin else [T.ONE,T.ZERO,T.ZERO,1+s,T.ZERO,1-s]
            dt=[c]+[T.ZERO]*5 if not lin else [T.ZERO]*3+[c,T.ZERO,-c]
            al=T.sqrt(1+s) if not lin else T.ONE
            for k,(i,j) in enumerate(P3):
                ctx.eq(f'b{b} metric {i}{j}',g[i][j],want[k]); ctx.eq(f'b{b} K {i}{j} = -dt g/(2 alpha)',K[i][j],-dt[k]/(2*al))
            ctx.eq(f'b{b} lapse',D.v(b,'alpha'),al if lapse!='one' else T.ONE)
            for i in R3: ctx.eq(f'b{b} shift {i}',D.v(b,'betax',i),T.ZERO)
    return fn
C=lambda n,fn,**k: Case(n,fn,base=BASE,rbase=RB,group='b',timeout=600,real=2,**k)
cases=[C('isotropic, conformal factor',bh('isotropic','yes',False)),C('isotropic, no conformal factor',bh('isotropic','no',False)),
 C('isotropic, lapse one shift zero',bh('isotropic','yes',False,'one','zero')),
 C('Kerr-Schild, no spin',bh('KerrSchild','no',False)),C('Kerr-Schild, no spin, conformal factor',bh('KerrSchild','yes',False)),
 C('Kerr-Schild, spin: constraints',bh('KerrSchild','no',True,parts=('c',))),C('Kerr-Schild, spin: stationarity',bh('KerrSchild','no',True,parts=('s','p'))),
 C('Kerr-Schild, spin, conformal factor',bh('KerrSchild','yes',True,parts=('c','p'))),
 C('Kerr-Schild, lapse one shift zero',bh('KerrSchild','no',False,'one','zero')),
 C('gauge wave',wave('1dGaugeWave')),C('gauge wave, lapse one shift zero',wave('1dGaugeWave','one','zero')),C('linear wave',wave('1dLinearWave'))]
if __name__=='__main__':
    main('C14',cases,assumptions=['machine arithmetic treated as real arithmetic','points away from the ring singularity (r>0)','Getd returns the parameter value (decided by C15)'])
