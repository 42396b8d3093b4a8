import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib')
from phys import *
PARS={'physics':'ADMvars BSSN',**boxpars(2,5)}
def startup(W):
    """the code's own BSSN_startup builds the list of evolved variables"""
    if W.sym:
        st=W.M.stubs
        for n in ('ADMtoBSSN','evolve_vlregister','evolve_rhsregister'): st[res(n)]=lambda M,*a:0
    pd=W.call('vs_glob_vl',0,ret='p'); ki=W.call('vs_glob_vl',1,ret='p')
    for vl in (pd,ki): W.call('vs_setvlgrid',vl,W.g,ret='v'); W.call('enablevarlist',vl,ret='v')
    for n in ('gxx','Kxx','alpha','betax','betadotx','ADMvars_dgxxx','ADMvars_ddgxxxx','ADMvars_dKxxx','x'): W.call('enablevar',W.g,W.ind(n),ret='v')
    W.call('BSSN_startup',W.g)
    if W.sym:
        for n in ('ADMtoBSSN',): W.M.stubs.pop(res(n),None)
    W.u=W.call('vs_glob_vl',2,ret='p')
    W.un=W.call('AddDuplicateEnable',W.u,'_n',ret='p'); W.up=W.call('AddDuplicateEnable',W.u,'_q',ret='p')
    W.call('enablevar',W.g,W.ind('BSSN_alphaRHSterm'),ret='v')
def world_(sym):
    W=mkworld(sym,PARS)
    startup(W)
    return W
BASE=lambda: world_(True)
RB=lambda: world_(False)
RANGES={'*xx':(0.8,1.4),'*yy':(0.8,1.4),'*zz':(0.8,1.4),'*xy':(-.2,.2),'*xz':(-.2,.2),'*yz':(-.2,.2),'BSSN_phi*':(-.3,.3),'psi':(0.8,1.5),'alpha*':(0.4,1.2),'beta*':(-.5,.5),'BSSN_G?*':(-.4,.4),'BSSN_K*':(-.6,.6)}
DP=['BSSN_YoTermFactor','BSSN_RtoRminusHfactor','BSSN_alphaDensityWeight','BSSN_lapsepsipower','BSSN_lapseharmonicf','BSSN_shiftpsipower','BSSN_shiftalphapower','BSSN_shiftgammacoeff','BSSN_shiftdriver']
def getv(o,n,v,dflt): return v in o.get(n,dflt).split()
DEF={'BSSN_useDD':'no','BSSN_forceKzero':'no','BSSN_recomputeAzz':'no','BSSN_recomputegzz':'no','BSSN_subtractA':'yes','BSSN_normalizedetg':'no','BSSN_GReplacedBydg':'yes','BSSN_freezeGamma':'no','BSSN_GentlePhiRHS':'no','BSSN_lapse':'constant','BSSN_subtractK0':'yes','BSSN_densitizedLapse':'no','BSSN_shift':'constant','BSSN_shift_stop_time':'-1.0'}
def spec(q,o,P,K0,time,st):
    """tensor-form BSSN equations.  q: Point; o: options; P: double parameters"""
    V=lambda n,v: v in o[n].split()
    g=q.sym('BSSN_gxx'); dg=q.dsym('BSSN_gxx'); ddg=q.ddsym('BSSN_gxx')
    A=q.sym('BSSN_Axx'); dA=q.dsym('BSSN_Axx')
    Gt=q.vec('BSSN_Gx'); dGt=q.dvec('BSSN_Gx')
    K=q.v('BSSN_K'); dK=q.d('BSSN_K'); phi=q.v('BSSN_phi'); dphi=q.d('BSSN_phi'); ddphi=q.dd('BSSN_phi')
    al=q.v('alpha'); dal=q.d('alpha'); ddal=q.dd('alpha')
    be=q.vec('betax'); dbe=q.dvec('betax'); ddbe=q.ddvec('betax'); B=q.vec('betadotx')
    psi=q.v('psi'); dp=q.vec('dpsiopsix'); ddp=q.sym('ddpsiopsixx'); alD=q.v('BSSN_alphaDensity')
    gi=inv3(g); C,Clo=christoffel(gi,dg)
    Gam=[sm(gi[j][k]*C[i][j][k] for j in R3 for k in R3) for i in R3]
    Gund=Gam if V('BSSN_GReplacedBydg','yes') else Gt
    fk=T.const(0) if not V('BSSN_forceKzero','no') else T.const(1)
    dKu=dK; betadK=sm(be[k]*dK[k] for k in R3)
    # total conformal factor  e^(4F) = psi^4 e^(4 phi)
    F=phi+T.log(psi); dF=[dphi[i]+dp[i] for i in R3]
    ddF=[[ddphi[i][j]+ddp[i][j]-dp[i]*dp[j] for j in R3] for i in R3]
    em4=T.exp(-4*F)
    # physical connection
    tr=[sm(gi[k][l]*dF[l] for l in R3) for k in R3]
    CP=[[[C[k][i][j]+2*((dF[j] if k==i else 0)+(dF[i] if k==j else 0)-g[i][j]*tr[k]) for j in R3] for i in R3] for k in R3]
    DDa=[[ddal[i][j]-sm(CP[k][i][j]*dal[k] for k in R3) for j in R3] for i in R3]
    Lapa=em4*sm(gi[i][j]*DDa[i][j] for i in R3 for j in R3)
    # conformal Ricci with Gamma^i as independent variable
    Rt=[[ -sm(gi[l][m]*ddg[i][j][l][m] for l in R3 for m in R3)/2
         + sm(g[k][i]*dGt[k][j]+g[k][j]*dGt[k][i] for k in R3)/2
         + sm(Gund[k]*(Clo[i][j][k]+Clo[j][i][k]) for k in R3)/2
         + sm(gi[l][m]*(C[k][l][i]*Clo[j][k][m]+C[k][l][j]*Clo[i][k][m]+C[k][i][m]*Clo[k][l][j]) for k in R3 for l in R3 for m in R3) for j in R3] for i in R3]
    cF=[[ddF[i][j]-sm(C[k][i][j]*dF[k] for k in R3) for j in R3] for i in R3]
    tF=sm(gi[i][j]*cF[i][j] for i in R3 for j in R3); dF2=sm(dF[i]*tr[i] for i in R3)
    Rp=[[-2*cF[i][j]-2*g[i][j]*tF+4*dF[i]*dF[j]-4*g[i][j]*dF2 for j in R3] for i in R3]
    Ric=[[Rt[i][j]+Rp[i][j] for j in R3] for i in R3]
    K=K*fk; dK=[x*fk for x in dK]
    AA=[[sm(gi[k][l]*A[i][k]*A[j][l] for k in R3 for l in R3) for j in R3] for i in R3]
    A2=sm(gi[i][j]*AA[i][j] for i in R3 for j in R3)
    Aup=[[sm(gi[i][k]*gi[j][l]*A[k][l] for k in R3 for l in R3) for j in R3] for i in R3]
    trR=em4*sm(gi[i][j]*Ric[i][j] for i in R3 for j in R3)
    H=trR+T.const(Fr(2,3))*K*K-A2
    Rs=trR-P['BSSN_RtoRminusHfactor']*H
    divb=sm(dbe[k][k] for k in R3); w=T.const(Fr(2,3))
    adv=lambda d: sm(be[k]*d[k] for k in R3)
    Lie=lambda X,dX:[[adv(dX[i][j])+sm(X[k][j]*dbe[k][i]+X[i][k]*dbe[k][j] for k in R3)-w*X[i][j]*divb for j in R3] for i in R3]
    Lg=Lie(g,dg); LA=Lie(A,dA)
    rg=[[-2*al*A[i][j]+Lg[i][j] for j in R3] for i in R3]
    third=T.const(Fr(1,3))
    rA=[[em4*(-DDa[i][j]+al*Ric[i][j])-third*g[i][j]*(-Lapa+al*Rs)+al*(K*A[i][j]-2*AA[i][j])+LA[i][j] for j in R3] for i in R3]
    rK=-Lapa+al*(A2+third*K*K)+betadK
    ev=T.const(0) if V('BSSN_freezeGamma','yes') else T.const(1)
    rG=[]
    for i in R3:
        x=sm(gi[j][k]*ddbe[i][j][k] for j in R3 for k in R3)+third*sm(gi[i][j]*sm(ddbe[k][k][j] for k in R3) for j in R3)
        x=x+adv(dGt[i])-sm(Gund[j]*dbe[i][j] for j in R3)+w*Gund[i]*divb
        x=x-2*sm(Aup[i][j]*dal[j] for j in R3)+2*al*(sm(C[i][j][k]*Aup[j][k] for j in R3 for k in R3)-w*sm(gi[i][j]*dK[j] for j in R3)+6*sm(Aup[i][j]*dF[j] for j in R3))
        x=x-P['BSSN_YoTermFactor']*(Gt[i]-Gam[i])*divb
        rG.append(ev*x)
    liephi=adv(dF)+divb/6
    rphi=-al*K/6+liephi
    if V('BSSN_GentlePhiRHS','yes'):
        rphi=T.ite(T.cmp_('lt',T.fabs(H),K*K),al*(trR-A2)/(4*K)+liephi,rphi)
    L=lambda v: T.ONE if V('BSSN_lapse',v) else T.ZERO
    r0=(6*L('withshift')*liephi-al*(K-(K0 if V('BSSN_subtractK0','yes') else T.ZERO)))*T.pow_(psi,P['BSSN_lapsepsipower'])
    ra=r0*(T.ONE-L('constant'))*(L('1+log')*P['BSSN_lapseharmonicf']+L('1+log2')*T.const(Fr(8,3))/(3-al)+L('harmonic')*al)+L('addliealpha')*adv(dal)+L('addalphaRHSterm')*q.v('BSSN_alphaRHSterm')
    dens=not V('BSSN_densitizedLapse','no'); raD=None
    if dens:
        wt=P['BSSN_alphaDensityWeight']
        raD=ra*T.exp(-6*wt*F)-6*wt*alD*rphi
        if V('BSSN_densitizedLapse','1+log_withoutShift'):
            raD=alD*(P['BSSN_lapseharmonicf']/al*T.pow_(psi,P['BSSN_lapsepsipower'])-wt)*(-al*(K-(K0 if V('BSSN_subtractK0','yes') else T.ZERO)))
        raD=raD*(T.ONE-L('constant'))
    es=T.ZERO if (st>=0 and time>=st) else T.ONE
    g0=T.ONE if V('BSSN_shift','gamma0') else T.ZERO; g2=T.ONE if V('BSSN_shift','gamma2') else T.ZERO
    bF=P['BSSN_shiftgammacoeff']*T.pow_(al,P['BSSN_shiftalphapower'])/T.pow_(psi,P['BSSN_shiftpsipower'])
    rb=[es*(g2+g0*bF)*B[i] for i in R3]
    rB=[es*((g0+g2*bF)*rG[i]-P['BSSN_shiftdriver']*B[i]) for i in R3]
    return dict(g=rg,A=rA,G=rG,K=rK,phi=rphi,alpha=ra,beta=rb,B=rB,alD=raD,fk=fk,logpsi=T.log(psi))
COMPS=lambda r:[('BSSN_gxx',k,r['g'][i][j]) for k,(i,j) in enumerate(P3)]+[('BSSN_phi',0,r['phi'])]+[('BSSN_Axx',k,r['A'][i][j]) for k,(i,j) in enumerate(P3)]+[('BSSN_K',0,r['K'])]+[('BSSN_Gx',i,r['G'][i]) for i in R3]+[('alpha',0,r['alpha'])]+[('betax',i,r['beta'][i]) for i in R3]+[('betadotx',i,r['B'][i]) for i in R3]
def caseof(opts,step,boxes=(0,1),st='-1.0',time=0.0):
    def fn(ctx):
        W=ctx.W
        for k,v in DEF.items(): setpar(ctx,k,v)
        o=dict(DEF); o.update(opts)
        for k,v in opts.items(): setpar(ctx,k,v)
        setpar(ctx,'BSSN_shift_stop_time',st); W.call('vs_settime',W.g,time,ret='v')
        P={n:dpar(ctx,n) for n in DP}
        F=Fields(ctx,ranges=RANGES,useDD=o['BSSN_useDD']=='yes')
        if ctx.sym: derivstubs(W)
        F.freeze()
        dt=ctx.var('dt',0.01,0.2) if step else T.ZERO
        if ctx.sym and step: W.M.oracle=lambda M,c: (False if c.op=='cmp' and c.a[0]=='eq' and 'dt' in T.variables(c) else None)
        W.call('BSSN_rhs',W.un,W.up,dt,W.u,ret='v')
        for b in boxes:
            for p in F.points(b):
                q=F.at(b,p); R=spec(q,o,P,q.v('K_initial'),time,float(st))
                def old(n,k): return q.v(q.comp(n,k)+'_q')
                want={}
                for n,k,x in COMPS(R):
                    y=old(n,k)+dt*x if step else x
                    if n=='BSSN_K': y=R['fk']*y
                    want[n,k]=y
                if R['alD'] is not None and step:
                    want['BSSN_alphaDensity',0]=old('BSSN_alphaDensity',0)+dt*R['alD']
                    want['alpha',0]=want['BSSN_alphaDensity',0]*T.exp(6*P['BSSN_alphaDensityWeight']*(want['BSSN_phi',0]+R['logpsi']))
                if step:
                    gn=[[want['BSSN_gxx',S3[i,j]] for j in R3] for i in R3]; An=[[want['BSSN_Axx',S3[i,j]] for j in R3] for i in R3]
                    yes=lambda n: o[n]=='yes'
                    post(ctx,F,b,p,q,gn,An,want,yes)
                for (n,k),y in want.items():
                    if y is None: continue
                    ctx.eq(f'b{b} {n}+{k}',F.out(b,W.ind(n+'_n')+k,p),y,tol=1e-7,scale=10.)
    return fn
def post(ctx,F,b,p,q,gn,An,want,yes):
    g=gn;A=An
    if yes('BSSN_recomputegzz'):
        # the value of gzz for which det g = 1
        a,bb,c,d,e=g[0][0],g[0][1],g[0][2],g[1][1],g[1][2]
        z=(1+a*e*e+d*c*c-2*bb*c*e)/(a*d-bb*bb)
        g=[r[:] for r in g]; g[2][2]=z
    if yes('BSSN_recomputeAzz'):
        gi=inv3(g)
        # Azz such that the trace vanishes
        A=[r[:] for r in A]
        s=sm(gi[i][j]*A[i][j] for i in R3 for j in R3 if (i,j)!=(2,2)); A[2][2]=-s/gi[2][2]
    if yes('BSSN_subtractA'):
        gi=inv3(g); t=sm(gi[i][j]*A[i][j] for i in R3 for j in R3)
        A=[[A[i][j]-t*g[i][j]/3 for j in R3] for i in R3]
    if yes('BSSN_normalizedetg'):
        s=T.root(T.ONE/det3(g),3); g=[[s*g[i][j] for j in R3] for i in R3]
    for k,(i,j) in enumerate(P3): want['BSSN_gxx',k]=g[i][j]; want['BSSN_Axx',k]=A[i][j]
def algconstr(norm,sub):
    def fn(ctx):
        W=ctx.W
        for k,v in DEF.items(): setpar(ctx,k,v)
        setpar(ctx,'BSSN_normalizedetg',norm); setpar(ctx,'BSSN_subtractA',sub)
        F=Fields(ctx,ranges=RANGES); F.freeze()
        W.call('BSSN_enforce_AlgConstr',W.g)
        for b in (0,1):
            for p in F.points(b):
                q=F.at(b,p); g0=q.sym('BSSN_gxx'); A0=q.sym('BSSN_Axx')
                g=[[F.out(b,W.ind('BSSN_gxx')+S3[i,j],p) for j in R3] for i in R3]; A=[[F.out(b,W.ind('BSSN_Axx')+S3[i,j],p) for j in R3] for i in R3]
                g=[[T.lift(x) for x in r] for r in g]; A=[[T.lift(x) for x in r] for r in A]
                if norm=='yes': ctx.eq(f'b{b} det g=1',det3(g),T.ONE)
                if sub=='yes':
                    ctx.eq(f'b{b} tr A=0',sm(adj3(g)[i][j]*A[i][j] for i in R3 for j in R3),T.ZERO)
                s=T.root(T.ONE/det3(g0),3) if norm=='yes' else T.ONE
                gi=inv3(g0); t=sm(gi[i][j]*A0[i][j] for i in R3 for j in R3) if sub=='yes' else T.ZERO
                for i,j in P3:
                    ctx.eq(f'b{b} g{i}{j} only rescaled',g[i][j],s*g0[i][j])
                    ctx.eq(f'b{b} A{i}{j} only trace removed',A[i][j],A0[i][j]-t*g0[i][j]/3)
    return fn
def adm_init(ctx):
    W=ctx.W
    for k,v in DEF.items(): setpar(ctx,k,v)
    w=dpar(ctx,'BSSN_alphaDensityWeight')
    F=Fields(ctx,ranges=RANGES)
    if ctx.sym: derivstubs(W)
    F.freeze()
    W.call('ADMtoBSSN',W.g,ret='v')
    for b in (0,1):
        for p in F.points(b):
            q=F.at(b,p); gb=q.sym('gxx'); Kb=q.sym('Kxx'); psi=q.v('psi')
            o=lambda n,k=0: T.lift(F.out(b,W.ind(n)+k,p))
            g=[[o('BSSN_gxx',S3[i,j]) for j in R3] for i in R3]; A=[[o('BSSN_Axx',S3[i,j]) for j in R3] for i in R3]
            K=o('BSSN_K'); phi=o('BSSN_phi'); e4=T.exp(4*phi)
            ctx.eq(f'b{b} det g~=1',det3(g),T.ONE)
            gib=inv3(gb); trK=sm(gib[i][j]*Kb[i][j] for i in R3 for j in R3)/T.powi(psi,4)
            ctx.eq(f'b{b} K is the trace',K,trK)
            ctx.eq(f'b{b} tr A=0',sm(adj3(g)[i][j]*A[i][j] for i in R3 for j in R3),T.ZERO)
            for i,j in P3:
                ctx.eq(f'b{b} metric {i}{j}',e4*g[i][j],gb[i][j])
                ctx.eq(f'b{b} extr. curv. {i}{j}',e4*T.powi(psi,4)*(A[i][j]+K*g[i][j]/3),Kb[i][j])
            ctx.eq(f'b{b} alphaDensity',o('BSSN_alphaDensity'),q.v('alpha')*T.exp(-6*w*(phi+T.log(psi))))
            # Gamma^i = - d_j g~^ij, derivatives of the new conformal metric
            if ctx.sym: dg=[[[T.lift(F.out(b,W.ind('ADMvars_dgxxx')+3*S3[i,j]+c,p)) for c in R3] for j in R3] for i in R3]
            else:
                D=[]
                for k in range(6):
                    W.call('FirstDerivsOf_S',W.box[b],W.ind('BSSN_gxx')+k,W.ind('VF_dx') if W.v(W.box[b],'VF_dx') else (W.call('enablevar',W.g,W.ind('VF_dx'),ret='v'),W.ind('VF_dx'))[1],ret='v')
                    D.append([T.const(Fr(W.get(W.v(W.box[b],W.ind('VF_dx')+c),p))) for c in R3])
                dg=[[D[S3[i,j]] for j in R3] for i in R3]
            gi=inv3(g)
            for i in R3:
                ctx.eq(f'b{b} Gamma^{i}',o('BSSN_Gx',i),sm(gi[i][a]*gi[j][c]*dg[a][c][j] for a in R3 for c in R3 for j in R3),scale=10.)
            # back transformation
    W.call('BSSNtoADM',W.g)
    for b in (0,1):
        for p in F.points(b):
            q=F.at(b,p)
            for k in range(6):
                ctx.eq(f'b{b} round trip g{k}',F.out(b,W.ind('gxx')+k,p),q.v(q.comp('gxx',k)))
                ctx.eq(f'b{b} round trip K{k}',F.out(b,W.ind('Kxx')+k,p),q.v(q.comp('Kxx',k)))
def lemma_ricci(ctx):
    """with Gamma^i and d_j Gamma^i replaced by their definitions the Ricci tensor of the reference equations is the Ricci tensor"""
    if not ctx.sym: raise Skip('specification lemma')
    g=[[T.var(f'g{S3[i,j]}') for j in R3] for i in R3]; dg=[[[T.var(f'dg{S3[i,j]}_{c}') for c in R3] for j in R3] for i in R3]
    ddg=[[[[T.var(f'ddg{S3[i,j]}_{S3[c,d]}') for d in R3] for c in R3] for j in R3] for i in R3]
    gi=inv3(g); C,lo=christoffel(gi,dg); Gam=[sm(gi[j][k]*C[i][j][k] for j in R3 for k in R3) for i in R3]
    names={}
    def dterm(t,c):
        r=T.ZERO
        for i,j in P3:
            r=r+T.diff(t,f'g{S3[i,j]}')*dg[i][j][c]
            for e in R3: r=r+T.diff(t,f'dg{S3[i,j]}_{e}')*ddg[i][j][c][e]
        return r
    dGam=[[dterm(Gam[i],c) for c in R3] for i in R3]
    R,_=ricci(g,gi,dg,ddg)
    for i,j in P3:
        Rt=(-sm(gi[l][m]*ddg[i][j][l][m] for l in R3 for m in R3)/2+ sm(g[k][i]*dGam[k][j]+g[k][j]*dGam[k][i] for k in R3)/2
         + sm(Gam[k]*(lo[i][j][k]+lo[j][i][k]) for k in R3)/2
         + sm(gi[l][m]*(C[k][l][i]*lo[j][k][m]+C[k][l][j]*lo[i][k][m]+C[k][i][m]*lo[k][l][j]) for k in R3 for l in R3 for m in R3))
        ctx.eq(f'Ricci {i}{j}',Rt,R[i][j])
C=lambda n,o,step,**k: Case(n,caseof(o,step,**k),base=BASE,rbase=RB,group='b',timeout=500)
LOG={'BSSN_lapse':'1+log withshift'}
cases=[Case('lemma: Ricci tensor',lemma_ricci,base=None,real=0),
 C('rate, defaults',{},False),
 C('rate, 1+log withshift, gamma0',{**LOG,'BSSN_shift':'gamma0','BSSN_GReplacedBydg':'no','BSSN_useDD':'yes'},False,boxes=(1,)),
 C('rate, 1+log2 addliealpha, gamma2, forceK',{'BSSN_lapse':'1+log2 addliealpha','BSSN_shift':'gamma2','BSSN_forceKzero':'yes','BSSN_subtractK0':'no'},False,boxes=(0,)),
 C('rate, harmonic addalphaRHSterm, freeze',{'BSSN_lapse':'harmonic addalphaRHSterm','BSSN_freezeGamma':'yes'},False,boxes=(1,)),
 C('rate, Gentle',{'BSSN_GentlePhiRHS':'yes','BSSN_shift':'gamma0 gamma2'},False,boxes=(0,)),
 C('step, defaults',{'BSSN_shift':'gamma0'},True,boxes=(1,)),
 C('step, 1+log, no trace subtraction',{'BSSN_lapse':'1+log','BSSN_subtractA':'no','BSSN_useDD':'yes','BSSN_forceKzero':'yes'},True,boxes=(0,)),
 C('step, recompute Azz, normalize',{'BSSN_recomputeAzz':'yes','BSSN_subtractA':'no','BSSN_normalizedetg':'yes'},True,boxes=(0,)),
 C('step, recompute gzz',{'BSSN_recomputegzz':'yes'},True,boxes=(0,)),
 C('step, densitized',{'BSSN_densitizedLapse':'yes','BSSN_lapse':'harmonic'},True,boxes=(1,)),
 C('step, densitized 1+log without shift',{'BSSN_densitizedLapse':'1+log_withoutShift','BSSN_lapse':'1+log','BSSN_GReplacedBydg':'no'},True,boxes=(0,)),
 C('step, densitized, constant lapse',{'BSSN_densitizedLapse':'yes'},True,boxes=(0,)),
 C('rate, shift stopped',{'BSSN_shift':'gamma0'},False,boxes=(0,),st='2.0',time=3.0),
 C('rate, shift not yet stopped',{'BSSN_shift':'gamma0'},False,boxes=(0,),st='2.0',time=1.0)]
for a in ('yes','no'):
    for s in ('yes','no'):
        cases.append(Case(f'AlgConstr norm={a} subtract={s}',algconstr(a,s),base=BASE,rbase=RB,group='b'))
cases.append(Case('ADM -> BSSN -> ADM',adm_init,base=BASE,rbase=RB,group='b'))
if __name__=='__main__':
    main('C11',cases,trusted=['contracts of First/All derivative helpers (component layout; proved in C02)'],assumptions=['Getd returns the parameter value (proved in C15)','psi, lapse positive where powers or logarithms are taken'])
