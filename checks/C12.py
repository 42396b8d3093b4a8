import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib')
from phys import *
PARS={'physics':'ADMvars Z4secondO',**boxpars(2,5)}
def startup(W):
    if W.sym:
        for n in ('evolve_vlregister','evolve_rhsregister'): W.M.stubs[res(n)]=lambda M,*a:0
    pd=W.call('vs_glob_vl',0,ret='p'); ki=W.call('vs_glob_vl',1,ret='p')
    for vl in (pd,ki): W.call('vs_setvlgrid',vl,W.g,ret='v'); W.call('enablevarlist',vl,ret='v')
    for n in ('gxx','Kxx','alpha','betax','betadotx','ADMvars_dgxxx','ADMvars_ddgxxxx','ADMvars_dKxxx','x'): W.call('enablevar',W.g,W.ind(n),ret='v')
    W.call('Z4secondO_startup',W.g)
    W.u=W.call('vs_glob_vl',3,ret='p')
    W.un=W.call('AddDuplicateEnable',W.u,'_n',ret='p'); W.up=W.call('AddDuplicateEnable',W.u,'_q',ret='p')
def world_(sym):
    W=mkworld(sym,PARS); startup(W); return W
BASE=lambda: world_(True)
RB=lambda: world_(False)
RANGES={'*xx':(0.8,1.4),'*yy':(0.8,1.4),'*zz':(0.8,1.4),'*xy':(-.2,.2),'*xz':(-.2,.2),'*yz':(-.2,.2),'psi':(0.8,1.5),'alpha*':(0.4,1.2),'beta*':(-.5,.5),'K*':(-.6,.6),'Z4*':(-.5,.5)}
DP=['RtoRminusHfactor','kappa1','kappa2','lapsepsipower','lapseharmonicf','lapseharmonicm']
DEF={'useDD':'yes','lapse':'constant','subtractK0':'no','shift':'constant','shift_stop_time':'-1.0'}
def spec(q,o,P):
    """Z4 evolution equations (second order in space) with damping -kappa1 Theta and -kappa2 Z_i"""
    V=lambda n,v: v in o[n].split()
    g=q.sym('gxx'); dg=q.dsym('gxx'); ddg=q.ddsym('gxx'); K=q.sym('Kxx'); dK=q.dsym('Kxx')
    Th=q.v('Z4secondO_Theta'); dTh=q.d('Z4secondO_Theta'); Z=q.vec('Z4secondO_Zx'); dZ=q.dvec('Z4secondO_Zx')
    al=q.v('alpha'); dal=q.d('alpha'); ddal=q.dd('alpha'); be=q.vec('betax'); dbe=q.dvec('betax')
    gi=inv3(g); Ric,G=ricci(g,gi,dg,ddg)
    adv=lambda d: sm(be[k]*d[k] for k in R3)
    Lie2=lambda X,dX:[[adv(dX[i][j])+sm(X[k][j]*dbe[k][i]+X[i][k]*dbe[k][j] for k in R3) for j in R3] for i in R3]
    Rs=sm(gi[i][j]*Ric[i][j] for i in R3 for j in R3)
    trK=sm(gi[i][j]*K[i][j] for i in R3 for j in R3)
    KK=[[sm(gi[k][l]*K[i][k]*K[l][j] for k in R3 for l in R3) for j in R3] for i in R3]
    K2=sm(gi[i][j]*KK[i][j] for i in R3 for j in R3)
    H=Rs+trK*trK-K2
    DDa=[[ddal[i][j]-sm(G[k][i][j]*dal[k] for k in R3) for j in R3] for i in R3]
    DZ=[[dZ[j][i]-sm(G[k][i][j]*Z[k] for k in R3) for j in R3] for i in R3]      # D_i Z_j
    divZ=sm(gi[i][j]*DZ[i][j] for i in R3 for j in R3)
    DK=[[[dK[i][j][c]-sm(G[d][c][i]*K[d][j]+G[d][c][j]*K[i][d] for d in R3) for c in R3] for j in R3] for i in R3]  # D_c K_ij
    L=lambda v: T.ONE if V('lapse',v) else T.ZERO
    Lg=Lie2(g,dg); LK=Lie2(K,dK)
    rg=[[-2*al*K[i][j]+Lg[i][j] for j in R3] for i in R3]
    rK=[[-DDa[i][j]+al*(Ric[i][j]+DZ[i][j]+DZ[j][i]-2*KK[i][j]+K[i][j]*(trK-2*Th))+LK[i][j] for j in R3] for i in R3]
    RH=Rs-P['RtoRminusHfactor']*H
    rTh=al/2*(RH+2*divZ+trK*(trK-2*Th)-K2)-sm(gi[i][j]*Z[i]*dal[j] for i in R3 for j in R3)+adv(dTh)-P['kappa1']*Th
    rZ=[]
    for i in R3:
        divK=sm(gi[b][c]*DK[b][i][c] for b in R3 for c in R3); dtr=sm(gi[b][c]*DK[b][c][i] for b in R3 for c in R3)
        rZ.append(al*(divK-dtr+dTh[i]-2*sm(gi[b][c]*K[i][b]*Z[c] for b in R3 for c in R3))-Th*dal[i]+adv(dZ[i])+sm(dbe[c][i]*Z[c] for c in R3)-P['kappa2']*Z[i])
    K0=q.v('K_initial') if V('subtractK0','yes') else T.ZERO
    ra0=-al*(trK-K0-P['lapseharmonicm']*Th)*T.pow_(q.v('psi'),P['lapsepsipower'])
    ra=(T.ONE-L('constant'))*(L('withshift')*adv(dal)+(L('1+log')*P['lapseharmonicf']+L('harmonic')*al)*ra0)
    return dict(g=rg,K=rK,Th=rTh,Z=rZ,al=ra,H=H,ADM=[[-DDa[i][j]+al*(Ric[i][j]-2*KK[i][j]+K[i][j]*trK)+LK[i][j] for j in R3] for i in R3])
def COMPS(r): return [('gxx',k,r['g'][i][j]) for k,(i,j) in enumerate(P3)]+[('Kxx',k,r['K'][i][j]) for k,(i,j) in enumerate(P3)]+[('Z4secondO_Theta',0,r['Th'])]+[('Z4secondO_Zx',i,r['Z'][i]) for i in R3]+[('alpha',0,r['al'])]+[('betax',i,T.ZERO) for i in R3]+[('betadotx',i,T.ZERO) for i in R3]
def caseof(opts,step,boxes=(0,1)):
    def fn(ctx):
        W=ctx.W; o=dict(DEF); o.update(opts)
        for k,v in o.items(): setpar(ctx,'Z4secondO_'+k,v)
        P={n:dpar(ctx,'Z4secondO_'+n) for n in DP}
        F=Fields(ctx,ranges=RANGES,useDD=o['useDD']=='yes')
        if ctx.sym: derivstubs(W)
        F.freeze()
        dt=ctx.var('dt',0.01,0.2) if step else T.ZERO
        if ctx.sym and step: W.M.oracle=lambda M,c: (False if c.op=='cmp' and c.a[0]=='eq' and 'dt' in T.variables(c) else None)
        W.call('Z4secondO_rhs',W.un,W.up,dt,W.u,ret='v')
        for b in boxes:
            for p in F.points(b):
                q=F.at(b,p); R=spec(q,o,P)
                for n,k,x in COMPS(R):
                    y=q.v(q.comp(n,k)+'_q')+dt*x if step else x
                    ctx.eq(f'b{b} {n}+{k}',F.out(b,W.ind(n+'_n')+k,p),y,tol=1e-7,scale=10.)
    return fn
def lemma_adm(ctx):
    """the reference equations with Theta=Z=0, no damping are the ADM equations with Hamiltonian and momentum constraints as sources"""
    if not ctx.sym: raise Skip('specification lemma')
    class Q:
        def v(s,n): return T.ZERO if 'Theta' in n else T.var(n)
        def d(s,n): return [T.ZERO if 'Theta' in n else T.var(f'd{c}{n}') for c in R3]
        def dd(s,n): return [[T.var(f'dd{S3[i,j]}{n}') for j in R3] for i in R3]
        def vec(s,n): return [T.ZERO if 'Z4' in n else T.var(f'{n}{c}') for c in R3]
        def dvec(s,n): return [[T.ZERO if 'Z4' in n else T.var(f'd{c}{n}{i}') for c in R3] for i in R3]
        def sym(s,n): return [[T.var(f'{n}{S3[i,j]}') for j in R3] for i in R3]
        def dsym(s,n): return [[[T.var(f'd{c}{n}{S3[i,j]}') for c in R3] for j in R3] for i in R3]
        def ddsym(s,n): return [[[[T.var(f'dd{S3[c,d]}{n}{S3[i,j]}') for d in R3] for c in R3] for j in R3] for i in R3]
    P={n:T.ZERO for n in DP}; R=spec(Q(),DEF,P)
    for i,j in P3: ctx.eq(f'K{i}{j} ADM',R['K'][i][j],R['ADM'][i][j])
    ctx.eq('Theta source is alpha H/2',R['Th'],T.var('alpha')*R['H']/2)
C=lambda n,o,step,**k: Case(n,caseof(o,step,**k),base=BASE,rbase=RB,group='b',timeout=500)
cases=[Case('lemma ADM limit',lemma_adm,base=BASE,real=0,group='b'),
 C('rate, defaults',{},False),
 C('rate, 1+log with shift, K0',{'lapse':'1+log withshift','subtractK0':'yes','useDD':'no'},False),
 C('rate, harmonic',{'lapse':'harmonic','shift':'gamma0'},False),
 C('step, harmonic with shift',{'lapse':'harmonic withshift','subtractK0':'yes'},True),
 C('step, 1+log',{'lapse':'1+log','shift_stop_time':'0.0','useDD':'no'},True,boxes=(0,)),
 C('step, defaults',{},True,boxes=(1,))]
if __name__=='__main__':
    main('C12',cases,level='proof',
      trusted=['derivative helpers {First,All,FirstAndSecond}Derivs replaced by their contract (decided by C02)'],
      assumptions=['machine arithmetic treated as real arithmetic','det(g)>0 and alpha>0 on the sampled domain of the identity test','OpenMP pragmas ignored (sequential semantics)'])
