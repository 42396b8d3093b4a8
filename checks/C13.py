import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib')
from phys import *
PARS={'physics':'ADMvars','ADMvars_normalizedConstraints':'yes','ADMvars_ConstraintNorm':'TermByTerm',**boxpars(2,5)}
LIST=['gxx','Kxx','alpha','betax','rho','jx','Sxx','ham','momx','trK','dtrK_dt','normham','normmomx']
def world_(sym,matter):
    W=mkworld(sym,PARS)
    pd=W.call('vs_glob_vl',0,ret='p'); ki=W.call('vs_glob_vl',1,ret='p')
    for vl in (pd,ki): W.call('vs_setvlgrid',vl,W.g,ret='v'); W.call('enablevarlist',vl,ret='v')
    for n in LIST+['ADMvars_dgxxx','ADMvars_ddgxxxx','ADMvars_dKxxx','ADMvars_dalpx','ADMvars_ddalpxx','x']:
        if n in ('rho','jx','Sxx') and not matter: continue
        W.call('enablevar',W.g,W.ind(n),ret='v')
    return W
MW={m:(lambda m=m: world_(True,m),lambda m=m: world_(False,m)) for m in (True,False)}
RANGES={'*xx':(0.8,1.4),'*yy':(0.8,1.4),'*zz':(0.8,1.4),'*xy':(-.2,.2),'*xz':(-.2,.2),'*yz':(-.2,.2),'psi':(0.8,1.5),'alpha*':(0.4,1.2),'beta*':(-.5,.5),'K*':(-.6,.6),'dpsi*':(-.3,.3),'ddpsi*':(-.3,.3)}
PI=T.PI if hasattr(T,'PI') else T.const(Fr(math.pi))
def geom(q):
    """physical metric and derivatives: product rule applied to psi^4 gbar"""
    g=q.sym('gxx'); dg=q.dsym('gxx'); ddg=q.ddsym('gxx'); psi=q.v('psi'); dp=q.vec('dpsiopsix'); ddp=q.sym('ddpsiopsixx')
    f=T.powi(psi,4); df=[4*f*dp[i] for i in R3]; ddf=[[4*f*(ddp[i][j]+3*dp[i]*dp[j]) for j in R3] for i in R3]
    G=[[f*g[i][j] for j in R3] for i in R3]; DG=[[[f*dg[i][j][c]+df[c]*g[i][j] for c in R3] for j in R3] for i in R3]
    DDG=[[[[f*ddg[i][j][c][d]+df[c]*dg[i][j][d]+df[d]*dg[i][j][c]+ddf[c][d]*g[i][j] for d in R3] for c in R3] for j in R3] for i in R3]
    return G,DG,DDG
def spec(q,matter,norm):
    g,dg,ddg=geom(q); gi=inv3(g); Ric,G=ricci(g,gi,dg,ddg); lo=[[[ (dg[i][j][k]+dg[i][k][j]-dg[j][k][i])/2 for k in R3] for j in R3] for i in R3]
    K=q.sym('Kxx'); dK=q.dsym('Kxx')
    Rs=sm(gi[i][j]*Ric[i][j] for i in R3 for j in R3); trK=sm(gi[i][j]*K[i][j] for i in R3 for j in R3)
    Kud=[[sm(gi[i][k]*K[k][j] for k in R3) for j in R3] for i in R3]
    K2=sm(Kud[i][j]*Kud[j][i] for i in R3 for j in R3)
    DK=[[[dK[i][j][c]-sm(G[d][c][i]*K[d][j]+G[d][c][j]*K[i][d] for d in R3) for c in R3] for j in R3] for i in R3]
    hs=16*PI*q.v('rho') if matter else T.ZERO
    j=[8*PI*x for x in q.vec('jx')] if matter else [T.ZERO]*3
    ham=Rs+trK*trK-K2-hs
    mom=[sm(gi[b][c]*(DK[a][b][c]-DK[b][c][a]) for b in R3 for c in R3)-j[a] for a in R3]
    dal=q.d('alpha'); ddal=q.dd('alpha'); be=q.vec('betax')
    lap=sm(gi[a][b]*(ddal[a][b]-sm(G[c][a][b]*dal[c] for c in R3)) for a in R3 for b in R3)
    dtr=[sm(gi[b][c]*DK[b][c][a] for b in R3 for c in R3) for a in R3]
    src=T.ZERO
    if matter:
        S=q.sym('Sxx'); src=sm(gi[a][b]*S[a][b] for a in R3 for b in R3)-3*q.v('rho')
    dt=-lap+q.v('alpha')*(Rs+trK*trK)+sm(be[a]*dtr[a] for a in R3)+q.v('alpha')*4*PI*src
    out={'ham':[ham],'momx':mom,'trK':[trK],'dtrK_dt':[dt]}
    A=T.fabs
    if norm=='TermByTerm':
        c2=lambda f: sm(gi[a][b]*gi[c][d]*f(a,b,c,d) for a in R3 for b in R3 for c in R3 for d in R3)
        RA=c2(lambda a,b,c,d:-ddg[a][b][c][d]); RB=c2(lambda a,b,c,d: ddg[b][d][a][c])
        RC=c2(lambda a,b,c,d: sm(G[e][a][c]*lo[e][b][d] for e in R3)); RD=-c2(lambda a,b,c,d: sm(G[e][a][b]*lo[e][c][d] for e in R3))
        den=A(RA)+A(RB)+A(RC)+A(RD)+trK*trK+A(K2)+A(hs)
        kA=lambda a,b,c: dK[b][c][a]
        kB=lambda a,b,c: -sm(G[d][a][b]*K[d][c] for d in R3)
        kC=lambda a,b,c: -sm(G[d][a][c]*K[b][d] for d in R3)
        c1=lambda k,b: sm(gi[a][c]*k(a,b,c) for a in R3 for c in R3); t1=lambda k,a: sm(gi[b][c]*k(a,b,c) for b in R3 for c in R3)
        dm=[sm([A(c1(kA,a)),A(c1(kB,a)),A(c1(kC,a)),A(t1(kA,a)),A(t1(kB,a)),A(t1(kC,a)),A(j[a])]) for a in R3]
    elif norm=='dumb':
        den=A(Rs)+trK*trK+A(K2)+A(hs)
        dm=[A(sm(gi[b][c]*DK[a][b][c] for b in R3 for c in R3))+A(dtr[a])+A(j[a]) for a in R3]
    if norm!='no':
        D=dm[0]+dm[1]+dm[2]
        out['normham']=[(ham,den)]; out['normmomx']=[(mom[a],D) for a in R3]
    return out
def caseof(matter,norm,useDD):
    def fn(ctx):
        W=ctx.W
        setpar(ctx,'ADMvars_normalizedConstraints','no' if norm=='no' else 'yes')
        setpar(ctx,'ADMvars_ConstraintNorm',norm if norm!='no' else 'dumb'); setpar(ctx,'ADMvars_useDD',useDD)
        F=Fields(ctx,ranges=RANGES,useDD=useDD=='yes')
        if ctx.sym: derivstubs(W)
        F.freeze()
        u=W.call('vlalloc',W.g,ret='p')
        for n in LIST: W.call('vlpush',u,W.ind(n),ret='v')
        # the test on the denominators: recorded, and taken one way per case (zero denominators are reported as zero)
        dens=[]
        if ctx.sym and norm!='no':
            def orc(M,c):
                if c.op!='cmp': return None
                l,r=('fabs' in ops(x) for x in c.a[1:])
                if l==r: return None
                d=T.sub(c.a[1],c.a[2]) if l else T.sub(c.a[2],c.a[1])
                if not any(d is x for x in dens): dens.append(d)
                return False if l else True
            W.M.oracle=orc
        W.call('ADMconstraints',u,ret='v')
        for b in (0,1):
            for p in F.points(b):
                q=F.at(b,p)
                for n,xs in spec(q,matter,norm).items():
                    for k,x in enumerate(xs):
                        o=T.lift(F.out(b,W.ind(n)+k,p))
                        if isinstance(x,tuple):
                            ctx.eq(f'b{b} {n}+{k}',o,x[0]/x[1],scale=1.)
                            if ctx.sym and k==0:
                                d=[q_ for q_ in dens if f'b{b}:' in str(sorted(T.variables(q_))[0])]
                                d=d[0 if n=='normham' else -1]
                                ctx.eq(f'b{b} {n}: tested quantity is the scale',d,x[1])
                        else: ctx.eq(f'b{b} {n}+{k}',o,x,tol=1e-7,scale=10.)
    return fn
def kinit(ctx):
    W=ctx.W; F=Fields(ctx,ranges=RANGES); F.freeze()
    W.call('set_K_initial',W.g)
    for b in (0,1):
        for p in F.points(b):
            q=F.at(b,p); g=q.sym('gxx'); K=q.sym('Kxx'); gi=inv3(g)
            ctx.eq(f'b{b} K_initial',F.out(b,'K_initial',p),sm(gi[i][j]*K[i][j] for i in R3 for j in R3)/T.powi(q.v('psi'),4))
def undo(ctx):
    W=ctx.W; F=Fields(ctx,ranges=RANGES); F.freeze()
    W.call('ADMvars_undo_conformal_split',W.g)
    for b in (0,1):
        for p in F.points(b):
            q=F.at(b,p)
            for k in range(6): ctx.eq(f'b{b} g{k} becomes the physical metric',F.out(b,W.ind('gxx')+k,p),T.powi(q.v('psi'),4)*q.v(q.comp('gxx',k)))
            ctx.eq(f'b{b} psi=1',F.out(b,'psi',p),T.ONE)
            for k in range(3): ctx.eq(f'b{b} dpsi{k}',F.out(b,W.ind('dpsiopsix')+k,p),T.ZERO)
            for k in range(6): ctx.eq(f'b{b} ddpsi{k}',F.out(b,W.ind('ddpsiopsixx')+k,p),T.ZERO); ctx.eq(f'b{b} K{k} unchanged',F.out(b,W.ind('Kxx')+k,p),q.v(q.comp('Kxx',k)))
def ops(t):
    seen=set(); st=[t]; r=set()
    while st:
        x=st.pop()
        if not isinstance(x,T.Term) or id(x) in seen: continue
        seen.add(id(x)); r.add(x.a[0] if x.op=='f' else x.op); st+=list(x.a)
    return r
cases=[]
for m in (False,True):
    for norm,dd in (('no','yes'),('no','no'),('TermByTerm','no'),('dumb','yes')):
        cases.append(Case(f'constraints matter={m} norm={norm} useDD={dd}',caseof(m,norm,dd),base=MW[m][0],rbase=MW[m][1],group=f'm{m}'))
def flat(norm):
    def fn(ctx):
        if ctx.sym: raise Skip('run on the real code')
        W=ctx.W; setpar(ctx,'ADMvars_normalizedConstraints','yes'); setpar(ctx,'ADMvars_ConstraintNorm',norm); setpar(ctx,'ADMvars_useDD','no')
        for b in (0,1):
            nn=W.call('vs_nnodes',W.box[b])
            for n,x in (('gxx',1),('gxy',0),('gxz',0),('gyy',1),('gyz',0),('gzz',1),('psi',1),('alpha',1)):
                v=W.vec(W.v(W.box[b],n),nn)
                for i in range(nn): v[i]=x
        u=W.call('vlalloc',W.g,ret='p')
        for n in LIST: W.call('vlpush',u,W.ind(n),ret='v')
        W.call('ADMconstraints',u,ret='v')
        for b in (0,1):
            nn=W.call('vs_nnodes',W.box[b])
            for i in range(nn):
                for n,k in (('ham',0),('normham',0))+tuple((m,c) for m in ('momx','normmomx') for c in R3):
                    ctx.true(f'b{b} {n}+{k} bounded',abs(W.vec(W.v(W.box[b],W.ind(n)+k),nn)[i])<=(1e-9 if 'norm' not in n else 1.0000001))
    return fn
for norm in ('TermByTerm','dumb'): cases.append(Case(f'flat space, {norm}',flat(norm),base=MW[False][0],rbase=MW[False][1],group='mFalse',sym=False,bounded='flat space: scale may vanish, value must stay finite'))
cases+=[Case('initial trace of K',kinit,base=MW[False][0],rbase=MW[False][1],group='mFalse'),Case('undo conformal split',undo,base=MW[False][0],rbase=MW[False][1],group='mFalse')]
if __name__=='__main__':
    main('C13',cases,trusted=['derivative helpers {First,All,FirstAndSecond}Derivs replaced by their contract (decided by C02)'],
      assumptions=['machine arithmetic treated as real arithmetic','det(g)>0, psi>0','S_ij allocated only together with rho, j_i'])
