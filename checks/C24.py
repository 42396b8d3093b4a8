"""C24  Scalar wave systems: time derivatives are the wave operator on the configured background; the background variables
are the stated metric's; radiative outer boundary in rate and step form at the listed points only."""
import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib'); sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from phys import *
from C14 import Data
def vlist(W,names):
    v=W.call('vlalloc',W.g,ret='p')
    for n in names: W.call('vlpush',v,W.ind(n),ret='v')
    W.call('enablevarlist',v,ret='v'); return v
def trio(W,names):
    W.u=vlist(W,names); W.un=W.call('AddDuplicateEnable',W.u,'_n',ret='p'); W.up=W.call('AddDuplicateEnable',W.u,'_q',ret='p')
def mkcart(W):
    """contract of cart_partials: three linear-operator symbols per field"""
    M=W.M; M.lab={}
    def put(p,name):
        o=p.o
        def init(f,sz,kind,name=name):
            k=f//8 if type(f) is int else f.divexact(8)
            return T.var(f'{name}@{k}')
        if M.loopstack: raise Undecided('derivative helper called inside a point loop')
        o.cells={}; o.nsym=0; o.init=init; M.lab[o.id]=name
        if M.writes is not None: M.writes.setdefault(o.id,(o,{}))
    def cart(M,box,u,a,b,c):
        n=M.lab.get(u.o.id,u.o.name)+(f'#{len(u.o.cells)}' if u.o.cells else '')
        if u.o.cells:       # a pointwise copy of another field has that field's derivatives
            try:
                nn=u.o.size//8; vs=[W.get(u,j) for j in range(nn)]
                if all(v.op=='v' and v.a[0].endswith(f'@{j}') for j,v in enumerate(vs)):
                    pre={v.a[0][:-len(f'@{j}')] for j,v in enumerate(vs)}
                    if len(pre)==1: n=pre.pop()
            except TypeError: pass
        for d,p in enumerate((a,b,c)): put(p,f'd{d}{n}')
    M.stubs[res('cart_partials')]=cart
def inner(F,b):
    """points not on any face of the box (the boundary and interface rows have their own contracts)"""
    if F.ctx.sym: return ['I']
    n=5; W=F.W
    L=[p for p in range(W.call('vs_nnodes',W.box[b])) if all(0<(p//n**k)%n<n-1 for k in R3)]
    return F.ctx.rng.sample(L,6)
def cartd(F,b,n,p):
    """Cartesian first derivatives as produced by cart_partials"""
    if F.ctx.sym: return [T.var(f'd{c}b{b}:{n}@I') for c in R3]
    W=F.W; k=('cart',b,n)
    if k not in F.dcache:
        bx=W.box[b]; nn=W.call('vs_nnodes',bx); u=W.arr(F.val[(b,n)]); o=[W.arr([0.]*nn) for _ in R3]
        W.call('cart_partials',bx,u,*o,ret='v'); F.dcache[k]=[list(W.vec(q,nn)) for q in o]
    return [T.const(Fr(F.dcache[k][c][p])) for c in R3]
def nozero(ctx,step):
    if ctx.sym and step: ctx.W.M.oracle=lambda M,c: (False if c.op=='cmp' and c.a[0]=='eq' and 'dt' in T.variables(c) else None)
def NOP(W,*names):
    for n in names: W.M.stubs[res(n)]=lambda M,*a:None
# ------------------------------------------------------------------ flat wave equation
def wsw(sym):
    W=mkworld(sym,{'physics':'ADMvars ScalarWave','boundary':'none',**boxpars(2,5)})
    for n in ('x','y','z','ScalarWave_dpsix','ScalarWave_ddpsixx','temp1','temp2','temp3','gxx'): W.call('enablevar',W.g,W.ind(n),ret='v')
    trio(W,('ScalarWave_psi','ScalarWave_psidot')); return W
def scalarwave(step):
    def fn(ctx):
        W=ctx.W; nl=dpar(ctx,'ScalarWave_nonlinearity',0.2,1.5)
        F=Fields(ctx)
        if ctx.sym: derivstubs(W); NOP(W,'set_boundary')
        F.freeze(); dt=ctx.var('dt',0.01,0.2) if step else T.ZERO; nozero(ctx,step)
        W.call('ScalarWave_evolve',W.un,W.up,dt,W.u,ret='v')
        F.useDD=True
        for b in range(W.nb):
            for p in F.points(b):
                q=F.at(b,p); u=q.v('ScalarWave_psi'); dd=q.dd('ScalarWave_psi')
                R={'ScalarWave_psi':q.v('ScalarWave_psidot'),'ScalarWave_psidot':dd[0][0]+dd[1][1]+dd[2][2]-nl*u*u*u/(1+u*u)}
                for n,r in R.items(): ctx.eq(f'b{b} {n}',F.out(b,n+'_n',p),q.v(n+'_q')+dt*r if step else r,tol=1e-8,scale=10.)
    return fn
# ------------------------------------------------------------------ 1d wave on a string (separate configuration)
def wtw(sym,n=5):
    W=mkworld(sym,{'physics':'ADMvars testwave',**boxpars(2,n)},conf='alt')
    for v in ('u1','u2','u3','u11','u22','u33','dum'): W.call('enablevar',W.g,W.ind('testwave_'+v),ret='v')
    for v in 'xyz': W.call('enablevar',W.g,W.ind(v),ret='v')
    trio(W,('testwave_u','testwave_k')); return W
def testwave(step):
    def fn(ctx):
        W=ctx.W; names=[varname(W,i) for i in range(W.call('vs_nvariables',W.g))]; n=3 if ctx.sym else 5
        ini={}
        for b in range(W.nb):
            nn=W.call('vs_nnodes',W.box[b])
            for i,m in enumerate(names):
                p=W.v(W.box[b],i)
                if p is None or m in 'XYZxyz': continue
                if ctx.sym: W.call('vs_setv',W.box[b],i,ctx.field(f'b{b}:{m}',nn),ret='v')
                else:
                    v=W.vec(p,nn)
                    for j in range(nn): v[j]=ctx.rng.uniform(-1,1)
                    ini[b,m]=list(v)
        dt=ctx.var('dt',0.01,0.2) if step else T.ZERO; nozero(ctx,step)
        if ctx.sym: mkcart(W)
        else:
            d11={}
            for b in range(W.nb):
                nn=W.call('vs_nnodes',W.box[b]); o=[W.arr([0.]*nn) for _ in range(6)]
                W.call('cart_partials',W.box[b],W.arr(ini[b,'testwave_u']),*o[:3],ret='v'); W.call('cart_partials',W.box[b],o[0],*o[3:],ret='v'); d11[b]=list(W.vec(o[3],nn))
        W.call('testwave_evo',W.un,W.up,dt,W.u,ret='v')
        for b in range(W.nb):
            for j in range(n**3):
                g=lambda m: T.var(f'b{b}:{m}@{j}') if ctx.sym else T.const(Fr(ini[b,m][j]))
                face=any((j//n**k)%n in(0,n-1) for k in R3)
                R={'testwave_u':g('testwave_k'),'testwave_k':T.var(f'd0d0b{b}:testwave_u@{j}') if ctx.sym else T.const(Fr(d11[b][j]))}
                for m,r in R.items():
                    w=T.ZERO if face else (g(m+'_q')+dt*r if step else r)
                    ctx.eq(f'b{b} {m}@{j}',W.get(W.v(W.box[b],m+'_n'),j),w,tol=1e-9,scale=10.)
    return fn
# ------------------------------------------------------------------ scalar field on Kerr
KP={'physics':'ADMvars ScalarOnKerr','ScalarOnKerr_reset_doubleCoveredPoints':'no','ScalarOnKerr_DisableUnusedVars':'no','boundary':'none'}
KV=['ScalarOnKerr_rho','ScalarOnKerr_dpsix','ScalarOnKerr_ddpsixx','ScalarOnKerr_dPix','ScalarOnKerr_gtt','ScalarOnKerr_guptt','ScalarOnKerr_Gammattt','ScalarOnKerr_Gt',*['ScalarOnKerr3d_'+n for n in('gxx','alpha','betax','Kxx','TrK','gupxx','Gammaxxx','Gx','dalphax','dbetaxx')],'x','y','z','gxx','temp1','temp2','temp3','ScalarOnKerr_rho0_four3modes','ScalarOnKerr_rho_four3modes']
def wk(sym,first,extra={}):
    W=mkworld(sym,{**KP,**boxpars(2,5),'ScalarOnKerr_1stOrder_inSpace':'yes' if first else 'no',**extra})
    for n in KV: W.call('enablevar',W.g,W.ind(n),ret='v')
    trio(W,['ScalarOnKerr_psi','ScalarOnKerr_Pi','ScalarOnKerr_Up','ScalarOnKerr_Um']+(['ScalarOnKerr_phix','ScalarOnKerr_U0x'] if first else []))
    if first: W.call('enablevar',W.g,W.ind('ScalarOnKerr_dphixx'),ret='v')
    W.call('enablevar',W.g,W.ind('dXdx'),ret='v'); W.call('vs_setdt',W.g,0.1,ret='v'); W.call('initialize_BoundaryPointLists',W.g)
    return W
BCF=('set_Up_Um_onBoundary','compute_unew_from_Up_Um_onBoundary','set_psi_Pi_boundary','set_Up_Um_U0_onBoundary','compute_unew_from_Up_Um_U0_onBoundary','set_psi_Pi_phi_boundary_CP','set_psi_Pi_phi_boundary','ChooseAndApplyFilter')
KR={'*alpha':(0.5,1.2),'*guptt':(-1.6,-.8),'*beta*':(-.5,.5)}
def kerr2(step,pidef):
    def fn(ctx):
        W=ctx.W; setpar(ctx,'ScalarOnKerr_Pi_def',pidef); setpar(ctx,'ScalarOnKerr_filter_vars','no')
        F=Fields(ctx,ranges=KR); N='ScalarOnKerr_'; N3='ScalarOnKerr3d_'
        if ctx.sym:
            derivstubs(W); mkcart(W); NOP(W,*BCF); key=lambda *x: ','.join(T.show(T.lift(t)) for t in x)
            W.M.stubs['ScalarOnKerr_Source']=lambda M,box,t,x,y,z: T.var(f'S[{key(t,x,y,z)}]')
        if not ctx.sym:
            for b in range(W.nb):
                nn=W.call('vs_nnodes',W.box[b])
                for n in 'xyz':
                    v=W.vec(W.v(W.box[b],n),nn)
                    for j in range(nn): v[j]=ctx.rng.uniform(3.2,4.8)
        F.freeze(); dt=ctx.var('dt',0.01,0.2) if step else T.ZERO; nozero(ctx,step)
        t=ctx.var('t',0.,2.); W.call('vl_settime',W.u,t,ret='v')
        W.call('ScalarOnKerr_evolve',W.un,W.up,dt,W.u,ret='v')
        F.useDD=True
        for b in range(W.nb):
            for p in inner(F,b):
                q=F.at(b,p)
                gu=lambda a,c: q.v(q.comp(N+'guptt',{(0,0):0,(0,1):1,(0,2):2,(0,3):3,(1,1):4,(1,2):5,(1,3):6,(2,2):7,(2,3):8,(3,3):9}[min(a,c),max(a,c)]))
                G=[q.v(q.comp(N+'Gt',a)) for a in range(4)]
                dp=q.d(N+'psi'); ddp=q.dd(N+'psi'); Pi=q.v(N+'Pi'); dPi=q.d(N+'Pi')
                if pidef=='ScheelsPi':
                    A=q.v(N3+'alpha'); dA=[q.v(q.comp(N3+'dalphax',i)) for i in R3]; B=[q.v(q.comp(N3+'betax',i)) for i in R3]
                    dB=[[q.v(q.comp(N3+'dbetaxx',3*i+j)) for j in R3] for i in R3]     # d_j beta^i
                else: A=-T.ONE; dA=[T.ZERO]*3; B=[T.ZERO]*3; dB=[[T.ZERO]*3]*3
                pt=sm(B[i]*dp[i] for i in R3)-A*Pi                       # d_t psi defines Pi
                dpt=[sm(B[i]*ddp[i][j]+dB[i][j]*dp[i] for i in R3)-A*dPi[j]-Pi*dA[j] for j in R3]
                x=[q.v(n) if ctx.sym else T.const(Fr(F.val[b,n][p])) for n in 'xyz']
                S=T.var(f'S[{key(t,*x)}]') if ctx.sym else T.const(Fr(W.call('ScalarOnKerr_Source',W.box[b],ctx.num(t),*[float(c.a[0]) for c in x],ret='d')))
                # g^ab (d_a d_b psi - Gamma^c_ab d_c psi) = S
                rest=2*sm(gu(0,i+1)*dpt[i] for i in R3)+sm(gu(i+1,j+1)*ddp[i][j] for i in R3 for j in R3)-G[0]*pt-sm(G[i+1]*dp[i] for i in R3)
                ptt=(S-rest)/gu(0,0)
                rPi=(sm(B[i]*dpt[i] for i in R3)-ptt)/A                   # static background
                for n,r in ((N+'psi',pt),(N+'Pi',rPi)): ctx.eq(f'b{b} {n}',F.out(b,n+'_n',p),q.v(n+'_q')+dt*r if step else r,tol=1e-7,scale=10.)
    return fn
def kerr1(step):
    def fn(ctx):
        W=ctx.W; setpar(ctx,'ScalarOnKerr_filter_vars','no')
        F=Fields(ctx,ranges=KR); N='ScalarOnKerr_'; N3='ScalarOnKerr3d_'
        if ctx.sym:
            derivstubs(W); mkcart(W); NOP(W,*BCF)
            def rho(M,box,p,t):
                b=next(k for k in range(W.nb) if W.box[k]==box)
                p.o.init=lambda f,sz,kind: T.var(f'S{b}[{T.show(T.lift(t))}]@{f//8 if type(f) is int else f.divexact(8)}'); p.o.cells={}
            W.M.stubs['ScalarOnKerr_rho_from_rho0_four3modes']=rho
        F.freeze(); dt=ctx.var('dt',0.01,0.2) if step else T.ZERO; nozero(ctx,step)
        t=ctx.var('t',0.,2.); W.call('vl_settime',W.u,t,ret='v')
        W.call('ScalarOnKerr_evolve_1stO',W.un,W.up,dt,W.u,ret='v')
        for b in range(W.nb):
            for p in inner(F,b):
                q=F.at(b,p); al=q.v(N3+'alpha'); dal=[q.v(q.comp(N3+'dalphax',i)) for i in R3]; B=[q.v(q.comp(N3+'betax',i)) for i in R3]
                dB=[[q.v(q.comp(N3+'dbetaxx',3*i+j)) for j in R3] for i in R3]; gu=q.sym(N3+'gupxx'); G=[q.v(q.comp(N3+'Gx',i)) for i in R3]; K=q.v(N3+'TrK')
                Pi=q.v(N+'Pi'); dPi=q.d(N+'Pi'); dp=q.d(N+'psi'); ph=[q.v(q.comp(N+'phix',i)) for i in R3]; dph=[cartd(F,b,q.comp(N+'phix',i),p) for i in R3]
                S=T.var(f'S{b}[{T.show(T.lift(t))}]@I') if ctx.sym else T.const(Fr(W.get(W.v(W.box[b],N+'rho'),p)))
                R=[(N+'psi',0,sm(B[i]*dp[i] for i in R3)-al*Pi),
                   (N+'Pi',0,sm(B[i]*dPi[i] for i in R3)-al*(sm(gu[i][j]*(dph[i][j]+dph[j][i])/2 for i in R3 for j in R3)-sm(G[i]*ph[i] for i in R3))-sm(gu[i][j]*ph[i]*dal[j] for i in R3 for j in R3)+al*K*Pi+al*S)]
                R+=[(N+'phix',i,sm(B[k]*dph[i][k]+ph[k]*dB[k][i] for k in R3)-al*dPi[i]-Pi*dal[i]) for i in R3]
                for n,k,r in R: ctx.eq(f'b{b} {n}+{k}',F.out(b,W.ind(n+'_n')+k,p),q.v(q.comp(n,k)+'_q')+dt*r if step else r,tol=1e-7,scale=10.)
    return fn
def background(spin):
    def fn(ctx):
        W=ctx.W; M=dpar(ctx,'BHmass',0.4,1.2)
        for n in 'xyz':
            if spin: dpar(ctx,f'BHs{n}',-0.3,0.3)
            else: setpar(ctx,f'BHs{n}','0.0')
        D=Data(ctx,(1.2,0.7,-1.9),(2.6,1.9,-0.6)); N='ScalarOnKerr_'; N3='ScalarOnKerr3d_'; I=W.ind
        W.call('Kerr',W.g,I('x'),I(N+'gtt'),I(N+'guptt'),I(N+'Gammattt'),I(N+'Gt'),ret='v')
        W.call('Kerr3d',W.g,I('x'),I(N3+'alpha'),I(N3+'betax'),I(N3+'gxx'),I(N3+'Kxx'),I(N3+'TrK'),I(N3+'gupxx'),I(N3+'Gammaxxx'),I(N3+'Gx'),I(N3+'dalphax'),I(N3+'dbetaxx'),ret='v')
        R4=range(4); S4={}; k=0
        for i in R4:
            for j in range(i,4): S4[i,j]=S4[j,i]=k; k+=1
        if ctx.sym: Mv=T.lift(ctx.dpars['BHmass']); a=[T.lift(ctx.dpars[f'BHs{n}'])/Mv if spin else T.ZERO for n in 'xyz']
        else: Mv=T.const(Fr(ctx.env['BHmass'])); a=[T.const(Fr(ctx.env[f'BHs{n}']))/Mv if spin else T.ZERO for n in 'xyz']
        for b in list(D.boxes())[:1]:
            x=D.X(b); r2=sm(q*q for q in x); a2=sm(q*q for q in a); ax=sm(p*q for p,q in zip(a,x))
            r=T.sqrt((r2-a2+T.sqrt((r2-a2)*(r2-a2)+4*ax*ax))/2) if spin else T.sqrt(r2); H=Mv*T.powi(r,3)/(T.powi(r,4)+ax*ax)
            cr=[a[(i+1)%3]*x[(i+2)%3]-a[(i+2)%3]*x[(i+1)%3] for i in R3]
            l=[T.ONE]+[(r*r*x[i]-r*cr[i]+ax*a[i])/(r*(r*r+a2)) for i in R3]
            g=[[D.v(b,N+'gtt',S4[i,j]) for j in R4] for i in R4]; gu=[[D.v(b,N+'guptt',S4[i,j]) for j in R4] for i in R4]
            for i in R4:
                for j in range(i,4): ctx.eq(f'g{i}{j} Kerr-Schild',g[i][j],(-T.ONE if i==j==0 else T.ONE if i==j else T.ZERO)+2*H*l[i]*l[j],tol=1e-8,scale=1.)
            for i in R4:
                for j in R4: ctx.eq(f'inverse {i}{j}',sm(g[i][c]*gu[c][j] for c in R4),T.ONE if i==j else T.ZERO,tol=1e-8,scale=1.)
            dg={k:[T.ZERO]+D.d(b,N+'gtt',k) for k in range(10)}
            lo=[[[(dg[S4[d,i]][j]+dg[S4[d,j]][i]-dg[S4[i,j]][d])/2 for j in R4] for i in R4] for d in R4]
            Gam={}
            for c in R4:
                for k,(i,j) in enumerate((i,j) for i in R4 for j in range(i,4)):
                    Gam[c,i,j]=Gam[c,j,i]=w=sm(gu[c][d]*lo[d][i][j] for d in R4)
                    ctx.eq(f'Gamma^{c}_{i}{j}',D.v(b,N+'Gammattt',10*c+k),w,tol=1e-5,scale=1.)
                ctx.eq(f'G^{c}',D.v(b,N+'Gt',c),sm(gu[i][j]*Gam[c,i,j] for i in R4 for j in R4),tol=1e-5,scale=1.)
            # 3+1 quantities
            al=D.v(b,N3+'alpha'); be=[D.v(b,N3+'betax',i) for i in R3]
            ctx.eq('lapse',-al*al*gu[0][0],T.ONE,tol=1e-8); ctx.true('lapse positive',not ctx.sym and ctx.num(al)>0 or ctx.sym)
            for i in R3: ctx.eq(f'shift {i}',be[i],-gu[0][i+1]/gu[0][0],tol=1e-8,scale=1.)
            g3=[[D.v(b,N3+'gxx',S3[i,j]) for j in R3] for i in R3]; dg3=[[D.d(b,N3+'gxx',S3[i,j]) for j in R3] for i in R3]
            gi=[[D.v(b,N3+'gupxx',S3[i,j]) for j in R3] for i in R3]
            for i,j in P3: ctx.eq(f'3-metric {i}{j}',g3[i][j],g[i+1][j+1],tol=1e-8,scale=1.)
            for i in R3:
                for j in R3: ctx.eq(f'3-inverse {i}{j}',sm(g3[i][c]*gi[c][j] for c in R3),T.ONE if i==j else T.ZERO,tol=1e-8,scale=1.)
            G,_=christoffel(gi,dg3)
            for c in R3:
                for k,(i,j) in enumerate(P3): ctx.eq(f'3-Gamma^{c}_{i}{j}',D.v(b,N3+'Gammaxxx',6*c+k),G[c][i][j],tol=1e-5,scale=1.)
                ctx.eq(f'3-G^{c}',D.v(b,N3+'Gx',c),sm(gi[i][j]*G[c][i][j] for i in R3 for j in R3),tol=1e-5,scale=1.)
            dal=D.d(b,N3+'alpha'); dbe=[D.d(b,N3+'betax',i) for i in R3]
            for i in R3:
                ctx.eq(f'dalpha {i}',D.v(b,N3+'dalphax',i),dal[i],tol=1e-6,scale=1.)
                for j in R3: ctx.eq(f'dbeta {i}{j}',D.v(b,N3+'dbetaxx',3*i+j),dbe[i][j],tol=1e-6,scale=1.)
            K=[[D.v(b,N3+'Kxx',S3[i,j]) for j in R3] for i in R3]
            for i,j in P3:   # d_t g_ij = 0
                ctx.eq(f'K{i}{j}',2*al*K[i][j],sm(be[k]*dg3[i][j][k]+g3[k][j]*dbe[k][i]+g3[i][k]*dbe[k][j] for k in R3),tol=1e-5,scale=1.)
            ctx.eq('TrK',D.v(b,N3+'TrK'),sm(gi[i][j]*K[i][j] for i in R3 for j in R3),tol=1e-8,scale=1.)
    return fn
# ------------------------------------------------------------------ radiative boundary
def wrad(sym,coords_,n,extra={}):
    d=boxpars(2,3); hi=repr(2*math.pi)
    if not sym and coords_!='Cartesian': n=(4,6,6)
    for k in (1,2,3): d[f'box1_n{k}']=str(n[k-1])
    if coords_!='Cartesian' and not sym: d.update({'box1_Coordinates':coords_,'box1_basis1':'ChebExtrema','box1_basis2':'Fourier','box1_basis3':'Fourier','box1_min1':'1.0','box1_max1':'2.0','box1_min2':'0','box1_max2':hi,'box1_min3':'0','box1_max3':hi})
    W=mkworld(sym,{'physics':'ADMvars','boundary':'radiative',**d,**extra}); W.cs=coords_
    if not sym: coords(W)
    for v in ('x','y','z','temp1','temp2','temp3','ADMvars_dgxxx'): W.call('enablevar',W.g,W.ind(v),ret='v')
    if sym and coords_!='Cartesian': W.call('Sets','box1_Coordinates',coords_,ret='v')
    W.n=[[W.call('vs_n',W.box[b],k) for k in (1,2,3)] for b in range(2)]
    W.u=vlist(W,('alpha','psi')); W.un=W.call('AddDuplicateEnable',W.u,'_r',ret='p'); W.up=W.call('AddDuplicateEnable',W.u,'_p',ret='p')
    W.call('initialize_BoundaryPointLists',W.g); return W
SPH=('SphericalDF','compactSphericalDF','Spherical','Spherical2','Spherical3')
def listed(W,b):
    """outer boundary of the outermost box"""
    if b!=W.nb-1: return set()
    n1,n2,n3=W.n[b]; P=[(i,j,k) for k in range(n3) for j in range(n2) for i in range(n1)]
    return {i+n1*(j+n2*k) for i,j,k in P if i==n1-1 or (W.cs not in SPH and (i==0 or j in(0,n2-1) or k in(0,n3-1)))}
def radiative(rad='radiative',const='',times=(0.,)):
    def fn(ctx):
        W=ctx.W; setpar(ctx,'boundary',rad); setpar(ctx,'boundary_radconstant',const or 'none')
        info={}
        for n in ('alpha','psi'):
            f=ctx.var('far_'+n,0.5,1.5); v=ctx.var('speed_'+n,0.5,1.5); info[n]=(f,v)
            W.call('VarNameSetBoundaryInfo',n+'_r',f if ctx.sym else ctx.num(f),1.0,v if ctx.sym else ctx.num(v),ret='v')
        c=ctx.var('c',-.1,.2) if ctx.sym else T.const(Fr(ctx.rng.choice([0.,.125,-.0625]))); cc=c if ctx.sym else float(c.a[0])
        nv=W.call('vs_nvariables',W.g); names=[varname(W,i) for i in range(nv)]; val={}
        def fill(tag):
            nv=W.call('vs_nvariables',W.g); names=[varname(W,i) for i in range(nv)]
            for b in range(W.nb):
                nn=W.call('vs_nnodes',W.box[b])
                for i,m in enumerate(names):
                    p=W.v(W.box[b],i)
                    if p is None or m in 'XYZ' or m.startswith(('dX','dY','dZ','ddX','ddY','ddZ')) or m.endswith('_initial'): continue
                    if ctx.sym:
                        if m in 'xyz' and tag: continue
                        W.call('vs_setv',W.box[b],i,ctx.field(f'b{b}:{tag}{m}',nn),ret='v')
                    else:
                        v=W.vec(p,nn)
                        if m not in 'xyz':
                            for j in range(nn): v[j]=ctx.rng.uniform(.3,1.7)
                        val[b,tag+m]=list(v)
        dc={}
        def der(b,m,j):
            if ctx.sym: return [T.var(f'd{k}b{b}:{m}@{j}') for k in R3]
            if (b,m) not in dc:
                nn=W.call('vs_nnodes',W.box[b]); o=[W.arr([0.]*nn) for _ in R3]; W.call('cart_partials',W.box[b],W.arr(val[b,m]),*o,ret='v'); dc[b,m]=[list(W.vec(q,nn)) for q in o]
            return [T.const(Fr(dc[b,m][k][j])) for k in R3]
        def V(b,m,j):
            return T.var(f'b{b}:{m}@{j}') if ctx.sym else T.const(Fr(val[b,m][j]))
        if ctx.sym: mkcart(W)
        for r,t in enumerate(times):
            tag=f'r{r}' if r else ''
            fill(tag); W.call('vl_settime',W.u,float(t),ret='v')
            W.call('set_boundary',W.un,W.up,cc,W.u,ret='v')
            for b in range(W.nb):
                L=listed(W,b); nn=W.call('vs_nnodes',W.box[b])
                for m in ('alpha','psi'):
                    far,v=info[m]
                    if m in const.split() or m+'_r' in const.split(): v=T.ZERO
                    for j in range(nn):
                        w=V(b,tag+m+'_r',j)
                        if j in L:
                            x=[V(b,q,j) for q in 'xyz']; rr=T.sqrt(sm(q*q for q in x)); d=der(b,tag+m,j); u=V(b,tag+m,j)
                            if rad=='radiative': rhs=-v*(u-far)/rr-v*sm(x[k]/rr*d[k] for k in R3)
                            else:   # difference to the state saved at time 0
                                d0=der(b,m+'_p',j); u0=V(b,m+'_p',j); rhs=-v*(u-u0)/rr-v*sm(x[k]/rr*(d[k]-d0[k]) for k in R3)
                            zero=any(cd.op=='cmp' and cd.a[0]=='eq' and bb and 'c' in T.variables(cd) for cd,bb in W.M.path if isinstance(cd,T.Term)) if ctx.sym else cc==0
                            w=rhs if zero else V(b,tag+m+'_p',j)+c*rhs
                        ctx.eq(f'{tag}b{b} {m}@{j} {"boundary" if j in L else "frame"}',W.get(W.v(W.box[b],m+'_r'),j),w,tol=1e-8,scale=1.)
                        for s in ('','_p'):
                            ctx.eq(f'{tag}b{b} {m}{s}@{j} unchanged',W.get(W.v(W.box[b],m+s),j),V(b,tag+m+s,j))
    return fn
mem={}
def B(key,f):
    return lambda: mem.setdefault(key,None) or mem.__setitem__(key,f()) or mem[key]
cases=[]
def add(n,fn,f,conf='main',rb=None,**k):
    c=Case(n,fn,base=lambda: f(True),rbase=lambda: (rb or f)(False),group=k.pop('group',f.__name__ if hasattr(f,'__name__') else n),timeout=500,**k); c.conf=conf; cases.append(c)
for st in (False,True): add(f'ScalarWave, {"step" if st else "rate"}',scalarwave(st),wsw)
for st in (False,True): add(f'testwave, {"step" if st else "rate"}',testwave(st),lambda s: wtw(s,3 if s else 5),conf='alt',group='tw')
w2=lambda s: wk(s,False,{'ScalarOnKerr_sourcetype':'Y22test','BHmass':'0.7'})
w1=lambda s: wk(s,True)
for pd in ('psidot','ScheelsPi'):
    for st in (False,True): add(f'ScalarOnKerr, {pd}, {"step" if st else "rate"}',kerr2(st,pd),w2,group='k2')
for st in (False,True): add(f'ScalarOnKerr first order, {"step" if st else "rate"}',kerr1(st),w1,group='k1',real=1)
add('Kerr background, no spin',background(False),w2,group='k2',real=2); add('Kerr background, spin',background(True),w2,group='k2',real=2)
for cs,n in (('Cartesian',(4,3,5)),('SphericalDF',(4,3,3)),('compactSphericalDF',(3,3,4)),('Spherical',(3,4,3)),('Spherical2',(3,3,3)),('Spherical3',(4,3,3))):
    f=lambda s,cs=cs,n=n: wrad(s,cs,n)
    real=3 if cs in ('Cartesian','SphericalDF') else 0
    add(f'radiative, {cs}',radiative(),f,group='rad'+cs,real=real)
    if cs in('Cartesian','SphericalDF'):
        add(f'radiative, {cs}, constant variable',radiative(const='psi'),f,group='rad'+cs,real=real)
        add(f'radiative, {cs}, constant variable by full name',radiative(const='alpha_r'),f,group='rad'+cs,real=real)
        add(f'radiative_analytic, {cs}',radiative('radiative_analytic',times=(0.,.5)),f,group='rad'+cs,real=real)
# ------------------------------------------------------------------ the effective source of a scalar charge on a circular orbit
import ctypes, itertools
def gptr(W,name,k=0):
    p=W.M.glob(name,W.M.prog.globs[name][0]); return type(p)(p.o,p.f+8*k)
def gset(W,name,v,k=0):
    if hasattr(W,'M'): W.M.store(gptr(W,name,k),T.lift(v),8)
    else: (ctypes.c_double*(k+1)).in_dll(W.lib,name)[k]=float(v)
def gget(W,name,k=0):
    return W.M.load(gptr(W,name,k),8,'d') if hasattr(W,'M') else (ctypes.c_double*(k+1)).in_dll(W.lib,name)[k]
R4=range(4)
XC=('ts','r','th','ph'); XR=((1.,2.),(7.,12.),(.4,1.2),(.3,1.4))
def point(ctx,shift=0.):
    v=[ctx.var(n,lo+shift,hi+shift) if n=='ts' else ctx.var(n,lo,hi) for n,(lo,hi) in zip(XC,XR)]
    return v if ctx.sym else [ctx.num(x) for x in v]
def thzpars(ctx,orbit=False):
    W=ctx.W; M=ctx.var('M',.4,1.); R=ctx.var('R',6.5,9.); Om=ctx.var('Om',.02,.3); Od=ctx.var('Od',.02,.3)
    v=dict(M=M,R=R,Omega=Om,Omegad=Od) if ctx.sym else {k:ctx.num(x) for k,x in dict(M=M,R=R,Omega=Om,Omegad=Od).items()}
    if orbit:
        if ctx.sym: v['Omega']=T.sqrt(M/(R*R*R)); v['Omegad']=v['Omega']*T.sqrt(T.ONE-M*3/R)
        else: v['Omega']=math.sqrt(v['M']/v['R']**3); v['Omegad']=v['Omega']*math.sqrt(1-3*v['M']/v['R'])
    for k,x in v.items(): gset(W,'ian_'+k,x)
    return v
def stencil(f,x,h=1e-3):
    """first derivatives of the vector function f by central differences"""
    out=[]
    for d in R4:
        def at(t): y=list(x); y[d]+=t*h; return f(*y)
        a,b,c,e=at(1),at(-1),at(2),at(-2); out.append([(8*(p-q)-(r_-s_))/(12*h) for p,q,r_,s_ in zip(a,b,c,e)])
    return out
def thz(ctx):
    """the derivative arrays of the THZ coordinates are the first and second derivatives of the coordinates"""
    W=ctx.W; thzpars(ctx); x=point(ctx); ranges(ctx); N=('x','y','z')
    def run(*y): W.call('eval_THZ',*y,ret='v')
    run(*x); val={n:gget(W,'ian_'+n) for n in N}; D={n:[gget(W,'D'+n,i) for i in R4] for n in N}; DD={n:[gget(W,'DD'+n,k) for k in range(16)] for n in N}
    if ctx.sym:
        for n in N:
            for i in R4:
                ctx.eq(f'd{n}/d{XC[i]}',D[n][i],T.diff(val[n],XC[i]))
                for j in R4: ctx.eq(f'd2{n}/d{XC[i]}d{XC[j]}',DD[n][4*i+j],T.diff(T.lift(D[n][i]),XC[j]))
    else:
        def f(*y): run(*y); return [gget(W,'ian_'+n) for n in N]+[gget(W,'D'+n,i) for n in N for i in R4]
        w=stencil(f,x)
        for a,n in enumerate(N):
            for i in R4:
                ctx.eq(f'd{n}/d{XC[i]}',D[n][i],w[i][a],tol=1e-7,scale=1+abs(w[i][a]))
                for j in R4: q=w[j][3+4*a+i]; ctx.eq(f'd2{n}/d{XC[i]}d{XC[j]}',DD[n][4*i+j],q,tol=1e-6,scale=1+abs(q))
def thzframe(ctx):
    """on the orbit the THZ coordinates vanish and are a normal frame: g^ab x^i_a x^j_b = delta^ij with vanishing derivatives
    within the spatial block, at every time"""
    W=ctx.W; p=thzpars(ctx,True); x=point(ctx); ranges(ctx); N=('x','y','z')
    W.call('eval_THZ',*x,ret='v'); W.call('eval_g',*x,ret='v')
    D={n:[gget(W,'D'+n,i) for i in R4] for n in N}; G=[gget(W,'g_inv',5*i) for i in R4]; val=[gget(W,'ian_'+n) for n in N]
    if not ctx.sym: return
    om=p['Omega']; on_=lambda e: T.subst([T.lift(e)],{'r':T.var('R'),'th':T.PI/2,'ph':om*T.var('ts')})[0]
    for n,v in zip(N,val): ctx.eq(f'{n} on the orbit',on_(v),0)
    for a,b in itertools.combinations_with_replacement(range(3),2):
        h=sm(T.lift(G[i])*T.lift(D[N[a]][i])*T.lift(D[N[b]][i]) for i in R4)
        ctx.eq(f'g({N[a]},{N[b]})',on_(h),1 if a==b else 0)
        for i in R4: ctx.eq(f'dg({N[a]},{N[b]})/d{XC[i]}',on_(T.diff(h,XC[i])),0)
def metric(ctx):
    W=ctx.W; p=thzpars(ctx); x=point(ctx); ranges(ctx); W.call('eval_g',*x,ret='v')
    g=[[gget(W,'g',4*i+j) for j in R4] for i in R4]; gi=[[gget(W,'g_inv',4*i+j) for j in R4] for i in R4]; M,r,th=p['M'],x[1],x[2]; S=T.sin(th) if ctx.sym else math.sin(th)
    want=[-(1-2*M/r),1/(1-2*M/r),r*r,r*r*S*S]
    for i in R4:
        for j in R4:
            ctx.eq(f'g {i}{j}',g[i][j],want[i] if i==j else 0,tol=1e-12); ctx.eq(f'g ginv {i}{j}',sm(g[i][k]*gi[k][j] for k in R4),1 if i==j else 0,tol=1e-12)
    det=gget(W,'detg'); ctx.eq('determinant',det*det,-(want[0]*want[1]*want[2]*want[3]),tol=1e-9,scale=1e3)
    if ctx.sym:
        for i in R4: ctx.eq(f'd detg/d{XC[i]}',gget(W,'Ddetg',i),T.diff(T.lift(det),XC[i])); ctx.eq(f'div ginv {i}',gget(W,'div_g_inv',i),sm(T.diff(T.lift(gi[j][i]),XC[j]) for j in R4))
    else:
        Dd=[gget(W,'Ddetg',i) for i in R4]; dv=[gget(W,'div_g_inv',i) for i in R4]
        def f(*y): W.call('eval_g',*y,ret='v'); return [gget(W,'detg')]+[gget(W,'g_inv',k) for k in range(16)]
        w=stencil(f,x)
        for i in R4: ctx.eq(f'd detg/d{XC[i]}',Dd[i],w[i][0],tol=1e-6,scale=100); ctx.eq(f'div ginv {i}',dv[i],sum(w[j][1+4*j+i] for j in R4),tol=1e-7,scale=1.)
def fresh(W,*names):
    """callees by contract: they leave arbitrary values in the globals they set"""
    for n in names: W.M.stubs[res(n)]=lambda M,*a: None
def singular(ctx):
    """Psi=Q/rho and its derivatives, for every coordinate map with derivatives Dx, DDx"""
    W=ctx.W; x=point(ctx); Q=ctx.var('Q',.5,2.); gset(W,'ian_Q',Q if ctx.sym else ctx.num(Q))
    if ctx.sym:
        fresh(W,'eval_THZ','eval_g'); N=('x','y','z'); c={n:ctx.var('c'+n,.2,1.) for n in N}; ranges(ctx)
        D={n:[T.var(f'D{n}{i}') for i in R4] for n in N}; DD={n:[T.var(f'DD{n}{min(i,j)}{max(i,j)}') for i in R4 for j in R4] for n in N}
        for n in N:
            gset(W,'ian_'+n,c[n])
            for i in R4: gset(W,'D'+n,D[n][i],i)
            for k in range(16): gset(W,'DD'+n,DD[n][k],k)
        W.call('eval_singular',*x,ret='v'); P=T.lift(gget(W,'ian_Psi')); rho=T.sqrt(sm(c[n]*c[n] for n in N)); ctx.eq('Psi',P,Q/rho)
        for i in R4:
            ctx.eq(f'dPsi {i}',gget(W,'DPsi',i),sm(T.diff(P,'c'+n)*D[n][i] for n in N))
            for j in R4: ctx.eq(f'd2Psi {i}{j}',gget(W,'DDPsi',4*i+j),sm(T.diff(T.diff(P,'c'+n),'c'+m)*D[n][i]*D[m][j] for n in N for m in N)+sm(T.diff(P,'c'+n)*DD[n][4*i+j] for n in N))
    else:
        thzpars(ctx,True); run=lambda *y: (W.call('eval_THZ',*y,ret='v'),W.call('eval_singular',*y,ret='v')); run(*x); D=[gget(W,'DPsi',i) for i in R4]; DD=[gget(W,'DDPsi',k) for k in range(16)]
        def f(*y): run(*y); return [gget(W,'ian_Psi')]+[gget(W,'DPsi',i) for i in R4]
        w=stencil(f,x)
        for i in R4:
            ctx.eq(f'dPsi {i}',D[i],w[i][0],tol=1e-6,scale=1.)
            for j in R4: ctx.eq(f'd2Psi {i}{j}',DD[4*i+j],w[j][1+i],tol=1e-5,scale=1.)
def window(n,use):
    def fn(ctx):
        W=ctx.W; x=point(ctx); w=ctx.var('w',2.,4.); p=thzpars(ctx,True)
        gset(W,'ian_width',w if ctx.sym else ctx.num(w)); gset(W,'ian_n',n)
        if ctx.sym: fresh(W,'eval_THZ','eval_singular')
        ranges(ctx); W.call('eval_window',*x,ret='v'); V=gget(W,'ian_W'); D=[gget(W,'DW',i) for i in R4]; DD=[gget(W,'DDW',k) for k in range(16)]
        if not use: v=T.ONE if ctx.sym else 1.
        elif ctx.sym:
            rl=(x[1]-p['R'])/w; q=T.ONE
            for _ in range(n): q=q*rl
            v=T.exp(T.neg(q))
        else: v=math.exp(-((x[1]-p['R'])/ctx.num(w))**n)
        ctx.eq('W',V,v,tol=1e-12)
        if ctx.sym:
            for i in R4:
                ctx.eq(f'dW {i}',D[i],T.diff(T.lift(v),XC[i]))
                for j in R4: ctx.eq(f'd2W {i}{j}',DD[4*i+j],T.diff(T.diff(T.lift(v),XC[i]),XC[j]))
        else:
            def f(*y): W.call('eval_window',*y,ret='v'); return [gget(W,'ian_W')]+[gget(W,'DW',i) for i in R4]
            q=stencil(f,x)
            for i in R4:
                ctx.eq(f'dW {i}',D[i],q[i][0],tol=1e-6,scale=1.)
                for j in R4: ctx.eq(f'd2W {i}{j}',DD[4*i+j],q[j][1+i],tol=1e-5,scale=1.)
    return fn
def box(where):
  def fn(ctx):
    """the source is the wave operator on the product: (1/s) d_i (s g^ij d_j (W Psi)), s=sqrt(-det g), all factors at one event"""
    W=ctx.W; x=point(ctx); p=thzpars(ctx,not ctx.sym)
    if not ctx.sym:
        gset(W,'ian_width',3.); gset(W,'ian_n',8); g=W.call('SourceInSchwarzschild',*x,ret='d'); h=1e-2
        def f(d,t):
            y=list(x); y[d]+=t*h
            for n in ('eval_THZ','eval_singular','eval_window'): W.call(n,*y,ret='v')
            return gget(W,'ian_W')*gget(W,'ian_Psi')
        f0=f(0,0); w=0.; M,r,th=p['M'],x[1],x[2]; gi=[-1/(1-2*M/r),1-2*M/r,1/r**2,1/(r*math.sin(th))**2]; c=[0,2/r-2*M/r**2,math.cos(th)/math.sin(th)/r**2,0]
        for d in R4:
            q={t:f(d,t) for t in (-2,-1,1,2)}; w+=gi[d]*(-q[2]+16*q[1]-30*f0+16*q[-1]-q[-2])/12/h/h+c[d]*(8*(q[1]-q[-1])-(q[2]-q[-2]))/12/h
        ctx.eq('source',g,w,tol=1e-4,scale=1e-2+abs(w)); return
    last={}
    for n in ('eval_THZ','eval_singular','eval_window','eval_g'):
        def stub(M,*a,n=n):
            if n=='eval_singular': ctx.true('the singular field is evaluated where the coordinates are',last.get('eval_THZ')==[T.lift(z).id for z in a])
            last[n]=[T.lift(z).id for z in a]; keep.extend(a)
        keep=[]; W.M.stubs[res(n)]=stub
    for n in ('x','y','z'): gset(W,'ian_'+n,ctx.var('c'+n,*((1.,2.) if where!='near' else (.0005,.001))))
    A=lambda nm,m: [T.var(f'{nm}{k}') for k in range(m)]
    sym4=lambda nm: [T.var(f'{nm}{min(i,j)}{max(i,j)}') for i in R4 for j in R4]
    vals={'ian_Psi':[T.var('P')],'ian_W':[T.var('W')],'DPsi':A('P_',4),'DW':A('W_',4),'DDPsi':sym4('P_'),'DDW':sym4('W_'),'detg':[ctx.var('s',1.,2.)],'Ddetg':A('s_',4),'g_inv':sym4('G'),'div_g_inv':A('dG',4)}
    for nm,v in vals.items():
        for k,z in enumerate(v): gset(W,nm,z,k)
    if where=='axis': x[2]=T.ZERO
    ranges(ctx); g=W.call('SourceInSchwarzschild',*x,ret='d'); P,V=vals['ian_Psi'][0],vals['ian_W'][0]; d,Dw=vals['DPsi'],vals['DW']
    f_=[V*d[i]+P*Dw[i] for i in R4]; f2=lambda i,j: V*vals['DDPsi'][4*i+j]+Dw[i]*d[j]+d[i]*Dw[j]+P*vals['DDW'][4*i+j]; G=lambda i,j: vals['g_inv'][4*i+j]
    w=sm(vals['Ddetg'][i]/vals['detg'][0]*G(i,j)*f_[j] for i in R4 for j in R4)+sm(vals['div_g_inv'][j]*f_[j] for j in R4)+sm(G(i,j)*f2(i,j) for i in R4 for j in R4)
    ctx.eq('source',g,w); ctx.true('one event',len(last)==4 and len({tuple(v) for v in last.values()})==1)
    if where=='far': ctx.true('the given event',last['eval_g']==[T.lift(z).id for z in x])
  return fn
def kstosch(sx,sy,sz):
    """Kerr-Schild arguments: the source is minus the operator at the same event in Schwarzschild coordinates"""
    def fn(ctx):
        W=ctx.W; p=thzpars(ctx); rg=lambda n,s: ctx.var(n,3.,5.) if s>0 else ctx.var(n,-5.,-3.) if s<0 else T.ZERO
        t=ctx.var('t',1.,2.); X=[rg('X',sx),rg('Y',sy),rg('Z',sz)]
        if not ctx.sym: return
        seen=[]
        W.M.stubs[res('eval_source')]=lambda M,*a: seen.append(a) or gset(W,'Del2Psi',T.var('S'))
        D=dict(ctx.dom); ranges(ctx); o=W.M.oracle
        mid={n:(lo+hi)/2 for n,(lo,hi) in D.items()}
        def orc(M,c):                                  # the code asserts that its angles reproduce the point (proved below): decided at one point
            v=o(M,c) if o else None
            if v is not None or c.op!='cmp' or 'fabs' not in T.show(c): return v
            x,y=[T.evalf(T.lift(q),mid) for q in c.a[1:3]]
            if abs(x-y)<1e-14: return None
            return {'lt':x<y,'le':x<=y,'gt':x>y,'ge':x>=y,'eq':x==y,'ne':x!=y}.get(c.a[0].lstrip('ou'))
        W.M.oracle=orc
        ctx.eq('source',W.call('DV_SourceInKerrSchild',t,*X,ret='d'),T.neg(T.var('S'))); ctx.true('one evaluation',len(seen)==1); ts,r,th,ph=seen[0]
        rr=T.sqrt(sm(q*q for q in X)); ctx.eq('r',r,rr); ctx.eq('ts',ts,t-p['M']*2*T.fn('log',rr/(p['M']*2)-1))
        for n,a,b in (('x',rr*T.sin(th)*T.cos(ph),X[0]),('y',rr*T.sin(th)*T.sin(ph),X[1]),('z',rr*T.cos(th),X[2])): ctx.eq(n,a,b)
    return fn
def orbit(ctx):
    """the charge moves on the circular geodesic of the configured radius around the configured mass, also after start-up"""
    W=ctx.W; M=.7; X=[T.const(3),T.const(4),T.const(5)] if ctx.sym else [3.,4.,5.]
    z=lambda v: T.const(Fr(v)) if ctx.sym else v
    if ctx.sym: W.M.stubs[res('eval_source')]=lambda M,*a: None
    for when in ('first use','after start-up'):
        if when=='first use': W.call('ScalarOnKerr_Source',W.box[0],z(.5),*X,ret='d')
        else: W.call('DV_CircSchwSource_startup',W.g)
        ctx.eq(f'mass {when}',gget(W,'ian_M'),T.const(M) if ctx.sym else M); ctx.eq(f'radius {when}',gget(W,'ian_R'),T.const(M)*10 if ctx.sym else 10*M)
        ctx.eq(f'frequency {when}',gget(W,'ian_Omega')*M,.001**.5,tol=1e-12); ctx.eq(f'frame {when}',gget(W,'ian_Omegad')*M,.001**.5*.7**.5,tol=1e-12)
        o=[W.arr([0.]) for _ in R3]; W.call('DV_current_particle_xyzKS',z(2.5),*o,ret='v'); x=[W.get(q,0) for q in o]
        ph=.001**.5/M*(2.5-2*M*math.log(10*M/(2*M)-1)); 
        for n,a,b in zip('xyz',x,(10*M*math.cos(ph),10*M*math.sin(ph),0.)): ctx.eq(f'position {n} {when}',a,b,tol=1e-9,scale=10)
w3=lambda s: wk(s,False,{'ScalarOnKerr_sourcetype':'DV_source','BHmass':'0.7','DV_CircSchwSource_useWindow':'yes'})
w4=lambda s: wk(s,False,{'ScalarOnKerr_sourcetype':'DV_source','BHmass':'0.7','DV_CircSchwSource_useWindow':'no'})
add('effective source: THZ derivatives',thz,w3,group='dv1'); add('effective source: THZ frame on the orbit',thzframe,w3,group='dv2')
add('effective source: metric',metric,w3,group='dv2'); add('effective source: singular field',singular,w3,group='dv2'); 
for q in ('far','near','axis'): add(f'effective source: wave operator, {q}',box(q),w3,group='dv2',real=1 if q=='far' else 0)
for n in (8,3): add(f'effective source: window n={n}',window(n,1),w3,group='dv2')
add('effective source: no window',window(8,0),w4,group='dv3')
for q in itertools.product((1,-1,0),repeat=3):
    if q!=(0,0,0) and (q[0] or q[1]): add(f'effective source: point {q[0]},{q[1]},{q[2]}',kstosch(*q),w3,group='dv4',real=0)
add('effective source: orbit',orbit,w3,group='dv5',real=1)
if __name__=='__main__':
    main('C24',cases,trusted=['derivative helpers and cart_partials by contract (C02)','interface and outer-boundary rows of ScalarOnKerr and filters outside the statement; Y22 test source not under contract'],
      assumptions=['machine arithmetic treated as real arithmetic','radiative boundary: listed grid sizes, arbitrary fields','OpenMP pragmas ignored'])
