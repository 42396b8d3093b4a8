"""C27  Cubed-sphere maps: (lambda,A,B) -> (x,y,z) and the inverse undo each other in both directions, lambda=0,1 land on the
inner and outer surface, the radius and angle helpers agree with the map, the stretched map is the same map with rho, and the
surface functions are looked up in the right plane."""
import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib'); sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from phys import *
import C01
from C01 import base,surf,sext,dS,TYPES,regular
import decide; decide.POSITIVE|={'S0','S1'}          # surface functions are radii
CASES=[]
def case(name,fn,b=None,**k):
    b=b or base('CubedSphere'); CASES.append(Case(name,fn,base=lambda:b(True),rbase=lambda:b(False),real=k.pop('real',2),timeout=200,**k))
DIRS={0:(0,1,2),1:(1,0,2),2:(2,1,0)}          # direction -> (radial axis, axis of A, axis of B)
def setup(ctx,dom,typ,kind,bb=1.):
    """an arbitrary patch: centre, flat-face distances, surface functions"""
    W=ctx.W; bx=W.box[0]; ctx.dom_,ctx.type_=dom,TYPES[typ]
    W.call('vs_setCI',bx,dom,TYPES[typ],0,ret='v')
    xc=[ctx.var(f'xc{d}',-.1,.1) for d in (1,2,3)]
    for d in R3: W.call('vs_setCIxc',bx,d+1,xc[d],ret='v')
    for i in (2,4): W.call('vs_setbbox',bx,i,-bb,ret='v'); W.call('vs_setbbox',bx,i+1,bb,ret='v')
    s=[ctx.var(f'f{i}',(.3,1.8)[i],(.5,3.)[i]) for i in (0,1)]
    for i in (0,1): W.call('vs_setCIs',bx,i,s[i],ret='v')
    if kind=='const': sg=s; 
    else: surf(ctx,kind); sg=None
    return bx,xc,s
def sigma(ctx,bx,si,A,B): return ctx.W.call('CubedSphere_sigma',bx,si,-1,A,B,ret='d')
def curved(typ,si): return typ in (('innerCubedSphere','CubedShell') if si==0 else ('outerCubedSphere','CubedShell'))
def outs(ctx,n): return [ctx.W.arr([0.],name=f'o{i}') for i in range(n)]
def fwd(ctx,f,bx,L,ind=-1):
    o=outs(ctx,3); ctx.W.call(f,bx,ind,*L,*o); return [ctx.W.get(p,0) for p in o]
def inv(ctx,f,bx,x,ind=-1):
    o=outs(ctx,3); st=ctx.W.call(f,bx,ind,*x,*o); return st,[ctx.W.get(p,0) for p in o]
def nv(ctx,x): return x if ctx.sym else ctx.num(x)
def sq(ctx,x): return T.sqrt(x) if ctx.sym else math.sqrt(x)
def roundtrip(dom,typ,kind,stretched=False):
    F,G=('xyz_of_rhoAB_CubSph','rhoAB_of_xyz_CubSph') if stretched else ('xyz_of_lamAB_CubSph','lamAB_of_xyz_CubSph')
    def fn(ctx):
        bx,xc,s=setup(ctx,dom,typ,kind)
        L=[nv(ctx,ctx.var('lam',.1,.9)),nv(ctx,ctx.var('A',-.9,.9)),nv(ctx,ctx.var('B',-.9,.9))]; ranges(ctx,sext); regular(ctx,sext)
        x=fwd(ctx,F,bx,L); st,M=inv(ctx,G,bx,x); ctx.true('inside the patch',st==0)
        for n,g,w in zip(('lam','A','B'),M,L): ctx.eq(f'inverse of the map gives {n} back',g,w,tol=1e-9)
        # surfaces: each end on its sphere of radius sigma or its plane at distance s
        a,b,c=DIRS[dom//2]; pm=2*(dom%2)-1
        for si in (0,1):
            y=fwd(ctx,F,bx,[T.const(si) if ctx.sym else float(si),L[1],L[2]]); r=[y[i]-nv(ctx,xc[i]) for i in R3]
            ctx.eq(f'A=const ray, end {si}',r[b],L[1]*r[a],tol=1e-10); ctx.eq(f'B=const ray, end {si}',r[c],L[2]*r[a],tol=1e-10)
            if curved(typ,si): ctx.eq(f'end {si} on the surface',r[0]*r[0]+r[1]*r[1]+r[2]*r[2],(lambda z:z*z)(sigma(ctx,bx,si,L[1],L[2])),tol=1e-9)
            else: ctx.eq(f'end {si} on the plane',r[a],pm*nv(ctx,s[si]),tol=1e-10)
            if not ctx.sym: ctx.true('on the right side',r[a]*pm>0)
        # radius helper
        if not stretched:
            o=outs(ctx,2); ctx.W.call('r_dr_dlam_of_lamAB_CubSph',bx,-1,*L,*o); r,dr=[ctx.W.get(p,0) for p in o]; d=[x[i]-nv(ctx,xc[i]) for i in R3]
            if ctx.sym:
                n=T.sqrt(d[0]*d[0]+d[1]*d[1]+d[2]*d[2]); ctx.eq('r is the distance from the centre',r,n); ctx.eq('dr/dlam',dr,T.diff(r,'lam',dfun=dS))
            else: ctx.eq('r is the distance from the centre',r,math.sqrt(sum(z*z for z in d)),tol=1e-10)
    return fn
def back(dom,typ,kind,stretched=False):
    """every point of the sector: the inverse followed by the map gives the point back"""
    F,G=('xyz_of_rhoAB_CubSph','rhoAB_of_xyz_CubSph') if stretched else ('xyz_of_lamAB_CubSph','lamAB_of_xyz_CubSph')
    def fn(ctx):
        bx,xc,s=setup(ctx,dom,typ,kind); a,b,c=DIRS[dom//2]; pm=2*(dom%2)-1; rg=[None]*3
        rg[a]=(2.,2.5) if pm>0 else (-2.5,-2.); rg[b]=rg[c]=(-1.6,1.6)
        x=[nv(ctx,ctx.var('xyz'[i],*rg[i])) for i in R3]; ranges(ctx,sext)
        st,L=inv(ctx,G,bx,x); ctx.true('inside the patch',st==0); y=fwd(ctx,F,bx,L)
        for n,g,w in zip('xyz',y,x): ctx.eq(f'map of the inverse gives {n} back',g,w,tol=1e-9)
    return fn
def outside(dom,typ,kind,which,ind):
    """points beyond the A or B range of the box are reported: -1, and -2 where sigma was interpolated"""
    def fn(ctx):
        bx,xc,s=setup(ctx,dom,typ,kind); a,b,c=DIRS[dom//2]; pm=2*(dom%2)-1; rg=[None]*3; v,sgn=which
        rg[a]=(2.,2.5) if pm>0 else (-2.5,-2.); rg[b]=rg[c]=(-1.6,1.6); k=b if v=='A' else c; rg[k]=(3.,4.) if sgn*pm>0 else (-4.,-3.)
        x=[nv(ctx,ctx.var('xyz'[i],*rg[i])) for i in R3]; ranges(ctx,sext)
        st,L=inv(ctx,'lamAB_of_xyz_CubSph',bx,x,ind); want=-2 if ind<0 and typ!='PyramidFrustum' else -1
        ctx.true('reported as outside',st==want,lambda: f'returned {st}')
    return fn
for dom in range(6):
    for typ in TYPES:
        for kind in (('const','surface') if typ!='PyramidFrustum' else ('const',)):
            case(f'dom {dom} {typ} {kind}: inverse after map',roundtrip(dom,typ,kind),group='cs'); case(f'dom {dom} {typ} {kind}: map after inverse',back(dom,typ,kind),group='cs')
    case(f'stretched dom {dom}: inverse after map',roundtrip(dom,'CubedShell','surface',True),base('stretchedCubedSphere'),group='scs')
    case(f'stretched dom {dom}: map after inverse',back(dom,'CubedShell','surface',True),base('stretchedCubedSphere'),group='scs')
    for w in (('A',1),('A',-1),('B',1),('B',-1)):
        for typ in TYPES: case(f'dom {dom} {typ} outside {w[0]}{"+-"[w[1]<0]}',outside(dom,typ,'const',w,-1),group='cs',real=1)
        case(f'dom {dom} CubedShell outside {w[0]}{"+-"[w[1]<0]} at a grid point',outside(dom,'CubedShell','const',w,0),group='cs',real=1)
# ------------------------------------------------------------------ angles
def angles(dom,q):
    def fn(ctx):
        bx,xc,s=setup(ctx,dom,'CubedShell','const'); a,b,c=DIRS[dom//2]; pm=2*(dom%2)-1
        A=nv(ctx,ctx.var('A',*((.1,.9) if q[0]>0 else (-.9,-.1)))); B=nv(ctx,ctx.var('B',*((.1,.9) if q[1]>0 else (-.9,-.1)))); ranges(ctx)
        o=outs(ctx,2); ctx.W.call('ThetaPhi_of_AB_CubSph',bx,A,B,*o); th,ph=[ctx.W.get(p,0) for p in o]
        o=outs(ctx,6); ctx.W.call('ThetaPhi_dThetaPhidAB_of_AB_CubSph',bx,A,B,*o); t2,p2,tA,tB,pA,pB=[ctx.W.get(p,0) for p in o]
        ctx.eq('same Theta',t2,th,tol=1e-12); ctx.eq('same Phi',p2,ph,tol=1e-12)
        n=[None]*3; n[a]=pm; n[b]=pm*A; n[c]=pm*B; R=sq(ctx,1+A*A+B*B)
        S,Co=(T.sin,T.cos) if ctx.sym else (math.sin,math.cos)
        ctx.eq('x direction',S(th)*Co(ph)*R,n[0],tol=1e-10); ctx.eq('y direction',S(th)*S(ph)*R,n[1],tol=1e-10); ctx.eq('z direction',Co(th)*R,n[2],tol=1e-10)
        if ctx.sym:
            for l,g,t,v in (('dTheta/dA',tA,th,'A'),('dTheta/dB',tB,th,'B'),('dPhi/dA',pA,ph,'A'),('dPhi/dB',pB,ph,'B')): ctx.eq(l,g,T.diff(T.lift(t),v))
        else:
            ctx.true('angles in range',-1e-12<=th<=math.pi+1e-12 and -1e-12<=ph<=2*math.pi+1e-12); h=1e-4
            def at(A,B): o=outs(ctx,2); ctx.W.call('ThetaPhi_of_AB_CubSph',bx,A,B,*o); return [ctx.W.get(p,0) for p in o]
            for i,(dA,dB,gt,gp) in enumerate(((h,0,tA,pA),(0,h,tB,pB))):
                u,v=at(A+dA,B+dB),at(A-dA,B-dB)
                for l,g,w in (('Theta',gt,(u[0]-v[0])/2/h),('Phi',gp,(u[1]-v[1])/2/h)): ctx.eq(f'd{l}/d{"AB"[i]}',g,w,tol=1e-6,scale=1+abs(w))
    return fn
for dom in range(6):
    for q in ((1,1),(1,-1),(-1,1),(-1,-1)): case(f'angles dom {dom} quadrant {q[0]},{q[1]}',angles(dom,q),group='cs')
# ------------------------------------------------------------------ radial helpers
def radial(ctx):
    s0=nv(ctx,ctx.var('s0',.5,1.)); s1=nv(ctx,ctx.var('s1',1.5,9.)); l=nv(ctx,ctx.var('lam',.05,.95)); ranges(ctx); W=ctx.W
    f=lambda n,x: W.call(n,x,s0,s1,ret='d')
    r=f('r_of_lam_sig0sig1',l); ctx.eq('lam(r(lam))',f('lam_of_r_sig0sig1',r),l,tol=1e-10); ctx.eq('dr/dlam dlam/dr',f('dr_dlam_of_lam_sig0sig1',l)*f('dlam_dr_of_lam_sig0sig1',r),1,tol=1e-10)
    rho=f('rho_of_lam_sig0sig1',l); ctx.eq('lam(rho(lam))',f('lam_of_rho_sig0sig1',rho),l,tol=1e-9)
    ctx.eq('rho is linear in 1/r',rho*(s1-s0)*r,s1*(r-s0),tol=1e-9)
    if ctx.sym:
        ctx.eq('dr/dlam',f('dr_dlam_of_lam_sig0sig1',l),T.diff(r,'lam')); ctx.eq('drho/dlam',f('drho_dlam_of_rho_sig0sig1',rho),T.diff(rho,'lam'))
        for e in (0,1): ctx.eq(f'rho({e})',f('rho_of_lam_sig0sig1',T.const(e)),e)
    else:
        h=1e-5; w=(f('rho_of_lam_sig0sig1',l+h)-f('rho_of_lam_sig0sig1',l-h))/2/h; ctx.eq('drho/dlam',f('drho_dlam_of_rho_sig0sig1',rho),w,tol=1e-6,scale=1+abs(w))
case('radius and stretching',radial,group='cs',real=4)
# ------------------------------------------------------------------ surface look-up at grid points
def lookup(ctx):
    """at a grid point the surface functions are the stored values at i=0 / i=n1-1 of the same (j,k)"""
    W=ctx.W; bx=W.box[0]; n=(3,4,5); v=[W.ind(x) for x in ('x','y','z')]
    for i,x in enumerate(v): W.call('enablevar',W.g,x,ret='v')
    for f in (0,1): W.call('vs_setCIi',bx,f,v[0],v[0],1,v[1],v[2],ret='v')
    if ctx.sym:
        for d in v:
            for k in range(60): W.set(W.v(bx,d),k,T.var(f'u{d}_{k}'))
        at=lambda d,k: T.var(f'u{d}_{k}')
    else:
        for d in v:
            for k in range(60): W.set(W.v(bx,d),k,100.*d+k)
        at=lambda d,k: 100.*d+k
    for k in range(60):
        i,j,kk=k%3,k//3%4,k//12
        for si in (0,1):
            q=(2 if si else 0)+3*(j+4*kk)
            for nm,d in zip(('CubedSphere_sigma','CubedSphere_dsigma_dA','CubedSphere_dsigma_dB'),v): ctx.eq(f'{nm} surface {si} at point {k}',W.call(nm,bx,si,k,0.,0.,ret='d') if not ctx.sym else W.call(nm,bx,si,k,T.ZERO,T.ZERO,ret='d'),at(d,q))
    for f in (0,1): W.call('vs_setCIi',bx,f,-1,-1,-1,-1,-1,ret='v')
    s=ctx.var('s',1.,2.); W.call('vs_setCIs',bx,1,s,ret='v'); ctx.eq('constant surface',W.call('CubedSphere_sigma',bx,1,7,T.ZERO if ctx.sym else 0.,T.ZERO if ctx.sym else 0.,ret='d'),nv(ctx,s)); ctx.eq('its derivative',W.call('CubedSphere_dsigma_dA',bx,1,7,T.ZERO if ctx.sym else 0.,T.ZERO if ctx.sym else 0.,ret='d'),0)
case('surface look-up at grid points, n=3x4x5',lookup,base('CubedSphere',n=(3,4,5)),group='lk',real=1)
# ------------------------------------------------------------------ surface functions expanded in spherical harmonics
from C22 import ylm,evalL,angles as trig,FP4
def glob(W,name,v):
    if hasattr(W,'M'): W.M.store(W.M.glob(name,W.M.prog.globs[name][0]),v,4)
    else: W.glob(name,'i').value=v
def on(W,*names):
    ix=[W.ind(x) for x in names]
    for i in ix: W.call('enablevar',W.g,i,ret='v')
    return ix
CO='Coordinates_CubedSphere_sigma01_co'
def lms(L): return [(l,m) for l in range(L+1) for m in range(l+1)]
def real_sum(cf,c,sn,ph):
    """the real function with these coefficients: sum_l c_l0 Y_l0 + 2 Re sum_m>0 c_lm Y_lm"""
    f=T.ZERO
    for (l,m),(R,I) in cf.items():
        q,d=ylm(l,m); t=FP4(q)*evalL(d,c,sn); f=f+t*(R if m==0 else (R*T.cos(ph*m)-I*T.sin(ph*m))*2)
    return f
def expansion(Lm,si,dom):
    """sigma(A,B) is the expansion at Theta(A,B),Phi(A,B), and the derivative functions are its exact derivatives"""
    def fn(ctx):
        W=ctx.W; bx=W.box[0]; W.call('vs_setCI',bx,dom,TYPES['CubedShell'],0,ret='v'); ico,=on(W,CO); N=48
        glob(W,'lmax',Lm); glob(W,'isigma01_co',ico); p=W.v(bx,ico); cf={}
        for k in range(N): W.set(p,k,T.const(1000+k) if ctx.sym else 1000.+k)          # everything else in the array is foreign
        for i,(l,m) in enumerate(lms(Lm)):
            cf[l,m]=(nv(ctx,ctx.var(f'r{l}{m}',-1,1)),nv(ctx,ctx.var(f'i{l}{m}',-1,1)) if m else (T.ZERO if ctx.sym else 0.))
            for j in (0,1): W.set(p,si*N//2+2*i+j,cf[l,m][j])
        A=nv(ctx,ctx.var('A',.1,.9)); B=nv(ctx,ctx.var('B',.1,.9))
        f=lambda n,A=A,B=B: W.call(n,bx,si,A,B,ret='d')
        if ctx.sym:
            th,ph,c,sn=trig(ctx); ranges(ctx); D=[T.var(x) for x in ('tA','tB','pA','pB')]
            def two(M,b,a,bb,t,q,*d):
                if a is not A or bb is not B: raise AssertionError('angles of another point')
                for r,v in zip((t,q)+d,[th,ph]+D): M.store(r,v,8)
                return 0
            W.M.stubs[res('ThetaPhi_of_AB_CubSph')]=W.M.stubs[res('ThetaPhi_dThetaPhidAB_of_AB_CubSph')]=two
            w=real_sum(cf,c,sn,ph); wt,wp=T.diff(w,'h')/T.const(2),T.diff(w,'phi')
            ctx.eq('value',f('FSurf_CubSph_sigma01_func'),w)
            for j,x in enumerate('AB'): ctx.eq('d/d'+x,f(f'FSurf_CubSph_dsigma01_d{x}_func'),wt*D[j]+wp*D[2+j])
        else:
            o=outs(ctx,2); W.call('ThetaPhi_of_AB_CubSph',bx,A,B,*o); th,ph=[T.lift(W.get(q,0)) for q in o]
            cf={k:tuple(T.lift(x) for x in v) for k,v in cf.items()}; ctx.eq('value',f('FSurf_CubSph_sigma01_func'),ctx.num(real_sum(cf,T.cos(th),T.sin(th),ph)),tol=1e-11,scale=10); h=1e-4
            for x,a,b in (('A',h,0),('B',0,h)):
                w=(f('FSurf_CubSph_sigma01_func',A+a,B+b)-f('FSurf_CubSph_sigma01_func',A-a,B-b))/2/h; ctx.eq('d/d'+x,f(f'FSurf_CubSph_dsigma01_d{x}_func'),w,tol=1e-5,scale=10)
        for k in range(N):
            if not si*N//2<=k<si*N//2+2*len(cf): ctx.eq(f'rest of coefficients {k}',W.get(p,k),1000+k)
    return fn
for Lm in (1,2,3):
    for si in (0,1): case(f'surface expansion lmax={Lm} surface {si}',expansion(Lm,si,(0,3,4,1,2,5)[2*Lm-2+si]),base('CubedSphere',n=(3,4,4)),group='ylm')
def integrals(Lm,s,im):
    """the array holds the integrals of conj(Y_lm) f sin(Theta) |d(Theta,Phi)/d(A,B)| over the surface i=s"""
    def fn(ctx):
        W=ctx.W; bx=W.box[0]; n1,n2,n3=3,4,4; N=48; W.call('vs_setCI',bx,2,TYPES['CubedShell'],0,ret='v'); ico,iR,iI=on(W,CO,'x','y'); YZ=[W.ind('Y'),W.ind('Z')]
        p=W.v(bx,ico); V=[W.v(bx,v) for v in (iR,iI)]; AB=[W.v(bx,v) for v in YZ]; pt={}; at={}
        q=[[nv(ctx,ctx.var(f'f{c}_{j}_{k}',-1,1)) for j in range(n2) for k in range(n3)] for c in (0,1)]
        for k in range(N): W.set(p,k,T.const(1000+k) if ctx.sym else 1000.+k)
        for k in range(n3):
            for j in range(n2):
                for i in range(n1):
                    for c in (0,1): W.set(V[c],i+n1*(j+n2*k),q[c][j*n3+k] if i==s else (T.const(77) if ctx.sym else 77.))
        r=s*N//2//(n1-1); n=len(lms(Lm)); want={}
        if ctx.sym:
            for k in range(n3):
                for j in range(n2):
                    A,B=T.var(f'A{j}'),T.var(f'B{k}'); pt[j,k]=(T.var(f'th{j}_{k}'),T.var(f'ph{j}_{k}')); at[A.id,B.id]=(j,k)
                    for i in range(n1): W.set(AB[0],i+n1*(j+n2*k),A); W.set(AB[1],i+n1*(j+n2*k),B)
            ij={(j,k):[T.var(f'{x}{j}_{k}') for x in ('tA','tB','pA','pB')] for j in range(n2) for k in range(n3)}
            J={q:T.var('J%d_%d'%q) for q in ij}                      # the jacobian determinant tA pB - tB pA: eliminate pB
            for q_,d in ij.items(): d[3]=(J[q_]+d[1]*d[2])/d[0]
            ctx.dom.update({f'J{j}_{k}':(.1,1.) for j,k in ij})
            def two(M,b,a,bb,t,u,*d):
                jk=at[T.lift(a).id,T.lift(bb).id]
                for r_,v in zip((t,u)+d,list(pt[jk])+ij[jk]): M.store(r_,v,8)
                return 0
            W.M.stubs[res('ThetaPhi_of_AB_CubSph')]=W.M.stubs[res('ThetaPhi_dThetaPhidAB_of_AB_CubSph')]=two
            def tab(M,L,t,u,R,I):
                jk=next(q for q,v in pt.items() if v[0] is t and v[1] is u); assert L==Lm
                for l,m in lms(Lm):
                    for w,x in ((R,'R'),(I,'I')): M.store(w.add(8*(l*(l+1)//2+m)) if hasattr(w,'add') else type(w)(w.o,w.f+8*(l*(l+1)//2+m)),T.var(f'{x}Y{l}_{m}_{jk[0]}_{jk[1]}'),8)
            W.M.stubs[res('set_YlmTabs')]=tab                        # the tables: C22
            wt={jk:T.var('w%d_%d'%jk) for jk in ij}
            def quad(M,b,d,u,U):                                     # the surface quadrature is linear in the integrand: C05
                assert d==1; P=lambda x,i: type(x)(x.o,x.f+8*i)
                out=[sum((wt[j,k]*M.load(P(u,i+n1*(j+n2*k)),8,'d') for j,k in wt),T.ZERO) for i in range(n1)]
                for i in range(n1):
                    for jk in wt: M.store(P(U,i+n1*(jk[0]+n2*jk[1])),out[i],8)
            W.M.stubs[res('spec_2dIntegral')]=quad; ranges(ctx)
            for l,m in lms(Lm):
                w=[T.ZERO,T.ZERO]
                for (j,k),g in wt.items():
                    R,I=T.var(f'RY{l}_{m}_{j}_{k}'),T.var(f'IY{l}_{m}_{j}_{k}'); a=q[0][j*n3+k]; b=q[1][j*n3+k] if im else T.ZERO
                    f=g*T.fn('fabs',J[j,k])*T.sin(pt[j,k][0]); w=[w[0]+f*(R*a+I*b),w[1]+f*(R*b-I*a)]
                want[l,m]=w
        else:
            for l,m in lms(Lm):
                u=[[0.]*N,[0.]*N]
                for jk in range(n2*n3):
                    j,k=jk%n2,jk//n2; A,B=[W.get(x,n1*jk) for x in AB]; o=outs(ctx,6); W.call('ThetaPhi_dThetaPhidAB_of_AB_CubSph',bx,A,B,*o); th,ph,tA,tB,pA,pB=[W.get(x,0) for x in o]
                    c,d=ylm(l,m); t=ctx.num(FP4(c)*evalL(d,T.cos(T.lift(th)),T.sin(T.lift(th)))); y=(t*math.cos(m*ph),t*math.sin(m*ph)); a=q[0][j*n3+k]; b=q[1][j*n3+k] if im else 0.
                    f=abs(tA*pB-tB*pA)*math.sin(th)
                    for i in range(n1): u[0][i+n1*jk]=f*(y[0]*a+y[1]*b); u[1][i+n1*jk]=f*(y[0]*b-y[1]*a)
                w=[]
                for x in u: g=W.arr(x); W.call('spec_2dIntegral',bx,1,g,g,ret='v'); w.append(W.get(g,0))
                want[l,m]=w
        W.call('FSurf_CubSph_get_Ylm_integrals',bx,s,iR,iI if im else -1,Lm,ico)
        for i,k in enumerate(lms(Lm)):
            for j in (0,1): ctx.eq(f'{"RI"[j]} {k[0]} {k[1]}',W.get(p,r+2*i+j),want[k][j],tol=1e-11,scale=10)
        for k in range(N):
            if not r<=k<r+2*n: ctx.eq(f'rest {k}',W.get(p,k),1000+k)
        for k in range(N): ctx.eq(f'data unchanged {k}',W.get(V[0],k),q[0][(k//n1%n2)*n3+k//n1//n2] if k%n1==s else 77)
    return fn
for Lm,s,im in ((1,0,0),(2,2,0),(3,2,1)): case(f'surface integrals lmax={Lm} i={s} {"complex" if im else "real"}',integrals(Lm,s,im),base('CubedSphere',n=(3,4,4)),group='ylmI',real=1)
def sixbase(lmax='1',dF='yes'):
    def mk(sym):
        p=boxpars(6,4); p.update({'Coordinates_set_bfaces':'no','Coordinates_verbose':'no','Coordinates_CubedSphere_sigma01_lmax':lmax,'Coordinates_CubedSphere_use_dFSurfdX':dF})
        for b in range(6):
            p[f'box{b}_Coordinates']='Cartesian'
            for d in range(3): p[f'box{b}_n{d+1}']=str((3,4,4)[d]); p[f'box{b}_min{d+1}']='-0.9'; p[f'box{b}_max{d+1}']='0.9'
        W=mkworld(sym,p); W.call('vs_runfun',W.call('vs_PRE_COORDINATES'),W.g,ret='v'); W.call('init_CoordTransform_And_Derivs',W.g); return W
    return mk
LMAX={'2':2,'sqrt(n2*n3)/4':1,'sqrt(n2*n3)/4+1':2,'sqrt(n2*n3)/2':2,'from_n1':1}           # n1,n2,n3=3,4,4
def six(typ,useF,lm='1',dF='yes'):
    """the surface variables of six patches follow from the defining variable: by expansion (useF) or by copying"""
    def fn(ctx):
        W=ctx.W; n1,n2,n3,N=3,4,4,48; names=('_def','','_co'); S='Coordinates_CubedSphere_'; Lm=LMAX.get(lm,1)
        idef,isg,ico,iA,iB=on(W,S+'sigma01_def',S+'sigma01',CO,S+'dsigma01_dA',S+'dsigma01_dB'); ix,=on(W,'x'); sis=[si for si in (0,1) if curved(typ,si)]
        zero=T.const(5) if ctx.sym else 5.
        for b in range(6):
            bx=W.box[b]; W.call('vs_setCI',bx,b,TYPES[typ],useF,ret='v'); 
            for f in (0,1): W.call('vs_setCIi',bx,f,idef if f in sis else 0,isg if f in sis else 0,0,iA if f in sis else 0,iB if f in sis else 0,ret='v')
            for i in (isg,ico,iA,iB): 
                for k in range(N): W.set(W.v(bx,i),k,T.ZERO if ctx.sym else 0.)
            for k in range(N): W.set(W.v(bx,idef),k,T.var(f'd{b}_{k}') if ctx.sym else 1.+.1*math.sin(3*b+k))
        n=len(lms(Lm)); P=lambda si,i: si*N//2+i; co={}; D=lambda b,k: W.get(W.v(W.box[b],idef),k); plane=[(k%n1==0,k%n1==n1-1) for k in range(N)]
        if ctx.sym:
            ranges(ctx); boxes={str(W.box[b]):b for b in range(6)}
            def integ(M,bx,s,re,im,L,out):
                b=next(b for b in range(6) if W.box[b].o is bx.o and W.box[b].f==bx.f); assert (re,out,L)==(idef,ico,Lm) and im<=0,'arguments of the integrals'
                for i in range(2*n): W.set(W.v(W.box[b],ico),P(1 if s else 0,i),T.var(f'I{1 if s else 0}_{b}_{i}'))
                return 0
            def fun(nm): return lambda M,bx,si,A,B: T.fn(f'{nm}{si}',*[W.get(W.v(W.box[next(b for b in range(6) if W.box[b].o is bx.o and W.box[b].f==bx.f)],ico),P(si,i)) for i in range(2*n)],T.lift(A),T.lift(B))
            W.M.stubs[res('FSurf_CubSph_get_Ylm_integrals')]=integ
            for q in ('sigma01','dsigma01_dA','dsigma01_dB'): W.M.stubs[res(f'FSurf_CubSph_{q}_func')]=fun(q)
            def der(M,bx,d,u,v):
                w=[M.load(type(u)(u.o,u.f+8*k),8,'d') for k in range(N)]
                for k in range(N): M.store(type(v)(v.o,v.f+8*k),T.fn(f'D{d}',*[w[m] for m in range(N) if (m%n1==k%n1)],T.const(k)),8)
            W.M.stubs[res('spec_Deriv1')]=der
            for si in sis:
                for i in range(2*n): co[si,i]=sum((T.var(f'I{si}_{b}_{i}') for b in range(6)),T.ZERO)
        elif useF:
            for si in sis:
                for b in range(6):
                    W.call('FSurf_CubSph_get_Ylm_integrals',W.box[b],si*(n1-1),idef,-1,Lm,ix)
                    for i in range(2*n): co[si,i]=co.get((si,i),0.)+W.get(W.v(W.box[b],ix),P(si,i))
        W.call('init_6CubedSphereBoxes_from_CI_iFS',W.g,0,ret='v')
        for b in range(6):
            bx=W.box[b]; G=lambda i,k: W.get(W.v(bx,i),k); A=[W.get(W.v(bx,W.ind('Y')),k) for k in range(N)]; B=[W.get(W.v(bx,W.ind('Z')),k) for k in range(N)]
            if useF:
                for (si,i),v in co.items(): ctx.eq(f'box {b} coefficient {si} {i}',G(ico,P(si,i)),v,tol=1e-11,scale=10)
            for k in range(N):
                si=next((s for s in sis if plane[k][s]),None)
                if si is None: 
                    ctx.eq(f'box {b} {k} inside',G(isg,k),0); continue
                if useF:
                    val=lambda q: T.fn(f'{q}{si}',*[co[si,i] for i in range(2*n)],T.lift(A[k]),T.lift(B[k])) if ctx.sym else W.call(f'FSurf_CubSph_{q}_func',bx,si,A[k],B[k],ret='d')
                    ctx.eq(f'box {b} {k} sigma',G(isg,k),val('sigma01'),tol=1e-12)
                    if dF=='yes':
                        for x,i in (('A',iA),('B',iB)): ctx.eq(f'box {b} {k} dsigma/d{x}',G(i,k),val('dsigma01_d'+x),tol=1e-12)
                else: ctx.eq(f'box {b} {k} sigma',G(isg,k),D(b,k))
            if not useF or dF=='no':
                if ctx.sym:
                    for d,i in ((2,iA),(3,iB)):
                        for k in range(N):
                            if any(plane[k][s] for s in sis): ctx.eq(f'box {b} {k} derivative {d}',G(i,k),T.fn(f'D{d}',*[G(isg,m) for m in range(N) if m%n1==k%n1],T.const(k)))
                else:
                    o=W.arr([0.]*N)
                    for d,i in ((2,iA),(3,iB)):
                        W.call('spec_Deriv1',bx,d,W.v(bx,isg),o,ret='v')
                        for k in range(N):
                            if any(plane[k][s] for s in sis): ctx.eq(f'box {b} {k} derivative {d}',G(i,k),W.get(o,k),tol=1e-12)
            for k in range(N): ctx.eq(f'box {b} {k} definition unchanged',G(idef,k),T.var(f'd{b}_{k}') if ctx.sym else 1.+.1*math.sin(3*b+k))
    return fn
for typ in ('innerCubedSphere','outerCubedSphere','CubedShell'):
    case(f'six patches {typ} copied',six(typ,0),sixbase(),group='six',real=1)
    case(f'six patches {typ} expanded',six(typ,1),sixbase(),group='six',real=1)
case('six patches expanded, spectral derivatives',six('CubedShell',1,'1','no'),sixbase('1','no'),group='sixn',real=1)
for lm in LMAX: case(f'six patches expanded, lmax {lm}',six('CubedShell',1,lm),sixbase(lm),group='six'+lm,real=1)
if __name__=='__main__': main('C27',CASES,trusted=['libm functions are the real functions of their name'],assumptions=['where the round trip x(X) then X(x) branches on a recomputed A or B, the branch is the one taken at sampled points of -0.9<=A,B<=0.9'])
