"""C01  For every coordinate system a box can be given: the advertised dX^i/dx^m are the inverse of the Jacobian of the
advertised x(X), and the advertised second derivatives are the derivatives of those first derivatives, at every regular
point and for every parameter; the stored coordinate variables hold these values."""
import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib'); sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from phys import *
PI=math.pi
# ------------------------------------------------------------------ worlds
def base(system,pars={},n=(3,3,3),extra=None):
    def mk(sym):
        p=boxpars(1,4); p.update({'box0_Coordinates':system,'Coordinates_set_bfaces':'no','Coordinates_verbose':'no'})
        for d in range(3):
            p[f'box0_n{d+1}']=str(n[d]); p[f'box0_min{d+1}']=['0.2','0.1','0.3'][d]; p[f'box0_max{d+1}']=['0.8','0.7','0.9'][d]
        if system.startswith('CubedSphere') or system.startswith('stretched'): p['box0_Coordinates']='Cartesian'
        p.update(pars); W=mkworld(sym,p,extra=extra)
        if system.startswith(('CubedSphere','stretched')): W.call('Sets','box0_Coordinates',system,ret='v')
        if 'CubedSphere' in system:
            W.call('vs_setCI',W.box[0],0,4,0,ret='v')
            for f in range(6): W.call('vs_setCIs',W.box[0],f,1.5+f,ret='v')
        W.call('vs_runfun',W.call('vs_PRE_COORDINATES'),W.g,ret='v')
        W.call('init_CoordTransform_And_Derivs',W.g)
        return W
    return mk
# ------------------------------------------------------------------ the contract
class Q:
    """queries x(X), dX/dx, ddX/dxdx as the box advertises them"""
    def __init__(s,ctx,ind=0): s.ctx=ctx; s.W=ctx.W; s.bx=ctx.W.box[0]; s.ind=ind
    def x(s,X): return [s.W.call('vs_x_of_X',s.bx,i,s.ind,*X,ret='d') for i in (1,2,3)]
    def dX(s,X): return [[s.W.call('vs_dX_dx',s.bx,i,j,s.ind,*X,ret='d') for j in (1,2,3)] for i in (1,2,3)]
    def has2(s): return [[[bool(s.W.call('vs_has_ddX_dxdx',s.bx,i,j,k)) for k in (1,2,3)] for j in (1,2,3)] for i in (1,2,3)]
    def ddX(s,X):
        h=s.has2()
        return [[[s.W.call('vs_ddX_dxdx',s.bx,i+1,j+1,k+1,s.ind,*X,ret='d') if h[i][j][k] else None for k in R3] for j in R3] for i in R3]
def d_num(f,X,l,h):
    """sixth-order central difference of a list-valued numeric function"""
    def at(t): Y=list(X); Y[l]+=t*h; return f(Y)
    v={t:at(t) for t in (-3,-2,-1,1,2,3)}
    return [(45*(v[1][m]-v[-1][m])-9*(v[2][m]-v[-2][m])+(v[3][m]-v[-3][m]))/(60*h) for m in range(len(v[1]))]
def flat(a): return [z for y in a for z in (flat(y) if isinstance(y,list) else [y])]
def contract(ctx,X,names,q,dfun=None,tol=1e-6,second=True,h=1e-3,expect2=None,only2=False):
    sym=ctx.sym
    if sym:
        x=q.x(X); D=lambda f: [T.diff(f,n,dfun=dfun) for n in names]
        J=[D(e) for e in x]                                  # J[m][l]=dx^m/dX^l
        dX=q.dX(X)
    else:
        Xn=[ctx.num(t) for t in X]
        col=[d_num(q.x,Xn,l,h) for l in R3]; J=[[col[l][m] for l in R3] for m in R3]
        dX=q.dX(Xn)
    if not only2:
        for i in R3:
            for l in R3:
                ctx.eq(f'dX{i+1}/dx . dx/dX{l+1}',sum(dX[i][m]*J[m][l] for m in R3),1 if i==l else 0,tol=tol,scale=1+sum(abs(dX[i][m]*J[m][l]) for m in R3) if not sym else 1.)
    dd=q.ddX(X if sym else Xn)
    if expect2 is not None: ctx.true('which second derivatives are advertised',all((z is not None)==expect2 for z in flat([[[dd[i][j][k] for k in range(j,3)] for j in R3] for i in R3])))
    if not second: return
    if sym: g=[[D(dX[i][j]) for j in R3] for i in R3]
    else:
        cols=[d_num(lambda Y:flat(q.dX(Y)),Xn,l,h) for l in R3]; g=[[[cols[l][3*i+j] for l in R3] for j in R3] for i in R3]
    for i in R3:
        for j in R3:
            for k in range(j,3):
                if dd[i][j][k] is None: continue
                w=sum(g[i][j][l]*dX[l][k] for l in R3)
                ctx.eq(f'ddX{i+1}/dx{j+1}dx{k+1}',dd[i][j][k],w,tol=tol*20,scale=1. if sym else 1+abs(w)+sum(abs(g[i][j][l]*dX[l][k]) for l in R3))
def stored(ctx,X,q):
    """compute_xyz_dXYZdxyz_ddXYZddxyz stores exactly the advertised functions at every point"""
    W=ctx.W; bx=W.box[0]
    for v in ('x','y','z','dXdx','dYdx','dZdx','ddXddxx','ddYddxx','ddZddxx'): W.call('enablevar',W.g,W.ind(v),ret='v')
    h=q.has2(); full=all(h[i][j][k] for i in R3 for j in R3 for k in range(j,3))
    if not full: W.call('vs_setv',bx,W.ind('ddXddxx'),None,ret='v')
    F=Fields(ctx)
    if ctx.sym:
        W.call('compute_xyz_dXYZdxyz_ddXYZddxyz',W.g); ld=lambda n,c=0: F.out(0,W.ind(n)+c,'I')
        X=[T.var(f'b0:{n}@I') for n in 'XYZ']; ind=F.gen()
        pts=[(X,ld,ind)]
    else:
        W.call('compute_xyz_dXYZdxyz_ddXYZddxyz',W.g); nn=W.call('vs_nnodes',bx)
        pts=[]
        for p in ctx.rng.sample(range(nn),4):
            ld=lambda n,c=0,p=p: W.get(W.v(bx,W.ind(n)+c),p)
            pts.append(([ld(n) for n in 'XYZ'],ld,p))
    for X,ld,p in pts:
        q.ind=p; x=q.x(X); d=q.dX(X)
        for m,n in enumerate('xyz'): ctx.eq('stored '+n,ld(n),x[m],tol=1e-12)
        for i,n in enumerate('XYZ'):
            for j in R3: ctx.eq(f'stored d{n}dx{j+1}',ld(f'd{n}dx',j),d[i][j],tol=1e-12,scale=1+abs(d[i][j]) if not ctx.sym else 1.)
        if full:
            dd=q.ddX(X)
            for i,n in enumerate('XYZ'):
                for c,(j,k) in enumerate(P3): ctx.eq(f'stored dd{n}ddx{j+1}{k+1}',ld(f'dd{n}ddxx',c),dd[i][j][k],tol=1e-12,scale=1+abs(dd[i][j][k]) if not ctx.sym else 1.)
# ------------------------------------------------------------------ simple systems
def simple(rng,expect2,par=None,second=True):
    def fn(ctx):
        W=ctx.W
        if par:
            for n,lo,hi in par: dpar(ctx,n,lo,hi)
        names='XYZ'; X=[ctx.var(n,*rng[i]) for i,n in enumerate(names)]
        ranges(ctx); contract(ctx,X,names,Q(ctx),expect2=expect2,second=second)
    return fn
def st(rng,par=()):
    def fn(ctx):
        for n,lo,hi in par: dpar(ctx,n,lo,hi)
        q=Q(ctx); X=[ctx.var('W'+n,*rng[i]) for i,n in enumerate('XYZ')]; ranges(ctx)
        X=X if ctx.sym else [ctx.num(t) for t in X]
        q.x(X); q.dX(X); q.ddX(X)       # functions that cache a parameter have done so
        stored(ctx,None,q)
    return fn
SYS={ # name -> (ranges of X,Y,Z, are second derivatives advertised, double parameters, string pars)
 'Polar':        (((.3,2.),(.1,6.1),(-1.,1.)),False,[]),
 'PolarCE':      (((.3,2.),(.1,.9),(-1.,1.)),False,[]),
 'SphericalDF':  (((.3,2.),(.1,1.2),(.1,6.1)),True,[]),
 'compactSphericalDF':(((.1,.8),(.1,1.2),(.1,6.1)),True,[('compactSphericalDF_r0',.2,2.)]),
 'Spherical':    (((.3,2.),(.2,2.9),(.1,6.1)),True,[]),
 'Spherical2':   (((.3,2.),(.2,.9),(.1,6.1)),True,[]),
 'Spherical3':   (((.3,2.),(.1,.9),(.1,6.1)),True,[('Coordinates_Spherical3_c',.5,3.)]),
 'tan_stretch':  (((.2,1.),(.2,1.),(.2,1.)),True,[('tan_stretch_s',.1,.9)]),
}
CASES=[]
def case(name,fn,b,**k): CASES.append(Case(name,fn,base=lambda:b(True),rbase=lambda:b(False),**k))
for s,(rg,e2,pr) in SYS.items():
    for n2 in ((3,4) if s in('SphericalDF','compactSphericalDF') else (4,)):
        b=base(s,n=(3,n2,4)); g=f'{s}{n2}'
        case(f'{s} n2={n2} jacobian',simple(rg,e2,pr),b,group=g,real=3,timeout=200)
    case(f'{s} stored',st(rg,pr),base(s,n=(3,4,4)),group=s+'s',real=1)
# ------------------------------------------------------------------ cubed spheres
TYPES=dict(PyramidFrustum=1,innerCubedSphere=2,outerCubedSphere=3,CubedShell=4)
DF={'S0':('S0A','S0B'),'S1':('S1A','S1B')}
def dS(x,v,c=None):
    """derivative of the surface functions sigma(A,B): the contract of the callbacks"""
    if c is None: return T.ZERO
    n=x.a[0]; A,B=x.a[1:]
    return sum((T.fn(DF[n][i],A,B)*c[(A,B)[i].id] for i in (0,1)),T.ZERO)
def surf(ctx,kind,iv=1):
    """sigma_0, sigma_1 > 0: two arbitrary functions of (A,B) with their derivatives, or two arbitrary constants"""
    W=ctx.W; bx=W.box[0]
    for f in range(6): W.call('vs_setCIi',bx,f,-1,-1,-1,-1,-1,ret='v')
    if kind=='const':
        s=[ctx.var('s0',.5,1.),ctx.var('s1',1.5,3.)]
        for i in (0,1): W.call('vs_setCIs',bx,i,s[i],ret='v')
        return s
    if ctx.sym:
        def mk(name): return lambda M,b,si,A,B: T.fn(name%si,A,B)
        for k,n in enumerate(('S%d','S%dA','S%dB')): W.M.stubs['vsurf%d'%k]=mk(n)
        import world; fp=[world.FP('vsurf%d'%k) for k in range(3)]
    else:
        from ctypes import CFUNCTYPE,c_double,c_int,c_void_p
        CB=CFUNCTYPE(c_double,c_void_p,c_int,c_double,c_double); c=[[ctx.rng.uniform(-.1,.1) for _ in range(4)] for _ in (0,1)]
        fp=[CB(lambda b,si,A,B:(.7,2.)[si]+c[si][0]*A+c[si][1]*B+c[si][2]*A*B+c[si][3]*A*A),CB(lambda b,si,A,B:c[si][0]+c[si][2]*B+2*c[si][3]*A),CB(lambda b,si,A,B:c[si][1]+c[si][2]*A)]
        ctx.keep=fp
    W.call('vs_setCI',bx,ctx.dom_,ctx.type_,1,ret='v')
    for f in (0,1):
        W.call('vs_setFSurf',bx,f,*fp,ret='v'); W.call('vs_setCIi',bx,f,iv,iv,1,iv,iv,ret='v')
def sext(x):
    """sigma functions are positive, the inner one below the outer one"""
    return {'S0':(.5,1.),'S1':(1.5,3.)}.get(x.a[0]) if isinstance(x,T.Term) and x.op=='f' else None
def cube(dom,typ,kind):
    def fn(ctx):
        W=ctx.W; bx=W.box[0]; ctx.dom_,ctx.type_=dom,TYPES[typ]
        W.call('vs_setCI',bx,dom,TYPES[typ],0,ret='v')
        for d in (1,2,3): W.call('vs_setCIxc',bx,d,ctx.var(f'xc{d}',-1.,1.),ret='v')
        if kind!='const' or typ!='CubedShell':
            for i in (0,1): W.call('vs_setCIs',bx,i,ctx.var(f's{i}',(.5,1.5)[i],(1.,3.)[i]),ret='v')
        surf(ctx,kind)
        X=[ctx.var(n,*r) for n,r in zip('XYZ',((.1,.9),(-.9,.9),(-.9,.9)))]
        ranges(ctx,sext); contract(ctx,X,'XYZ',Q(ctx,ind=-1),dfun=dS,second=False,expect2=False)
    return fn
for dom in range(6):
    for typ in TYPES:
        for kind in (('const','surface') if typ!='PyramidFrustum' else ('const',)):
            case(f'CubedSphere dom={dom} {typ} {kind}',cube(dom,typ,kind),base('CubedSphere'),group='cs',real=2)
    case(f'stretchedCubedSphere dom={dom}',cube(dom,'CubedShell','const'),base('stretchedCubedSphere'),group='scs',real=2)
# ------------------------------------------------------------------ AnsorgNS0..3
SD={'S':('SB','SP'),'SB':('SBB','SBP'),'SP':('SBP','SPP')}
TH=('Abstanh','Argtanh'); TD={}; import decide; decide.POSITIVE.add('Abstanh')
for _n in TH: TD[_n]=(f'd{_n}dx',f'd{_n}dy'); TD[f'd{_n}dx']=(f'dd{_n}dxdx',f'dd{_n}dxdy'); TD[f'd{_n}dy']=(f'dd{_n}dxdy',f'dd{_n}dydy')
def thstubs(M):
    """Abstanh and Argtanh replaced by their contracts (C28): functions of two arguments with the named first and second derivatives"""
    for n in set(TD)|{y for x in TD.values() for y in x}:
        M.stubs[res(n)]=lambda M,x,y,n=n: T.fn(n,T.lift(x),T.lift(y))
def dA(x,v,c=None):
    """derivatives of the arbitrary surface function S(B,phi)"""
    if c is None: return T.ZERO
    n=x.a[0]; return T.fn(TD[n][0],*x.a[1:])*c[x.a[1].id]+T.fn(TD[n][1],*x.a[1:])*c[x.a[2].id] if n in TD else T.fn(SD[n][0],*x.a[1:])*c[x.a[1].id]+T.fn(SD[n][1],*x.a[1:])*c[x.a[2].id]
def sigmas(ctx,sgn):
    """sigma(B,phi)=p0+p1 B+B(1-B) S(B,phi) with an arbitrary S: any smooth surface regular on the axis (B=0,1), with its
    derivatives up to second order: the contract of the six surface callbacks"""
    W=ctx.W; p0=ctx.var('p0',.9,1.1); p1=ctx.var('p1',-.2,.2); 
    if ctx.sym:
        import world
        S=lambda n:(lambda B,P: T.fn(n,B,P))
        f=S('S');fB=S('SB');fP=S('SP');fBB=S('SBB');fBP=S('SBP');fPP=S('SPP'); sg=sgn
    else:
        p0,p1=ctx.num(p0),ctx.num(p1); a,b,c=[ctx.rng.uniform(-.2,.2) for _ in range(3)]; sin,cos=math.sin,math.cos; sg=sgn
        f=lambda B,P:a*cos(P)+b*sin(P)*B+c; fB=lambda B,P:b*sin(P); fP=lambda B,P:-a*sin(P)+b*cos(P)*B
        fBB=lambda B,P:0.; fBP=lambda B,P:b*cos(P); fPP=lambda B,P:-a*cos(P)-b*sin(P)*B
    fs=[lambda B,P: sg*(p0+p1*B+B*(1-B)*f(B,P)),
        lambda B,P: sg*(p1+(1-2*B)*f(B,P)+B*(1-B)*fB(B,P)),
        lambda B,P: sg*(B*(1-B)*fP(B,P)),
        lambda B,P: sg*(-2*f(B,P)+2*(1-2*B)*fB(B,P)+B*(1-B)*fBB(B,P)),
        lambda B,P: sg*((1-2*B)*fP(B,P)+B*(1-B)*fBP(B,P)),
        lambda B,P: sg*(B*(1-B)*fPP(B,P))]
    ctx.keep=[]
    for k in range(6):
        if ctx.sym:
            W.M.stubs['vsig%d'%k]=lambda M,b,i,B,P,k=k: fs[k](T.lift(B),P)
            W.call('vs_setsigma',k,world.FP('vsig%d'%k),ret='v')
        else:
            from ctypes import CFUNCTYPE,c_double,c_int,c_void_p
            cb=CFUNCTYPE(c_double,c_void_p,c_int,c_double,c_double)(lambda b,i,B,P,k=k: fs[k](B,P)); ctx.keep.append(cb)
            W.call('vs_setsigma',k,cb,ret='v')
def argstub(M,x,y):
    x,y=T.lift(x),T.lift(y)
    return T.ZERO if y is T.ZERO and x is T.ZERO else T.atan2(y,x)
def ansorg(dom,version,fold=False,inv=False,hist=False):
    def fn(ctx):
        W=ctx.W; bx=W.box[0]
        dpar(ctx,'Coordinates_AnsorgNS_b',.5,2.); sigmas(ctx,1 if dom<2 else -1)
        if ctx.sym:
            for n in ('Arg','Arg_plus'): W.M.stubs[res(n)]=argstub
            if version=='NAnsorgNS': thstubs(W.M)
        X=[ctx.var(n,*r) for n,r in zip('XYZ',((.1,.85),(1.1,1.85) if fold else (.1,.85),(.2,3.) if fold else (.2,6.)))]
        ranges(ctx,lambda x: (-.3,.3) if isinstance(x,T.Term) and x.op=='f' and x.a[0] in('S','SB','SP') else None)
        regular(ctx)
        q=Q(ctx,ind=-1)
        if hist:      # the answer does not depend on what was asked before
            Y=[X[0],X[1]+hist,X[2]]; Y=Y if ctx.sym else [ctx.num(t) for t in Y]; q.x(Y); q.dX(Y)
        if inv:
            if ctx.sym: x=q.x(X); 
            else: Xn=[ctx.num(t) for t in X]
            for i in R3:
                for l in R3:
                    g=W.call('vs_dx_dX',bx,i+1,l+1,-1,*(X if ctx.sym else Xn),ret='d')
                    w=T.diff(x[i],'XYZ'[l],dfun=dA) if ctx.sym else d_num(q.x,Xn,l,1e-3)[i]
                    ctx.eq(f'dx{i+1}/dX{l+1}',g,w,tol=1e-6,scale=1.)
            return
        contract(ctx,X,'XYZ',q,dfun=dA,tol=1e-6 if version!='AnsorgNS DDAnsorgNS' else 1e-5,second=version!='NAnsorgNS',expect2=None)
    return fn
def regular(ctx,ext=None):
    """regular points only: a branch condition the ranges leave open takes the side it has at sampled points of the domain
    (when they agree; these are the dequal() guards around the singular points, which the contract excludes)"""
    if not ctx.sym: return
    o=ctx.W.M.oracle; import random; rng=random.Random(5)
    dm={k:v for k,v in ctx.dom.items() if not k.endswith('@*')}
    pts=[{k:rng.uniform(*v) for k,v in dm.items()} for _ in range(5)]
    def orc(M,c):
        r=o(M,c)
        if r is not None or not isinstance(c,T.Term): return r
        try: v=[bool(T.evalf(c,p,funs={'*':lambda n,*a:(lambda q:.1*math.sin(sum(a)+len(n)) if not q else .5*(q[0]+q[1]+(q[1]-q[0])*math.sin(sum(a)+len(n))))(ext and ext(T.fn(n,T.ZERO,T.ZERO)))})) for p in pts]
        except Exception: return None
        return v[0] if len(set(v))==1 else None
    ctx.W.M.oracle=orc
AP={}
for dom in range(4):
    for ver in ('AnsorgNS','NAnsorgNS','AnsorgNS DDAnsorgNS'):
        b=base(f'AnsorgNS{dom}',{**AP,'Coordinates_AnsorgNS_version':ver})
        case(f'AnsorgNS{dom} {ver}',ansorg(dom,ver),b,group='a'+str(dom)+ver,real=2,timeout=300)
        if ver=='NAnsorgNS': case(f'AnsorgNS{dom} inverse derivatives',ansorg(dom,ver,inv=True),b,group='a'+str(dom)+ver,real=2,timeout=300)
        if ver=='AnsorgNS': 
            case(f'AnsorgNS{dom} B>1',ansorg(dom,ver,fold=True),b,group='a'+str(dom)+ver,real=2,timeout=300)
            case(f'AnsorgNS{dom} Bshift',ansorg(dom,ver,hist=Fr(-1,6)),base(f'AnsorgNS{dom}',{**AP,'Coordinates_AnsorgNS_version':ver,'Coordinates_AnsorgNS_Bshift':'yes'}),group='a'+str(dom)+'s',real=2,timeout=300)
# ------------------------------------------------------------------ generic transformations (from the derivatives of stored x,y,z)
def generic(order):
    def fn(ctx):
        W=ctx.W; bx=W.box[0]; N=W.call('vs_nnodes',bx); num=lambda t: float(T.evalf(t,{})) if isinstance(t,T.Term) else float(t)
        A={}
        for m,n in enumerate('xyz'):
            v=W.v(bx,W.ind(n)); A[n]=v
            for p in range(N):
                c=num(W.get(W.v(bx,W.ind('XYZ'[m])),p)); W.set(v,p,ctx.var(f'{n}{p}',c-.03,c+.03))
        ranges(ctx); tmp=[W.arr([0]*N) for k in range(9)]; vec=lambda a: [W.get(a,p) for p in range(N)]
        one={};two={}
        for m,n in enumerate('xyz'):
            W.call('spec_allDerivs',bx,A[n],*tmp,ret='v'); v=[vec(t) for t in tmp]; one[m]=v[:3]; two[m]=v[3:]
        keep=[vec(A[n]) for n in 'xyz']
        W.call('init_dXdx_generic',bx,ret='v')
        if order==2: W.call('init_ddXdxdx_generic',bx,ret='v')
        for m,n in enumerate('xyz'):
            for p in range(N): ctx.eq(n+' kept',vec(A[n])[p],keep[m][p])
        q=Q(ctx)
        for p in range(N):
            q.ind=p; d=q.dX([0,0,0])
            for i in R3:
                for l in R3: ctx.eq(f'dX{i+1}/dx . dx/dX{l+1}',sum(d[i][m]*one[m][l][p] for m in R3),1 if i==l else 0,tol=1e-9)
            if order==1: continue
            h=q.ddX([0,0,0])
            for i in R3:
                for c,(j,k) in enumerate(P3):
                    w=-sum(d[i][m]*two[m][P3.index((min(a,b),max(a,b)))][p]*d[a][j]*d[b][k] for m in R3 for a in R3 for b in R3)
                    if ctx.true('advertised',h[i][j][k] is not None): ctx.eq(f'ddX{i+1}/dx{j+1}dx{k+1}',h[i][j][k],w,tol=1e-8)
    return fn
def temps(W):
    for k in '123': W.call('AddVar','temp'+k,'','work space',ret='v')      # as modules ADMvars and ScalarOnKerr do
for nn in ((3,2,2),(2,3,2),(2,2,3)):
    case(f'generic, second derivatives, n={nn}',generic(2),base('Cartesian',{'box0_CoordinateTransforms_generic':'dXdx ddXdxdx'},n=nn,extra=temps),group=f'gen{nn}',bounded='3 points in one direction, 2 in the others',real=3)
case('generic, first derivatives only',generic(1),base('Cartesian',{'box0_CoordinateTransforms_generic':'dXdx'},n=(2,3,2)),group='gen1',bounded='2x3x2 points',real=3)
if __name__=='__main__': main('C01',CASES,trusted=['libm functions are the real functions of their name','cross-checks in native double arithmetic against sixth-order differences of the advertised map'])
