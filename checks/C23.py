"""C23  For every elliptic problem shipped, J is the exact directional derivative of F.

Contract of the pair (F,J):  J(l; state u) = d/de F(u+e l) at e=0, at every point, boundary rows included.
F is executed on state fields u, giving terms in the values of u and in the values of linear operators applied to u
(derivatives, coefficients, interpolants: their linearity is C02, C03, C06); J is executed on l in the same state.
The wanted term is the formal derivative of F's term in the direction l."""
import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib')
from phys import *
U=['U0','U1']
def lab(M,p):
    o=p.o
    n=M.lab.get(o.id) or (o.name if not o.cells else None)
    if n is None:
        n=f'{o.name}~{abs(hash(tuple(sorted((k,repr(T.show(v[0]) if isinstance(v[0],T.Term) else v[0])) for k,v in o.cells.items()))))}'
    if type(p.f) is not int: raise Undecided('symbolic offset into operator argument')
    return n+(f'+{p.f//8}' if p.f else '')
def linops(W):
    """contracts of the linear operators used in residuals"""
    M=W.M; M.lab={}
    def put(p,name):
        o=p.o
        def init(f,sz,kind,name=name):
            k=f//8 if type(f) is int else f.divexact(8)
            return T.var(f'{name}@{k}')
        o.cells={}; o.nsym=0; o.init=init; M.lab[o.id]=name
        if M.writes is not None: M.writes.setdefault(o.id,(o,{}))
    def V(box,i):
        p=W.v(box,i)
        if p is None: raise MemError('operator applied to variable without storage')
        return p
    def D(first,second):
        def st(M,box,i,*o):
            n=lab(M,V(box,i)); o=list(o)
            if first:
                for d in R3: put(V(box,o[0]+d),f'd{d}({n})')
            if second:
                for q,(a,e) in enumerate(P3): put(V(box,o[-1]+q),f'd{a}{e}({n})')
        return st
    for f,a in (('FirstDerivsOf_S',(1,0)),('FirstAndSecondDerivsOf_S',(1,1)),('allDerivsOf_S',(1,1)),('D_and_DD_of_S',(1,1))): M.stubs[res(f)]=D(*a)
    def cart(M,box,u,a,b,c):
        n=lab(M,u)
        for d,p in enumerate((a,b,c)): put(p,f'd{d}({n})')
    M.stubs[res('cart_partials')]=cart
    def bx(box): return [str(k) for k in range(W.nb) if W.box[k]==box][0]
    for f in ('spec_Deriv1','spec_Deriv2'):
        M.stubs[res(f)]=lambda M,box,d,u,du,f=f: put(du,f'{f}{d}({lab(M,u)})')
    M.stubs[res('spec_Coeffs')]=lambda M,box,u,c: put(c,f'co({lab(M,u)})')
    key=lambda *x: ','.join(str(T.lift(t).key if hasattr(T.lift(t),'key') and not callable(T.lift(t).key) else T.show(T.lift(t))) for t in x)
    M.stubs[res('spec_interpolate')]=lambda M,box,c,X,Y,Z: T.var(f'ip[{key(X,Y,Z)}]({lab(M,c)})')
    def BM(M,box,d,p,X):
        n=f'BM{bx(box)}{d}[{key(X)}]'
        nn=W.call('vs_n',box,d)
        for k in range(nn): M.store(Ptr(p.o,p.f+8*k),T.var(f'{n}@{k}'),8)
    M.stubs[res('spec_Basis_times_CoeffMatrix_direc')]=BM
    def setd(M,p,nm): M.store(p,T.var(nm),8)
    def near(M,box,pi,pX,pY,pZ,x,y,z,*r):
        for q,p in zip('XYZ',(pX,pY,pZ)): setd(M,p,f'near{q}[{key(x,y,z)}]')
        M.store(pi,0,4); return T.ZERO
    for f in ('nearestXYZ_of_xyz_inplane','nearestXYZ_of_xyz'): M.stubs[res(f)]=near
    def inv(M,box,pX,pY,pZ,x,y,z):
        for q,p in zip('XYZ',(pX,pY,pZ)): setd(M,p,f'inv{q}[{key(x,y,z)}]')
        return T.ZERO
    M.stubs['ABphi_of_xyz']=inv
    for i in (1,2,3):
        M.stubs[f'vs_xstub{i}']=lambda M,box,ind,X,Y,Z,i=i: T.var(f'cart{i}[{key(X,Y,Z)}]')
        for b in range(W.nb):
            if W.prob=='Poisson': W.call('vs_setx_of_X',W.box[b],i,FP(f'vs_xstub{i}'),ret='v')
PROB={'Poisson':dict(u=['Poisson_Psi','Poisson_Chi'],F='F_Poisson',J='J_Poisson',der=['Poisson_Psix','Poisson_Psixx','Poisson_Chix','Poisson_Chixx'],rhs=['Poisson_rh1','Poisson_rh2']),
 'Poisson2':dict(u=['Poisson2_Psi','Poisson2_Chi'],F='F_Poisson2',J='J_Poisson2',der=['Poisson2_Psi','Poisson2_Psix','Poisson2_Psixx','Poisson2_Chi','Poisson2_Chix','Poisson2_Chixx','Poisson2_rh1','Poisson2_rh2'],rhs=None),
 'Poisson3':dict(u=['Poisson3_Psi','Poisson3_Chi'],F='F_Poisson3',J='J_Poisson3',der=['Poisson3_Psi','Poisson3_Psix','Poisson3_Psixx','Poisson3_Chi','Poisson3_Chix','Poisson3_Chixx','Poisson3_rh1','Poisson3_rh2'],rhs=None)}
def world_(sym,prob,pars,full):
    P=PROB[prob]; W=mkworld(sym,{'physics':'ADMvars '+prob,**pars}); W.prob=prob
    if full: coords(W); W.full=True
    else:
        for n in ('x','y','z'): W.call('enablevar',W.g,W.ind(n),ret='v')
    W.call(prob+'_startup',W.g)
    mk=lambda names:[W.call('vlpush',vl,W.ind(n),ret='v') for vl in [W.call('vlalloc',W.g,ret='p')] for n in names] and None
    def vl(names):
        v=W.call('vlalloc',W.g,ret='p')
        for n in names: W.call('vlpush',v,W.ind(n),ret='v')
        W.call('enablevarlist',v,ret='v'); return v
    W.u=vl(P['u']); W.d=vl(P['der']); W.rhs=vl(P['rhs']) if P['rhs'] else None
    dup=lambda v,s: W.call('AddDuplicateEnable',v,s,ret='p')
    W.Fu=dup(W.u,'_Err'); W.Jl=dup(W.Fu,'_l'); W.l=dup(W.u,'_l'); W.ld=dup(W.d,'_l')
    return W
def F(W): 
    if W.prob=='Poisson': W.call('F_Poisson',W.Fu,W.u,W.d,W.rhs,ret='v')
    else: W.call('F_'+W.prob,W.Fu,W.u,W.d,W.ld,ret='v')
def J(W):
    # argument order as passed by the Newton driver (see *_solve)
    if W.prob=='Poisson': W.call('J_Poisson',W.Jl,W.l,W.ld,W.u,ret='v')
    else: W.call('J_'+W.prob,W.Jl,W.l,W.d,W.ld,ret='v')
ix=lambda W,vl,k: W.call('vl_idx',vl,k)
def case_sym(opts,conc):
    def fn(ctx):
        W=ctx.W
        for k,v in opts.items(): setpar(ctx,k,v)
        if not ctx.sym: return real_fn(ctx)
        nv=W.call('vs_nvariables',W.g); names=[varname(W,i) for i in range(nv)]
        ui={ix(W,W.u,k):k for k in (0,1)}; li={ix(W,W.l,k):k for k in (0,1)}
        # state copies of u inside the "all" list share the index; the linear list has its own copies of l
        ld0={}
        N=None if conc else W.M.sym('N',1)
        for b in range(W.nb):
            if not conc: W.call('vs_setnnodes',W.box[b],N,ret='v')
            nn=W.call('vs_nnodes',W.box[b])
            for i,n in enumerate(names):
                p=W.v(W.box[b],i)
                if p is None or n in ('X','Y','Z','x','y','z','VF_d'): continue
                nm=f'b{b}:'+(f'<U{ui[i]}>' if i in ui else f'<L{li[i]}>' if i in li else n)
                W.call('vs_setv',W.box[b],i,ctx.field(nm,nn),ret='v')
        linops(W)
        if not conc:
            F(W); g=[v for k,v in W.M.gens.items() if k==(0,N.key())]
            g=g[0] if g else W.M.generic(0,N)
            J(W); pts=[g]
        else: F(W); J(W)
        def rd(b,i,j): 
            p=W.v(W.box[b],i); return W.M.load(Ptr(p.o,p.f+8*j),8,'d')
        for b in range(W.nb):
            if conc: pts=range(W.call('vs_nnodes',W.box[b]))
            for k in (0,1):
                for j in pts:
                    f=rd(b,ix(W,W.Fu,k),j); l=rd(b,ix(W,W.Jl,k),j)
                    if not isinstance(f,T.Term): ctx.true(f'b{b} F{k}@{j} defined',False,repr(f)); continue
                    e=T.var('__e'); sub={v:T.add(T.var(v),T.mul(e,T.var(v.replace('<U','<L')))) for v in T.variables(f) if '<U' in v}
                    # every variable of the residual that carries the state once is linear in it by the operators' contracts
                    df=T.diff(T.subst([f],sub)[0] if isinstance(T.subst([f],sub),list) else T.subst(f,sub),'__e')
                    want=T.subst(df,{'__e':T.ZERO})
                    ctx.eq(f'b{b} row{k}@{j if conc else "I"}',l,want)
        if conc and not opts.get('noBC'):
            ctx.true('state enters the residual',any('<U' in v for k in (0,1) for v in T.variables(rd(0,ix(W,W.Fu,k),0))))
    return fn
def real_fn(ctx):
    W=ctx.W; r=ctx.rng
    u=[];l=[];rows=[]
    for b in range(W.nb):
        nn=W.call('vs_nnodes',W.box[b])
        for k in (0,1):
            u.append((b,ix(W,W.u,k),[r.uniform(.5,1.5) for _ in range(nn)])); l.append((b,ix(W,W.l,k),[r.uniform(-1,1) for _ in range(nn)]))
        for n in ('_rh1','_rh2'):
            v=W.vec(W.v(W.box[b],W.prob+n),nn)
            for j in range(nn): v[j]=r.uniform(-1,1)
    def put(L,e=None):
        for q,(b,i,x) in enumerate(L):
            v=W.vec(W.v(W.box[b],i),len(x)); d=l[q][2]
            for j in range(len(x)): v[j]=x[j]+(e*d[j] if e else 0.)
    def ev(e):
        put(u,e); F(W)
        return [list(W.vec(W.v(W.box[b],ix(W,W.Fu,k)),W.call('vs_nnodes',W.box[b]))) for b in range(W.nb) for k in (0,1)]
    h=0.5   # residuals are at most cubic in the state: the 4-point formula is exact up to rounding
    a,b_,c,d=ev(h),ev(-h),ev(2*h),ev(-2*h)
    put(u); F(W); put(l); J(W)
    q=0
    for b in range(W.nb):
        for k in (0,1):
            nn=W.call('vs_nnodes',W.box[b]); o=W.vec(W.v(W.box[b],ix(W,W.Jl,k)),nn)
            sc=max(max(abs(x) for x in a[q]),1.0); bad=None
            for j in range(nn):
                w=(8*(a[q][j]-b_[q][j])-(c[q][j]-d[q][j]))/(12*h)
                if not abs(o[j]-w)<=1e-7*sc and (bad is None): bad=(j,o[j],w)
            # one obligation per box and component, worst row reported
            if bad: ctx.eq(f'b{b} row{k}@{bad[0]}',T.const(Fr(bad[1])) if math.isfinite(bad[1]) else float('nan'),T.const(Fr(bad[2])),tol=1e-9,scale=1e-9)
            else: ctx.true(f'b{b} rows{k} ({nn} points)',True)
            q+=1
def cyl(nb,n1,n2,n3,b2='ChebExtrema',amax='1.0'):
    d={}
    for b in range(4):
        for k,n in ((1,n1),(2,n2),(3,n3)): d[f'box{b}_n{k}']=str(n)
        d.update({f'box{b}_Coordinates':f'AnsorgNS{b}',f'box{b}_basis1':'ChebExtrema',f'box{b}_basis2':b2,f'box{b}_basis3':'Fourier',f'box{b}_min1':'0',f'box{b}_max1':amax if b in(0,3) else '1.0',f'box{b}_min2':'0',f'box{b}_max2':'1.0',f'box{b}_min3':'0',f'box{b}_max3':repr(2*math.pi)})
    for b in (4,5):
        if b<nb:
            x=-1.0 if b==4 else 1.0
            for k in (1,2,3): d.update({f'box{b}_n{k}':'3',f'box{b}_basis{k}':'ChebExtrema',f'box{b}_Coordinates':'Cartesian',f'box{b}_min{k}':repr((x if k==1 else 0)-.02),f'box{b}_max{k}':repr((x if k==1 else 0)+.02)})
    d['nboxes']=str(nb); return d
def plain(nb,n=3): return {**boxpars(nb,n),**{f'box{b}_basis{k}':'ChebExtrema' for b in range(nb) for k in(1,2,3)}}
def sph(n=4):
    d=boxpars(1,n); d.update({'box0_Coordinates':'SphericalDF','box0_basis1':'ChebExtrema','box0_basis2':'Fourier','box0_basis3':'Fourier','box0_n3':'6','box0_n2':'8','box0_min1':'1.0','box0_max1':'2.0','box0_min2':'0','box0_max2':repr(2*math.pi),'box0_min3':'0','box0_max3':repr(2*math.pi)}); return d
cases=[]
def add(name,prob,pars,opts,conc,rp=None,**k):
    key=prob+repr(sorted(pars.items()))
    B=lambda: world_(True,prob,pars,False)
    RB=lambda: world_(False,prob,rp or pars,bool(rp))
    B=BASES.setdefault(key,B)
    cases.append(Case(name,case_sym(opts,conc),base=B,rbase=RB,group=key,timeout=500,**k))
BASES={}
for dd in ('no','yes'):
    add(f'Poisson interior, any size, useDD={dd}','Poisson',plain(2),{'Poisson_grid':'none','Poisson_useDD':dd},False)
for p in ('Poisson2','Poisson3'): add(f'{p} interior, any size',p,plain(2),{p+'_grid':'none'},False)
for p in ('Poisson','Poisson2'): add(f'{p} SphericalDF boundary, 4x3x3',p,{**plain(1),'box0_n1':'4'},{p+'_grid':'SphericalDF'},True,rp=sph())
for b2 in ('ChebExtrema','ChebZeros'):
    for reg in ('none','regularity_on_axis','regularity_on_axis_at_center'):
        if b2=='ChebExtrema' and reg!='none': continue
        q=plain(4); q.update({f'box{b}_basis2':b2 for b in range(4)})
        add(f'Poisson AnsorgNS {b2} {reg}','Poisson',q,{'Poisson_grid':'AnsorgNS','Poisson_regularization':reg},True,rp=cyl(4,4,4,4,b2))
        if reg!='regularity_on_axis_at_center':
            q=plain(6); q.update({f'box{b}_basis2':b2 for b in range(4)})
            add(f'Poisson 4ABphi_2xyz {b2} {reg}','Poisson',q,{'Poisson_grid':'4ABphi_2xyz','Poisson_regularization':reg},True,rp=cyl(6,4,4,4,b2,'0.85'))
def two(off=0,n=3):
    d=plain(2,n)
    for b in (0,1):
        for k in (1,2,3): d[f'box{b}_min{k}']=repr(-1.0+(b if k==1 else 0)); d[f'box{b}_max{k}']=repr(0.0+b if k==1 else 1.0)
    if off: d['box1_n2']=str(n+1)
    return d
for nm,off,w in (('same points',0,True),('1d interpolation',1,True)):
    q={**two(off),'Poisson3_grid':'twobox'}
    cases.append(Case(f'Poisson3 two touching boxes, {nm}',case_sym({},True),base=lambda q=q: world_(True,'Poisson3',q,True),rbase=lambda q=q: world_(False,'Poisson3',q,True),group='p3'+nm,timeout=500))
if __name__=='__main__':
    main('C23',cases,level='proof',
      trusted=['derivative, coefficient and interpolation helpers are linear in the field (C02, C03, C06)'],
      assumptions=['machine arithmetic treated as real arithmetic','boundary rows: for the listed grid sizes, all field values'])
