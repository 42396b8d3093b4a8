"""Shared pieces for the checks of pointwise physics kernels (BSSN, Z4, constraints, elliptic operators, wave systems):
a grid whose boxes have a symbolic number of points N>=1 with arbitrary field values, the contracts of the derivative
helpers (proved separately in C02) and small index-notation tools for writing the reference equations."""
from check import *
S3={(0,0):0,(0,1):1,(1,0):1,(0,2):2,(2,0):2,(1,1):3,(1,2):4,(2,1):4,(2,2):5}
P3=[(0,0),(0,1),(0,2),(1,1),(1,2),(2,2)]
R3=range(3)
def res(n): return world.REN.get(n,n)
def boxpars(nb,n=5,basis='ChebExtrema',lo=('-1.1','0.2','1.3'),hi=('0.7','1.9','2.6')):
    d={'nboxes':str(nb)}
    for b in range(nb):
        for k in (1,2,3):
            d[f'box{b}_n{k}']=str(n); d[f'box{b}_basis{k}']=basis
            d[f'box{b}_min{k}']=str(float(lo[k-1])+b*3); d[f'box{b}_max{k}']=str(float(hi[k-1])+b*3)
    return d
def mkworld(sym,pars,conf='main',extra=None,grid=True):
    W=Sym(conf) if sym else Real(conf)
    W.initmods(pars)
    for n,t in (('VF_d','i'),('VF_dd','(ij)')): W.call('AddVar',n,t,'',ret='v')
    if extra: extra(W)
    if grid:
        W.g=W.call('make_grid',0,ret='p'); W.nb=W.call('vs_nboxes',W.g,ret='i')
        W.box=[W.call('vs_box',W.g,b,ret='p') for b in range(W.nb)]
    return W
def coords(W):
    """the grid set-up of sgrid's main(): coordinates, then start-up of the physics modules"""
    W.call('vs_runfun',W.call('vs_PRE_COORDINATES'),W.g,ret='v'); W.call('vs_runfun',W.call('vs_COORDINATES'),W.g,ret='v')
def label(p):
    return p.o.name if not getattr(p.o,'cells',None) else None
def varname(W,i): return W.str(W.call('VarName',i,ret='p'))
class Fields:
    """every enabled variable of every box becomes an arbitrary array"""
    def __init__(s,ctx,rng=(0.3,1.7),ranges=None,useDD=False,only=None):
        s.ctx=ctx; s.W=W=ctx.W; s.ranges=ranges or {}; s.rng=rng; s.useDD=useDD
        nv=W.call('vs_nvariables',W.g); s.names=[varname(W,i) for i in range(nv)]; s.ix={n:i for i,n in enumerate(s.names)}
        s.skip={'X','Y','Z'} if not ctx.sym else set()
        if ctx.sym:
            s.N=W.M.sym('N',1)
            for b in range(W.nb): W.call('vs_setnnodes',W.box[b],s.N,ret='v')
        s.init={}
        for b in range(W.nb):
            for i,n in enumerate(s.names):
                p=W.v(W.box[b],i)
                if p is None: continue
                if n in ('X','Y','Z','x','y','z') or n.startswith(('dXd','dYd','dZd','ddXdd','ddYdd','ddZdd')): 
                    if ctx.sym: s.symarr(b,i,n)
                    continue
                s.setarr(b,i,n)
        if not ctx.sym: s.dcache={}
    def range(s,n):
        for k,r in s.ranges.items():
            if fnmatch.fnmatch(n,k): return r
        return s.rng
    def symarr(s,b,i,n):
        W=s.W; nm=f'b{b}:{n}'
        p=s.ctx.field(nm,s.N,*s.range(n)); W.call('vs_setv',W.box[b],i,p,ret='v')
    def setarr(s,b,i,n):
        if s.ctx.sym: return s.symarr(b,i,n)
        W=s.W; nn=W.call('vs_nnodes',W.box[b]); p=W.v(W.box[b],i); lo,hi=s.range(n); c=s.ctx; nm=f'b{b}:{n}'
        g=c.cex.get(nm+'@I')
        # smooth random function around a base value
        r=c.rng; base=g if g is not None else r.uniform(lo,hi); amp=0.02*(abs(base)+1e-3) if g is not None else 0.25*(hi-lo)
        if g is None: base=r.uniform(lo+0.3*(hi-lo),hi-0.3*(hi-lo))
        k=[r.uniform(-1,1) for _ in range(9)]
        X=[W.vec(W.v(W.box[b],q),nn) for q in ('X','Y','Z')]
        v=W.vec(p,nn); s.init[nm]=None
        for j in range(nn):
            x,y,z=X[0][j],X[1][j],X[2][j]
            v[j]=base+amp/3*(math.sin(k[0]*x+k[1]*y+k[2]*z+3*k[3])+math.cos(k[4]*x-k[5]*y+k[6]*z)*k[7]+k[8]*math.sin(x*y*k[1]+z*k[0]))
        s.ctx.env[nm+'@I']=base
    # --- pointwise access before the code under contract runs
    def freeze(s):
        """real world: remember field values and derivatives as they are now"""
        if s.ctx.sym: return
        W=s.W; s.val={}; s.dcache={}
        for b in range(W.nb):
            nn=W.call('vs_nnodes',W.box[b])
            for i,n in enumerate(s.names):
                p=W.v(W.box[b],i)
                if p is not None: s.val[(b,n)]=list(W.vec(p,nn))
    def derivs(s,b,n):
        k=(b,n)
        if k not in s.dcache:
            W=s.W; bx=W.box[b]; nn=W.call('vs_nnodes',bx); i=s.ix[n]
            if W.v(bx,'VF_dx') is None:
                for q in ('VF_dx','VF_ddxx'): W.call('enablevar',W.g,W.ind(q),ret='v')
            cur=list(W.vec(W.v(bx,i),nn)); v=W.vec(W.v(bx,i),nn)
            for j in range(nn): v[j]=s.val[k][j]
            if s.useDD: W.call('allDerivsOf_S',bx,i,W.ind('VF_dx'),W.ind('VF_ddxx'),ret='v')
            else: W.call('FirstAndSecondDerivsOf_S',bx,i,W.ind('VF_dx'),W.ind('VF_ddxx'),ret='v')
            for j in range(nn): v[j]=cur[j]
            s.dcache[k]=([list(W.vec(W.v(bx,W.ind('VF_dx')+c),nn)) for c in R3],[list(W.vec(W.v(bx,W.ind('VF_ddxx')+c),nn)) for c in range(6)])
        return s.dcache[k]
    def points(s,b):
        """points at which the contract is stated: the generic one, or sampled ones"""
        if s.ctx.sym: return ['I']
        nn=s.W.call('vs_nnodes',s.W.box[b]); return sorted(s.ctx.rng.sample(range(nn),min(nn,6)))
    def at(s,b,p): return Point(s,b,p)
    def out(s,b,ivar,p):
        """value left by the code in variable ivar at point p"""
        W=s.W; i=ivar if isinstance(ivar,int) else W.ind(ivar)
        arr=W.v(W.box[b],i)
        if s.ctx.sym: return W.M.load(Ptr(arr.o,arr.f+8*s.gen()),8,'d')
        return W.get(arr,p)
    def gen(s):
        M=s.W.M
        g=[v for k,v in M.gens.items() if k==(0,s.N.key())]
        if not g: return M.generic(0,s.N)
        return g[0]
class Point:
    def __init__(s,f,b,p): s.f=f; s.b=b; s.p=p
    def v(s,n):
        if s.f.ctx.sym: return T.var(f'b{s.b}:{n}@I')
        return T.const(Fr(s.f.val[(s.b,n)][s.p]))
    def d(s,n):
        if s.f.ctx.sym: return [T.var(f'd{c}b{s.b}:{n}@I') for c in R3]
        a=s.f.derivs(s.b,n)[0]; return [T.const(Fr(a[c][s.p])) for c in R3]
    def dd(s,n):
        if s.f.ctx.sym: q=[T.var(f'd{a}{c}b{s.b}:{n}@I') for a,c in P3]
        else: a=s.f.derivs(s.b,n)[1]; q=[T.const(Fr(a[c][s.p])) for c in range(6)]
        return [[q[S3[i,j]] for j in R3] for i in R3]
    def s(s): pass
    # tensors by base name of first component, e.g. 'BSSN_gxx' -> symmetric 3x3
    def comp(s,first,k): return s.f.names[s.f.ix[first]+k]
    def vec(s,first): return [s.v(s.comp(first,k)) for k in R3]
    def sym(s,first): return [[s.v(s.comp(first,S3[i,j])) for j in R3] for i in R3]
    def dvec(s,first):  # [i][c] = d_c v^i
        return [s.d(s.comp(first,k)) for k in R3]
    def ddvec(s,first): return [s.dd(s.comp(first,k)) for k in R3]
    def dsym(s,first): # [i][j][c]
        D=[s.d(s.comp(first,k)) for k in range(6)]
        return [[D[S3[i,j]] for j in R3] for i in R3]
    def ddsym(s,first):
        D=[s.dd(s.comp(first,k)) for k in range(6)]
        return [[D[S3[i,j]] for j in R3] for i in R3]
def derivstubs(W):
    """contracts of the Cartesian derivative helpers: component layout as the tensor names promise (proved in C02);
    the value of the derivative is an arbitrary function of the field, one symbol per field, derivative and point"""
    M=W.M
    def put(box,idx,name,sz=None):
        p=W.v(box,idx)
        if p is None: raise MemError('derivative variable without storage')
        def init(f,sz,kind,name=name):
            k=f//8 if type(f) is int else f.divexact(8)
            return T.var(f'{name}@{k}')
        o=p.o
        if M.loopstack: raise Undecided('derivative helper called inside a point loop')
        o.cells={}; o.nsym=0; o.init=init
        if M.writes is not None: M.writes.setdefault(o.id,(o,{}))
    def nm(box,i):
        p=W.v(box,i)
        if p is None: raise MemError('derivative of variable without storage')
        n=p.o.name
        ver=getattr(W,'ver',{})
        if p.o.cells: n+=f'#{len(p.o.cells)}'
        return n
    def D(k,n1=True,n2=True):
        def st(M,box,i,*o):
            o=list(o)
            for c in range(k):
                n=nm(box,i+c)
                if n1:
                    for d in R3: put(box,o[0]+3*c+d,f'd{d}{n}')
                if n2:
                    for q,(a,e) in enumerate(P3): put(box,o[1]+6*c+q,f'd{a}{e}{n}')
            return None
        return st
    for suf,k in (('S',1),('Sa',3),('Sab',6)):
        M.stubs[res('FirstDerivsOf_'+suf)]=D(k,True,False)
        M.stubs[res('FirstAndSecondDerivsOf_'+suf)]=D(k)
        M.stubs[res('allDerivsOf_'+suf)]=D(k)
        M.stubs[res('D_and_DD_of_'+suf)]=D(k)
def setpar(ctx,name,val): ctx.W.call('Sets',name,str(val),ret='v')
def dpar(ctx,name,lo=0.3,hi=1.7):
    """makes the double-valued parameter `name` an arbitrary real"""
    v=ctx.var(name,lo,hi)
    if ctx.sym:
        M=ctx.W.M
        if not hasattr(ctx,'dpars'):
            ctx.dpars={}; g=res('Getd'); cf=ctx.W.prog.cf(g)
            def getd(M,p):
                n=M.cstr(p).decode()
                if n in ctx.dpars: return ctx.dpars[n]
                return M.run(cf,[p],g)
            M.stubs[g]=getd
        ctx.dpars[name]=v
    else: ctx.W.call('Setd',name,v,ret='v')
    return v
# ---------------------------------------------------------------- tensor algebra on 3x3 lists
def det3(g): return (g[0][0]*(g[1][1]*g[2][2]-g[1][2]*g[2][1])-g[0][1]*(g[1][0]*g[2][2]-g[1][2]*g[2][0])+g[0][2]*(g[1][0]*g[2][1]-g[1][1]*g[2][0]))
def adj3(g):
    r=[[None]*3 for _ in R3]
    for i in R3:
        for j in R3:
            a,b=[k for k in R3 if k!=j]; c,d=[k for k in R3 if k!=i]
            m=g[a][c]*g[b][d]-g[a][d]*g[b][c]
            r[i][j]=m if (i+j)%2==0 else -m
    return r
def inv3(g):
    d=det3(g); a=adj3(g); return [[a[i][j]/d for j in R3] for i in R3]
def sm(gen):
    r=T.ZERO
    for x in gen: r=r+x
    return r
def christoffel(gi,dg):
    """Gamma^i_jk from inverse metric and dg[i][j][c]=d_c g_ij"""
    lo=[[[ (dg[i][j][k]+dg[i][k][j]-dg[j][k][i])/2 for k in R3] for j in R3] for i in R3]
    return [[[sm(gi[i][l]*lo[l][j][k] for l in R3) for k in R3] for j in R3] for i in R3],lo
def ricci(g,gi,dg,ddg):
    """R_ij = d_k G^k_ij - d_j G^k_ik + G^k_kl G^l_ij - G^k_jl G^l_ik   with all derivatives of the inverse metric expanded"""
    G,lo=christoffel(gi,dg)
    def dG(k,i,j,c):  # d_c Gamma^k_ij
        t=sm(gi[k][l]*(ddg[l][i][j][c]+ddg[l][j][i][c]-ddg[i][j][l][c])/2 for l in R3)
        for l in R3:
            dgi=-sm(gi[k][p]*gi[l][q]*dg[p][q][c] for p in R3 for q in R3)
            t=t+dgi*lo[l][i][j]
        return t
    return [[sm(dG(k,i,j,k)-dG(k,i,k,j) for k in R3)+sm(G[k][k][l]*G[l][i][j]-G[k][j][l]*G[l][i][k] for k in R3 for l in R3) for j in R3] for i in R3],G
def ranges(ctx,extra=None,depth=12,tidy=False):
    """the ranges given to ctx.var/ctx.field are preconditions: branch conditions they decide are decided"""
    if not ctx.sym: return
    import ival
    memo={}
    def default(x):
        n=x if isinstance(x,str) else None
        if n is None: return extra(x) if extra else None
        if '@' in n: 
            r=ctx.dom.get(n.split('@')[0]+'@*')
            if r: return r
        return (-math.inf,math.inf)
    def orc(M,c):
        if not isinstance(c,T.Term): return None
        if c.id in memo: return memo[c.id]
        dom={k:v for k,v in ctx.dom.items() if not k.endswith('@*')}; r=ival.decide(c,dom,default,2 if tidy else depth)
        if r is None and tidy:
            c2=ival.tidy(c); r=c2 if isinstance(c2,bool) else ival.decide(c2,dom,default,depth)
            if r is None: r=ival.decide(c,dom,default,depth)
        memo[c.id]=r; return r
    ctx.W.M.oracle=orc
