"""C10  Variable-list arithmetic.  Every operation runs as written on a grid of two boxes with a symbolic number of points
and arbitrary contents; the contract gives the value of every listed variable at the generic point, of the list's time, and
says that every variable that is not an output keeps its contents.  Aliasing patterns of the arguments are enumerated."""
import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib')
from phys import *
VARS=[(l+n,t) for l in 'abr' for n,t in (('1',''),('2','i'),('3','(ij)'))]
FIRST={'':'','i':'x','(ij)':'xx'}
def mk(sym,n=4):
    def ex(W):
        for n_,t in VARS+[('other','i')]: W.call('AddVar',n_,t,'',ret='v')
    W=mkworld(sym,{'physics':'ADMvars','boundary':'none',**boxpars(3,n),'box1_n2':str(n+1),'box2_n1':str(n-1)},extra=ex)
    W.L={}
    for l in 'abr':
        v=W.call('vlalloc',W.g,ret='p')
        for n_,t in VARS:
            if n_[0]==l: W.call('vlpush',v,W.ind(n_+FIRST[t]),ret='v')
        W.call('enablevarlist',v,ret='v'); W.L[l]=v
    W.call('enablevar',W.g,W.ind('otherx'),ret='v')
    W.ix={l:[W.call('vl_idx',v,i) for i in range(W.call('vl_n',v))] for l,v in W.L.items()}
    return W
def idx(l): return [l+'1']+[l+'2'+c for c in 'xyz']+[l+'3'+c for c in('xx','xy','xz','yy','yz','zz')]
class St:
    """arbitrary contents for all variables; value(b,name) before, now(b,name) after"""
    def __init__(s,ctx,skipsym=False):
        s.ctx=ctx; s.W=W=ctx.W; s.sz=[W.call('vs_nnodes',W.box[b]) for b in range(W.nb)]
        s.sym=ctx.sym and not skipsym; s.I=None
        s.names=[n for l in 'abr' for n in idx(l)]+['otherx','othery','otherz']; s.old={}
        if s.sym:
            s.N=W.M.sym('N',1); s.I=W.M.generic(0,s.N)
            for b in range(W.nb): W.call('vs_setnnodes',W.box[b],s.N,ret='v')
        for b in range(W.nb):
            for n in s.names:
                m=f'b{b}:{n}'
                if s.sym:
                    W.call('vs_setv',W.box[b],W.ind(n),ctx.field(m,s.N,-1,1.5),ret='v'); s.old[b,n]=[T.var(f'{m}@{s.I}')]
                elif ctx.sym:
                    W.call('vs_setv',W.box[b],W.ind(n),ctx.field(m,s.sz[b],-1,1.5),ret='v'); s.old[b,n]=[T.var(f'{m}@{k}') for k in range(s.sz[b])]
                else:
                    v=W.vec(W.v(W.box[b],n),s.sz[b])
                    for k in range(s.sz[b]): v[k]=ctx.rng.uniform(-1,1.5)
                    s.old[b,n]=[T.const(Fr(x)) for x in v]
        s.t={}
        for l in 'abr':
            s.t[l]=ctx.var('t_'+l,0.1,3.); W.call('vl_settime',W.L[l],s.t[l],ret='v')
    def now(s,b,n):
        W=s.W; p=W.v(W.box[b],n)
        if s.sym: return [W.M.load(Ptr(p.o,p.f+8*s.I),8,'d')]
        if s.ctx.sym: return [W.get(p,k) for k in range(s.sz[b])]
        return [T.const(Fr(x)) if math.isfinite(x) else x for x in W.vec(p,s.sz[b])]
    def check(s,out,boxes=None,times=None):
        """out: {list letter: f(b,component name suffix) -> expected list}; everything else unchanged"""
        for b in range(s.W.nb):
            act=boxes is None or b in boxes
            for n in s.names:
                w=out[n[0]](b,n[1:]) if act and n[0] in out and n[1] in '123' else s.old[b,n]
                for x,y in zip(s.now(b,n),w): s.ctx.eq(f'b{b} {n}'+('' if n[0] in out and n[1] in '123' and act else ' unchanged'),x,y,tol=1e-12)
        for l,w in (times or {}).items(): s.ctx.eq('time of '+l,s.W.call('vl_time',s.W.L[l],ret='d'),w,tol=1e-12)
    def o(s,l): return lambda b,n: s.old[b,l+n]
def nz(ctx):
    """generic coefficients: exact comparisons with special values (0, 1, -1) come out unequal; the special values have their own cases"""
    if ctx.sym: ctx.W.M.oracle=lambda M,c: False if c.op=='cmp' and c.a[0]=='eq' else None
def lc(*terms):
    """pointwise linear combination of lists"""
    def f(b,n):
        r=None
        for c,g in terms:
            v=[T.lift(c)*T.lift(x) for x in g(b,n)]; r=v if r is None else [p+q for p,q in zip(r,v)]
        return r
    return f
def copyc(ctx):
    s=St(ctx); W=ctx.W; W.call('vlcopy',W.L['r'],W.L['a'],ret='v'); s.check({'r':s.o('a')},times={'r':s.t['a'],'a':s.t['a']})
def copyself(ctx):
    s=St(ctx); W=ctx.W; W.call('vlcopy',W.L['r'],W.L['r'],ret='v'); s.check({},times={'r':s.t['r']})
def copyinactive(ctx):
    s=St(ctx); W=ctx.W; W.call('vs_setinactive',W.box[1],1,ret='v'); W.call('vlcopy',W.L['r'],W.L['a'],ret='v'); s.check({'r':s.o('a')},boxes=(0,2))
def copygrid(ctx):
    s=St(ctx); W=ctx.W; W.call('vlcopygrid',W.g,W.L['r'],W.L['a'],ret='v'); s.check({'r':s.o('a')},times={'r':s.t['a']})
    W.call('vlcopygrid',None,W.L['b'],W.L['a'],ret='v'); s.check({'r':s.o('a')})
def const(ctx):
    s=St(ctx); W=ctx.W; c=ctx.var('c',-2,2); W.call('vlsetconstant',W.L['r'],c,ret='v'); s.check({'r':lambda b,n:[c]*len(s.old[b,'r'+n])},times={'r':s.t['r']})
def swap(ctx):
    s=St(ctx); W=ctx.W; W.call('vlswap',W.L['a'],W.L['b'],ret='v'); s.check({'a':s.o('b'),'b':s.o('a')},times={'a':s.t['b'],'b':s.t['a']})
def avg(r,a,b):
    def f(ctx):
        s=St(ctx); W=ctx.W; W.call('vlaverage',W.L[r],W.L[a],W.L[b],ret='v'); h=T.HALF
        s.check({r:lc((h,s.o(a)),(h,s.o(b)))},times={r:h*(s.t[a]+s.t[b])})
    return f
def subt(r,a,b):
    def f(ctx):
        s=St(ctx); W=ctx.W; W.call('vlsubtract',W.L[r],W.L[a],W.L[b],ret='v'); s.check({r:lc((1,s.o(a)),(-1,s.o(b)))},times={r:s.t[a]-s.t[b]})
    return f
def add(r,a,b,za,zb,null=False):
    def f(ctx):
        s=St(ctx); W=ctx.W; ca=T.ZERO if za else ctx.var('ca',-2,2); cb=T.ZERO if zb else ctx.var('cb',-2,2); nz(ctx)
        # "if coefficient is zero we guarantee that memory is not accessed": such a list may have no storage, or be NULL
        if null:
            for l,z in ((a,za),(b,zb)):
                if z and l!=r: W.call('disablevarlist',W.L[l],ret='v'); s.names=[n for n in s.names if n[0]!=l or n[1] not in '123']
        W.call('vladd',W.L[r],ca,(None if null and za else W.L[a]),cb,(None if null and zb else W.L[b]),ret='v')
        s.check({r:lc((ca,s.o(a)),(cb,s.o(b)))},times={r:ca*s.t[a]+cb*s.t[b]})
    return f
def addto(r,a,c):
    def f(ctx):
        s=St(ctx); W=ctx.W; ca=ctx.var('ca',-2,2) if c is None else T.const(c); nz(ctx)
        W.call('vladdto',W.L[r],ca,W.L[a],ret='v'); s.check({r:lc((1,s.o(r)),(ca,s.o(a)))},times={r:s.t[r]+ca*s.t[a]})
    return f
def one(op):
    """single-variable wrappers act on the one component only"""
    def f(ctx):
        s=St(ctx); W=ctx.W; ia,ib,ir=W.ind('a2y'),W.ind('b3xz'),W.ind('r3yy')
        ca,cb=ctx.var('ca',-2,2),ctx.var('cb',-2,2); nz(ctx); sel=lambda nm,g: lambda b,n: g(b) if n==nm else s.old[b,None] 
        if op=='copy': W.call('varcopy',W.g,ir,ia,ret='v'); want={'r3yy':lambda b: s.old[b,'a2y']}
        elif op=='swap': W.call('varswap',W.g,ir,ia,ret='v'); want={'r3yy':lambda b: s.old[b,'a2y'],'a2y':lambda b: s.old[b,'r3yy']}
        else: W.call('varadd',W.g,ir,ca,ia,cb,ib,ret='v'); want={'r3yy':lambda b:[ca*x+cb*y for x,y in zip(s.old[b,'a2y'],s.old[b,'b3xz'])]}
        for b in range(W.nb):
            for n in s.names:
                for x,y in zip(s.now(b,n),want[n](b) if n in want else s.old[b,n]): ctx.eq(f'b{b} {n}',x,y,tol=1e-12)
    return f
# ---- reductions
def red(s,f,boxes):
    """sum over listed variables, boxes and points"""
    if s.sym: return sm(T.fn(f'Sum:{s.I!r}[0,{s.N})',f(b,n)[0]) for n in idx('a') for b in boxes)
    return sm(x for n in idx('a') for b in boxes for x in f(b,n))
def count(s,boxes):
    if s.sym:
        return (s.N*(10*len(boxes))).term()
    return T.const(sum(10*s.sz[b] for b in boxes))
def dot(ctx):
    s=St(ctx); W=ctx.W; r=W.call('GridDotProduct',W.L['a'],W.L['b'],ret='d')
    ctx.eq('dot',r,red(s,lambda b,n:[x*y for x,y in zip(s.old[b,n],s.old[b,'b'+n[1:]])],range(W.nb)),tol=1e-11); s.check({})
def norm(ctx):
    s=St(ctx); W=ctx.W; sq=lambda b,n:[x*x for x in s.old[b,n]]
    ctx.eq('norm2',W.call('GridL2Norm',W.L['a'],ret='d'),T.sqrt(red(s,sq,range(W.nb))/count(s,range(W.nb))),tol=1e-11)
    for b in range(W.nb): ctx.eq(f'box norm {b}',W.call('BoxL2Norm',b,W.L['a'],ret='d'),T.sqrt(red(s,sq,[b])/count(s,[b])),tol=1e-11)
    x=W.call('varBoxL2Norm',W.box[1],W.ind('a3yz'),ret='d')
    if s.sym: w=T.fn(f'Sum:{s.I!r}[0,{s.N})',sq(1,'a3yz')[0])/count(s,[1])*10
    else: w=sm(sq(1,'a3yz'))/s.sz[1]
    ctx.eq('variable norm',x,T.sqrt(w),tol=1e-11); s.check({})
# ---- conversions to and from flat arrays (fixed sizes)
ORD={'varlist_into_array':('box','pt','var'),'forSortedVars':('box','var','pt'),'outervlloop':('var','box','pt')}
def seq(s,order):
    n=idx('a'); nb=range(s.W.nb)
    if order[0]=='box' and order[1]=='pt': return [(b,v,k) for b in nb for k in range(s.sz[b]) for v in n]
    if order[0]=='box': return [(b,v,k) for b in nb for v in n for k in range(s.sz[b])]
    return [(b,v,k) for v in n for b in nb for k in range(s.sz[b])]
def flat(to,back,order):
    def f(ctx):
        s=St(ctx,skipsym=True); W=ctx.W; q=seq(s,order); x=W.arr([0]*len(q))
        W.call(to,W.L['a'],x,ret='v')
        for l,(b,v,k) in enumerate(q): ctx.eq(f'{to} entry',W.get(x,l),s.old[b,v][k])
        s.check({}); y=[ctx.var(f'y{l}',-1,1) if ctx.sym else T.const(Fr(ctx.rng.uniform(-1,1))) for l in range(len(q))]
        W.call(back,W.arr(y),W.L['r'],ret='v'); want={}
        for l,(b,v,k) in enumerate(q): want.setdefault((b,'r'+v[1:]),{})[k]=y[l]
        s.check({'r':lambda b,n:[want[b,'r'+n][k] for k in range(s.sz[b])]})
    return f
def subbox(ctx):
    """sub-boxes tile the box: writing back what was read from each reproduces the variable, every point is in exactly one"""
    s=St(ctx,skipsym=True); W=ctx.W; vi=4
    for b in (1,2):
        n=[W.call('vs_n',W.box[b],d) for d in (1,2,3)]; seen={}
        for split in ((1,1,1),(2,1,3),(2,2,2)):
            seen={}
            for sk in range(split[2]):
                for sj in range(split[1]):
                    for si in range(split[0]):
                        x=W.arr([0]*(s.sz[b])); a=(vi,b,si,sj,sk,*split)
                        W.call('copy_varlistCompInSubbox_into_array',W.L['a'],*a,x,ret='v')
                        W.call('copy_array_into_varlistCompInSubbox',x,W.L['r'],*a,ret='v')
                        r=[range(c*m//k,(c+1)*m//k) for c,m,k in zip((si,sj,sk),n,split)]
                        pts=[i+n[0]*(j+n[1]*k) for k in r[2] for j in r[1] for i in r[0]]
                        for l,p in enumerate(pts):
                            seen[p]=seen.get(p,0)+1; ctx.eq(f'subbox {split} entry',W.get(x,l),s.old[b,idx('a')[vi]][p])
            ctx.true(f'b{b} {split} each point once',len(seen)==s.sz[b] and set(seen.values())=={1})
            for x,y in zip(s.now(b,idx('r')[vi]),s.old[b,idx('a')[vi]]): ctx.eq(f'b{b} {split} written back',x,y)
    s.names=[n for n in s.names if n!=idx('r')[vi]]; s.check({})
# ---- list surgery
def lists(ctx):
    W=ctx.W; ids=lambda v:[W.call('vl_idx',v,i) for i in range(W.call('vl_n',v))]; a=W.ix['a']
    v=W.call('vlalloc',W.g,ret='p'); ctx.true('empty',ids(v)==[]); I=W.ind
    W.call('vlpushone',v,I('b3xy'),ret='v'); W.call('vlpush',v,I('b2x'),ret='v'); W.call('vlpush',v,I('b3xx'),ret='v')
    w=[I('b3xy')]+[I('b2'+c) for c in 'xyz']+[I(n) for n in idx('b')[4:]]
    ctx.true('push',ids(v)==w,ids(v)); W.call('vlpushvl',v,W.L['a'],ret='v'); w=w+a; ctx.true('push list',ids(v)==w)
    u=W.call('vlduplicate',v,ret='p'); ctx.true('duplicate',ids(u)==w)
    W.call('vldropone',v,I('b3xy'),ret='v'); k=[x for x in w if x!=I('b3xy')]; x=ids(v)
    ctx.true('drop one',x in (w[1:],k),x)
    W.call('vldrop',v,I('a2x'),ret='v'); k=[y for y in x if y not in [I('a2'+c) for c in 'xyz']]; ctx.true('drop',ids(v)==k,(ids(v),k))
    W.call('vldropn',v,3,ret='v'); ctx.true('drop last n',ids(v)==k[:-3]); ctx.true('duplicate independent',ids(u)==w)
    W.call('vldropn',v,1000,ret='v'); ctx.true('drop all',ids(v)==[])
    d=W.call('AddDuplicateEnable',W.L['b'],'_dup',ret='p'); ctx.true('AddDuplicate names',[varname(W,i) for i in ids(d)]==[n+'_dup' for n in idx('b')])
    ctx.true('AddDuplicate storage',all(W.v(W.box[b],i) is not None for b in range(W.nb) for i in ids(d)))
    e=W.call('AddDuplicate',W.L['b'],'_dup',ret='p'); ctx.true('AddDuplicate twice',ids(e)==ids(d))
    for i,n in zip(ids(d),idx('b')):
        j=I(n); ctx.true('AddDuplicate attributes',all(W.call(f,i)==W.call(f,j) for f in('VarComponent','VarNComponents')) and all(W.call('VarSymmetry',i,q)==W.call('VarSymmetry',j,q) for q in R3))
    W.call('vlfree',u,ret='v'); W.call('VLDisableFree',d,ret='v')
    ctx.true('VLDisableFree',all(W.v(W.box[b],n+'_dup') is None for b in range(W.nb) for n in idx('b')))
BASE=lambda: mk(True); RB=lambda: mk(False); BF=lambda: mk(True,3); RF=lambda: mk(False,3)
C=lambda n,f: Case(n,f,base=BASE,rbase=RB,group='b',timeout=200)
F=lambda n,f: Case(n,f,base=BF,rbase=RF,group='f',timeout=300,bounded='three boxes of 27, 36 and 18 points; arbitrary contents')
cases=[C('copy',copyc),C('copy onto itself',copyself),C('copy, inactive box',copyinactive),C('copy, grid given',copygrid),C('set constant',const),C('swap',swap)]
AL=[('r','a','b'),('a','a','b'),('b','a','b'),('r','a','a'),('a','a','a')]
for al in AL:
    t=','.join(al); cases+=[C(f'average {t}',avg(*al)),C(f'subtract {t}',subt(*al))]
    for za in (0,1):
        for zb in (0,1): cases.append(C(f'add {t} {"0" if za else "ca"} {"0" if zb else "cb"}',add(*al,za,zb)))
cases+=[C('add, no storage needed for a',add('r','a','b',1,0,True)),C('add, no storage needed for b',add('r','a','b',0,1,True)),C('add, no storage needed',add('r','a','b',1,1,True))]
for r,a in (('r','a'),('a','a')):
    for c in (None,0,1,-1): cases.append(C(f'add to {r},{a} {c}',addto(r,a,c)))
cases+=[C(f'single variable {o}',one(o)) for o in('copy','swap','add')]
cases+=[C('dot product',dot),C('norms',norm),C('lists',lists)]
cases+=[F('flat array, point order',flat('copy_varlist_into_array','copy_array_into_varlist',ORD['varlist_into_array'])),
 F('flat array, sorted variables',flat('copy_varlist_into_array_forSortedVars','copy_array_into_varlist_forSortedVars',ORD['forSortedVars'])),
 F('flat array, outer variable loop',flat('copy_vl_into_array_outervlloop','copy_array_into_vl_outervlloop',ORD['outervlloop'])),
 F('sub-boxes',subbox)]
if __name__=='__main__':
    main('C10',cases,level='proof',assumptions=['all boxes have the same symbolic number of points N>=1','list surgery and flat-array conversions: fixed lists and sizes'])
