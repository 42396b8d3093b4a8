"""C18  Grid storage and traversal.  The loop macros run as written (compiled into call-backs) with symbolic numbers of points: the generic
iteration of every loop yields the generic point of the set it stands for, once; where the loop is not a plain counting loop all small sizes are
enumerated.  Histories of enabling and disabling run on a grid with arbitrary contents against a model of who owns storage; objects that
are released must be the very ones that were allocated.  Copies of grids with arbitrary contents are compared member by member."""
import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib'); sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from phys import *
from exec import ICond,Ptr
from C17 import gi,pick,same,null,L,P,F
import ctypes, itertools
N3=((2,3,2),(3,2,4),(4,2,2))
DECL=[('ua',''),('ub','i'),('uc','(ij)'),('ud','')]
def mk(sym,nb=3):
    def ex(W):
        for n,t in DECL: W.call('AddVar',n,t,'',ret='v')
    p={'physics':'ADMvars','boundary':'none','Coordinates_set_bfaces':'no',**boxpars(nb,2)}
    for b in range(nb):
        for k in R3: p[f'box{b}_n{k+1}']=str(N3[b][k])
    return mkworld(sym,p,extra=ex)
def cb3(ctx,out):
    """call-back recording the visited triples"""
    if ctx.sym:
        ctx.W.M.stubs['visit18']=lambda M,a,b,c: out.append((a,b,c)) or 0; return world.FP('visit18')
    f=ctypes.CFUNCTYPE(None,ctypes.c_int,ctypes.c_int,ctypes.c_int)(lambda a,b,c: out.append((a,b,c))); ctx.W.keep.append(f); return world.RP(ctypes.cast(f,ctypes.c_void_p).value)
def planes(w,N,n,p,ctx):
    o=[]; ctx.W.call('vs_planes',w,N,*n,p,cb3(ctx,o),ret='v'); return o
LOOPS=[(1,1),(2,2),(3,3),(4,1),(4,2),(4,3),(5,1),(5,2),(5,3)]
NAME={1:'forplane1',2:'forplane2',3:'forplane3',4:'forplaneN',5:'forinnerplaneN',6:'forplane1_nojump',7:'forplane2_nojump',8:'forplane3_nojump'}
def symplane(w,N):
    """any numbers of points: one generic iteration, running over the whole range of the two free indices, the third at p"""
    def f(ctx):
        M=ctx.W.M if ctx.sym else None
        lo=int(w==5)
        if ctx.sym: n=[M.sym(f'n{k}',1) for k in R3]; p=M.sym('p',0)
        else: n=[ctx.rng.randint(1,9) for k in R3]; p=ctx.rng.randint(0,n[N-1]-1)
        if ctx.sym and w>3: n[N-1]=pick(ctx,'size',(1,2,3,4)); p=pick(ctx,'plane',range(n[N-1]))
        if not ctx.sym:
            o=planes(w,N,n,p,ctx); want=list(itertools.product(*[[p] if d==N-1 else range(lo,n[d]-lo) for d in R3])); ctx.true('visits each point of the plane once',sorted(o)==sorted(want),(n,p,o)); return
        if w<4: M.assume.append(ICond('lt',p,n[N-1]))
        o=planes(w,N,n,p,ctx); ctx.true('one loop nest',len(o)==1,o); t=o[0]
        ctx.ieq('plane index',t[N-1],p); free=[d for d in R3 if d!=N-1]
        for d in free:
            g=[k for k,v in M.gens.items() if str(v)==str(t[d])]; ctx.true('generic index of a counting loop',len(g)==1 and str(t[d])!=str(p),(t,M.gens))
            if g:
                want=ikeys(lo,n[d]-lo); ctx.true('runs over the whole range',g[0]==want,(g[0],want))
        ctx.true('indices of different loops',str(t[free[0]])!=str(t[free[1]]))
    return f
def ikeys(a,b):
    from exec import ikey
    return (ikey(a),ikey(b))
def enum(w,N,nmax):
    def f(ctx):
        lo=int(w==5)
        for n in itertools.product(range(1,nmax+1),repeat=3):
            for p in range(n[N-1]):
                o=planes(w,N,n,p,ctx); want=list(itertools.product(*[[p] if d==N-1 else range(lo,n[d]-lo) for d in R3]))
                ctx.true(f'{NAME[w]}: visits each point once',sorted(o)==sorted(want),(n,p,o))
                if w>5: ctx.true(f'{NAME[w]}: no jumps',all(sum(abs(a-b) for a,b in zip(x,y))==1 for x,y in zip(o,o[1:])),(n,p,o))
    return f
def index(ctx):
    W=ctx.W; M=W.M if ctx.sym else None
    if ctx.sym:
        n=[M.sym(f'n{k}',1) for k in R3]; i=[M.sym(f'i{k}',0) for k in R3]
        for k in R3: M.assume.append(ICond('lt',i[k],n[k]))
        for fn in ('vs_Index','vs_Ind_n1n2'): ctx.ieq(fn,W.call(fn,*i,n[0],n[1]),i[0]+n[0]*(i[1]+n[1]*i[2]))
    for n in itertools.product((1,2,3,5),repeat=3):
        seen=set()
        for i in itertools.product(*map(range,n)):
            x=W.call('vs_Index',*i,n[0],n[1]); seen.add(x); ctx.true('index is inverted',[W.call('vs_ofInd',d,x,n[0],n[1]) for d in (1,2,3)]==list(i),(n,i,x))
        ctx.true('indices are 0...n-1',seen==set(range(n[0]*n[1]*n[2])),n)
def boxes(ctx):
    """loops over boxes and points, any set of inactive boxes"""
    W=ctx.W; nb=3; off=[pick(ctx,f'off{b}',(0,1)) for b in range(nb)]; B=[W.call('vs_box',W.g,b,ret='p') for b in range(nb)]
    how=pick(ctx,'how',(0,1,2)); off0=list(off)
    if how==0:
        l=L(ctx,[b for b in range(nb) if off[b]]); W.call('deactivate_boxes',W.g,l.p,ret='v'); l.free()
    else:
        W.call('deactivate_allboxes',W.g,ret='v'); o=[]; W.call('vs_boxloops',1,W.g,None,cb3(ctx,o),ret='v'); ctx.true('no active box',o==[] and W.call('vs_activeboxes',W.g)==0)
        if how==2: W.call('activate_allboxes',W.g,ret='v'); off=[0]*nb
        else:
            l=L(ctx,[b for b in range(nb) if not off[b]]); W.call('activate_boxes',W.g,l.p,ret='v'); l.free()
    act=[b for b in range(nb) if not off[b]]
    ctx.ieq('number of active boxes',W.call('vs_activeboxes',W.g),len(act)); ctx.true('flags',[W.call('vs_inactive',b) for b in B]==off)
    for i in range(-1,nb+1): ctx.ieq('ith active box',W.call('IndexOf_ith_ActiveBox',W.g,i),act[i] if 0<=i<len(act) else -1)
    o=[]; W.call('vs_boxloops',1,W.g,None,cb3(ctx,o),ret='v'); ctx.true('active boxes',[x[0] for x in o]==act,o)
    o=[]; W.call('vs_boxloops',2,W.g,None,cb3(ctx,o),ret='v'); ctx.true('all boxes',[x[0] for x in o]==list(range(nb)),o)
    o=[]; W.call('vs_boxloops',3,W.g,None,cb3(ctx,o),ret='v'); ctx.true('all points of the active boxes',o==[(b,i,b) for b in act for i in range(N3[b][0]*N3[b][1]*N3[b][2])])
    for b in range(nb): o=[]; W.call('vs_boxloops',0,None,B[b],cb3(ctx,o),ret='v'); ctx.true('all points of a box',o==[(b,i,0) for i in range(N3[b][0]*N3[b][1]*N3[b][2])])
    if ctx.sym:
        N=W.M.sym('N',1); W.call('vs_setnnodes',B[1],N,ret='v'); o=[]; W.call('vs_boxloops',0,None,B[1],cb3(ctx,o),ret='v'); I=W.M.generic(0,N); ctx.true('all points of a box of any size',len(o)==1 and str(o[0][1])==str(I),o)
    W.call('activate_allboxes',W.g,ret='v'); ctx.ieq('all active again',W.call('vs_activeboxes',W.g),nb)
    for k in range(4):
        o=[]; W.call('vs_boxloops',4,None,B[0],cb3(ctx,o),ret='v'); ctx.true('all faces',o==[(0,i,0) for i in range(k)]); W.call('add_empty_bface',B[0],k)
def plists(ctx):
    W=ctx.W; nb=3; s=P(ctx,nb); k=[pick(ctx,f'k{b}',(0,1,3)) for b in range(nb)]; off=pick(ctx,'off',(None,0,1,2))
    for b in (2,0,1):
        for t in range(k[b]): s.add(b,gi(ctx,f'p{b}{t}',0,11))
    def vis(box): o=[]; W.call('vs_pointlist',s.p,box,cb3(ctx,o),ret='v'); return o
    def cmp(l,o,want):
        ctx.true(f'{l}: number of visits',len(o)==len(want),(o,want))
        for x,y in zip(o,want):
            for a,b in zip(x,y): ctx.ieq(l,a,b)
    if off is not None: W.call('vs_setinactive',W.call('vs_box',W.g,off,ret='p'),1,ret='v')
    cmp('forPointList',vis(None),[(b,t,s.m[b][t]) for b in range(nb) if b!=off for t in range(k[b])])
    for b in range(nb): cmp('forPointList_inbox',vis(W.call('vs_box',W.g,b,ret='p')),[(b,t,s.m[b][t]) for t in range(k[b])])
# ------------------------------------------------------------------ storage
class St18:
    """who owns storage: own[b][i] = list of values"""
    def __init__(s,ctx,g=None,n3=N3):
        s.c=ctx; s.W=ctx.W; s.g=g or s.W.g; s.nb=len(n3); s.nn=[a*b*c for a,b,c in n3]; s.ni=s.W.call('vs_gridinfo',s.g,2)
        s.own=[[None]*s.ni for _ in range(s.nb)]; s.ptr={}; s.t=0
        for b in range(s.nb):
            for i in range(s.ni):
                p=s.v(b,i)
                if not null(p): s.own[b][i]=[s.W.get(p,k) for k in range(s.nn[b])]; s.ptr[b,i]=p
        s.n0=None
    def box(s,b): return s.W.call('vs_box',s.g,b,ret='p')
    def v(s,b,i): return s.W.call('vs_v',s.box(b),i,ret='p')
    def count(s): return sum(x is not None for r in s.own for x in r)
    def enable(s,b,i):
        if s.own[b][i] is None: s.own[b][i]=[0.]*s.nn[b]
    def disable(s,b,i): s.own[b][i]=None
    def fill(s,r):
        """arbitrary values into a random piece of storage"""
        c=[(b,i) for b in range(s.nb) for i in range(s.ni) if s.own[b][i] is not None]
        if not c: return
        b,i=r.choice(c); p=s.v(b,i)
        for k in range(s.nn[b]):
            x=s.c.var(f'v{s.t}',-1,1); s.t+=1; x=x if s.c.sym else s.W.num(x); s.W.set(p,k,x); s.own[b][i][k]=x
    def check(s,what):
        c=s.c; W=s.W; seen={}
        c.ieq(f'{what}: number of variables',W.call('vs_gridinfo',s.g,2),s.ni)
        for b in range(s.nb):
            for i in range(s.ni):
                p=s.v(b,i); w=s.own[b][i]; old=s.ptr.get((b,i))
                c.true(f'{what}: storage exactly where enabled',null(p)==(w is None),(b,i,p))
                if w is None:
                    if old is not None:
                        if c.sym: c.true(f'{what}: storage released',old.o.freed)
                        del s.ptr[b,i]
                    continue
                if null(p): continue
                if old is not None: c.true(f'{what}: enabled storage stays where it is',old==p)
                k=p.o.id if c.sym else int(p); c.true(f'{what}: own storage',k not in seen,(b,i,seen.get(k))); seen[k]=(b,i); s.ptr[b,i]=p
                if c.sym: c.ieq(f'{what}: size of the storage',p.o.size,8*s.nn[b])
                for q in range(s.nn[b]): c.eq(f'{what}: contents',W.get(p,q),w[q])
    def nen(s): return s.W.M.load(s.W.M.glob('nenabled',s.W.M.prog.globs['nenabled'][0]),4,'i') if s.c.sym else s.W.glob('nenabled','i').value
NC={'ua':1,'ub':3,'uc':6,'ud':1}
def storage(seed,steps):
    def f(ctx):
        import random
        W=ctx.W; r=random.Random(seed) if ctx.sym else ctx.rng; s=St18(ctx); vi={n:W.ind(n) for n in ('ua','ubx','ucxx','ud')}; size={vi['ua']:1,vi['ubx']:3,vi['ucxx']:6,vi['ud']:1}
        n0=s.nen()-s.count(); allc=[i+k for i,m in size.items() for k in range(m)]; extra=0
        def rep(): return r.choice([1,1,2])
        for t in range(steps if ctx.sym else 3*steps):
            o=r.choice(('enablevar','disablevar','enablevar_inbox','disablevar_inbox','enablevarcomp','disablevarcomp','enablevarcomp_inbox','disablevarcomp_inbox','enablevarlist','disablevarlist','fill','fill','grow'))
            i=r.choice(list(size)); c=r.choice(allc); b=r.randrange(3); m=s.enable if o.startswith('en') else s.disable
            if o=='fill': s.fill(r)
            elif o=='grow':
                if r.random()<.5: k=r.choice((1,3)); W.call('AddVarToGrid',W.g,f'new{extra}','i' if k==3 else '','',ret='v')
                else: k=2; W.call('realloc_gridvariables',W.g,s.ni+2,ret='v'); W.call('AddVar',f'new{extra}','', '',ret='v'); W.call('AddVar',f'newb{extra}','', '',ret='v')
                extra+=1; s.ni+=k
                for row in s.own: row+=[None]*k
            elif 'list' in o:
                vl=W.call('vlalloc',W.g,ret='p'); cs=[r.choice(allc) for _ in range(r.randint(0,3))]
                for x in cs: W.call('vlpushone',vl,x,ret='v')
                W.call(o,vl,ret='v')
                for x in cs:
                    for q in range(3): m(q,x)
                W.call('vlfree',vl,ret='v'); W.call(o,None,ret='v')
            else:
                for _ in range(rep()):
                    if o.endswith('var'): W.call(o,W.g,i,ret='v'); [m(q,i+k) for q in range(3) for k in range(size[i])]
                    elif o.endswith('varcomp'): W.call(o,W.g,c,ret='v'); [m(q,c) for q in range(3)]
                    elif o.endswith('var_inbox'): W.call(o,s.box(b),i,ret='v'); [m(b,i+k) for k in range(size[i])]
                    else: W.call(o,s.box(b),c,ret='v'); m(b,c)
            s.check(o); ctx.ieq('count of enabled variables',s.nen()-n0,s.count())
            if r.random()<.3: s.fill(r)
        g2=W.call('make_empty_grid',s.ni,0,ret='p'); e=St18(ctx,g2); ctx.ieq('an empty grid has no storage',e.count(),0)
        for _ in (0,1):
            W.call('enablesamevars',W.g,g2,ret='v'); e.own=[[None if x is None else [0.]*len(x) for x in row] for row in s.own]; e.check('enablesamevars'); s.check('source of enablesamevars')
        W.call('free_grid',g2,ret='v')
        if ctx.sym:
            for p in e.ptr.values(): ctx.true('free_grid releases the storage',p.o.freed)
        s.check('other grid after free_grid')
    return f
# ------------------------------------------------------------------ copies of grids
def words(ctx,box):
    """members of a box that are not pointers to something the box owns"""
    W=ctx.W; off={W.call('vs_boxoff',k) for k in range(22)}; n=W.call('vs_boxsize')
    if ctx.sym: return {k:(v[0],v[1]) for k,v in box.o.cells.items() if k not in off and v[0] is not None and v[0]!=0}
    raw=ctypes.string_at(int(box),n); return {k:raw[k:k+8] for k in range(0,n,8) if k not in off}
def faces_of(ctx,s,nb): return [F(ctx,b) for b in range(nb)]
def setup(ctx,r):
    """arbitrary contents everywhere in the grid"""
    W=ctx.W; s=St18(ctx)
    for b in range(3):
        for i in range(W.ind('ua'),W.ind('ud')+1):
            if r.random()<.6: W.call('enablevarcomp_inbox',s.box(b),i,ret='v'); s.enable(b,i)
    for _ in range(12): s.fill(r)
    D={}
    for b in range(3):
        B=s.box(b)
        for w in range(6):
            for d in (1,2,3):
                n=N3[b][d-1]; M=W.call('vs_mat',B,w,d,ret='p'); D[b,w,d]=[ctx.var(f'm{b}{w}{d}{k}',-1,1) for k in range(n*n)]
                if not ctx.sym: D[b,w,d]=[W.num(x) for x in D[b,w,d]]
                for k in range(n*n): W.set(M,k,D[b,w,d][k])
        for i in range(6):
            x=ctx.var(f'bb{b}{i}',-3,3); W.call('vs_setbbox',B,i,x if ctx.sym else W.num(x),ret='v'); W.call('vs_setibbox',B,i,r.randint(0,9),ret='v')
        for i in range(10): W.call('vs_setattr',B,i,r.randint(-3,9),ret='v')
        for i in range(1,4): W.call('vs_setperiodic',B,i,r.randint(0,1),ret='v')
        for k in range(s.nn[b]):
            for w in (0,1): W.call('vs_setnode',B,k,w,r.randint(0,99),ret='v')
    fs=[F(ctx,b) for b in range(3)]
    for x in fs:
        for _ in range(r.randint(0,3)):
            h=r.randrange(6); fi=W.call('add_empty_bface',x.box,h); d=x.new(h); x.m.append(d)
            for n in ('ob','ofi','oXi','oYi','oZi','flags'):
                if r.random()<.7: v=r.randint(-1,40); W.set(x.face(fi),{'ob':8,'ofi':9,'oXi':10,'oYi':11,'oZi':12,'flags':13}[n],v,'i'); d[n]=v
            for _ in range(r.randint(0,3)): v=gi(ctx,f'fp{x.b}{fi}{r.random()}',0,9); W.call('add_point_to_bface_inbox',x.box,fi,v,h); d['pts']=(d['pts'] or [])+[v]
    t=ctx.var('time',0,9); dt=ctx.var('dt',0,1); W.call('vs_settime',W.g,t if ctx.sym else W.num(t),ret='v'); W.call('vs_setdt',W.g,dt if ctx.sym else W.num(dt),ret='v'); W.call('vs_setiter',W.g,17,ret='v')
    return s,D,fs,(t if ctx.sym else W.num(t)),(dt if ctx.sym else W.num(dt))
def copies(seed):
    def f(ctx):
        import random
        W=ctx.W; r=random.Random(seed) if ctx.sym else ctx.rng; s,D,fs,t,dt=setup(ctx,r); off=r.choice((None,None,0,2))
        if off is not None: W.call('vs_setinactive',s.box(off),1,ret='v'); W.call('set_ninactive',W.g,ret='v')
        def geometry(g,what):
            for b in range(3):
                B0,B1=s.box(b),W.call('vs_box',g,b,ret='p'); w0,w1=words(ctx,B0),words(ctx,B1); ctx.true(f'{what}: same members',set(w0)==set(w1),(set(w0)^set(w1)))
                for k in w0:
                    if k not in w1: continue
                    x,y=w0[k],w1[k]
                    if ctx.sym and isinstance(x[0],T.Term): ctx.eq(f'{what}: real members',y[0],x[0])
                    else: ctx.true(f'{what}: members',x==y,(b,k,x,y))
                ctx.true(f'{what}: own grid',W.call('vs_grid',B1,ret='p')==g)
                for w in range(6):
                    for d in (1,2,3):
                        M0,M1=W.call('vs_mat',B0,w,d,ret='p'),W.call('vs_mat',B1,w,d,ret='p'); ctx.true(f'{what}: matrix of its own',M0!=M1)
                        for k,x in enumerate(D[b,w,d]): ctx.eq(f'{what}: matrix',W.get(M1,k),x); ctx.eq('matrix of the source',W.get(M0,k),x)
                for k in range(s.nn[b]):
                    for w in (0,1): ctx.ieq(f'{what}: node',W.call('vs_node',B1,k,w),W.call('vs_node',B0,k,w))
                x=fs[b]; ctx.ieq(f'{what}: number of faces',W.call('vs_nbfaces',B1),len(x.m))
                for k,d in enumerate(x.m): x.cmp(f'{what}: face',W.call('vs_bface',B1,k,ret='p'),d,k,g)
                x.check('faces of the source')
            ctx.true(f'{what}: grid',[W.call('vs_gridinfo',g,k) for k in range(4)]==[W.call('vs_gridinfo',W.g,k) for k in range(4)]); ctx.eq(f'{what}: time',W.call('vs_time',g,ret='d'),t); ctx.eq(f'{what}: dt',W.call('vs_dt',g,ret='d'),dt)
        g1=W.call('make_empty_grid',s.ni,0,ret='p'); e=St18(ctx,g1)
        for _ in (0,1): W.call('copy_grid_withoutvars',W.g,g1,0); geometry(g1,'copy_grid_withoutvars'); e.check('copy without variables'); s.check('source')
        g2=W.call('make_empty_grid',s.ni,0,ret='p'); e2=St18(ctx,g2)
        for _ in (0,1):
            W.call('copy_grid',W.g,g2,0); geometry(g2,'copy_grid')
            e2.own=[[None if x is None else list(x) if b!=off else [0.]*len(x) for x in row] for b,row in enumerate(s.own)]; e2.check('copy_grid'); s.check('source of copy_grid')
        # one variable
        i=W.ind('ucxx')+r.randrange(6); s.fill(r); s.fill(r); keep=[row[i] for row in e2.own]
        W.call('copy_gridvar',i,W.g,g2)
        for b in range(3):
            if b!=off and s.own[b][i] is not None: e2.own[b][i]=list(s.own[b][i])
        e2.check('copy_gridvar'); s.check('source of copy_gridvar')
        # shared variables
        W.call('activate_allboxes',g1,ret='v'); W.call('point_grid_tosamevars',W.g,g1,0)
        for b in range(3):
            for q in range(s.ni): ctx.true('point_grid_tosamevars',(null(e.v(b,q)) and null(s.v(b,q))) or e.v(b,q)==s.v(b,q))
        W.call('set_gridvars_toNULL',g1,0); e.check('set_gridvars_toNULL'); s.check('source of point_grid_tosamevars'); W.call('free_grid',g1,ret='v'); s.check('after the copy is freed'); e2.check('the other copy'); W.call('free_grid',g2,ret='v'); s.check('after all copies are freed')
    return f
W0=(lambda: mk(True),lambda: mk(False))
cases=[]
def add(name,fn,**k): cases.append(Case(name,fn,base=W0[0],rbase=W0[1],group='grid',real=k.pop('real',12),**k))
for w,N in LOOPS: add(f'{NAME[w]} N={N} any size',symplane(w,N),**(dict(bounded='at most 4 planes, any size in the plane') if w>3 else {}))
for w,N in LOOPS+[(6,1),(7,2),(8,3)]: add(f'{NAME[w]} N={N} all small sizes',enum(w,N,3),bounded='all sizes up to 3x3x3',real=1)
add('index macros',index,bounded='inverse: sizes up to 5x5x5',real=1)
add('box and point loops',boxes,bounded='3 boxes'); add('point list loops',plists,maxpaths=1000,bounded='up to 3 points in each of 3 boxes')
for k in range(6): add(f'storage history {k}',storage(k,14),bounded='14 operations (42 natively) on 3 boxes')
for k in range(4): add(f'grid copies {k}',copies(k),bounded='3 boxes')
if __name__=='__main__':
    main('C18',cases,level='proof',assumptions=['malloc succeeds','real arithmetic','grids that are copied have the same boxes'])
