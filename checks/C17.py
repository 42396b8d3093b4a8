"""C17  Integer lists, box lists, point lists and sparse vectors.  Every operation runs as written on a list of symbolic integers (all
patterns of equalities are followed) and is compared with the operation on the Python list it denotes; operations start from every
representation the operations can leave (also with room left behind dropped entries), so the contract of an operation composes to
histories.  Memory is bounds and lifetime checked.  Longer histories of operations on several lists are run in both layers."""
import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib')
from phys import *
from exec import ICond
import files, itertools, ctypes, re
def mk(sym,nb=3):
    p={'physics':'ADMvars','boundary':'none','Coordinates_set_bfaces':'no',**boxpars(nb,2)}
    return mkworld(sym,p)
def gi(ctx,name,lo=-3,hi=3):
    """an arbitrary integer"""
    return ctx.W.M.sym(name,lo,hi) if ctx.sym else ctx.rng.randint(lo,hi)
def same(ctx,a,b):
    if type(a) is int and type(b) is int: return a==b
    return bool(ctx.W.M.decide(ICond('eq',a,b)))
def less(ctx,a,b):
    if type(a) is int and type(b) is int: return a<b
    return bool(ctx.W.M.decide(ICond('lt',a,b)))
def null(p): return p is None or p==0
def pick(ctx,name,seq):
    """every element in the deductive layer, a random one natively"""
    if not ctx.sym: return ctx.rng.choice(list(seq))
    seq=list(seq)
    if len(seq)==1: return seq[0]
    x=ctx.W.M.sym('pick_'+name,0,len(seq)-1)
    return next(q for k,q in enumerate(seq) if ctx.W.M.decide(ICond('eq',x,k)))
class L:
    """an intList under contract and the Python list it denotes"""
    def __init__(s,ctx,e=(),room=0):
        s.c=ctx; s.W=ctx.W; s.p=s.W.call('alloc_intList',ret='p'); s.m=[]
        ctx.ieq('an allocated list is empty',s.W.get(s.p,0,'i'),0)
        for x in e: s.W.call('push_intList',s.p,x,ret='v'); s.m.append(x)
        for k in range(room): s.W.call('push_intList',s.p,k,ret='v')
        if room: s.W.call('droplastn_intList',s.p,room,ret='v')
    def check(s,what):
        s.c.ieq(f'{what}: length',s.W.get(s.p,0,'i'),len(s.m))
        e=s.W.get(s.p,1,'p')
        for k,x in enumerate(s.m): s.c.ieq(f'{what}: entry',s.W.get(e,k,'i'),x)
    def free(s): s.W.call('free_intList',s.p,ret='v')
    def i_in(s,x): return any(same(s.c,y,x) for y in s.m)
    def index(s,x): return next((k for k,y in enumerate(s.m) if same(s.c,y,x)),-1)
    def drop(s,x):
        k=s.index(x)
        if k>=0: del s.m[k]
    def do(s,op,*a):
        W=s.W; c=s.c; r=None
        if op=='push': W.call('push_intList',s.p,a[0],ret='v'); s.m.append(a[0])
        elif op=='pushlist': W.call('pushlist_intList',s.p,a[0].p,ret='v'); s.m+=a[0].m
        elif op=='unionpush':
            W.call('unionpush_intList',s.p,a[0],ret='v')
            if not s.i_in(a[0]): s.m.append(a[0])
        elif op=='unionpushlist':
            W.call('unionpushlist_intList',s.p,a[0].p,ret='v')
            for x in list(a[0].m):
                if not s.i_in(x): s.m.append(x)
        elif op=='dropindex':
            W.call('dropindex_intList',s.p,a[0],ret='v')
            if 0<=a[0]<len(s.m): del s.m[a[0]]
        elif op=='drop': W.call('drop_intList',s.p,a[0],ret='v'); s.drop(a[0])
        elif op=='droplastn':
            W.call('droplastn_intList',s.p,a[0],ret='v')
            if a[0]>0: s.m=s.m[:max(0,len(s.m)-a[0])]
        elif op=='droplist':
            W.call('droplist_intList',s.p,a[0].p,ret='v')
            for x in list(a[0].m): s.drop(x)
        elif op=='clear': W.call('clear_intList',s.p,ret='v'); s.m=[]
        elif op=='duplicate':
            n=L.__new__(L); n.c,n.W,n.m=c,W,list(s.m); n.p=W.call('duplicate_intList',s.p,ret='p'); r=n; n.check('duplicate')
            n.do('push',7); n.do('dropindex',0); s.check('source of a changed duplicate')
        elif op=='in': c.ieq('in',W.call('in_intList',s.p,a[0]),int(s.i_in(a[0])))
        elif op=='index': c.ieq('index',W.call('index_intList',s.p,a[0]),s.index(a[0]))
        elif op=='index_prop':
            par=W.iarr([0]); W.set(par,0,a[0],'i') if not c.sym else W.M.store(par,a[0],4)
            k=next((k for k in range(max(a[1],0),len(s.m)) if less(c,s.m[k],a[0])),-1)
            if c.sym:
                def st(M,v,p): return int(M.decide(ICond('lt',v,M.load(p,4,'i'))))
                W.M.stubs['prop17']=st; f=world.FP('prop17')
            else:
                cb=ctypes.CFUNCTYPE(ctypes.c_int,ctypes.c_int,ctypes.POINTER(ctypes.c_int))(lambda v,p: int(v<p[0])); W.keep.append(cb); f=world.RP(ctypes.cast(cb,ctypes.c_void_p).value)
            c.ieq('index_prop',W.call('index_prop_intList',s.p,a[1],f,par),k)
        s.check(op); return r
ONE=('push','unionpush','drop','in','index'); LST=('pushlist','unionpushlist','droplist'); NUM=('dropindex','droplastn')
def op(name,nmax,mmax=2):
    def f(ctx):
        n=pick(ctx,'n',range(nmax+1)); room=pick(ctx,'room',(0,1,2)); v=L(ctx,[gi(ctx,f'v{k}') for k in range(n)],room)
        if name in LST:
            m=pick(ctx,'m',range(mmax+1)); u=L(ctx,[gi(ctx,f'u{k}') for k in range(m)],pick(ctx,'room2',(0,1))); v.do(name,u); u.check('argument list'); u.free()
        elif name in NUM: v.do(name,pick(ctx,'i',range(-1,n+2)))
        elif name in('clear','duplicate'):
            d=v.do(name)
            if d: d.free()
        elif name=='index_prop': v.do(name,gi(ctx,'x'),pick(ctx,'i0',range(-1,n+2)))
        else: v.do(name,gi(ctx,'x'))
        v.free()
    return f
def history(seed,steps,nsym):
    """operations on three lists, the arguments partly symbolic"""
    def f(ctx):
        import random
        r=random.Random(seed) if ctx.sym else ctx.rng; ls=[L(ctx) for _ in range(3)]; left=[nsym]
        def num():
            if ctx.sym and left[0] and r.random()<.3: left[0]-=1; return gi(ctx,f'h{left[0]}',0,4)
            return r.randint(0,4)
        for _ in range(steps if ctx.sym else 6*steps):
            i=r.randrange(3); v=ls[i]; o=r.choice(ONE+LST+NUM+('push',)*3+('index_prop','duplicate','clear' if r.random()<.3 else 'push'))
            if o in LST: v.do(o,ls[(i+r.randint(1,2))%3])
            elif o in NUM: v.do(o,r.randint(-1,5))
            elif o=='index_prop': v.do(o,num(),r.randint(-1,4))
            elif o=='duplicate': ls[i]=v.do(o); v.free()
            elif o=='clear': v.do(o)
            else: v.do(o,num())
        for v in ls: v.check('end'); v.free()
    return f
# ------------------------------------------------------------------ point lists
class P:
    def __init__(s,ctx,nb,p=None):
        s.c=ctx; s.W=ctx.W; s.nb=nb; s.p=p or s.W.call('AllocatePointList',s.W.g,ret='p'); s.m=[[] for _ in range(nb)]; s.b=[]
    def check(s,what):
        W=s.W; c=s.c; g=lambda k,kind: W.get(s.p,k,kind)
        np_,pt,bl,nb=g(1,'p'),g(2,'p'),g(3,'p'),g(8,'i'); c.true(f'{what}: grid',W.get(s.p,0,'p')==s.g if hasattr(s,'g') else W.get(s.p,0,'p')==W.g)
        for b in range(s.nb):
            c.ieq(f'{what}: number of points',W.get(np_,b,'i'),len(s.m[b])); q=W.get(pt,b,'p')
            for k,x in enumerate(s.m[b]): c.ieq(f'{what}: point',W.get(q,k,'i'),x)
        boxes=[W.get(bl,k,'i') for k in range(nb)]
        c.true(f'{what}: box list has no duplicates',len(set(boxes))==len(boxes),boxes)
        c.true(f'{what}: every box with points is in the box list, boxes never used are not',set(b for b in range(s.nb) if s.m[b])<=set(boxes)<=set(s.b),(boxes,s.b))
    def add(s,b,x): s.W.call('AddToPointList',s.p,b,x,ret='v'); s.m[b].append(x); s.b.append(b)
    def rm(s,b,x):
        k=next((k for k,y in enumerate(s.m[b]) if same(s.c,y,x)),-1)
        if k>=0: del s.m[b][k]
    def drop(s,b,x): s.W.call('DropFromPointList',s.p,b,x,ret='v'); s.rm(b,x)
    def droplist(s,b,xs):
        l=L(s.c,xs); s.W.call('DropListFromPointList',s.p,b,l.p,ret='v')
        for x in xs: s.rm(b,x)
        l.check('argument'); l.free()
    def dup(s,how):
        W=s.W
        if how: q=W.call('DuplicatePointList_for_grid',s.p,W.g2,ret='p')
        else: q=W.call('DuplicatePointList',s.p,ret='p')
        n=P(s.c,s.nb,q); n.m=[list(x) for x in s.m]; n.b=list(s.b)
        if how: n.g=W.g2
        elif hasattr(s,'g'): n.g=s.g
        n.check('duplicate'); n.add(s.nb-1,0); n.drop(0,0); s.check('source of a changed duplicate'); return n
    def free(s): s.W.call('FreePointList',s.p,ret='v')
def points(seed,nb,steps,nsym):
    def f(ctx):
        import random
        W=ctx.W; r=random.Random(seed) if ctx.sym else ctx.rng; W.g2=W.call('make_empty_grid',W.call('vs_nvariables',W.g),0,ret='p') if False else W.call('alloc_grid',nb,W.call('vs_nvariables',W.g),ret='p')
        s=P(ctx,nb); left=[nsym]; s.check('allocated')
        def num():
            if ctx.sym and left[0] and r.random()<.4: left[0]-=1; return gi(ctx,f'p{left[0]}',0,5)
            return r.randint(0,5)
        for _ in range(steps if ctx.sym else 5*steps):
            o=r.choice(('add',)*4+('drop','droplist','dup')); b=r.randrange(nb)
            if o=='add': s.add(b,num())
            elif o=='drop': s.drop(b,num())
            elif o=='droplist': s.droplist(b,[num() for _ in range(r.randint(0,2))])
            else: n=s.dup(r.randrange(2) and not hasattr(s,'g')); s.free(); s=n
            s.check(o)
        ctx.true('no duplicate of nothing',null(W.call('DuplicatePointList',None,ret='p')) and null(W.call('DuplicatePointList_for_grid',None,W.g,ret='p')))
        s.free(); W.call('FreePointList',None,ret='v')
    return f
def blist(ctx):
    """addto_blist on its own: arbitrary contents"""
    n=pick(ctx,'n',range(4)); e=[gi(ctx,f'b{k}',0,6) for k in range(n)]; x=gi(ctx,'x',0,6); W=ctx.W
    p=W.iarr([0]*(n+1))
    for k in range(n): W.M.store(at(p,k),e[k],4) if ctx.sym else W.set(p,k,e[k],'i')
    got=W.call('addto_blist',x,p,n); new=not any(same(ctx,y,x) for y in e); w=e+[x] if new else e
    ctx.ieq('length',got,len(w))
    for k,y in enumerate(w): ctx.ieq('entry',W.get(p,k,'i'),y)
from exec import Ptr
def at(p,k): return Ptr(p.o,p.f+4*k)
# ------------------------------------------------------------------ box lists
def attribs(ctx):
    W=ctx.W; nb=3; A=[]
    for b in range(nb):
        box=W.call('vs_box',W.g,b,ret='p'); row=[gi(ctx,f'a{b}{i}',0,2) for i in (4,9)]; A.append(row)
        for i,x in zip((4,9),row): W.call('vs_setattr',box,i,x,ret='v')
    k=pick(ctx,'i',(0,1)); x=gi(ctx,'val',0,2); off=pick(ctx,'inactive',(None,0,2))
    if off is not None: W.call('vs_setinactive',W.call('vs_box',W.g,off,ret='p'),1,ret='v')
    for fn in ('bladd_ifAttrib','bladd_ifnotAttrib'):
        l=L(ctx,[5]); want=[b for b in range(nb) if b!=off and same(ctx,A[b][k],x)==(fn=='bladd_ifAttrib')]
        r=W.call(fn,W.g,(4,9)[k],x,l.p); l.m+=want; l.check(fn); ctx.ieq(f'{fn}: returned length',r,len(l.m)); l.free()
    for fn in ('bl2_ifAttrib','bl2_ifnotAttrib'):
        a=L(ctx,[2,0,2,1]); l=L(ctx,[5]); want=[b for b in a.m if same(ctx,A[b][k],x)==(fn=='bl2_ifAttrib')]
        r=W.call(fn,W.g,a.p,(4,9)[k],x,l.p); l.m+=want; l.check(fn); a.check('argument'); ctx.ieq(f'{fn}: returned length',r,len(l.m)); l.free(); a.free()
def neighbours(seed):
    def f(ctx):
        import random
        W=ctx.W; r=random.Random(seed) if ctx.sym else ctx.rng; nb=6; G=[]
        for b in range(nb):
            box=W.call('vs_box',W.g,b,ret='p'); row=[]
            ctx.ieq('no faces yet',W.call('vs_nbfaces',box),0)
            for k in range(r.randint(0,4)):
                fi=W.call('add_empty_bface',box,r.randrange(6)); ctx.ieq('face index',fi,k); q=W.call('vs_bface',box,fi,ret='p'); o=r.choice([-1]+[x for x in range(nb) if x!=b]); W.set(q,8,o,'i'); row.append(o)
            G.append(row)
        def nbs(b,old=()):
            l=list(old)
            for o in G[b]:
                if o>=0 and o not in l: l.append(o)
            return l
        for b in range(nb):
            box=W.call('vs_box',W.g,b,ret='p'); old=[r.randrange(nb)] if r.random()<.5 else []
            l=L(ctx,old); n=W.call('bladd_neighbors',box,l.p); l.m=nbs(b,old); l.check('neighbours'); ctx.ieq('returned length',n,len(l.m)); l.free()
            l=L(ctx,old); n=W.call('bladd_neighbors_of_neighbors',box,l.p); nn=[]
            for x in nbs(b):
                for y in nbs(x):
                    if y not in nn: nn.append(y)
            got=[W.get(W.get(l.p,1,'p'),k,'i') for k in range(n)]
            ctx.true('neighbours of neighbours: box list',got[:len(old)]==old and sorted(got[len(old):])==sorted(x for x in nn if x!=b and x not in nbs(b)) and W.get(l.p,0,'i')==n,(b,G,got)); l.free()
    return f
# ------------------------------------------------------------------ faces of a box
INTS={'b':2,'f':3,'fi':4,'ob':8,'ofi':9,'oXi':10,'oYi':11,'oZi':12,'flags':13}
class F:
    """list of faces of one box: each a dict of its entries and its points (None: no point list)"""
    def __init__(s,ctx,b): s.c=ctx; s.W=ctx.W; s.b=b; s.box=s.W.call('vs_box',s.W.g,b,ret='p'); s.m=[]
    def face(s,k): return s.W.call('vs_bface',s.box,k,ret='p')
    def new(s,f): return dict(b=s.b,f=f,ob=-1,ofi=-1,oXi=-1,oYi=-1,oZi=-1,flags=0,pts=None)
    def cmp(s,what,q,d,fi,g):
        W=s.W; s.c.true(f'{what}: grid',W.get(q,0,'p')==g)
        for k,i in INTS.items(): s.c.ieq(f'{what}: {k}',W.get(q,i,'i'),fi if k=='fi' else d[k])
        pl=W.get(q,3,'p'); s.c.true(f'{what}: point list exists',null(pl)==(d['pts'] is None))
        if d['pts'] is not None and not null(pl):
            s.c.true(f'{what}: grid of the points',W.get(pl,0,'p')==g); n=W.get(W.get(pl,1,'p'),s.b,'i'); s.c.ieq(f'{what}: number of points',n,len(d['pts'])); a=W.get(W.get(pl,2,'p'),s.b,'p')
            for k,x in enumerate(d['pts']): s.c.ieq(f'{what}: point',W.get(a,k,'i'),x)
            for b in range(3):
                if b!=s.b: s.c.ieq(f'{what}: no points in other boxes',W.get(W.get(pl,1,'p'),b,'i'),0)
    def check(s,what):
        s.c.ieq(f'{what}: number of faces',s.W.call('vs_nbfaces',s.box),len(s.m))
        for k,d in enumerate(s.m): s.cmp(what,s.face(k),d,k,s.W.g)
def faces(seed,steps):
    def f(ctx):
        import random
        W=ctx.W; r=random.Random(seed) if ctx.sym else ctx.rng; S=[F(ctx,b) for b in range(3)]; W.g2=W.call('alloc_grid',3,W.call('vs_nvariables',W.g),ret='p')
        for s in S: s.check('empty'); ctx.ieq('nothing to remove',W.call('remove_bface',s.box,0),0)
        for t in range(steps if ctx.sym else 4*steps):
            s=S[r.randrange(3)]; o=r.choice(('add',)*3+('point',)*5+('set','remove','null','dup','free')); k=r.randrange(len(s.m)) if s.m else -1
            if o=='add':
                x=r.randrange(6); ctx.ieq('new index',W.call('add_empty_bface',s.box,x),len(s.m)); s.m.append(s.new(x))
            elif o=='point':
                x=gi(ctx,f't{t}',0,7); fi=r.choice((k,k,k,-1,len(s.m))); h=r.randrange(6) if fi<0 or fi>=len(s.m) or r.random()<.3 else s.m[fi]['f']
                got=W.call('add_point_to_bface_inbox',s.box,fi,x,h)
                if fi<0 or fi>=len(s.m): fi=len(s.m); s.m.append(s.new(h))
                d=s.m[fi]; d['pts']=(d['pts'] or [])+[x]; d['f']=h if d['f']==h else -1; ctx.ieq('face the point went to',got,fi)
            elif o=='set' and k>=0:
                n=r.choice(('ob','ofi','oXi','oYi','oZi','flags')); v=r.randint(0,5); W.set(s.face(k),INTS[n],v,'i'); s.m[k][n]=v
            elif o=='remove':
                i=r.choice((k,k,-1,len(s.m))); ctx.ieq('removed',W.call('remove_bface',s.box,i),int(0<=i<len(s.m)))
                if 0<=i<len(s.m): del s.m[i]
            elif o=='null':
                ctx.ieq('number of faces without points',W.call('remove_bfaces_with_NULL_fpts',s.box),sum(d['pts'] is None for d in s.m)); s.m=[d for d in s.m if d['pts'] is not None]
            elif o=='dup' and k>=0:
                q=W.call('duplicate_bface_for_grid',s.face(k),W.g2,ret='p'); s.cmp('duplicate',q,s.m[k],k,W.g2); W.call('free_bface',q,ret='v')
                q=W.call('duplicate_bface_without_fpts_for_grid',s.face(k),W.g2,ret='p'); s.cmp('duplicate without points',q,dict(s.m[k],pts=None),k,W.g2); W.call('free_bface',q,ret='v')
            elif o=='free' and r.random()<.3: W.call('free_all_bfaces',s.box,ret='v'); s.m=[]
            for x in S: x.check(o)
    return f
# ------------------------------------------------------------------ sparse vectors
class SV:
    def __init__(s,ctx,p=None): s.c=ctx; s.W=ctx.W; s.p=p or s.W.call('AllocateSparseVector',ret='p'); s.m=[]
    def add(s,k,x,how=0): s.W.call(('AddToSparseVector','AddToSparseVector_critical')[how],s.p,k,x,ret='v'); s.m.append((k,x))
    def check(s):
        W=s.W; s.c.ieq('entries',W.get(s.p,0,'i'),len(s.m)); p,v=W.get(s.p,1,'p'),W.get(s.p,2,'p')
        for k,(q,x) in enumerate(s.m): s.c.ieq('position',W.get(p,k,'i'),q); s.c.eq('value',W.get(v,k),x)
def sparse(nmax):
    def f(ctx):
        W=ctx.W; n=pick(ctx,'n',range(nmax+1)); s=SV(ctx)
        for k in range(n):
            q=gi(ctx,f'q{k}',0,6)
            if any(same(ctx,q,y) for y,_ in s.m): continue
            s.add(q,ctx.var(f'x{k}',-2,2) if ctx.sym else W.num(ctx.var(f'x{k}',-2,2)),k%2); s.check()
        c=gi(ctx,'c',0,6); w=next((x for q,x in s.m if same(ctx,q,c)),T.ZERO if ctx.sym else 0.)
        ctx.eq('component',W.call('GetSparseVectorComponent',s.p,c,ret='d'),w); s.check(); W.call('FreeSparseVector',s.p,ret='v'); W.call('FreeSparseVector',None,ret='v')
    return f
def build(ctx,r,n,m,dup):
    W=ctx.W; A=W.call('AllocateSparseVectorArray',n,ret='p'); R=[]; D=[[0]*m for _ in range(n)]; t=0
    for i in range(n):
        s=SV(ctx,W.get(A,i,'p')); s.check(); R.append(s)
    for _ in range(r.randint(0,2*n+2)):
        i,j=r.randrange(n),r.randrange(m)
        if not dup and any(q==j for q,_ in R[i].m): continue
        x=ctx.var(f'a{t}',-2,2); x=x if ctx.sym else W.num(x); t+=1; R[i].add(j,x); D[i][j]=D[i][j]+x
    return A,R,D
def matvec(seed):
    def f(ctx):
        import random
        W=ctx.W; r=random.Random(seed) if ctx.sym else ctx.rng
        for n,m in ((3,3),(4,4),(1,1),(3,5)):
            A,R,D=build(ctx,r,n,m,True); x=[ctx.var(f'x{n}{m}{k}',-2,2) for k in range(max(n,m))]; x=x if ctx.sym else [W.num(q) for q in x]
            X=W.arr(x); F=W.arr([9.]*(n+1)); W.call('SparseMatrixLines_times_vector',A,n,X,F,ret='v')
            for i in range(n): ctx.eq('A x',W.get(F,i),sum((D[i][j]*x[j] for j in range(m)),T.ZERO if ctx.sym else 0.))
            ctx.eq('nothing else written',W.get(F,n),9.)
            if n==m:
                for fn in ('vector_times_SparseMatrixLines','SparseMatrixLinesTranspose_times_vector'):
                    F=W.arr([9.]*(n+1)); args=(X,A,n,F) if fn[0]=='v' else (A,n,X,F); W.call(fn,*args,ret='v')
                    for j in range(n): ctx.eq('x^T A',W.get(F,j),sum((D[i][j]*x[i] for i in range(n)),T.ZERO if ctx.sym else 0.))
                    ctx.eq('nothing else written',W.get(F,n),9.)
            for s in R: s.check()
            for k,v in enumerate(x): ctx.eq('x kept',W.get(X,k),v)
            W.call('FreeSparseVectorArray',A,n,ret='v')
        W.call('FreeSparseVectorArray',None,3,ret='v')
    return f
def cs(ctx,x):
    if ctx.sym: return ctx.W.M.newstr(x)
    b=ctypes.create_string_buffer(x.encode()); ctx.W.keep.append(b); return world.RP(ctypes.addressof(b))
def market(ctx):
    S=files.Store(ctx); W=ctx.W; r=ctx.rng
    for col in (0,1):
        n,m=4,5; A=W.call('AllocateSparseVectorArray',n,ret='p'); E={}
        for t in range(9):
            i,j=r.randrange(n),r.randrange(m); j=m-1 if not t else j
            if (i,j) in E: continue
            v=r.uniform(-1,1)*10**r.randint(-20,20); E[i,j]=v; W.call('AddToSparseVector',W.get(A,i,'p'),j,v,ret='v')
        nm=f'm{col}'; ctx.ieq('returned',W.call('write_SparseVectorArray_inMatrixMarketFormat',cs(ctx,f'{S.dir}/{nm}'),A,n,col),0)
        t=S.read(nm); t=(t if isinstance(t,bytes) else bytes(t) if t and type(t[0]) is int else str(t).encode()).decode(); ls=t.split('\n'); ctx.true('banner',ls[0].split()==['%%MatrixMarket','matrix','coordinate','real','general'],ls[0])
        ls=[l.split() for l in ls if l and l[0]!='%']; ctx.true('size line',[int(x) for x in ls[0]]==([m,n] if col else [n,m])+[len(E)],ls[0])
        got={(int(a)-1,int(b)-1):float(x) for a,b,x in ls[1:]}; want={((j,i) if col else (i,j)):v for (i,j),v in E.items()}
        ctx.true('positions',set(got)==set(want) and len(ls)==1+len(E),(got,want))
        for k in want: ctx.true('values',abs(got.get(k,0)-want[k])<=1e-14*abs(want[k]),(got.get(k),want[k]))
W0=(lambda: mk(True),lambda: mk(False)); W6=(lambda: mk(True,6),lambda: mk(False,6))
cases=[]
def add(name,fn,w=W0,g='lists',**k): cases.append(Case(name,fn,base=w[0],rbase=w[1],group=g,real=k.pop('real',12),**k))
for o in ONE+LST+NUM+('clear','duplicate','index_prop'):
    add(f'intList {o}',op(o,3 if o in LST else 4),bounded='lengths up to 3 and 2' if o in LST else 'length up to 4',maxpaths=20000)
for k in range(6): add(f'intList history {k}',history(k,14,4),bounded='14 operations (84 natively)',maxpaths=20000)
for k in range(6): add(f'point list history {k}',points(k,3,10,3),bounded='10 operations (50 natively), 3 boxes',maxpaths=20000)
add('addto_blist',blist,bounded='up to 3 boxes')
add('box lists by attribute',attribs,bounded='3 boxes',maxpaths=20000)
for k in range(4): add(f'neighbours {k}',neighbours(k),W6,'nb',bounded='6 boxes')
for k in range(5): add(f'face list history {k}',faces(k,14),bounded='14 operations (56 natively)')
add('sparse vector',sparse(4),bounded='up to 4 entries',maxpaths=20000)
for k in range(4): add(f'sparse matrix times vector {k}',matvec(k),bounded='up to 4 lines')
add('matrix market file',market,bounded='up to 9 entries')
if __name__=='__main__':
    main('C17',cases,level='other',assumptions=['malloc succeeds','real arithmetic','integers of the contents are arbitrary, lengths are bounded per case','lists are not passed as both arguments of a list operation'])
