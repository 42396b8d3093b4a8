"""C26  Box faces.  (1) Transfer: the routines that set F = u(box) - u(other box) (or the difference of the normal derivatives) through a
face record run as written on arbitrary fields of arbitrary boxes, arbitrary points of the face and arbitrary coordinates oX,oY,oZ in the
other box, and are compared with Lagrange interpolation at those coordinates.  (2) The routines that complete the records (pairing, flags,
indices) run on every small arrangement of records and are compared with what the record has to say.  (3) Whole layouts: the set-up runs
on grids of all kinds, with the sizes drawn at random, and every record, point and coordinate is compared with the geometry."""
import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib')
from spec import *
from C17 import pick,same,INTS,gi
from exec import ICond
import ctypes,collections,files
WORD=13
BITS=('touch','sameX','sameY','sameZ','same_fpts','fpts_off_face','setnormalderiv','innerbound','outerbound')
def word(**k): return sum(int(bool(v))<<BITS.index(n) for n,v in k.items())
SH=((3,4,3),(4,3,4),(3,4,4))
def mkt(sym):
    p={'physics':'ADMvars','boundary':'none','nboxes':'3','Coordinates_set_bfaces':'no'}
    for b,n in enumerate(SH):
        for k in (1,2,3): p.update({f'box{b}_n{k}':str(n[k-1]),f'box{b}_basis{k}':'ChebExtrema',f'box{b}_min{k}':str(.5*b-.25*k),f'box{b}_max{k}':str(1.+.75*b+.5*k)})
    W=mkworld(sym,p,extra=lambda W:[W.call('AddVar',n,t,'',ret='v') for n,t in (('vF',''),('vP',''),('vQ','i'))])
    if sym: W.M.forkselect=True
    if sym: W.M.stubs[res('finit')]=lambda M,x: 1
    for n in ('vF','vP','vQx','oX','oY','oZ','X','Y','Z'): W.call('enablevar',W.g,W.ind(n),ret='v')
    return W
NODE={3:[Fr(1),Fr(0),Fr(-1)],4:[Fr(1),Fr(1,2),Fr(-1,2),Fr(-1)]}      # cos(i pi/(n-1))
def lag(n,y,i):
    """Lagrange polynomial of node i; X=(a-b)/2 y+(a+b)/2"""
    r=T.ONE
    for j in range(n):
        if j!=i: r=r*(y-NODE[n][j])*(1/(NODE[n][i]-NODE[n][j]))
    return r
def bb(W,q,d): return [T.lift(x) if isinstance(x,T.Term) else T.const(Fr(x)) for x in (W.call('vs_bbox',q,2*d+e,ret='d') for e in (0,1))]
def off(n,f): return (n[f//2]-1)*(f%2)
def face(n,f): return [i+n[0]*(j+n[1]*k) for k in range(n[2]) for j in range(n[1]) for i in range(n[0]) if (i,j,k)[f//2]==off(n,f)]
KINDS=('copy','same indices','plane 1','plane 2','plane 3','volume','none')
class Tr:
    """two boxes with a record on each"""
    def __init__(s,ctx,kind,norm,frame,fs,periodic=0):
        s.c=ctx; s.W=W=ctx.W; s.kind=kind; s.norm=norm; r=ctx.rng; s.f,s.of=fs; s.b,s.ob=(0,2) if kind=='same indices' else (0,1)
        s.box,s.obox=W.box[s.b],W.box[s.ob]; s.n,s.on=SH[s.b],SH[s.ob]
        s.F=ctx_arr(ctx,s,s.b,'vF','F'); s.P=ctx_arr(ctx,s,s.b,'vP','P'); s.Q=[ctx_arr(ctx,s,s.b,'vQ'+x,'Q'+x) for x in 'xyz']
        s.oF=ctx_arr(ctx,s,s.ob,'vF','oF'); s.oP=ctx_arr(ctx,s,s.ob,'vP','oP'); s.oQ=[ctx_arr(ctx,s,s.ob,'vQ'+x,'oQ'+x) for x in 'xyz']
        # records; a dummy one first, so that indices matter
        def record(b,f,pts,**k):
            q=W.box[b]; W.call('free_all_bfaces',q,ret='v'); W.call('add_empty_bface',q,(f+1)%6); fi=W.call('add_empty_bface',q,f)
            for x in pts: W.call('add_point_to_bface_inbox',q,fi,x,f)
            p=W.call('vs_bface',q,fi,ret='p')
            for m,v in k.items(): W.set(p,INTS[m],v,'i')
            return p
        al,ol=face(s.n,s.f),face(s.on,s.of)
        if kind=='copy': m=min(len(al),len(ol),3)
        else: m=3
        if kind=='same indices':
            s.pts=r.sample([x for x in al if all((x%3,x//3%4,x//12)[d]<s.on[d] for d in range(3))],m)
            def oth(x):
                i=[x%3,x//3%4,x//12]; i[s.of//2]=off(s.on,s.of); return i[0]+s.on[0]*(i[1]+s.on[1]*i[2])
            s.opts=[oth(x) for x in s.pts]
        else: s.pts=r.sample(al,m); s.opts=r.sample(ol,m)
        i=W.ind('oX'); pl={'plane 1':'sameX','plane 2':'sameY','plane 3':'sameZ'}.get(kind)
        fl=dict(copy=dict(touch=1,same_fpts=1),none=dict(outerbound=1),volume=dict()).get(kind)
        if fl is None: fl={'touch':1,**({pl:1} if pl else dict(sameX=1,sameY=1,sameZ=1))}
        # through another box the pairing must come from the record, not from the position: fi of the other box is 1
        s.bf=record(s.b,s.f,s.pts,ob=-1 if kind=='none' else s.ob,ofi=-1 if kind in('none','volume') else 1,oXi=i if kind!='same indices' else -1,oYi=i+1,oZi=i+2)
        W.call('vs_setbfaceword',s.bf,WORD,word(setnormalderiv=norm,**fl),ret='v')
        s.obf=record(s.ob,s.of,s.opts,ob=s.b,ofi=1)
        s.X=[]
        for t,p in enumerate(s.pts):
            x=[]
            for d in range(3):
                a,b=bb(W,s.obox,d); z=a+(b-a)*ctx.var(f'o{t}{d}',.03,.97); z=z if ctx.sym else W.num(z); x.append(z)
                W.set(W.v(s.box,i+d),p,z)
            s.X.append(x)
        # normals
        s.frame=frame; d=s.f//2; keep=[]
        for q in (s.box,s.obox): W.call('vs_setx_of_X',q,1,None,ret='v')
        for j in 'XYZ': W.call('disablevar_inbox',s.box,W.ind(f'd{j}dx'),ret='v')
        vals={}
        if frame!='cart':
            W.call('vs_setx_of_X',s.box,1,world.FP('vx') if ctx.sym else stubfn(W,lambda *a: 0.),ret='v')
            if frame=='stored':
                for e,j in enumerate('XYZ'):
                    W.call('enablevar_inbox',s.box,W.ind(f'd{j}dx'),ret='v')
                    for m in range(3):
                        q=W.v(s.box,W.ind(f'd{j}dx')+m)
                        for t in s.pts:
                            z=ctx.var(f'g{e}{m}{t}',-1.,1.) if m!=e else ctx.var(f'g{e}{m}{t}',.5,1.5); z=z if ctx.sym else W.num(z); vals[e,m,t]=z; W.set(q,t,z)
            else:
                for e in range(3):
                    for m in range(3):
                        if ctx.sym:
                            W.M.stubs[f'vd{e+1}{m+1}']=lambda M,aux,ind,X,Y,Z,e=e,m=m: GS(e,m,X,Y,Z); fp=world.FP(f'vd{e+1}{m+1}')
                        else: fp=stubfn(W,lambda aux,ind,X,Y,Z,e=e,m=m: G(e,m,X,Y,Z))
                        W.call('vs_setdX',s.box,e+1,m+1,fp,ret='v')
                for t in s.pts:
                    xyz=[W.get(W.v(s.box,j),t) for j in 'XYZ']
                    for m in range(3): vals[d,m,t]=GS(d,m,*xyz) if ctx.sym else G(d,m,*xyz)
        s.nv={}
        for t in s.pts:
            v=[T.ZERO]*3; v[d]=T.ONE
            if frame!='cart': v=[T.lift(vals[d,m,t]) for m in range(3)]
            l=T.sqrt(v[0]*v[0]+v[1]*v[1]+v[2]*v[2])*(2*(s.f%2)-1); s.nv[t]=[x/l for x in v]
    def at(s,f,t):
        """value of the field f of the other box at the place of point number t"""
        if s.kind in('copy','same indices'): return T.lift(f[s.opts[t]])
        N=s.on; y=[]; W=s.W
        for d in range(3):
            a,b=bb(W,s.obox,d); y.append((T.lift(s.X[t][d])*2-a-b)/(a-b))
        l=[[lag(N[d],y[d],i) for i in range(N[d])] for d in range(3)]
        if s.kind[:5]=='plane':
            d=int(s.kind[-1])-1; l[d]=[T.ONE if i==off(N,s.of) else T.ZERO for i in range(N[d])]
        return sm(l[0][i]*l[1][j]*l[2][k]*f[i+N[0]*(j+N[1]*k)] for i in range(N[0]) for j in range(N[1]) for k in range(N[2]) if not(l[0][i] is T.ZERO or l[1][j] is T.ZERO or l[2][k] is T.ZERO))
    def check(s,what,norm=None,hit=True,skip=()):
        norm=s.norm if norm is None else norm; W=s.W; c=s.c; F=list(s.F)
        if hit and s.kind!='none':
            for t,p in enumerate(s.pts):
                if t in skip: continue
                if not norm: F[p]=T.lift(s.P[p])-s.at(s.oP,t)
                else: F[p]=sm(s.nv[p][m]*(T.lift(s.Q[m][p])-s.at(s.oQ[m],t)) for m in range(3))
        q=W.v(s.box,'vF')
        for i in range(len(F)): c.eq(f'{what}: point {"of the face" if i in s.pts else "elsewhere"}',W.get(q,i),F[i],tol=1e-10,scale=30)
        for b,v,u in [(s.box,'vP',s.P),(s.obox,'vP',s.oP),(s.obox,'vF',s.oF)]+[(s.box,'vQ'+x,a) for x,a in zip('xyz',s.Q)]+[(s.obox,'vQ'+x,a) for x,a in zip('xyz',s.oQ)]:
            q=W.v(b,v)
            for i in range(len(u)): c.eq(f'{what}: {v} unchanged',W.get(q,i),u[i])
    def reset(s):
        q=s.W.v(s.box,'vF')
        for i,x in enumerate(s.F): s.W.set(q,i,x)
def GS(e,m,*x):
    g=T.fn(f'G{e}_{m}',*map(T.lift,x)); return g if e!=m else g*g+1
def G(e,m,X,Y,Z): return math.sin(1+e+2*m+X*(m+1)-Y*.7+Z*.4)+(2.5 if e==m else 0.)
def stubfn(W,f):
    cb=ctypes.CFUNCTYPE(ctypes.c_double,ctypes.c_void_p,ctypes.c_int,ctypes.c_double,ctypes.c_double,ctypes.c_double)(f); W.keep.append(cb); return world.RP(ctypes.cast(cb,ctypes.c_void_p).value)
def ctx_arr(ctx,s,b,v,nm):
    W=ctx.W; q=W.v(W.box[b],v); n=SH[b][0]*SH[b][1]*SH[b][2]; r=[]
    for i in range(n):
        x=ctx.var(f'{nm}{i}',-1.,1.); x=x if ctx.sym else W.num(x); W.set(q,i,x); r.append(x)
    return r
def ipsi(W): return W.ind('vF'),W.ind('vP'),W.iarr([0]+[W.ind('vQx')+k for k in range(3)])
def transfer(kind,norm,frame,fs=None):
    def f(ctx):
        W=ctx.W; r=ctx.rng
        if fs: q=fs
        else:
            of=2*(int(kind[-1])-1)+r.randrange(2) if kind[:5]=='plane' else 4+r.randrange(2) if kind=='same indices' else r.randrange(6)
            q=(of^1 if kind=='same indices' else r.randrange(6),of)
        s=Tr(ctx,kind,norm,frame,q); ranges(ctx,tidy=True)
        W.call('set_interbox_BCs_for_bface',ipsi(W)[0],s.bf,*ipsi(W)[1:],ret='v'); s.check('one record'); s.reset()
    return f
def boxes(kind,norm,fs):
    """the whole box, and one face with the choice made by the caller"""
    def f(ctx):
        W=ctx.W; s=Tr(ctx,kind,norm,'cart',fs); ranges(ctx,tidy=True); a=ipsi(W)
        W.call('set_interbox_BCs_for_boxbfaces',s.box,*a,ret='v'); s.check('all records of a box'); s.reset()
        W.call('set_interbox_BC_onface',s.box,a[0],(s.f+2)%6,a[1],a[2],-1,ret='v'); s.check('another face',hit=False)
        for k in (-1,0,1):
            if kind=='volume' and k==1: continue
            W.call('set_interbox_BC_onface',s.box,a[0],s.f,a[1],a[2],k,ret='v'); s.check(f'one face {k}',norm=norm if k<0 else k); s.reset()
            ctx.ieq('the record keeps its flag',(W.get(s.bf,WORD,'i')>>6)&1,norm)
    return f
def outside(d,e,N):
  def f(ctx):
    """two-dimensional interpolation leaves a point alone whose coordinates are not in the range of the other box"""
    W=ctx.W
    s=Tr(ctx,f'plane {N+1}',0,'cart',(1,2*N)); a,b=bb(W,s.obox,d)
    x=(b+ctx.var('out',.01,1.)) if e else (a-ctx.var('out',.01,1.)); x=x if ctx.sym else W.num(x)
    W.set(W.v(s.box,W.ind('oX')+d),s.pts[1],x); s.X[1][d]=x; ranges(ctx,tidy=True)
    W.call('set_interbox_BCs_for_bface',ipsi(W)[0],s.bf,*ipsi(W)[1:],ret='v'); s.check('one point outside',skip=(1,))
    s.reset()
  return f
def normals(frame):
    def f(ctx):
        W=ctx.W
        for k in range(6):
            s=Tr(ctx,'volume',0,frame,(k,0)); ranges(ctx,tidy=True); n=W.arr([7.]*5)
            for t in s.pts:
                W.call('boxface_normal_at_ijk',s.box,k,t,n,ret='v')
                for m in range(3): ctx.eq('normal of the face',W.get(n,m+1),s.nv[t][m],tol=1e-12)
                ctx.eq('nothing else written',W.get(n,0),7.); ctx.eq('nothing else written',W.get(n,4),7.)
                if frame!='stored':
                    W.call('boxface_normal_at_XYZ',s.box,k,*[W.get(W.v(s.box,j),t) for j in 'XYZ'],n,ret='v')
                    for m in range(3): ctx.eq('normal at a place',W.get(n,m+1),s.nv[t][m],tol=1e-12)
                if frame=='cart':
                    W.call('boxface_outwarddir_at_ijk',s.box,k,t,n,ret='v')
                    for m in range(3): ctx.eq('direction out of the face',W.get(n,m+1),s.nv[t][m],tol=1e-12)
                    W.call('boxface_outwarddir_at_XYZ',s.box,k,*[W.get(W.v(s.box,j),t) for j in 'XYZ'],n,ret='v')
                    for m in range(3): ctx.eq('direction out of the face',W.get(n,m+1),s.nv[t][m],tol=1e-12)
    return f
# ------------------------------------------------------------------ completing the records
class Rec:
    """an arrangement of records on nb boxes, and what it says"""
    def __init__(s,ctx,r,nb,most,mutual,opts=None):
        s.c=ctx; s.W=W=ctx.W; s.nb=nb; s.m=[]
        for b in range(nb):
            W.call('free_all_bfaces',W.box[b],ret='v'); row=[]
            for k in range(r.randint(0,most)):
                f=r.randrange(6); W.call('add_empty_bface',W.box[b],f); row.append(dict(f=f,ob=-1,ofi=-1,w=r.randrange(512)&~0x43 if mutual else r.randrange(512)))
            s.m.append(row)
        al=[(b,k) for b in range(nb) for k in range(len(s.m[b]))]
        if mutual:
            r.shuffle(al)
            while len(al)>1:
                x=al.pop(); o=[y for y in al if y[0]!=x[0]]; k=r.random()
                if o and k<.8:
                    y=r.choice(o); al.remove(y); t=int(r.random()<.7); p=s.m[x[0]][x[1]]; q=s.m[y[0]][y[1]]
                    p.update(ob=y[0],ofi=y[1]); q.update(ob=x[0],ofi=x[1])
                    for z in (p,q): z['w']|=t|r.randrange(2)<<6
                elif o and k<.9: s.m[x[0]][x[1]].update(ob=r.choice(o)[0])       # no single partner
        else:
            for b,k in al: s.m[b][k]['ob']=r.choice([-1]+[x for x in range(nb) if x!=b])
        for b,k in al if 0 else [(b,k) for b in range(nb) for k in range(len(s.m[b]))]: s.put(b,k)
    def p(s,b,k): return s.W.call('vs_bface',s.W.box[b],k,ret='p')
    def put(s,b,k):
        q=s.p(b,k); d=s.m[b][k]
        for n in ('ob','ofi'): s.W.set(q,INTS[n],d[n],'i')
        s.W.call('vs_setbfaceword',q,WORD,d['w'],ret='v')
    def get(s,b,k,n): return s.W.get(s.p(b,k),INTS[n],'i')
    def same(s,what,but=(),mask=0):
        for b in range(s.nb):
            s.c.ieq(f'{what}: number of records',s.W.call('vs_nbfaces',s.W.box[b]),len(s.m[b]))
            for k,d in enumerate(s.m[b]):
                for n,w in (('b',b),('f',d['f']),('fi',k),('ob',d['ob']),('ofi',d['ofi']),('oXi',-1),('oYi',-1),('oZi',-1)):
                    if n not in but: s.c.ieq(f'{what}: {n}',s.get(b,k,n),w)
                s.c.ieq(f'{what}: flags',s.get(b,k,'flags')&~mask,d['w']&~mask)
SEED=lambda ctx,k: __import__('random').Random(k) if ctx.sym else ctx.rng
def partner(k):
    """set_ofi_in_all_bfaces: the index of the record of the other box that refers to this box; if there are several, minus the
    sum of 2^(index+1), odd if that does not fit"""
    def f(ctx):
        W=ctx.W; r=SEED(ctx,k)
        for most in ((3,6) if ctx.sym else (3,6,40,70)):
            s=Rec(ctx,r,3,most,False); W.call('set_ofi_in_all_bfaces',W.g); s.same('pairing',('ofi',))
            for b in range(3):
                for i,d in enumerate(s.m[b]):
                    got=s.get(b,i,'ofi'); o=[j for j,e in enumerate(s.m[d['ob']]) if e['ob']==b] if d['ob']>=0 else []
                    if not o: w=-1
                    elif len(o)==1: w=o[0]
                    else:
                        w=sum(1<<(j+1) for j in o if j<30)|int(any(j>=30 for j in o)); w=-(3 if w==1 else w)
                    ctx.ieq('partner',got,w)
            # again: single partners stay
            for b in range(3):
                for i,d in enumerate(s.m[b]): d['ofi']=s.get(b,i,'ofi')
            W.call('set_ofi_in_all_bfaces',W.g)
            for b in range(3):
                for i,d in enumerate(s.m[b]):
                    if d['ofi']>=0: ctx.ieq('a single partner stays',s.get(b,i,'ofi'),d['ofi'])
    return f
def orbits(ctx):
    """r_from_cbt_OR_nbt for all combinations of bits the pairing can ask for"""
    W=ctx.W; r=ctx.rng
    for _ in range(400 if not ctx.sym else 60):
        a,b=[r.choice((0,1<<r.randrange(32),r.getrandbits(32))) for _ in (0,1)]
        sg=lambda x: x-(1<<32) if x>=1<<31 and not ctx.sym else x
        w=(a|b)|int(a==0 or b==0)|(a|b)>>31; w&=(1<<31)-1; w=3 if w==1 else w
        ctx.ieq('bits',W.call('r_from_cbt_OR_nbt',sg(a),sg(b)),w)
def flags(opt,k):
    """exactly one of two touching records sets the normal derivative; records that do not touch set values"""
    def f(ctx):
        W=ctx.W; r=SEED(ctx,k)
        for _ in range(2 if ctx.sym else 12):
            s=Rec(ctx,r,3,5,True); setstr(ctx,'Coordinates_bface_options',opt)
            for b in range(3): W.call('vs_setCI',W.box[b],r.randrange(6),r.randrange(5),0,ret='v')
            W.call('set_consistent_flags_in_all_bfaces',W.g); s.same('flags',(),64)
            for b in range(3):
                for i,d in enumerate(s.m[b]):
                    n=s.get(b,i,'flags')>>6&1
                    if d['w']&1 and d['ofi']>=0: ctx.ieq('one side sets the normal derivative, the other the value',n+(s.get(d['ob'],d['ofi'],'flags')>>6&1),1)
                    elif d['ob']>=0: ctx.ieq('without contact the value is set',n,0 if opt else d['w']>>6&1)
            s=Rec(ctx,r,3,5,True); W.call('zero_setnormalderiv_flag_in_all_bfaces',W.g); s.same('zero',(),64)
            for b in range(3):
                for i in range(len(s.m[b])): ctx.ieq('cleared',s.get(b,i,'flags')>>6&1,0)
    return f
def marks(k):
    def f(ctx):
        W=ctx.W; r=SEED(ctx,k); iX=W.ind('oX'); out=1<<BITS.index('outerbound')
        for _ in range(2 if ctx.sym else 12):
            s=Rec(ctx,r,3,5,True); W.call('mark_all_bfaces_without_ob_as_outerbound',W.g); s.same('outer boundary',(),out)
            for b in range(3):
                for i,d in enumerate(s.m[b]): ctx.ieq('outer boundary',s.get(b,i,'flags')&out,out if d['ob']<0 else d['w']&out)
            s=Rec(ctx,r,3,5,True); W.call('set_oXi_oYi_oZi_in_all_bfaces',W.g); s.same('indices',('oXi','oYi','oZi'))
            for b in range(3):
                for i,d in enumerate(s.m[b]):
                    need=d['ob']>=0 and not d['w']>>4&1 and not d['w']>>1&7==7
                    for j,n in enumerate(('oXi','oYi','oZi')): ctx.ieq('coordinates in the other box are kept where needed',s.get(b,i,n),iX+j if need else -1)
            # the outer boundary as one record
            W.call('free_all_bfaces',W.box[1],ret='v')
            for f in range(6):
                W.call('add_boxface_as_outerbound_bface',W.box[1],f); q=W.call('vs_bface',W.box[1],f,ret='p')
                for n,w in (('b',1),('f',f),('fi',f),('ob',-1),('ofi',-1),('flags',out)): ctx.ieq(f'outer face: {n}',W.get(q,INTS[n],'i'),w)
                pl=W.get(q,3,'p'); m=W.get(W.get(pl,1,'p'),1,'i'); a=W.get(W.get(pl,2,'p'),1,'p'); ctx.true('points of the face',sorted(W.get(a,j,'i') for j in range(m))==face(SH[1],f))
    return f
def setstr(ctx,n,v):
    from C17 import cs
    ctx.W.call('Sets',cs(ctx,n),cs(ctx,v),ret='v')
# ------------------------------------------------------------------ layouts
def start(W,p,extra=None):
    W.initmods(p)
    for n,t in (('vF',''),('vP',''),('vQ','i')): W.call('AddVar',n,t,'',ret='v')
    W.g=W.call('make_grid',0,ret='p'); W.nb=W.call('vs_nboxes',W.g,ret='i'); W.box=[W.call('vs_box',W.g,b,ret='p') for b in range(W.nb)]
    W.call('vs_runfun',W.call('vs_PRE_COORDINATES'),W.g,ret='v')
    if extra: extra(W)
    W.call('vs_runfun',W.call('vs_COORDINATES'),W.g,ret='v')
    for n in ('vF','vP','vQx'): W.call('enablevar',W.g,W.ind(n),ret='v')
class Lay:
    """a grid whose faces have been set up, judged by the geometry alone"""
    def __init__(s,ctx):
        s.c=ctx; s.W=W=ctx.W; s.F=[s.faces(b) for b in range(W.nb)]; s.n=[[W.call('vs_n',q,d) for d in (1,2,3)] for q in W.box]; s.x=[]
        for b,q in enumerate(W.box):
            N=W.call('vs_nnodes',q); X=[list(W.vec(W.v(q,v),N)) for v in 'XYZ']
            s.x.append([s.place(b,*p) for p in zip(*X)])
        s.size=max(abs(c) for x in s.x for p in x for c in p)
    def place(s,b,*X):
        q=s.W.box[b]
        return [s.W.call('vs_x_of_X',q,j,-1,*X,ret='d') for j in (1,2,3)] if s.W.call('vs_has_x_of_X',q,1) else list(X)
    def faces(s,b):
        W=s.W; q=W.box[b]; out=[]
        for k in range(W.call('vs_nbfaces',q)):
            p=W.call('vs_bface',q,k,ret='p'); d={n:W.get(p,i,'i') for n,i in INTS.items()}
            d.update({n:d['flags']>>i&1 for i,n in enumerate(BITS)}); pl=W.get(p,3,'p'); d['p']=p; d['pts']=[]
            if pl: m=W.get(W.get(pl,1,'p'),b,'i'); a=W.get(W.get(pl,2,'p'),b,'p'); d['pts']=[W.get(a,i,'i') for i in range(m)]
            out.append(d)
        return out
    def edge(s,b,p):
        n=s.n[b]; return sum(i in(0,m-1) for i,m in zip((p%n[0],p//n[0]%n[1],p//n[0]//n[1]),n))>1
    def check(s,order=True,outer=None,shared=False,unset=False):
        c=s.c; W=s.W; tol=1e-9*max(1.,s.size); vi=W.ind('oX')
        if unset: order=False
        for b in range(W.nb):
            R=s.F[b]; has=collections.Counter(p for d in R for p in d['pts'])
            for f in range(6):
                if W.call('vs_periodic',W.box[b],f//2+1): c.true('periodic: no face',not any(d['f']==f for d in R),(b,f)); continue
                if s.n[b][f//2]==1: continue               # both faces are the same points
                al=set(face(s.n[b],f)); cnt=collections.Counter(p for d in R if d['f']==f for p in d['pts'])
                c.true('every face has a record',any(d['f']==f for d in R),(b,f)); c.true('the points of a record are on its face',set(cnt)<=al,(b,f))
                for p in al:
                    c.true('every point of a face belongs to a record',cnt[p]>=1 or (s.edge(b,p) and has[p]>=1),(b,f,p))
                    c.true('only one record of a face has the point',cnt[p]<=1 or shared,(b,f,p))
            last={}
            for k,d in enumerate(R):
                for p in d['pts']: last[p]=k
            for k,d in enumerate(R):
                w=(b,k); c.true('record is in its place',d['b']==b and d['fi']==k and 0<=d['f']<6,w); c.true('a record has points',bool(d['pts']),w)
                c.true('outer boundary means no other box',bool(d['outerbound'])==(d['ob']<0),w)
                if outer:
                    for p in d['pts']:
                        if outer(s.x[b][p])!=(d['ob']<0) and not(d['ob']<0 and s.edge(b,p) and outer(s.x[b][p])): c.true('outer boundary is where the domain ends',outer(s.x[b][p]) if d['ob']<0 else s.edge(b,p),(w,s.x[b][p]))
                if d['ob']<0: continue
                c.true('other box',d['ob']<W.nb and d['ob']!=b,w); ob=d['ob']
                if d['touch'] or d['same_fpts']:
                    if not 0<=d['ofi']<len(s.F[ob]): c.true('a touching record has a partner',False,w); continue
                    o=s.F[ob][d['ofi']]; c.true('the partner points back, and touches',o['ob']==b and o['touch']==1 and 0<=o['ofi']<len(R) and R[o['ofi']]['f']==d['f'],w)
                    if o['ofi']==k and order: c.true('one side sets the normal derivative, the other the value',d['setnormalderiv']+o['setnormalderiv']==1,w)
                    if d['same_fpts']:
                        c.true('records with the same points refer to each other',o['ofi']==k and o['same_fpts']==1 and d['touch']==1,w); c.true('same number of points',len(d['pts'])==len(o['pts']),w)
                        for p,q in zip(d['pts'],o['pts']): c.true('same place',max(abs(x-y) for x,y in zip(s.x[b][p],s.x[ob][q]))<tol,(w,p,q))
                    else:
                        fl=[d['sameX'],d['sameY'],d['sameZ']]; c.true('contact is in the plane of the other face',fl[o['f']//2]==1,(w,fl,o['f']))
                else: c.true('without contact the value is set',not d['setnormalderiv'] or not order,w)
                if not d['same_fpts']:
                    c.true('coordinates in the other box are kept',[d[n] for n in ('oXi','oYi','oZi')]==[vi,vi+1,vi+2],w)
                    for p in d['pts']:
                        if last[p]!=k: continue
                        X=[W.get(W.v(W.box[b],vi+j),p) for j in range(3)]; e=max(abs(x-y) for x,y in zip(s.place(ob,*X),s.x[b][p]))
                        c.true('coordinates in the other box are those of the same place',e<1e3*tol,(w,p,X,e))
                        for j in range(3):
                            lo,hi=[W.call('vs_bbox',W.box[ob],2*j+e,ret='d') for e in (0,1)]
                            if not W.call('vs_periodic',W.box[ob],j+1): c.true('and are in the range of that box',lo-tol<=X[j]<=hi+tol,(w,p,X))
                        if d['touch']:
                            f=s.F[ob][d['ofi']]['f']; a=W.call('vs_bbox',W.box[ob],f,ret='d'); c.true('contact is on the other face',abs(X[f//2]-a)<1e3*tol or W.call('vs_periodic',W.box[ob],f//2+1),(w,p,X))
    def move(s):
        """what is transferred: arbitrary fields, each point from the last record that has it"""
        W=s.W; c=s.c; r=c.rng; a=ipsi(W); names=('vP','vQx','vQy','vQz'); f={}
        ids=[W.ind('vP')]+[W.ind('vQx')+k for k in range(3)]
        for b,q in enumerate(W.box):
            N=W.call('vs_nnodes',q)
            for i in ids:
                v=W.vec(W.v(q,i),N)
                for k in range(N): v[k]=r.uniform(-1,1)
            v=W.vec(W.v(q,W.ind('vF')),N)
            for k in range(N): v[k]=7.25
        co=[]
        for b,q in enumerate(W.box):
            o=[]
            for i in ids: t=W.arr([0.]*W.call('vs_nnodes',q)); W.call('spec_Coeffs',q,W.v(q,i),t,ret='v'); o.append(t)
            co.append(o)
        for b,q in enumerate(W.box):
            W.call('set_interbox_BCs_for_boxbfaces',q,*a,ret='v'); want={}
            for d in s.F[b]:
                if d['ob']<0: continue
                for k,p in enumerate(d['pts']): want.setdefault(p,[]).append((d,k))
            N=W.call('vs_nnodes',q); F=W.vec(W.v(q,W.ind('vF')),N)
            for p in range(N):
                if p not in want: c.true('only points of the faces are set',F[p]==7.25,(b,p)); continue
                ok=[]
                for d,k in reversed(want[p]):
                    ob=d['ob']; sure=True
                    if not d['same_fpts']:
                        if ok and not ok[0][2]: continue        # oX,oY,oZ belong to the last record
                        X=[W.get(W.v(q,W.ind('oX')+j),p) for j in range(3)]; bx=[[W.call('vs_bbox',W.box[ob],2*j+e,ret='d') for e in (0,1)] for j in range(3)]
                        # in range up to rounding only: may be left to the records before
                        sure=all(lo<=x<=hi for x,(lo,hi) in zip(X,bx)) or any(W.call('vs_periodic',W.box[ob],j+1) for j in (1,2,3))
                    v=[W.get(W.v(q,i),p)-(W.get(W.v(W.box[ob],i),s.F[ob][d['ofi']]['pts'][k]) if d['same_fpts'] else W.call('spec_interpolate',W.box[ob],t,*X,ret='d')) for i,t in zip(ids,co[ob])]
                    if d['setnormalderiv']:
                        g=[0.,0.,0.]; g[d['f']//2]=1.
                        if W.call('vs_has_x_of_X',q,1): g=s.grad(b,p,d['f']//2)
                        l=math.sqrt(sum(x*x for x in g))*(2*(d['f']%2)-1); w=sum(x*y for x,y in zip(g,v[1:]))/l
                    else: w=v[0]
                    ok.append((w,k,d['same_fpts']))
                    if sure: break
                c.true('difference to the other box at the same place',any(abs(F[p]-w[0])<1e-6 for w in ok),(b,p,F[p],ok))
    def grad(s,b,p,d):
        W=s.W; q=W.box[b]; X=[W.get(W.v(q,v),p) for v in 'XYZ']; J=[]
        # gradient of coordinate d: row of the inverse of dx/dX, from differences of the map
        for e in range(3):
            lo,hi=[W.call('vs_bbox',q,2*e+k,ret='d') for k in (0,1)]; h=1e-4*(hi-lo); A,B=list(X),list(X); A[e]=min(X[e]+h,hi); B[e]=max(X[e]-h,lo)
            M=[(x+y)/2 for x,y in zip(A,B)]
            if A[e]-B[e]<1.5*h:                 # at an end: second order from three points
                C=list(X); C[e]=M[e]; u,v,w=s.place(b,*A),s.place(b,*C),s.place(b,*B); t=A[e]-B[e]
                J.append([(3*z-4*y+x)/(-t) if X[e]==B[e] else (3*x-4*y+z)/t for x,y,z in zip(u,v,w)])
            else: J.append([(x-y)/(A[e]-B[e]) for x,y in zip(s.place(b,*A),s.place(b,*B))])
        u,v=J[(d+1)%3],J[(d+2)%3]; g=[u[1]*v[2]-u[2]*v[1],u[2]*v[0]-u[0]*v[2],u[0]*v[1]-u[1]*v[0]]; t=sum(x*y for x,y in zip(g,J[d])); return [x/t for x in g]
NR=int(os.environ.get('NR',24))
OPTS=('','setnormalderiv_order1','setnormalderiv_order2','setnormalderiv_order3','setnormalderiv_order4')
def cubes(nb,populate):
    def f(ctx):
        W=ctx.W; r=ctx.rng; S=files.Store(ctx); p=boxpars(nb); o=r.choice(OPTS)
        n=[r.randint(3,6 if nb<30 else 5) for _ in range(3)] if r.random()<.5 else [r.randint(3,6)]*3
        for b in range(nb):
            for k in (1,2,3): p[f'box{b}_n{k}']=str(n[k-1])
        p.update(physics='Poisson3',Poisson3_grid='none',Coordinates_bface_options=(o+(' populate_bfaces' if populate else '')).strip() or 'none',outdir=S.dir)
        dc=r.uniform(.3,3.); i1,i2=[r.uniform(.1,.3)*dc for _ in (0,1)]; m1,m2=[r.uniform(math.sqrt(3)*i*1.15,.85*dc) for i in (i1,i2)]; r0=r.uniform(3.2,5)*dc; r1=r.uniform(4,15)*r0; xc=[0.]+[r.uniform(-2,2) for _ in range(3)]
        def ex(W):
            if nb==13: W.call('arrange_1box12CubSph_into_full_cube',W.g,0,W.arr(xc),i1,m1,dc)
            elif nb==26: W.call('two_full_cubes_touching_at_x0',W.g,0,dc,i1,m1,i2,m2)
            elif nb==32: W.call('sphere_around_two_full_cubes_touching_at_x0',W.g,0,dc,i1,m1,i2,m2,r0)
            else: W.call('two_spheres_around_two_full_cubes',W.g,0,dc,i1,m1,i2,m2,r0,r1)
        start(W,p,ex); s=Lay(ctx); e=1e-7*dc
        def outer(x):
            if nb==13: return max(abs(x[j]-xc[j+1]) for j in range(3))>dc-e
            if nb==26: return max(abs(x[0])-dc,abs(x[1]),abs(x[2]))>dc-e
            return math.sqrt(sum(y*y for y in x))>(r0 if nb==32 else r1)-e*100
        s.check(order=bool(o),outer=outer,shared=populate); s.move()
    return f
BAS={'Cartesian':('ChebExtrema',)*3,'Polar':('ChebExtrema','Fourier','ChebExtrema'),'SphericalDF':('ChebExtrema','Fourier','Fourier'),'Spherical2':('ChebExtrema','ChebExtrema','Fourier'),'Spherical3':('ChebExtrema','ChebExtrema','Fourier')}
def boxlay(ctx,B,opt,populate=False,S=None):
    """B: for every box n, lower and upper ends, kind of coordinates, more parameters"""
    p={'physics':'ADMvars','nboxes':str(len(B)),'Coordinates_newtTOLF':'1e-13','boundary':'none','outdir':S.dir,'Coordinates_bface_options':(opt+(' populate_bfaces' if populate else '')).strip() or 'none'}
    for b,(n,lo,hi,co,more) in enumerate(B):
        if co!='Cartesian': p[f'box{b}_Coordinates']=co
        for k in (1,2,3): p.update({f'box{b}_n{k}':str(n[k-1]),f'box{b}_basis{k}':BAS[co][k-1],f'box{b}_min{k}':repr(lo[k-1]),f'box{b}_max{k}':repr(hi[k-1])})
        p.update({k%b:v for k,v in more.items()})
    start(ctx.W,p); return Lay(ctx)
def carts(kind,populate):
    def f(ctx):
        r=ctx.rng; S=files.Store(ctx); o=r.choice(OPTS); rn=lambda: [r.randint(3,6) for _ in range(3)]
        lo=[r.uniform(-3,3) for _ in range(3)]; hi=[x+r.uniform(.5,3) for x in lo]; d=r.randrange(3); n=rn(); m=rn(); l2,h2=list(lo),list(hi); l2[d]=hi[d]; h2[d]=hi[d]+r.uniform(.5,3)
        if kind=='same points':
            m=list(n); m[d]=r.randint(3,6)
        if kind=='overlap': l2[d]=hi[d]-r.uniform(.1,.4)*(hi[d]-lo[d])
        if kind=='part':
            e=(d+1)%3; h2[e]=lo[e]+r.uniform(.1,.49)*(hi[e]-lo[e])
        if kind=='most': lo,hi,d=[0.]*3,[1.]*3,0; n=[4]*3; m=[4]*3; l2,h2=[1.,0.,0.],[2.,.9,1.]; o=''
        B=[(n,lo,hi,'Cartesian',{}),(m,l2,h2,'Cartesian',{})]
        if kind=='three': l3,h3=list(l2),list(h2); l3[d]=h2[d]; h3[d]=h2[d]+r.uniform(.5,3); B.append((rn(),l3,h3,'Cartesian',{}))
        if kind=='four':                                  # two by two, with common points
            e=(d+1)%3; k=list(n); k[e]=r.randint(3,6); m=list(n); m[d]=r.randint(3,6); q=list(m); q[e]=k[e]; t=hi[e]+r.uniform(.5,3)
            B=[(n,lo,hi,'Cartesian',{}),(m,l2,h2,'Cartesian',{})]
            for w,(a,z) in ((k,(lo,hi)),(q,(l2,h2))): a,z=list(a),list(z); a[e]=hi[e]; z[e]=t; B.append((w,a,z,'Cartesian',{}))
        r.shuffle(B); s=boxlay(ctx,B,o,populate,S); e=1e-9
        s.check(order=bool(o),shared=populate); s.move()
    return f
def shells(co,populate):
    def f(ctx):
        r=ctx.rng; S=files.Store(ctx); o=r.choice(OPTS); two=r.random()<.7; P2=2*math.pi
        a=r.uniform(.5,2); R=[a,a+r.uniform(.5,2)]; R.append(R[1]+r.uniform(.5,2))
        n=[r.randint(3,6),2*r.randint(3,5),2*r.randint(2,4)]; m=list(n); m[0]=r.randint(3,6)
        z=[0.,0.],[P2,P2]
        flat=co=='Polar' and not populate and r.random()<.3
        if co=='Polar': n[2]=m[2]=1 if flat else r.randint(3,4); z=[0.,-1.],[P2,1.]
        if co in('Spherical2','Spherical3'): n[1]=m[1]=r.randint(3,5); z=[-.8,0.],[.8,P2]
        if r.random()<.5 and co=='Polar' and not flat: m[1]=2*r.randint(3,5)
        B=[(q,[R[k],*z[0]],[R[k+1],*z[1]],co,{}) for k,q in enumerate((n,m)[:1+two])]
        s=boxlay(ctx,B,o,populate,S); e=1e-8*R[-1]; zm=max(abs(p[2])/math.sqrt(sum(y*y for y in p)) for x in s.x for p in x)
        def outer(x):
            rr=math.sqrt(x[0]**2+x[1]**2+(0 if co=='Polar' else x[2]**2))
            return rr<R[0]+e or rr>R[1+two]-e or (co=='Polar' and abs(x[2])>1-e) or (co in('Spherical2','Spherical3') and abs(x[2]/rr)>zm-1e-8)
        s.check(order=bool(o),outer=outer,shared=populate)
        if not flat: s.move()
    return f
def facepoints(kind):
    """set_touching_bfaces_of_boxes_with_same_facepoints for nb boxes from b0 on, then the outer boundary"""
    def f(ctx):
        W=ctx.W; r=ctx.rng; S=files.Store(ctx)
        if kind=='cubes':
            n=r.randint(3,5); p=boxpars(26)
            for b in range(26):
                for k in (1,2,3): p[f'box{b}_n{k}']=str(n)
            p.update(physics='Poisson3',Poisson3_grid='none',Coordinates_bface_options='none',outdir=S.dir); dc=r.uniform(.3,3.); i1,i2=[r.uniform(.1,.3)*dc for _ in (0,1)]; m1,m2=[r.uniform(math.sqrt(3)*i*1.15,.85*dc) for i in (i1,i2)]
            start(W,p,lambda W: W.call('two_full_cubes_touching_at_x0',W.g,0,dc,i1,m1,i2,m2)); b0,nb=r.choice(((0,26),(13,13),(0,13)))
        else:
            d=r.randrange(3); n=[r.randint(3,5) for _ in range(3)]; k=r.randint(2,4); x=[r.uniform(-2,2)]
            for _ in range(k): x.append(x[-1]+r.uniform(.5,2))
            B=[]
            for j in range(k):
                lo,hi=[0.]*3,[1.,1.5,2.]; lo[d],hi[d]=x[j],x[j+1]; m=list(n); m[d]=r.randint(3,6); B.append((m,lo,hi,'Cartesian',{}))
            boxlay(ctx,B,'',False,S); b0=r.randint(0,k-1); nb=r.randint(1,k-b0)
        W.call('set_touching_bfaces_of_boxes_with_same_facepoints',W.g,b0,nb,ret='i'); W.call('set_all_bfaces_with_ob_minus1_to_outerbound',W.g,b0,nb,ret='v')
        s=Lay(ctx); tol=1e-8*max(1.,s.size)
        def meet(b,f,o,g): return len(face(s.n[b],f))==len(face(s.n[o],g)) and all(min(max(abs(x-y) for x,y in zip(s.x[b][p],s.x[o][q])) for q in face(s.n[o],g))<tol for p in face(s.n[b],f))
        for b in range(b0,b0+nb):
            c=ctx; R=s.F[b]; c.true('one record for every face',[d['f'] for d in R]==list(range(6)),b)
            for k,d in enumerate(R):
                w=(b,k); c.true('every point of the face is in its record',sorted(d['pts'])==sorted(face(s.n[b],d['f'])),w)
                if len(R)<6: continue
                M=[(o,g) for o in range(b0,b0+nb) if o!=b for g in range(6) if meet(b,k,o,g)]
                c.true('contact with the box that has the same points there',((d['ob'],d['ofi'])==M[0] if M else d['ob']==-1),(w,d['ob'],d['ofi'],M)); c.true('outer boundary otherwise',d['outerbound']==(not M),w); c.true('touches',d['touch']==d['same_fpts']==bool(M),w)
                if M:
                    o=s.F[d['ob']][d['ofi']]; c.true('one side sets the normal derivative',d['setnormalderiv']+o['setnormalderiv']==1 and o['ofi']==k and o['ob']==b,w)
                    c.true('same place',all(max(abs(x-y) for x,y in zip(s.x[b][p],s.x[d['ob']][q]))<tol for p,q in zip(d['pts'],o['pts'])),w)
    return f
T0=(lambda: mkt(True),lambda: mkt(False))
cases=[]
def add(name,fn,w,g,**k): cases.append(Case(name,fn,base=w[0],rbase=w[1],group=g,real=k.pop('real',6),**k))
BT='boxes of 3x4x3, 4x3x4 and 3x4x4 points, three points of a face'
for kind in KINDS:
    for norm in (0,1):
        if kind=='volume' and norm: continue
        for fr in ('cart',)+(('stored','functions') if norm and kind in('copy','plane 1','plane 2','plane 3') else ()): add(f'{kind}, {"normal derivatives" if norm else "values"}, {fr}',transfer(kind,norm,fr),T0,'transfer',bounded=BT)
for kind,fs in (('copy',(2,5)),('plane 1',(3,1)),('plane 2',(0,2)),('plane 3',(4,5)),('volume',(3,0)),('none',(1,0))):
    for norm in (0,1):
        if kind=='volume' and norm: continue
        add(f'boxes: {kind} {norm}',boxes(kind,norm,fs),T0,'transfer',bounded=BT)
for of in range(6): add(f'plane of face {of}',transfer(f'plane {of//2+1}',0,'cart',(5-of,of)),T0,'transfer',bounded=BT)
for d in range(3):
    for e in (0,1):
        for N in range(3):
            if N!=d: add(f'point outside the other box, direction {d+1}, end {e}, plane {N+1}',outside(d,e,N),T0,'transfer',bounded=BT)
for fr in ('cart','stored','functions'): add(f'normals, {fr}',normals(fr),T0,'transfer')
NG=(lambda: None,lambda: Real('main'))
def lay(name,fn,**k): cases.append(Case('layout: '+name,fn,base=None,rbase=NG[1],sym=False,group='layout',bounded='native, sizes and numbers of points drawn at random',**k))
for k in range(4): add(f'pairing {k}',partner(k),T0,'transfer',bounded='3 boxes with up to 6 (natively 70) records')
add('bits of several partners',orbits,T0,'transfer')
for i,o in enumerate(OPTS): add(f'flags {o or "default"}',flags(o,i),T0,'transfer',bounded='3 boxes with up to 5 records')
for k in range(2): add(f'marks {k}',marks(k),T0,'transfer',bounded='3 boxes with up to 5 records')
for nb in (13,26,32,38):
    for pop in (False,True): lay(f'{nb} boxes{" populated" if pop else ""}',cubes(nb,pop),real=NR)
for k in ('same points','other points','three','four','part','overlap'):
    # (populate_bfaces refuses faces that are in contact only in part)
    for pop in (False,True)[:1 if k=='part' else 2]: lay(f'Cartesian, {k}{" populated" if pop else ""}',carts(k,pop),real=NR)
lay('Cartesian, most of a face',carts('most',False),real=1)
for k in ('Polar','SphericalDF','Spherical2','Spherical3'):
    lay(f'shells, {k}',shells(k,False),real=2*NR)           # (populate_bfaces is made for cubed spheres, and stops for some shells)
for k in ('cubes','boxes'): lay(f'same face points, {k}',facepoints(k),real=NR)
if __name__=='__main__':
    main('C26',cases,level='proof',assumptions=['whole layouts (cases layout:*) are bounded native runs with random sizes, not proved','shells: Newton tolerance 1e-13 (with the default 1e-10, the size of the tolerance of the comparison, the set-up stops for some radii: Inconsistent touch flags)'])
