"""C02  cart_partials and cart_partial_all are the chain rule at every point for an arbitrary coordinate system (its dX/dx and
ddX/dxdx are arbitrary functions), stored or computed on the fly, on top of the contract of the spectral derivative routines
(arbitrary arrays); the helpers for scalars, vectors and symmetric tensors call them with every derivative going to the
component its tensor name promises and write nothing else."""
import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib')
from phys import *
import world
def mk(sym,system='Cartesian',useDD='no'):
    def extra(W):
        for n,k in (('VS',1),('VSa',3),('VSab',6)):
            for suf,m in (('',1),('_d',3),('_dd',6)):
                for c in range(k*m): W.call('AddVar',f'{n}{suf}{c}','','x',ret='v')
    p=boxpars(1,4); p.update({'Coordinates_useDD':useDD,'Coordinates_set_bfaces':'no'})
    if system!='Cartesian': p.update({'box0_Coordinates':system}); p.update({f'box0_{a}{d+1}':v[d] for a,v in (('min',('0.2','0.3','0.4')),('max',('0.8','0.9','1.1'))) for d in R3})
    W=mkworld(sym,p,extra=extra)
    if system!='Cartesian': coords(W)
    return W
CASES=[]
def case(name,fn,system='Cartesian',useDD='no',**k):
    CASES.append(Case(name,fn,base=lambda:mk(True,'Cartesian',useDD),rbase=lambda:mk(False,system,useDD),real=k.pop('real',2),timeout=120,**k))
# ------------------------------------------------------------------ the chain rule
A3=(1,2,3)
def chain(second,stored,trafo,system):
    """stored: are dXdx.. / ddXddxx.. enabled;  trafo: does the box have a coordinate transformation"""
    def fn(ctx):
        W=ctx.W; bx=W.box[0]; st1,st2=stored
        us=['VS0','VSa0','VSa1','VSa2','VSab0','VSab1','VSab2','VSab3','VSab4','VSab5']
        for v in us+['X','Y','Z']: W.call('enablevar',W.g,W.ind(v),ret='v')
        for on,v in ((st1,'dXdx'),(st1,'dYdx'),(st1,'dZdx'),(st2,'ddXddxx'),(st2,'ddYddxx'),(st2,'ddZddxx')): W.call('enablevar' if on else 'disablevar',W.g,W.ind(v),ret='v')
        if ctx.sym:
            M=W.M; F=Fields(ctx); log=[]
            W.call('vs_setx_of_X',bx,1,world.FP('vx'),ret='v') if trafo else W.call('vs_setx_of_X',bx,1,None,ret='v')
            for i in A3:
                for m in A3:
                    M.stubs[f'vd{i}{m}']=lambda M,aux,ind,X,Y,Z,i=i,m=m: T.fn(f'G{i}_{m}',X,Y,Z)
                    W.call('vs_setdX',bx,i,m,world.FP(f'vd{i}{m}'),ret='v')
                    for n in A3:
                        a,b=sorted((m,n)); M.stubs[f'vdd{i}{m}{n}']=lambda M,aux,ind,X,Y,Z,i=i,a=a,b=b: T.fn(f'H{i}_{a}{b}',X,Y,Z)
                        W.call('vs_setddX',bx,i,m,n,world.FP(f'vdd{i}{m}{n}'),ret='v')
                M.stubs[f'vsing{i}']=lambda M,*a,i=i: log.append((i,[p.o.id for p in a[1:]]))
                W.call('vs_setSing',bx,i,world.FP(f'vsing{i}') if i!=2 else None,ret='v')
            def put(p,nm):
                o=p.o; o.cells={}; o.nsym=0; o.init=lambda f,sz,kind: T.var(f'{nm}@{f//8 if type(f) is int else f.divexact(8)}')
                if M.writes is not None: M.writes.setdefault(o.id,(o,{}))
            def d1(M,b,d,u,du): put(du,f'p{d}({u.o.name})')
            def dall(M,b,u,*o):
                for k,p in enumerate(o[:3]): put(p,f'p{k+1}({u.o.name})')
                for (a,e),p in zip(P3,o[3:]): put(p,f'p{a+1}{e+1}({u.o.name})')
            M.stubs[res('spec_Deriv1')]=d1; M.stubs[res('spec_allDerivs')]=dall
            P=[W.v(bx,v) for v in us]; un=P[0].o.name
            W.call('cart_partial_all' if second else 'cart_partials',bx,*P[:10 if second else 4],ret='v')
            X=[T.var(f'b0:{n}@I') for n in 'XYZ']
            if st1 and (st2 or not second): g=lambda i,m: T.var(f'b0:d{"XYZ"[i-1]}d{"xyz"[m-1]}@I')
            else: g=lambda i,m: T.fn(f'G{i}_{m}',*X)
            if st1 and st2: h=lambda i,m,n: T.var(f'b0:dd{"XYZ"[i-1]}dd{"xyz"[m-1]}{"xyz"[n-1]}@I')
            else: h=lambda i,m,n: T.fn(f'H{i}_{min(m,n)}{max(m,n)}',*X)
            D=lambda i: T.var(f'p{i}({un})@I'); DD=lambda i,j: T.var(f'p{min(i,j)}{max(i,j)}({un})@I')
            val=lambda k: F.out(0,W.ind(us[k]),'I')
            ctx.eq('the field itself is untouched',F.out(0,W.ind('VS0'),'I'),T.var(f'{un}@I'))
            if trafo and not second:
                ids=[p.o.id for p in P[:4]]; ctx.true('singular-point functions are called with the field and its derivatives',log==[(1,ids),(3,ids)])
        else:
            F=Fields(ctx); nn=W.call('vs_nnodes',bx); P=[W.v(bx,v) for v in us]; u0=list(W.vec(P[0],nn))
            o=[W.arr([0.]*nn) for _ in range(9)]; (W.call('spec_allDerivs',bx,P[0],*o,ret='v') if second else [W.call('spec_Deriv1',bx,d,P[0],o[d-1],ret='v') for d in A3])
            o=[list(W.vec(x,nn)) for x in o]; W.call('cart_partial_all' if second else 'cart_partials',bx,*P[:10 if second else 4],ret='v')
            q=ctx.rng.randrange(nn); X=[W.get(W.v(bx,n),q) for n in 'XYZ']; tr=W.call('vs_has_x_of_X',bx,1)
            g=lambda i,m: W.call('vs_dX_dx',bx,i,m,q,*X,ret='d') if tr else float(i==m)
            h=lambda i,m,n: W.call('vs_ddX_dxdx',bx,i,min(m,n),max(m,n),q,*X,ret='d') if tr else 0.
            if st1: C=lambda v,c: W.get(W.v(bx,W.ind(v)+c),q)
            D=lambda i:o[i-1][q]; DD=lambda i,j:o[3+P3.index((min(i,j)-1,max(i,j)-1))][q]; val=lambda k: W.get(P[k],q)
            ctx.true('the field itself is untouched',u0==list(W.vec(P[0],nn)))
        tol=1e-9
        for m in A3:
            w=sum((g(i,m)*D(i) for i in A3)) if (trafo or not ctx.sym) else D(m)
            ctx.eq(f'd/dx{m}',val(m),w,tol=tol,scale=1. if ctx.sym else 1+sum(abs(g(i,m)*D(i)) for i in A3))
        if second:
            for c,(m,n) in enumerate(P3):
                m+=1; n+=1
                if trafo or not ctx.sym:
                    ts=[h(i,m,n)*D(i) for i in A3]+[g(i,m)*g(j,n)*DD(i,j) for i in A3 for j in A3]; w=sum(ts)
                else: ts=[]; w=DD(m,n)
                ctx.eq(f'd2/dx{m}dx{n}',val(4+c),w,tol=tol,scale=1. if ctx.sym else 1+sum(map(abs,ts)))
    return fn
for second in (False,True):
    nm='cart_partial_all' if second else 'cart_partials'
    for stored,trafo,lab,system in (((False,False),False,'no transformation','Cartesian'),((False,False),True,'transformation on the fly','Spherical'),((True,True),True,'stored transformation','Spherical'),((True,False),True,'first derivatives stored only','tan_stretch')):
        case(f'{nm}, {lab}',chain(second,stored,trafo,system),system=system if not (stored[0]) else 'Cartesian',group=f'c{second}{lab}',real=3 if not stored[0] else 0)
# ------------------------------------------------------------------ helpers
KIND=(('S',1,'VS'),('Sa',3,'VSa'),('Sab',6,'VSab'))
def helper(f,k,v,firstonly,useDD):
    def fn(ctx):
        W=ctx.W; bx=W.box[0]; i0,i1,i2=[W.ind(v+s+'0') for s in ('','_d','_dd')]
        nv=W.call('vs_nvariables',W.g)
        for i in range(nv): W.call('enablevar',W.g,i,ret='v')
        want={}
        for c in range(k):
            for d in R3: want[i1+3*c+d]=(i0+c,(d,))
            if not firstonly:
                for q,ab in enumerate(P3): want[i2+6*c+q]=(i0+c,ab)
        if ctx.sym:
            M=W.M; ids={W.v(bx,i).o.id:i for i in range(nv)}; cont={i:(i,()) for i in range(nv)}; bad=[]
            def put(p,x,d):
                if p.f!=0 or p.o.id not in ids: bad.append('pointer not a variable'); return
                cont[ids[p.o.id]]=(x[0],tuple(sorted(x[1]+d)))
            def cp(M,b,u,*o):
                if b!=bx: bad.append('other box')
                x=cont[ids[u.o.id]]
                for d,p in enumerate(o): put(p,x,(d,))
            def cpa(M,b,u,*o):
                x=cont[ids[u.o.id]]
                for d,p in enumerate(o[:3]): put(p,x,(d,))
                for ab,p in zip(P3,o[3:]): put(p,x,ab)
            M.stubs[res('cart_partials')]=cp; M.stubs[res('cart_partial_all')]=cpa
            W.call(f,bx,i0,i1,*([] if firstonly else [i2]),ret='v')
            ctx.true('derivative helpers get the box and whole variables',not bad)
            for i in range(nv):
                w=want.get(i,(i,())); ctx.true(f'variable {varname(W,i)}'+(' holds its derivative' if i in want else ' is untouched'),cont[i]==w,lambda i=i,w=w: f'holds {cont[i]}, promised {w}')
        else:
            F=Fields(ctx); nn=W.call('vs_nnodes',bx); old={i:list(W.vec(W.v(bx,i),nn)) for i in range(nv)}; o=[W.arr([0.]*nn) for _ in range(9)]; p=W.arr([0.]*nn); q=[W.arr([0.]*nn) for _ in R3]; exp={}
            for c in range(k):
                W.call('cart_partials',bx,W.v(bx,i0+c),*o[:3],ret='v')
                for d in R3: exp[(i0+c,(d,))]=list(W.vec(o[d],nn))
                if firstonly: continue
                if useDD=='no':
                    for a in R3:
                        W.call('cart_partials',bx,o[a],*q,ret='v')
                        for b in range(a,3): exp[(i0+c,(a,b))]=list(W.vec(q[b],nn))
                else:
                    W.call('cart_partial_all',bx,W.v(bx,i0+c),*o,ret='v')
                    for ab,x in zip(P3,o[3:]): exp[(i0+c,ab)]=list(W.vec(x,nn))
            W.call(f,bx,i0,i1,*([] if firstonly else [i2]),ret='v'); r=ctx.rng.randrange(nn)
            for i in range(nv):
                w=exp[want[i]] if i in want else old[i]; g=list(W.vec(W.v(bx,i),nn)); sc=1+max(map(abs,w))
                ctx.true(f'variable {varname(W,i)}'+(' holds its derivative' if i in want else ' is untouched'),all(abs(a-b)<=1e-8*sc for a,b in zip(g,w)),lambda: f'{g[r]} expected {w[r]}')
    return fn
for suf,k,v in KIND:
    case(f'FirstDerivsOf_{suf}',helper(f'FirstDerivsOf_{suf}',k,v,True,'no'),system='tan_stretch',group='h',real=1)
    case(f'FirstAndSecondDerivsOf_{suf}',helper(f'FirstAndSecondDerivsOf_{suf}',k,v,False,'no'),system='tan_stretch',group='h',real=1)
    case(f'allDerivsOf_{suf}',helper(f'allDerivsOf_{suf}',k,v,False,'yes'),system='tan_stretch',group='h',real=1)
    for dd in ('no','yes'): case(f'D_and_DD_of_{suf}, Coordinates_useDD={dd}',helper(f'D_and_DD_of_{suf}',k,v,False,dd),system='tan_stretch',useDD=dd,group='h'+dd,real=1)
if __name__=='__main__': main('C02',CASES,trusted=['spec_Deriv1 and spec_allDerivs fill their output arrays and nothing else (values: C03)'],assumptions=['the second Cartesian derivatives by two first derivatives: the order of the two is immaterial (mixed component written twice)'])
