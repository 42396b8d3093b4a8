"""C03  Spectral differentiation.  sgrid's set_BoxStructures_fromPars builds the points and the matrices D and DD of every
direction on arbitrary intervals; the contract: D (DD) maps the point values of every basis function to the point values of
its exact first (second) derivative.  The coefficient recurrences are checked on arbitrary coefficient vectors, and the
three-dimensional drivers on arbitrary matrices and arrays."""
import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib')
from spec import *
ONE=('Fourier',1)
def mats(d):
    def f(ctx):
        B=Box(ctx,dirs=(d,)); n=B.n[d-1]; points(ctx,B,d); D=B.mat(0,d); DD=B.mat(1,d); bas=B.W.bas[d-1]
        for l,v,dv,ddv in basisfns(B,d):
            for i in range(n): ctx.eq(f'D {l} at {i}',dot(D[i],v),dv[i],tol=1e-10,scale=n**2)
            if bas=='Fourier' and n%2==0 and l==f'c{n//2}': continue
            for i in range(n): ctx.eq(f'DD {l} at {i}',dot(DD[i],v),ddv[i],tol=1e-9,scale=n**4)
    return f
def kernel(fn,n,bas):
    """coefficients of the derivative of an arbitrary expansion"""
    def f(ctx):
        W=ctx.W; a=ctx.var('a',-2.,1.); b=ctx.var('b',1.5,4.); c=[ctx.var(f'c{j}',-1,1) for j in range(n)]
        o=W.arr([7.]*(n+1)); W.call(fn,None,a,b,W.arr(c),o,n-1,ret='v'); g=[W.get(o,j) for j in range(n+1)]
        ctx.eq('nothing written past the end',g[n],T.const(7))
        if bas=='c':
            # sum' c_j T_j' : T_j' = 2j (T_{j-1}+T_{j-3}+...), with the T_0 term (if any) counted half
            w=[T.ZERO]*n; k=T.const(2)/(T.lift(a)-b)
            for j in range(1,n):
                for i in range(j-1,-1,-2): w[i]=w[i]+T.lift(c[j])*(2*j)
            for j in range(n): ctx.eq(f'coefficient {j}',g[j],w[j]*k,tol=1e-12,scale=n*n)
        else:
            K=T.PI*2/(T.lift(b)-a); w=[T.ZERO]*n
            for j in range(1,(n+1)//2): w[2*j-1]=T.lift(c[2*j])*j*K; w[2*j]=-(T.lift(c[2*j-1])*j*K)
            for j in range(n): ctx.eq(f'coefficient {j}',g[j],w[j],tol=1e-12,scale=n)
    return f
def kbase(sym):
    def m(): return mkspec(sym,('Fourier',)*3,(1,1,1))
    return m
def rand(ctx,name,n,lo=-1.,hi=1.): return [ctx.var(f'{name}{i}',lo,hi) for i in range(n)]
class Dr:
    """a small box with arbitrary matrices and an arbitrary array"""
    def __init__(s,ctx,arbitrary=True):
        s.ctx=ctx; s.W=W=ctx.W; s.n=n=W.ns; s.N=n[0]*n[1]*n[2]
        s.M={}
        for w in (0,1):
            for d in (1,2,3):
                m=n[d-1]; p=W.call('vs_mat',W.bx,w,d,ret='p')
                if arbitrary:
                    for i in range(m*m): W.set(p,i,ctx.var(f'{"D" if w==0 else "DD"}{d}_{i//m}{i%m}',-1,1))
                s.M[w,d]=[[T.lift(W.get(p,m*i+j)) for j in range(m)] for i in range(m)]
        s.v=[ctx.var(f'u{i}',-1,1) for i in range(s.N)]; s.u=W.arr(s.v)
        s.v=[T.lift(x) for x in s.v]
    def app(s,w,d,v):
        n=s.n; st=(1,n[0],n[0]*n[1])[d-1]; r=[]
        for I in range(s.N):
            i=I//st%n[d-1]; b=I-i*st; r.append(sm(s.M[w,d][i][j]*v[b+j*st] for j in range(n[d-1])))
        return r
    def cmp(s,l,p,w,tol=1e-10):
        for I in range(s.N): s.ctx.eq(f'{l}[{I}]',s.W.get(p,I),w[I],tol=tol,scale=20)
    def new(s): return s.W.arr([3.25]*s.N)
    def keep(s): s.cmp('argument unchanged',s.u,s.v)
def deriv1(fn,d,w=0,arb=True):
    def f(ctx):
        s=Dr(ctx,arb); o=s.new(); s.W.call(fn,s.W.bx,d,s.u,o,ret='v'); s.cmp('du',o,s.app(w,d,s.v)); s.keep()
    return f
def alld(fn,order='123',arb=True):
    def f(ctx):
        s=Dr(ctx,arb); W=s.W; o=[s.new() for _ in range(9)]; setpar(ctx,'Spectral_second_deriv_order',order)
        W.call(fn,W.bx,s.u,*o,ret='v'); D={d:s.app(0,d,s.v) for d in (1,2,3)}
        for d in (1,2,3): s.cmp(f'u{d}',o[d-1],D[d])
        for k,(p,q) in enumerate(P3):
            s.cmp(f'u{p+1}{q+1}',o[3+k],s.app(1,p+1,s.v) if p==q else s.app(0,q+1,D[p+1]))
        s.keep()
    return f
def lines(ctx):
    """reading and writing a line touches exactly its points"""
    W=ctx.W; n=W.ns; N=n[0]*n[1]*n[2]; v=[ctx.var(f'u{i}',-1,1) for i in range(N)]
    for d in (1,2,3):
        st=(1,n[0],n[0]*n[1])[d-1]; o=[k for k in (1,2,3) if k!=d]
        for p in range(n[o[0]-1]):
            for q in range(n[o[1]-1]):
                b=p*(1,n[0],n[0]*n[1])[o[0]-1]+q*(1,n[0],n[0]*n[1])[o[1]-1]; m=n[d-1]
                u=W.arr(v); l=W.arr([9.]*(m+1)); W.call('get_memline',u,l,d,p,q,*n,ret='v')
                for i in range(m): ctx.eq(f'get {d} {p}{q}',W.get(l,i),v[b+i*st])
                ctx.eq('line end',W.get(l,m),9.); w=[ctx.var(f'w{i}',-1,1) for i in range(m)]
                W.call('put_memline',u,W.arr(w),d,p,q,*n,ret='v'); P={b+i*st:w[i] for i in range(m)}
                for I in range(N): ctx.eq(f'put {d} {p}{q}',W.get(u,I),P.get(I,v[I]))
def linalg(ctx):
    W=ctx.W
    for n in (1,2,3,5):
        M=rand(ctx,f'M{n}_',n*n); D=rand(ctx,f'D{n}_',n*n); u=rand(ctx,f'u{n}_',n); r=range(n)
        o=W.arr([0.]*n*n); W.call('matrix_times_vector',W.arr(M),W.arr(u),o,n,ret='v')
        for i in r: ctx.eq('M u',W.get(o,i),dot(M[n*i:n*i+n],u),tol=1e-13,scale=n)
        W.call('vector_times_matrix',W.arr(u),W.arr(M),o,n,ret='v')
        for i in r: ctx.eq('u M',W.get(o,i),dot(M[i::n],u),tol=1e-13,scale=n)
        W.call('matrix_times_matrix',W.arr(M),W.arr(D),o,n,ret='v')
        for i in r:
            for j in r: ctx.eq('M D',W.get(o,n*i+j),dot(M[n*i:n*i+n],D[j::n]),tol=1e-13,scale=n)
        ctx.eq('u.v',W.call('scalarproduct_vectors',W.arr(u),W.arr(M),n,ret='d'),dot(u,M[:n]),tol=1e-13,scale=n)
def mk(sym,bas,ns,tt=(None,)*3): return lambda: mkspec(sym,bas,ns,tt)
cases=[]
QN={'ChebExtrema':(2,3,4,5,6,7,8,9),'ChebZeros':(1,2,3,4,5,6,7,8),'Fourier':(1,2,3,4,5,6,7,8,9)}
XN={'ChebExtrema':(11,14,17),'ChebZeros':(11,14,16),'Fourier':(12,13,15,16)}
def addm(b,n,d,tier,tt=None):
    bs=['Fourier']*3; ns=[1]*3; t=[None]*3; bs[d-1]=b; ns[d-1]=n; t[d-1]=tt
    nm=f'matrices {b} n={n} direction {d}'+(' FFT' if tt else '')
    cases.append(Case(nm,mats(d),base=mk(True,bs,ns,t),rbase=mk(False,bs,ns,t),group=nm,timeout=600,tier=tier,bounded=f'n={n}')); cases[-1].lazy=True
for b in QN:
    for n in QN[b]: addm(b,n,1,'quick')
    for d in (2,3): addm(b,5,d,'quick'); addm(b,4,d,'quick')
    for n in XN[b]:
        for d in (1,2,3): addm(b,n,d,'thorough')
for b,ns in (('ChebExtrema',(3,5,9)),('ChebZeros',(4,8)),('Fourier',(4,8,16))):
    for n in ns: addm(b,n,1,'quick','1 NUMREC_FFT')
    addm(b,ns[1],2,'quick','1 NUMREC_FFT'); addm(b,ns[1],3,'quick','1 NUMREC_FFT')
for fn,b in (('cheb_deriv','c'),('four_deriv','f')):
    for n in range(1,14): cases.append(Case(f'{fn} n={n}',kernel(fn,n,b),base=kbase(True),rbase=kbase(False),group='k',bounded=f'n={n}'))
SZ=(3,4,2); DB=('ChebExtrema','Fourier','ChebZeros')
D=lambda n,f,**k: cases.append(Case(n,f,base=mk(True,DB,SZ),rbase=mk(False,DB,SZ),group='d',bounded='box of 3x4x2 points, arbitrary matrices',timeout=300,**k))
for d in (1,2,3):
    D(f'spec_Deriv1 {d}',deriv1('spec_Deriv1',d)); D(f'spec_Deriv2 {d}',deriv1('spec_Deriv2',d,1))
    D(f'spec_Deriv1_diffmatrix {d}',deriv1('spec_Deriv1_diffmatrix',d)); D(f'spec_Deriv2_diffmatrix {d}',deriv1('spec_Deriv2_diffmatrix',d,1))
for o in ('123','132','213','231','312','321'):
    D(f'spec_allDerivs {o}',alld('spec_allDerivs',o)); D(f'spec_allDerivs_diffmatrix {o}',alld('spec_allDerivs_diffmatrix',o))
D('lines',lines)
CB=('ChebExtrema',)*3; CZ=(4,3,5); CT=('1 NUMREC_FFT',)*3
E=lambda n,f,b,z,t=(None,)*3: cases.append(Case(n,f,base=mk(True,b,z,t),rbase=mk(False,b,z,t),group=f'e{b}{z}{t}',bounded=f'box of {z[0]}x{z[1]}x{z[2]} points',timeout=400))
for d in (1,2,3): E(f'cheb_Deriv1 {d}',deriv1('cheb_Deriv1',d,0,False),CB,CZ)
E('cheb_allDerivs',alld('cheb_allDerivs','123',False),CB,CZ)
FB=('ChebExtrema','Fourier','ChebZeros'); FZ=(3,4,2)
for d in (1,2,3):
    E(f'spec_Deriv1 {d} FFT',deriv1('spec_Deriv1',d,0,False),FB,FZ,CT); E(f'spec_Deriv2 {d} FFT',deriv1('spec_Deriv2',d,1,False),FB,FZ,CT)
E('spec_allDerivs FFT',alld('spec_allDerivs','123',False),FB,FZ,CT)
cases.append(Case('matrix products',linalg,base=kbase(True),rbase=kbase(False),group='k',bounded='n in 1,2,3,5'))
if __name__=='__main__':
    main('C03',cases,level='proof')
