"""C08  Finite differences.  The stencils, the matrices sgrid builds from them, the conversion of a grid to finite differences and
the basis functions run as written on arbitrary data, intervals and points; contract: the value is the derivative of the
polynomial through the documented stencil points (hence exact to the advertised order)."""
import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib')
from spec import *
from C03 import rand
def weights(xs,x,der):
    """weights of the der-th derivative at x of the polynomial through the points xs"""
    n=len(xs); w=[]
    for k in range(n):
        o=[i for i in range(n) if i!=k]; d=T.ONE
        for i in o: d=d*(xs[k]-xs[i])
        # der-th derivative of prod (x-xs[i])
        import itertools
        s=T.ZERO
        for c in itertools.permutations(o,der):
            p=T.ONE
            for i in o:
                if i not in c: p=p*(x-xs[i])
            s=s+p
        w.append(s/d)
    return w
def apply(idx,xs,x,der,c):
    w=weights(xs,x,der); return sm(w[k]*c[i] for k,i in enumerate(idx))
def uniform(kind,der,a,b,n,c):
    """n points"""
    if n==1: return [T.ZERO]                       # the derivative along a direction with one point is zero
    per=kind=='periodic'; h=(b-a)/(n if per else n-1); r=[]
    for i in range(n):
        if per: ix=[i-1,i,i+1]
        elif der==1: s=min(max(i-1,0),n-3); ix=[s,s+1,s+2]
        else:
            ix=[i-1,i,i+1] if 0<i<n-1 else [0,1,2,3] if i==0 else [n-4,n-3,n-2,n-1]
        r.append(apply([k%n for k in ix],[a+h*k for k in ix],a+h*i,der,c))
    return r
def nonuni(kind,x,c):
    n=len(x); r=[]
    if n==1: return [T.ZERO]
    for i in range(n):
        lo,hi={'c':(i-1,i+1),'p':(i,i+1),'m':(i-1,i)}[kind]
        if lo<0: lo,hi=0,1
        if hi>n-1: lo,hi=n-2,n-1
        r.append((c[hi]-c[lo])/(x[hi]-x[lo]))
    return r
def kern(fn,kind,der,N):
    def f(ctx):
        W=ctx.W; a=T.lift(ctx.var('a',-2.,1.)); b=T.lift(ctx.var('b',1.5,4.))
        for n in N:
            c=[T.lift(x) for x in rand(ctx,f'c{n}_',n)]; C=W.arr(c+[5.]); o=W.arr([7.]*n+[3.]); W.call(fn,None,a,b,C,o,n-1,ret='v')
            for i,w in enumerate(uniform(kind,der,a,b,n,c)): ctx.eq(f'n={n} [{i}]',W.get(o,i),w,tol=1e-11,scale=n*n)
            for i in range(n): ctx.eq(f'n={n} argument unchanged {i}',W.get(C,i),c[i])
            ctx.eq('end',W.get(o,n),3.)
            # advertised order: exact on polynomials
            if kind!='periodic':
                m=(2 if der==1 else 3); q=rand(ctx,f'q{n}_',m+1); h=(b-a)/(n-1); X=[a+h*i for i in range(n)]
                P=lambda x,d: sm(q[k]*math.perm(k,d)*mono(x,k-d) for k in range(d,m+1))
                W.call(fn,None,a,b,W.arr([P(x,0) for x in X]),o,n-1,ret='v')
                for i in range(n): ctx.eq(f'n={n} exact [{i}]',W.get(o,i),P(X[i],der),tol=1e-10,scale=100*n*n)
    return f
def mono(x,k):
    r=T.ONE
    for _ in range(k): r=r*x
    return r
def ord(ctx,n,nm='x'):
    """arbitrary increasing points"""
    x=[T.lift(ctx.var(nm+'0',-1,1))]
    for i in range(1,n): x.append(x[-1]+ctx.var(f'{nm}{i}',.2,1.))
    return x
def nonk(fn,kind,N):
    def f(ctx):
        W=ctx.W
        for n in N:
            x=ord(ctx,n,f'x{n}_'); c=[T.lift(y) for y in rand(ctx,f'c{n}_',n)]; C=W.arr(c+[5.]); o=W.arr([7.]*n+[3.]); W.call(fn,W.arr(x),C,o,n-1,ret='v')
            for i,w in enumerate(nonuni(kind,x,c)): ctx.eq(f'n={n} [{i}]',W.get(o,i),w,tol=1e-11,scale=10)
            ctx.eq('end',W.get(o,n),3.); p,q=ctx.var(f'p{n}',-1,1),ctx.var(f'q{n}',-1,1)
            W.call(fn,W.arr(x),W.arr([p+q*y for y in x]),o,n-1,ret='v')
            for i in range(n): ctx.eq(f'n={n} exact [{i}]',W.get(o,i),q if n>1 else T.ZERO,tol=1e-11,scale=10)
            # the matrix
            D=W.arr([9.]*(n*n)); W.call('init_fdcentered_diffmatrix',W.arr(x),D,n,fptr(W,fn),ret='v')
            for i,w in enumerate(nonuni(kind,x,c)): ctx.eq(f'matrix n={n} [{i}]',sm(T.lift(W.get(D,n*i+j))*c[j] for j in range(n)),w,tol=1e-11,scale=10)
    return f
def setpoints(ctx,W,d,n,nm):
    """arbitrary points along direction d; what is stored off the line must not matter"""
    x=ord(ctx,n[d-1],nm); p=W.v(W.bx,' XYZ'[d]); st=(1,n[0],n[0]*n[1])[d-1]; N=n[0]*n[1]*n[2]
    for I in range(N):
        i=I//st%n[d-1]; W.set(p,I,x[i] if I==i*st else 55.+I)
    return x
def nonbox(d):
    def f(ctx):
        W=ctx.W; n=W.ns; m=n[d-1]; x=setpoints(ctx,W,d,n,'x'); c=[T.lift(y) for y in rand(ctx,'c',m)]; o=W.arr([7.]*m+[3.])
        W.call(f'fdcentered_deriv{d}_onesidedBC',W.bx,ctx.var('a',-1,1),ctx.var('b',2,3),W.arr(c),o,m-1,ret='v')
        for i,w in enumerate(nonuni('c',x,c)): ctx.eq(f'[{i}]',W.get(o,i),w,tol=1e-11,scale=10)
        ctx.eq('end',W.get(o,m),3.)
    return f
def mm(A,B): n=len(A); return [[sm(A[i][k]*B[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
def lin(f,n):
    """matrix of a linear map"""
    cols=[f([T.ONE if i==j else T.ZERO for i in range(n)]) for j in range(n)]; return [[cols[j][i] for j in range(n)] for i in range(n)]
def cmpm(ctx,l,A,B,scale=1):
    for i in range(len(A)):
        for j in range(len(A)): ctx.eq(f'{l}[{i}][{j}]',A[i][j],B[i][j],tol=1e-11,scale=scale)
def ident(n): return [[T.ONE if i==j else T.ZERO for j in range(n)] for i in range(n)]
def mats(d):
    """matrices and points of the finite difference bases"""
    def f(ctx):
        B=Box(ctx,dirs=(d,)); n=B.n[d-1]; points(ctx,B,d); k='periodic' if 'periodic' in B.W.bas[d-1] else 'onesided'
        a,b=T.lift(B.a[d]),T.lift(B.b[d])
        cmpm(ctx,'D',B.mat(0,d),lin(lambda c: uniform(k,1,a,b,n,c),n),n)
        cmpm(ctx,'DD',B.mat(1,d),lin(lambda c: uniform(k,2,a,b,n,c),n),n*n)
        cmpm(ctx,'Mcoeffs',B.mat(3,d),ident(n)); cmpm(ctx,'Meval',B.mat(4,d),ident(n))
    return f
def convert(fn):
    def f(ctx):
        W=ctx.W; n=W.ns; B=Box(ctx); x={d:setpoints(ctx,W,d,n,f'x{d}_') for d in (1,2,3)}
        for w in (0,1,3,4):
            for d in (1,2,3):
                p=W.call('vs_mat',W.bx,w,d,ret='p')
                for i in range(n[d-1]**2): W.set(p,i,77.)
        W.call(fn,W.g,ret='v')
        for d in (1,2,3):
            m=n[d-1]; per=W.bas[d-1] in('Fourier','fd2_periodic') and fn=='convert_grid_to_fd'; a,b=T.lift(B.a[d]),T.lift(B.b[d])
            D=lin((lambda c: uniform('periodic',1,a,b,m,c)) if per else (lambda c: nonuni('c',x[d],c)),m)
            cmpm(ctx,f'D{d}',B.mat(0,d),D,10)
            if fn=='convert_grid_to_fd': cmpm(ctx,f'DD{d}',B.mat(1,d),mm(D,D),100)
            cmpm(ctx,f'Mcoeffs{d}',B.mat(3,d),ident(m)); cmpm(ctx,f'Meval{d}',B.mat(4,d),ident(m))
        # derivatives, coefficients and interpolation now use them
        N=n[0]*n[1]*n[2]; u=[T.lift(y) for y in rand(ctx,'u',N)]; U=W.arr(u); o=W.arr([3.]*N)
        for d in (1,2,3):
            m=n[d-1]; st=(1,n[0],n[0]*n[1])[d-1]; D=B.mat(0,d)
            W.call('spec_Deriv1',W.bx,d,U,o,ret='v')
            for I in range(N):
                i=I//st%m; ctx.eq(f'derivative {d} [{I}]',W.get(o,I),sm(D[i][j]*u[I+(j-i)*st] for j in range(m)),tol=1e-10,scale=10)
            if fn=='convert_grid_to_fd':
                W.call('spec_Deriv2',W.bx,d,U,o,ret='v'); D=B.mat(1,d)
                for I in range(N):
                    i=I//st%m; ctx.eq(f'second derivative {d} [{I}]',W.get(o,I),sm(D[i][j]*u[I+(j-i)*st] for j in range(m)),tol=1e-10,scale=100)
        W.call('spec_Coeffs',W.bx,U,o,ret='v')
        for I in range(N): ctx.eq(f'coefficients [{I}]',W.get(o,I),u[I],tol=1e-12)
        if fn=='convert_grid_to_fd':
            ranges(ctx,tidy=True); i=(n[0]-1,0,n[2]//2); X=[]
            for d in (1,2,3):
                x_=x[d]; k=i[d-1]; lo=x_[k]-(x_[k]-x_[k-1])*Fr(2,5) if k else x_[0]-3; hi=x_[k]+(x_[k+1]-x_[k])*Fr(2,5) if k<n[d-1]-1 else x_[-1]+3
                X.append(lo+(hi-lo)*ctx.var(f's{d}',0.,1.))
            ctx.eq('nearest point',W.call('spec_interpolate',W.bx,W.arr(u),*X,ret='d'),u[i[0]+n[0]*(i[1]+n[1]*i[2])],tol=1e-12)
    return f
def basis(d):
    """Kronecker delta basis: the nearest point of the box; without a box, the cell of a uniform periodic grid"""
    def f(ctx):
        W=ctx.W; n=W.ns; m=n[d-1]; x=setpoints(ctx,W,d,n,'x'); s=ctx.var('s',.01,.99); ranges(ctx,tidy=True)
        cells=[(x[0]-2)]+[(x[i]+x[i+1])/2 for i in range(m-1)]+[x[-1]+2]
        for c in range(m):
            X=cells[c]+(cells[c+1]-cells[c])*s
            for k in range(m): ctx.eq(f'box: cell {c} function {k}',W.call(f'fd_basis{d}',W.bx,-1.,1.,k,m,X,ret='d'),1. if k==c else 0.)
            for k in range(m): ctx.eq(f'box: point {c} function {k}',W.call(f'fd_basis{d}',W.bx,-1.,1.,k,m,x[c],ret='d'),1. if k==c else 0.)
        a=T.lift(ctx.var('a',-2.,1.)); L=T.lift(ctx.var('L',1.5,4.)); b=a+L
        if ctx.sym: W.M.f2ihook=trunc(ctx)
        for N in (1,2,5):
            for c in range(N):
                X=a+L*((s+c)/N)
                for k in range(N): ctx.eq(f'no box, N={N}: cell {c} function {k}',W.call(f'fd_basis{d}',None,a,b,k,N,X,ret='d'),1. if k==c else 0.)
            for k in range(N):
                for l,X,c in (('a',a,0),('b',b,N-1),('left',a-1,0),('right',b+1,N-1)): ctx.eq(f'no box, N={N}: {l} function {k}',W.call(f'fd_basis{d}',None,a,b,k,N,X,ret='d'),1. if k==c else 0.)
    return f
def trunc(ctx):
    import ival
    nod=lambda x:(-math.inf,math.inf)
    def h(M,a):
        dom={k:v for k,v in ctx.dom.items() if not k.endswith('@*')}
        k=math.floor(T.evalf(a,{k:(v[0]+v[1])/2 for k,v in dom.items()}))
        y=lambda c: c if isinstance(c,bool) else ival.decide(c,dom,nod,8)
        if k>=0 and y(ival.tidy(T.cmp_('le',T.const(k),a))) and y(ival.tidy(T.cmp_('lt',a,T.const(k+1)))): return k
        raise Undecided(f'double to int near {k}')
    return h
def trafo(ctx):
    W=ctx.W
    for n in (1,2,5):
        c=rand(ctx,f'c{n}_',n)
        for fn,swap in (('fd2_coeffs',0),('fd2_eval',1)):
            a=W.arr(c+[1.]); o=W.arr([4.]*(n+1)); W.call(fn,*((o,a) if not swap else (a,o)),n-1,ret='v')
            for i in range(n): ctx.eq(f'{fn} {i}',W.get(o,i),c[i]); ctx.eq('argument',W.get(a,i),c[i])
            ctx.eq('end',W.get(o,n),4.)
def mk(sym,bas,ns,tt=(None,)*3,**k): return lambda: mkspec(sym,bas,ns,tt,**k)
cases=[]
def K(nm,f,g='k',**k): cases.append(Case(nm,f,base=mk(True,('Fourier',)*3,(1,1,1)),rbase=mk(False,('Fourier',)*3,(1,1,1)),group=g,**k))
for r,N in (('',(3,4,5,8)),):
    K('fd2_deriv_periodic',kern('fd2_deriv_periodic','periodic',1,(1,2)+N),bounded=f'n in {(1,2)+N}'); K('fd2_deriv_onesidedBC',kern('fd2_deriv_onesidedBC','onesided',1,N),bounded=f'n in {N}')
    K('fd2_2ndderiv_periodic',kern('fd2_2ndderiv_periodic','periodic',2,(1,2)+N),bounded=f'n in {(1,2)+N}'); K('fd2_2ndderiv_onesidedBC',kern('fd2_2ndderiv_onesidedBC','onesided',2,N[1:]),bounded=f'n in {N[1:]}')
for f,k in (('fdcentered_deriv_onesidedBC','c'),('fdDp_deriv_onesidedBC','p'),('fdDm_deriv_onesidedBC','m')): K(f,nonk(f,k,(1,2,3,6)),bounded='n in (1,2,3,6)')
K('fd2_coeffs and fd2_eval',trafo,bounded='n in (1,2,5)')
def A(nm,f,c,**k): cases.append(Case(nm,f,base=mk(True,*c,**k),rbase=mk(False,*c,**k),group=f'{c}{k}',bounded='box of %dx%dx%d points'%c[1],timeout=400))
Q=(('ChebExtrema','ChebZeros','Fourier'),(3,4,5)); Q2=(('Fourier','fd2_periodic','ChebExtrema'),(5,3,4)); Q3=(('fd2_onesided','Fourier','fd2_periodic'),(4,4,3))
for c in (Q,Q2,Q3):
    L='/'.join(b+str(n) for b,n in zip(*c))
    for fn in ('convert_grid_to_fd','convert_grid_to_fd_matrices_onesidedBC'): A(f'{fn} {L}',convert(fn),c)
for c in ((('Fourier','ChebExtrema','fd2_periodic'),(1,3,1)),(('ChebExtrema','Fourier','Fourier'),(3,4,1))):
    for fn in ('convert_grid_to_fd','convert_grid_to_fd_matrices_onesidedBC'): A(f'{fn} one point {c[1]}',convert(fn),c)
for d in (1,2,3): A(f'matrices fd2_periodic n=1 direction {d}',mats(d),(tuple('fd2_periodic' if d==k else 'Fourier' for k in (1,2,3)),(1,1,1)))
A('convert_grid_to_fd FFT',convert('convert_grid_to_fd'),(Q[0],(5,4,4)),tt=('1 NUMREC_FFT',)*3)
for d in (1,2,3):
    A(f'fdcentered_deriv{d}_onesidedBC',nonbox(d),Q); A(f'fd_basis{d}',basis(d),Q)
    for b in ('fd2_onesided','fd2_periodic'):
        for n in (4,7):
            bs=['Fourier']*3; ns=[1]*3; bs[d-1]=b; ns[d-1]=n; A(f'matrices {b} n={n} direction {d}',mats(d),(tuple(bs),tuple(ns)))
if __name__=='__main__':
    main('C08',cases,level='proof',trusted=['BLAS: cblas_dgemv'])
