"""C07  Spectral filters.  The filter matrices sgrid builds, the box filters and the coordinate dependent filters run as written on
an arbitrary grid function, written as an arbitrary combination of the basis functions; the contract: afterwards it is the same
combination without the advertised modes, every other grid function is unchanged, and a second application changes nothing."""
import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib')
from spec import *
from C03 import rand
from C05 import CONF
def kern(fn):
    def f(ctx):
        W=ctx.W; n=7; c=rand(ctx,'c',n+1)
        for m in range(0,n):
            for k in range(0,m+3):
                p=W.arr(c); W.call(fn,p,k,m,ret='v')
                for j in range(n+1): ctx.eq(f'n={m} k={k} [{j}]',W.get(p,j),0. if k<=j<=m else c[j])
    return f
def mats(d,filt):
    """the filter matrix on every basis function; then with another cut-off, then without"""
    def f(ctx):
        W=ctx.W; n=W.ns[d-1]; st=(1,n,n*n)
        for k in (filt,1,0):
            setpar(ctx,f'box0_filter{d}',str(k)); B=Box(ctx,dirs=(d,)); F=B.mat(2,d)
            for q,m in enumerate(modes(B,d)):
                for i in range(n): ctx.eq(f'filter {k} mode {m[0]} at {i}',dot(F[i],m[1]),m[1][i] if q<n-k else T.ZERO,tol=1e-11,scale=n)
    return f
def filter1(d):
    """an arbitrary matrix along every line, in place"""
    def f(ctx):
        W=ctx.W; n=W.ns; N=n[0]*n[1]*n[2]; m=n[d-1]; M=[[T.lift(ctx.var(f'F{i}{j}',-1,1)) for j in range(m)] for i in range(m)]
        for k in (1,2,3):
            p=W.call('vs_mat',W.bx,2,k,ret='p')
            for i in range(n[k-1]**2): W.set(p,i,M[i//m][i%m] if k==d else ctx.var(f'x{k}{i}',-1,1))
        v=[T.lift(x) for x in rand(ctx,'u',N)]; u=W.arr(v+[2.]); W.call('spec_filter1',W.bx,d,u,ret='v'); st=(1,n[0],n[0]*n[1])[d-1]
        for I in range(N):
            i=I//st%m; ctx.eq(f'u[{I}]',W.get(u,I),sm(M[i][j]*v[I+(j-i)*st] for j in range(m)),tol=1e-12,scale=m)
        ctx.eq('end',W.get(u,N),2.)
    return f
class G(I3):
    """the arbitrary grid function is the variable u; w is another one"""
    def __init__(s,ctx,lim={}):
        super().__init__(ctx,lim); W=s.W; s.u=W.v(W.bx,'u'); s.w0=[T.lift(x) for x in rand(ctx,'w',s.N)]; s.w=W.v(W.bx,'w')
        s.c0=dict(s.c); s.reset()
    def reset(s):
        for I in range(s.N): s.W.set(s.u,I,s.v[I]); s.W.set(s.w,I,s.w0[I])
    def kept(s,keep):
        s.c={k:(x if keep(*k) else T.ZERO) for k,x in s.c0.items()}; r=s.build(lambda d,m,i: m[1][i]); s.c=s.c0; return r
    def check(s,call,keep,lab='',tw=True):
        w=s.kept(keep); call(); s.cmp(lab+'filtered',s.u,w); s.cmp(lab+'other variable',s.w,s.w0)
        if tw: call(); s.cmp(lab+'twice',s.u,w)
def three(cuts):
    def f(ctx):
        s=G(ctx); W=s.W; n=s.n
        for c in cuts:
            s.reset(); k=lambda p,q,r: p<c[0] and q<c[1] and r<c[2]; C=s.kept(k)
            s.check(lambda: W.call('spec_filter3d_inbox',W.bx,W.ind('u'),W.ind('c'),*c,ret='v'),k,f'{c} ',tw=c==cuts[0])
            o=s.new(); W.call('spec_Coeffs',W.bx,W.arr(C),o,ret='v'); s.cmp(f'{c} coefficients',W.v(W.bx,'c'),[W.get(o,I) for I in range(s.N)])
    return f
def vl(W,*names):
    l=W.call('vlalloc',W.g,ret='p')
    for n in names: W.call('vlpush',l,W.ind(n),ret='v')
    return l
# ---------------------------------------------------------------- filters of the evolution modules
def even(frac,n,shift):
    k=int(0.5*frac*n)*2+shift-2; return k
def square(fn,pre,ell,shift,frac):
    def f(ctx):
        s=G(ctx); W=s.W; n=s.n; l=vl(W,'u')
        for k,v in (('n2frac',frac[0]),('n3frac',frac[1]),('shift2',shift[0]),('shift3',shift[1]),('YZregion','ellipse' if ell else 'square')): setpar(ctx,f'{pre}_filter_{k}',str(v))
        j=even(frac[0],n[1],shift[0]); k=even(frac[1],n[2],shift[1]); e=lambda i: (i+1)//2*2
        keep=(lambda p,q,r: Fr(e(q)**2,j*j)+Fr(e(r)**2,k*k)<=1) if ell else (lambda p,q,r: q<=j and r<=k)
        s.check(lambda: W.call(fn,l,None,ret='v'),keep)
    return f
def third(fn,kind):
    def f(ctx):
        s=G(ctx); W=s.W; c=[m//3*2 for m in s.n]; l=vl(W,'u')
        keep={'X':lambda p,q,r: p<c[0],'XYZ':lambda p,q,r: p<c[0] and q<c[1] and r<c[2],'X-':lambda p,q,r: p<c[0]-1}[kind]
        s.check(lambda: W.call(fn,l,None,ret='v'),keep)
    return f
def dispatch(typ,kind,vars='all'):
    def f(ctx):
        s=G(ctx); W=s.W; c=[m//3*2 for m in s.n]; setpar(ctx,'BSSN_filter_vars',vars); setpar(ctx,'BSSN_filter_type',typ); l=vl(W,'u')
        keep={None:lambda *a:True,'X':lambda p,q,r: p<c[0],'XYZ':lambda p,q,r: p<c[0] and q<c[1] and r<c[2],'X-':lambda p,q,r: p<c[0]-1,'old':lambda p,q,r: p<s.n[0]-1 and r<s.n[2]-2}[kind]
        s.check(lambda: W.call('BSSN_ChooseAndApplyFilters',l,ret='v'),keep)
    return f
def unfiltered(ctx):
    """other coordinates are not filtered"""
    s=G(ctx); W=s.W; l=vl(W,'u'); setpar(ctx,'box0_Coordinates','CubedSphere')
    s.check(lambda: W.call('coordinateDependentFilter',l,ret='v'),lambda *a: True)
# ---------------------------------------------------------------- coordinate dependent filters
def sph(kind,two):
    """latitudes anywhere on the sphere"""
    def f(ctx):
        W=ctx.W; n=W.ns
        s=I3.__new__(I3); s.ctx=ctx; s.B=B=Box(ctx,dirs=(3,)); s.W=W; s.n=n; N=s.N=n[0]*n[1]*n[2]; h=n[2]//2
        setpar(ctx,'box0_Coordinates',kind); names=('u','w') if two else ('u',); l=vl(W,*names)
        m3=list(modes(B,3)); cut={}
        cnt=4*h+2
        for j in range(n[1]):
            # |sin| such that h|sin| is strictly between q/.. and .. : every admissible number of kept modes, both hemispheres
            q=j%(h+1); lo,hi=(q+.06)/h,(q+.94)/h
            if q==h: lo,hi=None,None
            cut[j]=2*(min(q,h)+1)-1
            if kind=='SphericalDF':
                sh=math.pi/((1+n[1]%2)*n[1])
                if q==h: th=T.PI/2; y=th-T.PI/((1+n[1]%2)*n[1])
                else:
                    a,b=math.asin(lo),math.asin(hi)
                    if j%3==1: a,b=math.pi-b,math.pi-a
                    elif j%3==2: a,b=math.pi+a,math.pi+b
                    if j%2 and j%3==0: a,b=2*math.pi-b,2*math.pi-a
                    y=ctx.var(f'Y{j}',a-sh,b-sh)
                for k in range(n[2]):
                    for i in range(n[0]): W.set(W.v(W.bx,'Y'),i+n[0]*(j+n[1]*k),y if not k and not i else 77.)
            else:
                # the point (sin sin t cos p, ...) has any radius and any azimuth
                for c in 'xyz': 
                    for k in range(n[2]):
                        for i in range(n[0]): W.set(W.v(W.bx,c),i+n[0]*(j+n[1]*k),77.)
                if q==h: p=(T.lift(ctx.var(f'r{j}',.5,3.)),T.ZERO,T.ZERO)
                else:
                    R=1.3+.2*j; t=(math.asin(lo)+math.asin(hi))/2; ph=.4+j; e=.002
                    p=[T.lift(ctx.var(f'{c}{j}',m-e,m+e)) for c,m in zip('xyz',(R*math.sin(t)*math.cos(ph),R*math.sin(t)*math.sin(ph),R*math.cos(t)*(-1 if j%2 else 1)))]
                for c,x in zip('xyz',p): W.set(W.v(W.bx,c),n[0]*j,x)
        ranges(ctx)
        if ctx.sym: W.M.f2ihook=f2i(ctx)
        want={}
        for v in names:
            co=[T.lift(x) for x in rand(ctx,v,N)]; p=W.v(W.bx,v)
            want[v]=[sm(co[I%(n[0]*n[1])+q*n[0]*n[1]]*m[1][I//(n[0]*n[1])] for q,m in enumerate(m3) if q<cut[I//n[0]%n[1]]) for I in range(N)]
            for I in range(N): W.set(p,I,sm(co[I%(n[0]*n[1])+q*n[0]*n[1]]*m[1][I//(n[0]*n[1])] for q,m in enumerate(m3)))
        w=[T.lift(x) for x in rand(ctx,'other',N)]
        if not two:
            for I in range(N): W.set(W.v(W.bx,'w'),I,w[I])
        for rep in ('','twice '):
            W.call('coordinateDependentFilter',l,ret='v')
            for v in names:
                for I in range(N): ctx.eq(f'{rep}{v}[{I}]',W.get(W.v(W.bx,v),I),want[v][I],tol=1e-11,scale=10)
            if not two:
                for I in range(N): ctx.eq(f'{rep}other variable [{I}]',W.get(W.v(W.bx,'w'),I),w[I])
    return f
def f2i(ctx):
    """truncation of a nonnegative term: the ranges decide between which integers it lies"""
    import ival,decide
    nod=lambda x:(-math.inf,math.inf)
    def h(M,a):
        dom={k:v for k,v in ctx.dom.items() if not k.endswith('@*')}
        x=T.evalf(a,{k:(v[0]+v[1])/2 for k,v in dom.items()})
        if abs(x-round(x))<1e-9 and decide.equal(a,T.const(round(x))).status=='ok': return round(x)
        k=math.floor(x)
        if x>0 and ival.decide(T.cmp_('le',T.const(k),a),dom,nod,10) and ival.decide(T.cmp_('lt',a,T.const(k+1)),dom,nod,10): return k
        raise Undecided(f'double to int of a value near {x}')
    return h
def mk(sym,bas,ns,tt=(None,)*3,**k): return lambda: mkspec(sym,bas,ns,tt,**k)
cases=[]
for fn in ('cheb_filter','four_filter'): cases.append(Case(fn,kern(fn),base=mk(True,('Fourier',)*3,(1,1,1)),rbase=mk(False,('Fourier',)*3,(1,1,1)),group='k',bounded='n<=7'))
def M(b,n,d,filt,tier='quick',tt=None):
    bs=['Fourier']*3; ns=[1]*3; fl=[0]*3; t=[None]*3; bs[d-1]=b; ns[d-1]=n; fl[d-1]=filt; t[d-1]=tt
    cases.append(Case(f'matrix {b} n={n} filter={filt} direction {d}'+(' FFT' if tt else ''),mats(d,filt),base=mk(True,bs,ns,t),rbase=mk(False,bs,ns,t),group=f'm{b}{n}{d}{tt}',bounded=f'n={n}',tier=tier))
for b,N in (('ChebExtrema',(2,3,4,6)),('ChebZeros',(1,2,3,5)),('Fourier',(1,2,3,4,5,6))):
    for n in N:
        for q in sorted({1,2,n//2,n-1,n,n+1}&set(range(1,n+2))): M(b,n,1,q)
    for d in (2,3): M(b,4,d,2); M(b,5,d,3)
    for n in (9,10,12): M(b,n,1,n//3,'thorough')
    M(b,{'ChebExtrema':5,'ChebZeros':4,'Fourier':8}[b],1,2,tt='1 NUMREC_FFT')
SZ=(3,4,2); DB=('ChebExtrema','Fourier','ChebZeros')
def A(nm,f,c=(DB,SZ),grp='',**k): cases.append(Case(nm,f,base=mk(True,*c,**k),rbase=mk(False,*c,**k),group=f'{c}{grp}',bounded='box of %dx%dx%d points'%c[1],timeout=400))
for d in (1,2,3): A(f'spec_filter1 {d}',filter1(d))
for c in CONF[:3]:
    L='/'.join({'ChebExtrema':'E','ChebZeros':'Z','Fourier':'F'}[b]+str(n) for b,n in zip(*c)); n=c[1]
    A(f'spec_filter3d_inbox {L}',three([(2,2,3),(n[0],n[1],n[2]),(n[0]+2,3,n[2]-1),(1,n[1]+1,2),(2,n[1],n[2]+3),(0,2,2),(2,1,0),(2,0,n[2])]),c)
PH='ADMvars BSSN ScalarOnKerr'
FC=[(('ChebExtrema','Fourier','Fourier'),(3,6,6)),(('ChebZeros','Fourier','Fourier'),(2,5,8)),(('ChebExtrema','ChebZeros','ChebExtrema'),(6,4,5))]
TN=('temp1',)
for i,c in enumerate(FC):
    L='x'.join(map(str,c[1]))
    for fn,pre in (('BSSN_filter_unew','BSSN'),('filter_unew','ScalarOnKerr')):
        if i<2:
            A(f'{fn} square {L}',square(fn,pre,False,(0,0),(0.66666666667,0.66666666667)),c,'ph',physics=PH,enable=TN)
            A(f'{fn} square shifted {L}',square(fn,pre,False,(1,-1),(0.9,0.8)),c,'ph',physics=PH,enable=TN)
            A(f'{fn} ellipse {L}',square(fn,pre,True,(2,2),(0.7,0.9)),c,'ph',physics=PH,enable=TN)
    A(f'filter_unew_radially {L}',third('filter_unew_radially','X'),c,'ph',physics=PH,enable=TN)
    for t,k in (('filter_with2o3rule_inX','X'),('filter_with2o3rule_inXYZ','XYZ'),('filter_with2o3rule_minus1_inX','X-')): A(f'{t} {L}',third(t,k),c,'ph',physics=PH,enable=TN)
for t,k in (('none',None),('X2/3','X'),('XYZ2/3','XYZ'),('X2/3-1','X-')): A(f'BSSN_ChooseAndApplyFilters {t}',dispatch(t,k),FC[2],'ph',physics=PH,enable=TN)
A('BSSN_ChooseAndApplyFilters none chosen',dispatch('X2/3',None,'no'),FC[2],'ph',physics=PH,enable=TN)
A('BSSN_ChooseAndApplyFilters matrices',dispatch('old_spec_filters','old'),FC[2],'old',physics=PH,enable=TN,filt=(1,0,2))
A('no coordinate dependent filter',unfiltered,FC[2],'ph',physics=PH,enable=TN)
for n in ((2,5,4),(1,4,5),(2,6,6),(1,7,7)):
    for k in ('SphericalDF','Spherical','Spherical2','Spherical3'):
        if k[-1] in '23' and n[1]!=5: continue
        A(f'{k} {"x".join(map(str,n))}',sph(k,n[1]%2==0),(('ChebZeros','Fourier','Fourier'),n),'co',enable=TN+('x','y','z'))
if __name__=='__main__':
    main('C07',cases,level='proof',trusted=['BLAS: cblas_dgemv'])
