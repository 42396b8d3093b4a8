"""C28  Attenuation functions and complex-number helpers.  Every function runs symbolically for arbitrary arguments; each
region of the arguments is its own path.  Values are compared with the defining expressions (the window is the logistic
function of the documented argument, so it lies in (0,1) and is monotone because the derivative, proved below, is a product of
squares), derivative functions with the derivative of the value function of the same tree."""
import sys,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/vlib')
from phys import *
def mk(sym,conf='main'): return mkworld(sym,boxpars(1,3),conf)
CASES=[]
def case(name,fn,both=False,**k):
    """both: the function exists in both numerics libraries"""
    real=k.pop('real',3)
    for cf in ('main','alt') if both else ('main',):
        c=Case(name+(' (NumericUtils)' if cf=='alt' else ''),fn,base=lambda cf=cf:mk(True,cf),rbase=lambda cf=cf:mk(False,cf),group=cf,real=real,timeout=120,**k); c.conf=cf; CASES.append(c)
def call(ctx,f,*a):
    r=ctx.W.call(f,*(a if ctx.sym else [ctx.num(x) for x in a]),ret='d'); return r
def E(ctx,t):
    """an expression over the case's variables, as the back end of the world wants it"""
    return t if ctx.sym else ctx.num(t)
def nderiv(ctx,f,a,k,h=1e-4):
    a=[ctx.num(x) for x in a]
    def at(t): b=list(a); b[k]+=t*h; return ctx.W.call(f,*b,ret='d')
    return (8*(at(1)-at(-1))-(at(2)-at(-2)))/(12*h)
def deriv_of(ctx,df,f,a,k,label,tol=1e-7,sc=1.):
    g=call(ctx,df,*a)
    if ctx.sym: w=T.diff(ctx.W.call(f,*a,ret='d'),a[k].a[0])
    else: w=nderiv(ctx,f,a,k)
    ctx.eq(label,g,w,tol=tol,scale=1. if ctx.sym else sc+abs(w))
    return g
# ------------------------------------------------------------------ windows
ATT=[('Att_0to1_x_x0_w_q_s','dAtt_0to1_x_x0_w_q_s',1),('Att_1to0_x_x0_w_q_s','dAtt_1to0_x_x0_w_q_s',-1)]
def att(F,DF,sg,where):
    def fn(ctx):
        x0=ctx.var('x0',-1.,1.); w=ctx.var('w',.5,2.); q=ctx.var('q',.5,1.5); s=ctx.var('s',.5,2.)
        lo=0 if sg>0 else 1; hi=1-lo
        if where in('below','at start'):
            d=ctx.var('d',.01,3.) if where=='below' else 0; x=x0-d; ranges(ctx); a=(x,x0,w,q,s)
            ctx.eq('value',call(ctx,F,*a),lo); ctx.eq('derivative',call(ctx,DF,*a),0); return
        if where in('above','at end'):
            d=ctx.var('d',.01,3.) if where=='above' else 0; x=x0+w+d; ranges(ctx); a=(x,x0,w,q,s)
            ctx.eq('value',call(ctx,F,*a),hi); ctx.eq('derivative',call(ctx,DF,*a),0); return
        t=ctx.var('t',.1,.9)                                # inside: x=x0+t*w
        ranges(ctx)
        if ctx.sym: X=T.var('t')*0+x0+t*w
        else: X=x0+t*w
        a=(X,x0,w,q,s)
        v=call(ctx,F,*a)
        if ctx.sym:
            th=T.div(T.mul(t,PIc),T.lift(2)); tn=T.div(T.sin(th),T.cos(th)); g=s/PIc*(tn-q*q/tn)
            ctx.eq('value is the logistic function of 2g',v,T.div(T.ONE,T.ONE+T.exp(T.neg(g+g)*sg)))
            d=call(ctx,DF,*a); dv=T.diff(v,'t')/w
            ctx.eq('derivative function is the derivative',d,dv)
            # positive definite form: s/w (sec^2+q^2 csc^2) v (1-v) >= 0
            ctx.eq('derivative has the sign of the window',d,sg*s/w*(T.ONE/(T.cos(th)*T.cos(th))+q*q/(T.sin(th)*T.sin(th)))*v*(T.ONE-v))
        else:
            W=ctx.W; ctx.true('within [0,1]',0<=v<=1); n=[ctx.num(z) for z in a]
            f=lambda X: W.call(F,X,*n[1:],ret='d'); h=1e-4; w_=(8*(f(n[0]+h)-f(n[0]-h))-(f(n[0]+2*h)-f(n[0]-2*h)))/(12*h)
            d=call(ctx,DF,*a); ctx.eq('derivative function is the derivative',d,w_,tol=1e-6,scale=1+abs(w_))
            ctx.true('derivative has the sign of the window',sg*d>=0)
    return fn
PIc=T.mk('pi')
for F,DF,sg in ATT:
    for where in('below','at start','inside','at end','above'): case(f'{F} {where}',att(F,DF,sg,where),real=4 if where=='inside' else (2 if where in('below','above') else 0),both=True)
def att01(where):
    def fn(ctx):
        s=ctx.var('s',.5,3.); p=ctx.var('p',.2,.8)
        if where in('below','above'):
            d=ctx.var('d',0.,2.); x=-d if where=='below' else 1+d
            ranges(ctx); ctx.eq('value',call(ctx,'Attenuation01',x,s,p),0 if where=='below' else 1); return
        if where=='end': ctx.eq('value at 0',call(ctx,'Attenuation01',T.ZERO,s,p),0); ctx.eq('value at 1',call(ctx,'Attenuation01',T.ONE,s,p),1); return
        x=ctx.var('x',.1,.9); ranges(ctx); v=call(ctx,'Attenuation01',x,s,p)
        if ctx.sym:
            c=2*s*p*p*(T.ONE-p); g=c*(T.neg(T.ONE/x)+((T.ONE-p)/p)/(T.ONE-x))
            ctx.eq('logistic',v,T.ONE/(T.ONE+T.exp(T.neg(g+g))))
            dv=T.diff(v,'x'); ctx.eq('monotone form of the derivative',dv,2*c*(T.ONE/(x*x)+((T.ONE-p)/p)/((T.ONE-x)*(T.ONE-x)))*v*(T.ONE-v))
            at=lambda t: T.subst([t],{'x':p})[0]
            ctx.eq('step at p',at(v),T.const(Fr(1,2))); ctx.eq('slope s at p',at(dv),s)
        else:
            ctx.true('within [0,1]',0<=v<=1); n=[ctx.num(z) for z in (p,s,p)]; f=lambda X: ctx.W.call('Attenuation01',X,*n[1:],ret='d')
            ctx.eq('step at p',f(n[0]),.5,tol=1e-9); h=1e-4; ctx.eq('slope s at p',(8*(f(n[0]+h)-f(n[0]-h))-(f(n[0]+2*h)-f(n[0]-2*h)))/(12*h),n[1],tol=1e-5)
            y=ctx.num(x); ctx.true('monotone',f(y+1e-3)>=v)
    return fn
for w in('below','end','inside','above'): case('Attenuation01 '+w,att01(w),real=3 if w!='end' else 1,both=True)
# ------------------------------------------------------------------ Arg
QUAD={'++':((.2,2.),(.2,2.)),'+-':((.2,2.),(-2.,-.2)),'-+':((-2.,-.2),(.2,2.)),'--':((-2.,-.2),(-2.,-.2)),'+0':((.2,2.),None),'-0':((-2.,-.2),None),'0+':(None,(.2,2.)),'0-':(None,(-2.,-.2))}
def arg(f,q):
    def fn(ctx):
        r=QUAD[q]; x=ctx.var('x',*r[0]) if r[0] else T.ZERO; y=ctx.var('y',*r[1]) if r[1] else T.ZERO
        ranges(ctx); a=call(ctx,f,x,y)
        lo,hi=(0.,2*math.pi) if f=='Arg_plus' else (-math.pi,math.pi)
        if ctx.sym:
            n=T.sqrt(x*x+y*y); ctx.eq('r cos Arg = x',n*T.cos(a),x); ctx.eq('r sin Arg = y',n*T.sin(a),y)
            want=T.atan2(y,x) if r[0] and r[1] else {'+0':T.ZERO,'-0':PIc,'0+':PIc/2,'0-':T.neg(PIc)/2}[q]
            if f=='Arg_plus' and q in('+-','--','0-'): want=want+2*PIc
            ctx.eq('principal value',a,want)
        else:
            X,Y=ctx.num(x),ctx.num(y); w=math.atan2(Y,X)
            if f=='Arg_plus' and w<0: w+=2*math.pi
            ctx.eq('principal value',a,w,tol=1e-12); ctx.true('range',lo<=a<=hi)
    return fn
for f in('Arg','Arg_plus'):
    for q in QUAD: case(f'{f} {q}',arg(f,q),real=1)
def argd(q):
    def fn(ctx):
        r=QUAD[q]; x=ctx.var('x',*r[0]); y=ctx.var('y',*r[1]); ranges(ctx); a=(x,y)
        deriv_of(ctx,'dArgdx','Arg',a,0,'dArg/dx'); deriv_of(ctx,'dArgdy','Arg',a,1,'dArg/dy')
        deriv_of(ctx,'ddArgdxdx','dArgdx',a,0,'d2Arg/dxdx',sc=10); deriv_of(ctx,'ddArgdxdy','dArgdx',a,1,'d2Arg/dxdy',sc=10); deriv_of(ctx,'ddArgdydy','dArgdy',a,1,'d2Arg/dydy',sc=10)
    return fn
for q in('++','+-','-+','--'): case('derivatives of Arg '+q,argd(q),real=2)
# ------------------------------------------------------------------ tanh, sech of a complex number
def cplx(rx,ry):
    def fn(ctx):
        x=ctx.var('x',*rx); y=ctx.var('y',*ry); ranges(ctx); a=(x,y)
        v={n:call(ctx,n,*a) for n in('Retanh','Imtanh','Abstanh','Argtanh','Abssech','Argsech')}
        if ctx.sym:
            X,Y=x,y; sh,ch,sn,cs=T.sinh(X),T.cosh(X),T.sin(Y),T.cos(Y); at2=T.atan2; sqrt=T.sqrt
            cos,sin=T.cos,T.sin
        else: X,Y=ctx.num(x),ctx.num(y); sh,ch,sn,cs=math.sinh(X),math.cosh(X),math.sin(Y),math.cos(Y); cos,sin=math.cos,math.sin
        re,im=ch*cs,sh*sn                                   # cosh z;   sinh z = (sh*cs, ch*sn)
        ctx.eq('Re tanh z cosh z = sinh z',v['Retanh']*re-v['Imtanh']*im,sh*cs,tol=1e-10)
        ctx.eq('Im tanh z cosh z = sinh z',v['Retanh']*im+v['Imtanh']*re,ch*sn,tol=1e-10)
        ctx.eq('Abstanh^2',v['Abstanh']*v['Abstanh'],v['Retanh']*v['Retanh']+v['Imtanh']*v['Imtanh'],tol=1e-10)
        ctx.eq('Abstanh cos(Argtanh) = Re tanh',v['Abstanh']*cos(v['Argtanh']),v['Retanh'],tol=1e-10)
        ctx.eq('Abstanh sin(Argtanh) = Im tanh',v['Abstanh']*sin(v['Argtanh']),v['Imtanh'],tol=1e-10)
        ctx.eq('|sech z|^2 |cosh z|^2 = 1',v['Abssech']*v['Abssech']*(re*re+im*im),1,tol=1e-10)
        ctx.eq('Re sech z cosh z = 1',v['Abssech']*(cos(v['Argsech'])*re-sin(v['Argsech'])*im),1,tol=1e-10)
        ctx.eq('Im sech z cosh z = 0',v['Abssech']*(cos(v['Argsech'])*im+sin(v['Argsech'])*re),0,tol=1e-10)
        if not ctx.sym: ctx.true('moduli are positive',v['Abstanh']>=0 and v['Abssech']>=0)
        for n in('Argtanh','Abstanh'):
            deriv_of(ctx,f'd{n}dx',n,a,0,f'd{n}/dx'); deriv_of(ctx,f'd{n}dy',n,a,1,f'd{n}/dy')
            deriv_of(ctx,f'dd{n}dxdx',f'd{n}dx',a,0,f'd2{n}/dxdx',sc=30.); deriv_of(ctx,f'dd{n}dxdy',f'd{n}dx',a,1,f'd2{n}/dxdy',sc=30.); deriv_of(ctx,f'dd{n}dydy',f'd{n}dy',a,1,f'd2{n}/dydy',sc=30.)
    return fn
for i,(rx,ry) in enumerate([((.2,1.5),(.2,.7)),((.2,1.5),(-.7,-.2)),((-1.5,-.2),(.2,.7)),((-1.5,-.2),(-.7,-.2)),((.4,1.5),(.9,1.4))]): case(f'tanh and sech of a complex number, region {i}',cplx(rx,ry),real=2)
# ------------------------------------------------------------------ BaseAngle
def base_angle(ctx):
    p=ctx.var('p',-30.,30.); per=ctx.var('peri',.5,8.); p0=ctx.var('p0',-5.,5.); b=call(ctx,'BaseAngle',p,per,p0)
    if ctx.sym: ctx.eq('p minus whole periods',b,p-per*T.fn('floor',(p-p0)/per))
    else:
        n=(ctx.num(p)-b)/ctx.num(per); ctx.true('whole number of periods',abs(n-round(n))<1e-9); ctx.true('in [p0,p0+peri)',ctx.num(p0)-1e-9<=b<=ctx.num(p0)+ctx.num(per)+1e-9)
case('BaseAngle',base_angle,real=6)
if __name__=='__main__': main('C28',CASES,trusted=['libm functions are the real functions of their name'],assumptions=['floor(t)<=t<floor(t)+1 for the range of BaseAngle; a logistic function lies in (0,1)'])
