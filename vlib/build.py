"""Builds what the checks need from /repo's current working tree: LLVM IR per C file and a shared
library of the whole program (the real code, for replay).  Nothing is written outside /verif/build."""
import os, re, subprocess, hashlib, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
REPO=os.environ.get('VERIF_REPO','/repo'); SRC=REPO+'/src'
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD=os.environ.get('VERIF_BUILD',HERE+'/build')
DEFS='-DNONICOFUNCS -DLEVEL6_Pragmas -DTOPLEVEL_Pragmas -DUMFPACK -DSUITESPARSEQR -DLAPACK -DCBLAS -DFFTW3 -DGSL'.split()
INC='-I/usr/include/suitesparse'
LIBS='-lspqr -lcholmod -lumfpack -lamd -lfftw3 -llapack -lblas -lgsl -lgslcblas -lm'.split()
MODS={
 'main':'''main/MemoryMan utility/ParManipulator utility/Spectral utility/boundary utility/output utility/evolve utility/NumberChecker utility/checkpoint
  physics/ADMvars physics/ModeComputer utility/s2kit utility/GridIterators utility/LinAlg physics/Poisson3 physics/Poisson2 physics/Poisson physics/BSSN
  physics/Z4secondO physics/SingleBH physics/TestID physics/TestDerivs physics/ConvTest physics/ScalarWave physics/ScalarOnKerr
  physics/ScalarOnKerr/DV_CircSchwSource utility/Coordinates utility/numerics main/main'''.split(),
 'alt':'''main/MemoryMan utility/ParManipulator utility/Spectral utility/boundary utility/output utility/evolve utility/NumberChecker utility/checkpoint
  utility/NumericUtils physics/ADMvars physics/ModeComputer utility/s2kit utility/GridIterators utility/LinAlg
  physics/testwave physics/PN_CircularOrbit_GWs utility/Coordinates main/main'''.split()}
class BuildError(Exception): pass

def tree_hash():
    h=hashlib.sha256()
    for d,ds,fs in os.walk(SRC):
        ds.sort()
        for f in sorted(fs):
            if f.startswith('sgrid_automatic_'): continue
            if f.endswith(('.c','.h','.cc','.hh')) or f=='Makefile':
                p=os.path.join(d,f); h.update(p.encode()); h.update(open(p,'rb').read())
    h.update(repr((DEFS,LIBS,MODS)).encode()); h.update(open(HERE+'/csrc/vwrap.c','rb').read())
    return h.hexdigest()[:16]

_hash=None
def workdir():
    global _hash
    if _hash is None: _hash=tree_hash()
    d=f'{BUILD}/{_hash}'
    if not os.path.isdir(d):
        os.makedirs(BUILD,exist_ok=True)
        # drop older trees so disk use stays bounded
        for x in os.listdir(BUILD):
            p=os.path.join(BUILD,x)
            if re.fullmatch('[0-9a-f]{16}',x) and x!=_hash: shutil.rmtree(p,ignore_errors=True)
        os.makedirs(d,exist_ok=True)
    return d

def autodir(conf='main'):
    d=f'{workdir()}/auto_{conf}'
    if os.path.exists(d+'/ok'): return d
    os.makedirs(d,exist_ok=True)
    mods=MODS[conf]; names=[m.split('/')[-1] for m in mods]
    t='/* automatically generated from MyConfig */\n'
    open(d+'/sgrid_automatic_include.h','w').write(t+''.join(f'#include "{SRC}/{m}/sgrid_{n}.h"\n' for m,n in zip(mods,names)))
    open(d+'/sgrid_automatic_initialize.c','w').write(t+''.join(f'int sgrid_{n}();\n' for n in names)+''.join(f'sgrid_{n}();\n' for n in names))
    open(d+'/ok','w').write('')
    return d

def extra_defs(conf): return []
def modincs(conf): return [f'-I{SRC}/{m}' for m in MODS[conf]]
def incs(conf): return [INC,f'-I{autodir(conf)}',f'-I{SRC}/main/main']

def module_sources(m):
    mk=open(f'{SRC}/{m}/Makefile').read().replace('\\\n',' ')
    objs=[]
    for x in re.findall(r'^\s*OBJS\s*[:+]?=(.*)$',mk,re.M): objs+=x.split('#')[0].split()
    name=m.split('/')[-1]
    out=[]
    for o in objs:
        o=o.replace('$(NAME)',name)
        if not o.endswith('.o'): continue
        c=f'{SRC}/{m}/{o[:-2]}.c'
        if not os.path.exists(c): c=f'{SRC}/{m}/{o[:-2]}.cc'
        if os.path.exists(c): out.append(c)
    return out

def run(cmd,**kw):
    r=subprocess.run(cmd,capture_output=True,text=True,**kw)
    if r.returncode: raise BuildError(' '.join(cmd)+'\n'+r.stderr[-4000:])
    return r

CW='-Wno-error=implicit-function-declaration -Wno-error=implicit-int -Wno-error=return-type -Wno-error=int-conversion -Wno-error=incompatible-function-pointer-types'.split()
PASSES='sroa,early-cse,simplifycfg,loop-simplify,lcssa'
def ir(rel,conf='main',extra=()):
    """path of optimised-for-reading IR of src file rel (relative to /repo/src)"""
    c=f'{SRC}/{rel}'
    key=hashlib.sha256((rel+conf+repr(extra)).encode()).hexdigest()[:12]
    out=f'{workdir()}/ir_{key}.ll'
    if os.path.exists(out): return out
    tmp=out+f'.{os.getpid()}.tmp'
    run(['clang','-w',*CW,*DEFS,*extra,*incs(conf),'-S','-emit-llvm','-O1','-Xclang','-disable-llvm-passes','-ffp-contract=off','-fno-math-errno','-o',tmp,c],cwd=os.path.dirname(c))
    run(['opt','-S',f'-passes={PASSES}',tmp,'-o',tmp+'2'])
    os.rename(tmp+'2',out); os.remove(tmp)
    return out

def sharedlib(conf='main',opt=('-O2',)):
    out=f'{workdir()}/libsgrid_{conf}.so'
    if os.path.exists(out): return out
    od=f'{workdir()}/obj_{conf}_{os.getpid()}'; os.makedirs(od,exist_ok=True)
    jobs=[]
    for m in MODS[conf]:
        for c in module_sources(m):
            o=f'{od}/{m.replace("/","_")}_{os.path.basename(c)}.o'
            jobs.append((c,o))
    inc=incs(conf)
    def one(j):
        c,o=j
        run(['gcc','-w','-fPIC',*opt,'-ffp-contract=off','-fopenmp','-Dmain=sgrid_real_main',*DEFS,*inc,'-c',c,'-o',o],cwd=os.path.dirname(c))
    with ThreadPoolExecutor(8) as ex: list(ex.map(one,jobs))
    tmp=out+f'.{os.getpid()}'
    vw=f'{od}/vwrap.o'; run(['gcc','-w','-fPIC','-O1','-c',os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/csrc/vwrap.c','-o',vw]); jobs.append((None,vw))
    run(['gcc','-shared','-fopenmp',*[f'-Wl,--wrap={f}' for f in ('remove','rename','mkdir','rmdir','unlink','system','execv','fopen')],'-Wl,-Bsymbolic',f'-Wl,-soname,libsgrid_{conf}.so','-o',tmp,*[o for _,o in jobs],*LIBS])
    os.rename(tmp,out); shutil.rmtree(od,ignore_errors=True)
    return out
if __name__=='__main__':
    import time
    t=time.time(); print(sharedlib(sys.argv[1] if len(sys.argv)>1 else 'main'),time.time()-t)
