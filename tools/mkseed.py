"""development aid: writes /verif/seeded/<id>/ from a definition (edits + demo), reference numbers from the unchanged tree.
usage: python3 tools/mkseed.py defs.py [id...]   defs.py: SEEDS={id:dict(prop,edits=[(file,old,new)],needs,what,par,demo,conf)}"""
import sys,os,subprocess,json,shutil,re
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); LIB=HERE+'/tools/seedlib'
ns={}; exec(open(sys.argv[1]).read(),ns); only=sys.argv[2:]
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
for i,s in ns['SEEDS'].items():
    if only and i not in only: continue
    d=f'{HERE}/seeded/{i}'; os.makedirs(d,exist_ok=True)
    w='/tmp/mkseed_w'; shutil.rmtree(w,ignore_errors=True); sh(f'git -C /repo worktree prune; git clone -q /repo {w}')
    for f,o,n in s['edits']:
        p=f'{w}/{f}'; t=open(p).read()
        if isinstance(o,tuple): # (text,occurrence)
            o,k=o; q=-1
            for _ in range(k): q=t.index(o,q+1)
            t=t[:q]+n+t[q+len(o):]
        else:
            assert t.count(o)==1,(i,f,t.count(o)); t=t.replace(o,n)
        open(p,'w').write(t)
    df=sh(f'git -C {w} diff').stdout; assert df; open(d+'/patch.diff','w').write(df)
    shutil.rmtree(w)
    shutil.copy(LIB+'/demo.h',d); shutil.copy(LIB+'/run.inc',d)
    if 'par' in s: open(d+'/demo.par','w').write(''.join(f'{k} = {v}\n' for k,v in s['par'].items()))
    if 'demo' in s:
        src='#include "demo.h"\n'+s['demo']
        open(d+'/demo.c','w').write(src)
    for f,t in s.get('files',{}).items(): open(f'{d}/{f}','w').write(t)
    open(d+'/demo.sh','w').write(s.get('sh') or f'#!/bin/bash\nCONF={s.get("conf","main")}\n. "$(dirname "$0")/run.inc"\ncp "$D"/demo.par . 2>/dev/null || true\n./demo demo.par >demo.out\n')
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['what']},open(d+'/meta.json','w'),indent=1)
    # reference numbers: EXPECT("name",expr,tol) -> expect(name,expr,REF_k,tol), filled from the unchanged tree
    if 'demo' in s and 'EXPECT(' in s['demo']:
        src=open(d+'/demo.c').read(); open(d+'/demo.c','w').write(src.replace('EXPECT(','EXPECT_(').replace('#include "demo.h"','#include "demo.h"\n#define EXPECT_(a,b,t) fprintf(stderr,"REF %.17g\\n",(double)(b))'))
        r=sh(f'bash {d}/demo.sh',cwd='/repo'); refs=re.findall(r'^REF (\S+)',r.stderr,re.M)
        if not refs: print(i,'NO REFS',r.returncode,r.stdout[-500:],r.stderr[-1500:]); continue
        it=iter(refs)
        # one EXPECT may run several times (loops): keep table
        open(d+'/demo.c','w').write(src.replace('EXPECT(','EXPECT_(').replace('#include "demo.h"','#include "demo.h"\nstatic const double ref_[]={'+','.join('NAN' if 'nan' in r else r for r in refs)+'};\nstatic int nref_=0;\n#define EXPECT_(a,b,t) do { double g_=(b); expect(a,g_,ref_[nref_],t); nref_++; } while(0)'))
    r=sh(f'bash {d}/demo.sh',cwd='/repo'); print(i,'demo on unchanged tree exit',r.returncode,r.stderr[-300:] if r.returncode else '')
