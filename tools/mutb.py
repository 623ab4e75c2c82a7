#!/usr/bin/env python3
"""mutation sweep of the bounded layer alone: which small changes do the conformance binaries of the properties anchored in a file accept?
usage: mutb.py FILE-SUBSTRING... [-j N] [-o OUT] [-k STRIDE] [-s OFFSET]   (works on copies under /tmp/mutb, removes them)"""
import sys, os, re, subprocess, shutil, json, threading, runpy
from concurrent.futures import ThreadPoolExecutor
V='/verif'; args=sys.argv[1:]; J=3; OUT='/tmp/mutb.out'; K=1; S=0; pats=[]; it=iter(args)
for a in it:
    if a=='-j': J=int(next(it))
    elif a=='-o': OUT=next(it)
    elif a=='-k': K=int(next(it))
    elif a=='-s': S=int(next(it))
    else: pats.append(a)
MAP=[(r'dense_weights|weights\.rs','c01 c02 c03 c22 c13'),(r'sparse_namespaced','c04 c05 c06 c12 c20'),(r'object_pool','c05'),(r'explore\.rs','c07'),
 (r'cb_explore_adf','c08 c09 c04 c11 c10'),(r'cb_adf','c09 c11 c10 c04'),(r'binary\.rs','c19 c17 c10 c11'),(r'elementwise','c18 c17 c10 c04'),(r'debug\.rs','c11 c17 c04 c10'),
 (r'coin\.rs','c16 c25 c22 c03'),(r'loss_function','c15'),(r'metrics','c14'),(r'reduction\.rs','c10 c11 c17 c04'),(r'hash\.rs|inverse_hash|parsers\.rs|text_parser\.rs$','c12 c24 c23'),
 (r'json_parser','c24 c12 c23 c05'),(r'types\.rs','c20 c21 c24'),(r'sparse_f32|utils','c13'),(r'interactions','c03'),(r'global_config|reduction_factory|reduction_registry|config_schema','c21 c10'),(r'workspace','c28 c13'),(r'cli/src','c26')]
src=open(V+'/tools/mutate.py').read(); a=src.index('OPS=['); b=src.index('lock=threading')
ns={'re':re}; exec(src[a:b],ns); mutants=ns['mutants']
files=[]
for d in ('reductionml-core/src','reductionml-cli/src'):
    for r,_,fs in os.walk('/repo/'+d):
        for f in fs:
            p=os.path.relpath(os.path.join(r,f),'/repo')
            if f.endswith('.rs') and any(x in p for x in pats): files.append(p)
jobs=[]
for f in sorted(files):
    bins=sorted({c for r,cs in MAP if re.search(r,f) for c in cs.split()})
    if bins: jobs+= [(f,bins)+m for m in mutants('/repo/'+f)]
jobs=jobs[S::K]
print(len(jobs),'mutants',flush=True)
shutil.rmtree('/tmp/mutb',ignore_errors=True)
slots=list(range(J)); lock=threading.Lock(); cond=threading.Condition(lock)
for j in range(J):
    os.makedirs(f'/tmp/mutb/{j}')
    subprocess.run(['cp','-a','/repo',f'/tmp/mutb/{j}/repo'],check=True); shutil.rmtree(f'/tmp/mutb/{j}/repo/target',ignore_errors=True)
    subprocess.run(['cp','-a',V+'/harness',f'/tmp/mutb/{j}/harness'],check=True)
    for f in ('Cargo.toml',): 
        p=f'/tmp/mutb/{j}/harness/{f}'; s=open(p).read(); open(p,'w').write(s.replace('/repo/',f'/tmp/mutb/{j}/repo/'))
out=open(OUT,'w')
def run(job):
    f,bins,n,old,new=job
    with lock: j=slots.pop()
    R=f'/tmp/mutb/{j}/repo'; H=f'/tmp/mutb/{j}/harness'
    try:
        L=open('/repo/'+f).read().split('\n'); L[n]=new; open(f'{R}/{f}','w').write('\n'.join(L))
        env=dict(os.environ,CARGO_NET_OFFLINE='true')
        p=subprocess.run(['cargo','build','--offline','-q']+sum((['--bin',b] for b in bins),[]),cwd=H,capture_output=True,text=True,env=env,timeout=900)
        if p.returncode: return
        killed=[]
        for b in bins:
            try:
                q=subprocess.run(['timeout','200',f'{H}/target/debug/{b}'],capture_output=True,text=True,env=env,cwd='/tmp/mutb')
                d=json.loads(q.stdout); 
                if d['nfailures']: killed.append(b); break
            except Exception: killed.append(b+'!'); break
        if not killed:
            with lock: out.write(f'ALIVE {f}:{n+1} [{" ".join(bins)}]\n  - {old.strip()}\n  + {new.strip()}\n'); out.flush()
        else:
            with lock: out.write(f'killed {f}:{n+1} {killed}\n'); out.flush()
    except Exception as e:
        with lock: out.write(f'error {f}:{n+1} {e}\n'); out.flush()
    finally:
        shutil.copy('/repo/'+f,f'{R}/{f}')
        with lock: slots.append(j)
with ThreadPoolExecutor(J) as ex: list(ex.map(run,jobs))
shutil.rmtree('/tmp/mutb',ignore_errors=True)
