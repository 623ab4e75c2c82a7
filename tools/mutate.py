#!/usr/bin/env python3
"""mutation sweep over the functions under contract: which small changes does a unit's proof accept?
usage: mutate.py UNIT... [-j N] [-o OUT]   (works on copies under /tmp/mut, removes them)"""
import sys, os, re, subprocess, shutil, itertools, hashlib
from concurrent.futures import ThreadPoolExecutor
import threading
V='/verif'; args=sys.argv[1:]; J=6; OUT='/tmp/mutate.out'
units=[]; it=iter(args)
for a in it:
    if a=='-j': J=int(next(it))
    elif a=='-o': OUT=next(it)
    else: units.append(a)
def expand(t, seen):
    if t in seen: return ''
    seen.add(t); s=open(f'{V}/contracts/{t}').read()
    for m in re.findall(r'//@include (\S+)', s): s+=expand(m, seen)
    return s
FILES={u: sorted(set(x for x in re.findall(r'(reductionml-\w+/src/[\w/]+\.rs)', expand(u+'.vt', set())))) for u in units}
OPS=[(r' == ',' != '),(r' != ',' == '),(r' <= ',' < '),(r' >= ',' > '),(r' < ',' <= '),(r' > ',' >= '),(r' && ',' || '),(r' \|\| ',' && '),(r' \+ ',' - '),(r' - ',' + '),(r' \* ',' + '),(r' / ',' * '),(r' \+= ',' -= '),(r' -= ',' += '),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'(?<![\w.])(\d+)(?![\w.])',lambda m:str(int(m.group(1))+1)),(r'\b1\.0','2.0'),(r'\b0\.0','1.0'),(r'\b0\.5','0.25'),(r'\.min\(','.max('),(r'\.max\(','.min('),(r'!(?=[a-z(])',''),(r'<<','>>'),(r'\bis_some\b','is_none'),(r'\bis_none\b','is_some'),(r'\.first\(','.last('),(r' & ',' | '),(r' \^ ',' | '),(r'self\.offset','0')]
def mutants(path):
    L=open(path).read().split('\n'); test=False
    for n,l in enumerate(L):
        if '#[cfg(test)]' in l: break
        st=l.strip()
        if st.startswith('//') or st.startswith('#') or st.startswith('use ') or not st: continue
        if 'impl ' in l or '\'_' in l or st.startswith('T:') or st.startswith('impl_'): continue
        if re.match(r'(pub )?(fn|struct|enum|impl|trait|type|mod)\b',st) : continue
        for p,r in OPS:
            for m in re.finditer(p,l):
                if l[:m.start()].count('"')%2: continue
                if '->' in l[max(0,m.start()-2):m.end()+2] or '=>' in l[m.start()-1:m.end()+1]: continue
                rep=r(m) if callable(r) else r
                yield n,l,l[:m.start()]+rep+l[m.end():]
        prev=next((x.strip() for x in reversed(L[:n]) if x.strip()),'')
        if st.endswith(';') and prev[-1:] in ';{}' and st!='};' and not re.match(r'(let|return|use|const|pub|type)\b',st) and st.count('(')==st.count(')'):
            yield n,l,re.sub(r'\S.*','',l)+'{}'
lock=threading.Lock(); slots=list(range(J))
shutil.rmtree('/tmp/mut',ignore_errors=True)
for j in range(J):
    os.makedirs(f'/tmp/mut/{j}'); 
    for d in ('reductionml-core','reductionml-cli'):
        if os.path.isdir(f'/repo/{d}'): shutil.copytree(f'/repo/{d}',f'/tmp/mut/{j}/{d}',ignore=shutil.ignore_patterns('target'))
    for f in os.listdir('/repo'):
        if f.endswith('.toml'): shutil.copy(f'/repo/{f}',f'/tmp/mut/{j}/')
EX=V+'/extract/target/debug/extract'
base={}
for u in units:
    subprocess.run([EX,'/repo',f'{V}/contracts/{u}.vt',f'/tmp/mut/{u}.rs',f'/tmp/mut/{u}.json'],check=True)
    base[u]=open(f'/tmp/mut/{u}.rs').read()
out=open(OUT,'w'); stat=dict(run=0,killed=0,lost=0,out=0,survived=0)
def job(a):
    u,f,n,old,new=a
    with lock: j=slots.pop()
    try:
        p=f'/tmp/mut/{j}/{f}'; src=open(f'/repo/{f}').read().split('\n'); src[n]=new; open(p,'w').write('\n'.join(src))
        o=f'/tmp/mut/{j}/{u}.rs'
        r=subprocess.run([EX,f'/tmp/mut/{j}',f'{V}/contracts/{u}.vt',o,o[:-3]+'.json'],capture_output=True,text=True)
        if r.returncode: k='lost'
        elif open(o).read()==base[u]: k='out'
        else:
            try: r=subprocess.run(['timeout','90','verus',o,'--crate-type=lib','--rlimit','30','--triggers-mode','silent'],capture_output=True,text=True,cwd=f'/tmp/mut/{j}'); k='survived' if r.returncode==0 else 'killed'
            except Exception as e: k='killed'
        open(p,'w').write(open(f'/repo/{f}').read())
        with lock:
            stat[k]+=1
            if k in('survived','lost'): out.write(f'{k} {u} {f}:{n+1}\n  - {old.strip()}\n  + {new.strip()}\n'); out.flush()
    finally:
        with lock: slots.append(j)
jobs=[(u,f,n,o,w) for u in units for f in FILES[u] if os.path.exists('/repo/'+f) for n,o,w in mutants('/repo/'+f)]
print(len(jobs),'mutants')
with ThreadPoolExecutor(J) as ex: list(ex.map(job,jobs))
out.write(str(stat)+'\n'); print(stat); shutil.rmtree('/tmp/mut',ignore_errors=True)
