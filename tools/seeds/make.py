#!/usr/bin/env python3
"""Write and confirm planted bugs: make.py [ID...]
Each is made in a scratch copy of /repo: it must apply, build, pass the stable tests,
and its demonstration must pass without it and fail with it."""
import sys, os, json, subprocess, shutil, importlib
here=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,here)
import lib
for m in sorted(f[:-3] for f in os.listdir(here) if f.startswith('defs') and f.endswith('.py')): importlib.import_module(m)
BASE='fde80b3'
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
bugs=[b for b in lib.BUGS if not sys.argv[1:] or any(b['id'].startswith(a) for a in sys.argv[1:])]
for b in bugs:
    d='/verif/seeded/'+b['id']; os.makedirs(d,exist_ok=True)
    pre=b['head']+open(here+'/prelude.rs').read()+(open(here+'/font.rs').read() if b['font'] else '')+'\n'+b['extra']
    open(d+'/demo.rs','w').write(pre+'\nfn main() {\n    '+b['main'].strip()+'\n}\n')
    shutil.copy(here+'/demo.sh',d+'/demo.sh'); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    # patch in a worktree-like copy of the sources
    bad=None
    t='/tmp/seedsrc'; sh(f'rm -rf {t} && mkdir {t} && git -C /repo archive HEAD | tar x -C {t} && cd {t} && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x')
    for f,o,n in b['edits']:
        s=open(f'{t}/{f}').read()
        if s.count(o)!=1: bad=f'{s.count(o)} matches in {f}: {o[:60]!r}'; break
        open(f'{t}/{f}','w').write(s.replace(o,n))
    if bad: print(b['id'],'BAD',bad); continue
    diff=sh(f'git -C {t} diff').stdout; open(d+'/patch.diff','w').write(diff)
    # removed lines must be original
    changed=[l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
    orig=''.join(sh(f'git -C /repo show {BASE}:{f}').stdout for f in {e[0] for e in b['edits']}).splitlines()
    if not any(c in orig for c in changed): print(b['id'],'NOTE no original line removed')
print(len(bugs),'written')
