#!/usr/bin/env python3
"""Confirm planted bugs: confirm.py [ID...], in scratch copies of /repo"""
import sys, os, subprocess, json
from concurrent.futures import ThreadPoolExecutor
def sh(c,**k):
    r=subprocess.run(['bash','-c',c],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k); return r.returncode,r.stdout
ids=[i for i in sorted(os.listdir('/verif/seeded')) if not sys.argv[1:] or any(i.startswith(a) for a in sys.argv[1:])]
sc='/tmp/sc'
sh(f'rm -rf {sc}; cp -a /repo {sc}')
ENV=f'sed "s#/repo#{sc}#g" /opt/vp/env.sh > /tmp/sc.env; '
sh(ENV)
import queue
for i in ids:
    d='/verif/seeded/'+i
    out=[]
    sh(f'git -C {sc} checkout -q -- . ; git -C {sc} clean -fdq')
    # unpatched demo, on /repo itself
    c0,o0=sh(f'cd /repo && bash {d}/demo.sh')
    c,o=sh(f'git -C {sc} apply {d}/patch.diff')
    if c: print(i,'APPLY FAILED',o[:300]); continue
    # tests, with the scripts of /opt/vp pointed at the copy
    c,o=sh(f'sed "s#/repo#{sc}#g" /opt/vp/build.sh > /tmp/sc.build; sed "s#/repo#{sc}#g" /opt/vp/test.sh > /tmp/sc.test; sed -i "s#/opt/vp/env.sh#/tmp/sc.env#" /tmp/sc.build /tmp/sc.test; bash /tmp/sc.build')
    if c: print(i,'BUILD FAILED',o[-1500:]); continue
    c,o=sh('bash /tmp/sc.test /tmp/sc.json')
    try:
        base=json.load(open('/opt/vp/BASELINE.json'))['stable']; got=json.load(open('/tmp/sc.json'))['passed']
        missing=[x for x in base if x not in got]
    except Exception as e: missing=[str(e)]
    c1,o1=sh(f'cd {sc} && bash {d}/demo.sh')
    ok = c0==0 and c1 not in (0,98,99) and not missing
    print(i,'ok' if ok else 'BAD', 'demo',c0,c1,'missing',missing, flush=True)
    if not ok or '-v' in os.environ.get('V',''): print('   ',o0[-700:] if c0 else '', o1[-500:])
sh(f'rm -rf {sc}')
