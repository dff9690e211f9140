#!/bin/bash
# run_mod.sh <module> [int]: run one property's harnesses and list slow or failing ones (development aid)
cd "$(dirname "$0")/.."
VERIF_TIER=${TIER:-quick} python3 - "$@" <<'P'
import sys,os
sys.argv=['x',sys.argv[1].upper()]+sys.argv[2:]
sys.path.insert(0,'.')
import checks
checks.CHECKS.setdefault(sys.argv[1],{'level':'proof','harness_timeout':int(os.environ.get('HT','240'))})
import run_check as r
import re
pat=os.environ.get('ONLY')
for internal in (False,True):
    names=r.select(internal)
    if pat: names=[n for n in names if re.search(pat,n)]
    if not names: continue
    res,out,rc,cmd=r.kani(internal,names)
    if not res: print(out[-2500:]); sys.exit(1)
    tot=0;bad=0
    rows=[]
    for n in names:
        q=res.get(n)
        if q is None: print('NONE',n); bad+=1; continue
        kind,fails,nob,ok=r.classify(q)
        rows.append((q.get('duration_ms',0)/1000,n,kind))
        tot+=nob
        if kind!='ok':
            bad+=1
            print(kind,n,[r.brief(c) for c in fails[:3]])
    rows.sort(reverse=True)
    for t,n,k in rows[:int(os.environ.get("TOP","6"))]: print('%.1f %s %s'%(t,n,k))
    print(len(names),'harnesses',tot,'obligations',bad,'bad','wall',round(__import__('time').time()-r.START))
P
