#!/usr/bin/env python3
# dev helper: run entries of a module: runs.py <feature> <max_time> entry...
import sys, subprocess, json, glob, concurrent.futures as cf
feat, mt, ents = sys.argv[1], sys.argv[2], sys.argv[3:]
ll = glob.glob(f'/verif/build/t-{feat}/release/deps/irh-*.ll')[0]
if not ents:
    import re
    ents = sorted(set(re.findall(r'define .*@(h_\w+)\(', open(ll).read())))
def go(e):
    p = subprocess.run(['/verif/build/engine/release/irsym','--ll',ll,'--entry',e,'--max-time',mt],capture_output=True,text=True)
    return e,p
with cf.ThreadPoolExecutor(8) as ex:
    for e,p in ex.map(go, ents):
        try: r=json.loads(p.stdout)
        except Exception: print(e,'FAILED',p.returncode,p.stderr[-300:]); continue
        print(f"{e:26} paths={r['paths']:7} infeas={r['infeasible']:6} q={r['queries']:6} solver={r['solver_s']:6.1f} wall={r['wall_s']:6.1f} maxq={r['max_query_s']:.2f} inc={r['incomplete']} err={len(r['errors'])} {[x[:200] for x in r['errors'][:2]]} covers={r['covers']}")
        seen={}
        for v in r['violations']:
            k=(v['kind'],v['label']); seen.setdefault(k,[]).append(v)
        for k,l in seen.items(): print('     VIOL',k,len(l),l[0]['input'][:100],l[0]['detail'][:100])
