import json, sys
sys.path.insert(0, '/verif')
from checks import CHECKS
NA = {
}
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
m = dict(version=1, setup_cmd='./run.py --setup', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append(dict(property=i, quick_cmd=f'./run.py {i} quick', thorough_cmd=f'./run.py {i} thorough',
            technique='symbolic execution of the compiled code (LLVM IR) with Z3, bounded; counterexamples replayed natively',
            level='model_checking',
            level_note='Holds for every value of the symbolic inputs within: ' + c['bounds'] + '. Outside: ' + c.get('outside', '-') + '. Trusts rustc/LLVM, the irsym engine (sampled paths are replayed natively on every run) and Z3.'))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'check under construction')))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks')
