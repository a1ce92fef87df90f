#!/usr/bin/env python3
"""Check driver:  run.py <property> [quick|thorough]

Rebuilds the symbolic engine, the LLVM IR of the harness linked with /repo's current
sources, and the native replay binary; runs the property's harness entries in the engine;
replays every counterexample and a sample of the explored paths natively; writes
evidence/<property>.json.
exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check could not decide.
"""
import sys, os, json, glob, subprocess, time, fcntl, threading, concurrent.futures as cf, resource
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
BUILD = os.path.join(ROOT, 'build')
from checks import CHECKS

ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true')
ENV.pop('CARGO_TARGET_DIR', None)
NPROC = max(1, min(8, os.cpu_count() or 1))

class Broken(Exception):
    pass

def sh(cmd, cwd, env, what):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken(f'{what} failed:\n' + p.stdout[-3000:])

def build_engine():
    sh(['cargo', 'build', '--release', '-q'], f'{ROOT}/engine', dict(ENV, CARGO_TARGET_DIR=f'{BUILD}/engine'), 'engine build')
    return f'{BUILD}/engine/release/irsym'

def crate(feat):
    """directory of the harness crate of a module (the description macros have their own)"""
    return f'{ROOT}/harness_derive' if feat == 'derive' else f'{ROOT}/harness'

def prepare(feats):
    if 'derive' in feats:
        sh([sys.executable, f'{ROOT}/harness_derive/mklib.py'], ROOT, ENV, 'copy of the macro sources')

def build_ir(feat):
    tgt = f'{BUILD}/ir-{feat}'
    env = dict(ENV, CARGO_TARGET_DIR=tgt, RUSTFLAGS='-Awarnings')
    sh(['cargo', 'rustc', '-q', '--lib', '--crate-type', 'staticlib', '--release', '--features', feat, '--',
        '--emit=llvm-ir', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp'], crate(feat), env, f'IR build ({feat})')
    l = glob.glob(f'{tgt}/release/deps/irh-*.ll')
    if not l:
        raise Broken(f'no IR produced for {feat}')
    return max(l, key=os.path.getmtime)

def build_native(feat):
    tgt = f'{BUILD}/native-{feat}'
    env = dict(ENV, CARGO_TARGET_DIR=tgt, RUSTFLAGS='-Awarnings')
    sh(['cargo', 'build', '-q', '--bin', 'replay', '--features', f'native,{feat}'], crate(feat), env, f'native build ({feat})')
    return f'{tgt}/debug/replay'

def replay(binary, cases, timeout=120):
    """cases: [(entry, hex)] -> list of result dicts (status 'hang' when it does not end)"""
    out, i = [], 0
    while i < len(cases):
        inp = ''.join(f'{e} {h}\n' for e, h in cases[i:])
        try:
            p = subprocess.run([binary], input=inp, capture_output=True, text=True, timeout=timeout)
            lines, dead = p.stdout.splitlines(), p.returncode
        except subprocess.TimeoutExpired as x:
            lines = (x.stdout or b'').decode(errors='replace').splitlines()
            dead = 'hang'
        got = []
        for l in lines:
            try:
                got.append(json.loads(l))
            except ValueError:
                break
        out += got
        i += len(got)
        if i < len(cases):
            out.append({'status': 'hang' if dead == 'hang' else 'crash', 'msg': f'process ended: {dead}', 'failed': [], 'covers': [], 'obs': []})
            i += 1
    return out

def engine(binary, ll, job, seed, deadline):
    t = min(job['time'], max(5.0, deadline - time.time()))
    cmd = [binary, '--ll', ll, '--entry', job['entry'], '--max-time', str(t), '--max-steps', str(job['steps']),
           '--samples', str(job['samples']), '--seed', str(seed * 1000 + job['part'] + 1), '--split', str(job['split']), '--part', str(job['part']),
           '--timeout-ms', str(job['timeout_ms'])]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=t + 200)
    except subprocess.TimeoutExpired:
        return {'entry': job['entry'], 'fail': 'engine timeout'}
    try:
        return json.loads(p.stdout)
    except ValueError:
        return {'entry': job['entry'], 'fail': f'engine exit {p.returncode}: {p.stderr[-400:]}'}

def main():
    pid = sys.argv[1]
    if pid == '--setup':
        os.makedirs(BUILD, exist_ok=True)
        print(build_engine())
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    spec = CHECKS[pid]
    budget = float(os.environ.get('VERIF_BUDGET', 600 if tier == 'quick' else 7200))
    ev = f'{ROOT}/evidence/{pid}.json'
    os.makedirs(f'{ROOT}/evidence', exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    if os.path.exists(ev):
        os.remove(ev)
    ents = [e for e in spec['entries'] if e.get('tier', 'quick') == 'quick' or tier == 'thorough']
    feats = sorted({e['mod'] for e in ents})
    with open(f'{BUILD}/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        prepare(feats)
        with cf.ThreadPoolExecutor(8) as ex:
            fe = ex.submit(build_engine)
            fi = {f: ex.submit(build_ir, f) for f in feats}
            fn = {f: ex.submit(build_native, f) for f in feats}
            eng = fe.result()
            lls = {f: x.result() for f, x in fi.items()}
            nat = {f: x.result() for f, x in fn.items()}
    build_s = time.time() - t0
    deadline = t0 + build_s + budget
    jobs = []
    for e in ents:
        k = e.get('split', 1)
        if tier == 'thorough':
            k = e.get('tsplit', k)
        for part in range(k):
            jobs.append(dict(entry=e['entry'], mod=e['mod'], split=k, part=part, time=e.get('ttime', 3600) if tier == 'thorough' else e.get('time', 150),
                             steps=e.get('steps', 3_000_000), samples=e.get('samples', max(2, 24 // k)), timeout_ms=e.get('timeout_ms', 30000), cost=e.get('cost', 1)))
    jobs.sort(key=lambda j: -j['cost'])
    with cf.ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(lambda j: engine(eng, lls[j['mod']], j, seed, deadline), jobs))
    # merge by entry
    broken, notes = [], []
    tot = dict(paths=0, infeasible=0, insts=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, guessed=0, asserts_solver=0, asserts_const=0, real_relaxed=0, ranged=0, audited=0, unconfirmed=0, sym_branches=0, expected_panics=0)
    maxima = dict(max_path_steps=0, max_inputs=0, max_query_s=0.0, max_pc=0)
    covers, asserts, viols, samples, funcs, per = {}, {}, [], [], set(), {}
    for j, r in zip(jobs, res):
        if 'fail' in r:
            broken.append(f"{j['entry']}[{j['part']}/{j['split']}]: {r['fail']}")
            continue
        for k in tot:
            tot[k] += r.get(k, 0)
        for k in maxima:
            maxima[k] = max(maxima[k], r.get(k, 0))
        p = per.setdefault(j['entry'], dict(paths=0, queries=0, wall_s=0.0, complete=True))
        p['paths'] += r['paths']; p['queries'] += r['queries']; p['wall_s'] = round(p['wall_s'] + r['wall_s'], 2)
        c = covers.setdefault(j['entry'], {})
        for k, v in r['covers'].items():
            c[k] = c.get(k, 0) + v
        for k, v in r['asserts'].items():
            a = asserts.setdefault(k, [0, 0]); a[0] += v[0]; a[1] += v[1]
        if r['incomplete']:
            p['complete'] = False
            notes.append(f"{j['entry']}[{j['part']}/{j['split']}]: {r['incomplete']} (rest of the bounded space not explored)")
        for e in r['errors']:
            p['complete'] = False
            notes.append(f"{j['entry']}[{j['part']}/{j['split']}]: {e[:300]}")
        if any('audit failed' in e for e in r['errors']):
            broken.append(f"{j['entry']}: interval reasoning and solver disagree")
        if r['errors'] and r['paths'] == 0 and not r['violations']:
            broken.append(f"{j['entry']}: nothing explored: {r['errors'][0][:300]}")
        for v in r['violations']:
            viols.append(dict(v, entry=j['entry'], mod=j['mod']))
        for s in r['samples']:
            samples.append(dict(s, entry=j['entry'], mod=j['mod']))
        funcs.update(r['functions'])
    # native replay of sampled paths
    validated, mismatch = 0, []
    for f in feats:
        ss = [s for s in samples if s['mod'] == f]
        rr = replay(nat[f], [(s['entry'], s['input']) for s in ss])
        for s, r in zip(ss, rr):
            obs_ok = [x & 0xffffffffffffffff for x in s['obs']] == r.get('obs')
            st_ok = r['status'] == s['status'] and not r['failed']
            if obs_ok and st_ok and sorted(s['covers']) == sorted(r['covers']):
                validated += 1
            else:
                mismatch.append((s, r))
    # native replay of counterexamples
    cand = {}
    for v in viols:
        cand.setdefault((v['entry'], v['kind'], v['label']), []).append(v)
    confirmed, spurious = [], []
    for key, vs in sorted(cand.items()):
        ok = None
        rr = replay(nat[vs[0]['mod']], [(v['entry'], v['input']) for v in vs[:4]], timeout=20)
        for v, r in zip(vs, rr):
            if v['kind'] == 'assert':
                good = v['label'] in r['failed']
            elif v['kind'] == 'panic':
                good = r['status'] in ('panic', 'crash')
            elif v['kind'] == 'hang':
                good = r['status'] == 'hang'
            elif v['kind'] == 'no-panic':
                good = r['status'] == 'ok' and r.get('expect_panic')
            else:  # memory error: any native misbehaviour, or miri
                good = r['status'] in ('panic', 'crash') or bool(r['failed']) or miri(v)
            if good:
                ok = (v, r)
                break
        if ok:
            confirmed.append(ok)
        else:
            spurious.append((vs[0], rr[0] if rr else {}))
    # vacuity
    for e in ents:
        have = covers.get(e['entry'], {})
        for c in e.get('covers', []):
            if not have.get(c):
                notes.append(f"{e['entry']}: expected situation '{c}' was not reached")
                if not viols:
                    broken.append(f"{e['entry']}: expected situation '{c}' was not reached")
    known = [k for k in json.load(open(f'{ROOT}/known-findings.json'))['known'] if k['property'] == pid]
    out_viol, seen_known = [], []
    for v, r in confirmed:
        m = [k for k in known if k['entry'] == v['entry'] and k['label'] == v['label'] and k.get('kind', 'assert') == v['kind']]
        if m:
            seen_known += m
        else:
            out_viol.append((v, r))
    for k in known:
        # only entries that exist in this tier
        if k in seen_known:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
        elif any(e['entry'] == k['entry'] for e in ents):
            notes.append(f"listed finding no longer observed: {k['what']}")
    fl = subprocess.run(['c++filt'], input='\n'.join(sorted(funcs)), capture_output=True, text=True).stdout.split('\n') if funcs else []
    fl = [x for x in fl if 'ublox' in x or 'derive_lib' in x] or fl
    import re
    fl = sorted({re.sub(r'\[[0-9a-f]{16}\]', '', x) for x in fl})
    cov = dict(states=tot['paths'], transitions=tot['insts'], traces_validated_against_impl=validated,
               samples=[dict(entry=s['entry'], input=s['input'][:400], obs=s['obs'][:8], covers=s['covers'], status=s['status']) for s in samples[:12]],
               exhaustive=not notes and not broken,
               explanation='states = symbolic paths explored to their end; transitions = LLVM instructions executed symbolically; each path stands for all inputs satisfying its path condition',
               paths_with_expected_panic=tot['expected_panics'], forks=tot['forks'], symbolic_branches=tot['sym_branches'],
               solver_queries=tot['queries'], sat=tot['sat'], unsat=tot['unsat'], unknown=tot['unknown'], solver_time_s=round(tot['solver_s'], 2), models_built_without_solver=tot['guessed'],
               assertions_checked=sum(a[0] for a in asserts.values()), assertions_needing_solver=tot['asserts_solver'], assertions_decided_by_term_rewriting=tot['asserts_const'], queries_closed_by_real_relaxation=tot["real_relaxed"], conditions_decided_by_intervals=tot["ranged"], interval_decisions_rechecked_by_solver=tot["audited"], paths_followed_without_confirmed_model=tot["unconfirmed"],
               assertion_labels={k: v[0] for k, v in sorted(asserts.items())}, covers=covers, entries=per, **maxima,
               functions_encoded=len(fl), functions=fl[:400], bounds=spec['bounds'], outside=spec.get('outside', ''), unexplored=notes[:60], build_s=round(build_s, 1))
    rec = dict(property=pid, tier=tier, seed=seed, level=spec.get('level', 'model_checking'), coverage=cov,
               assumptions=spec.get('assumptions', []) + BASE_ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(out_viol))
    json.dump(rec, open(ev, 'w'), indent=1)
    rc = 0
    for n, (v, r) in enumerate(out_viol):
        path = f'{ROOT}/evidence/replay-{pid}-{n}.json'
        json.dump(dict(property=pid, entry=v['entry'], kind=v['kind'], label=v['label'], input=v['input'], detail=v['detail'], native=r,
                       how=f"printf '{v['entry']} {v['input'][:60]}...\\n' | {nat[v['mod']]}   (native run of the harness entry with the recorded input)"), open(path, 'w'), indent=1)
        print(f"VIOLATION property={pid} replay={path}")
        print(f"  {v['entry']}: {v['kind']}: {v['label']}; input {v['input'][:120]}; native: {r.get('status')} {r.get('msg','')[:160]}")
        rc = 1
    if rc == 0:
        for s, r in mismatch[:3]:
            broken.append(f"path not reproduced natively: {s['entry']} {s['input'][:200]} engine {s['status']} {s['obs'][:6]} {s['covers']} native {r}"[:700])
        for v, r in spurious[:3]:
            broken.append(f"counterexample not reproduced natively: {v['entry']} {v['kind']} {v['label']} {v['input'][:200]} native {r}"[:700])
        if broken:
            for b in broken[:10]:
                print('CHECK-ERROR', b)
            rc = 2
    print(f"{pid} {tier}: paths={tot['paths']} queries={tot['queries']} solver={tot['solver_s']:.1f}s asserts={cov['assertions_checked']} validated={validated}/{len(samples)} unexplored={len(notes)} build={build_s:.0f}s wall={time.time()-t0:.0f}s -> exit {rc}")
    if os.environ.get('VERIF_VERBOSE'):
        for e, p in sorted(per.items()):
            print('   ', e, p, covers.get(e))
        for n in notes[:20]:
            print('    note', n)
    sys.exit(rc)

BASE_ASSUMPTIONS = [
    'rustc/LLVM (opt-level 1, overflow and debug assertions on) translates the sources faithfully; the engine implements the LLVM semantics of the instructions met (every run replays sampled paths natively and compares observations)',
    'allocation never fails; Z3 4.8.12 is correct on its unsat answers (sat answers are re-evaluated)',
]

def miri(v):
    env = dict(ENV, RUSTUP_TOOLCHAIN='nightly', CARGO_TARGET_DIR=f'{BUILD}/miri', RUSTFLAGS='-Awarnings', MIRIFLAGS='-Zmiri-disable-isolation')
    try:
        p = subprocess.run(['cargo', 'miri', 'run', '-q', '--bin', 'replay', '--features', f"native,{v['mod']}"], cwd=crate(v['mod']), env=env,
                           input=f"{v['entry']} {v['input']}\n", capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return False
    return 'Undefined Behavior' in p.stderr

if __name__ == '__main__':
    try:
        main()
    except Broken as e:
        print('CHECK-ERROR', str(e)[:4000])
        sys.exit(2)
