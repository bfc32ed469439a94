#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--secs N]   decides one property by seeded simulation.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: the check itself failed.
"""
import concurrent.futures as cf, collections, json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import build
from checks_table import TABLE
W = os.cpu_count() or 8
def fail(msg): print('CHECK ERROR: ' + msg); sys.exit(2)
def replay(exe, f, limit=300):
    """One fresh process; returns (kind, hash, detail)."""
    p = subprocess.run([exe, 'replay', f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=limit)
    d = {}
    for l in p.stdout.decode(errors='replace').splitlines():
        k, _, v = l.partition(' ')
        if k in ('KIND', 'HASH', 'DETAIL', 'CLS', 'SIG') and k not in d: d[k] = v.strip()
    if 'HASH' not in d: raise RuntimeError('replay of %s gave no result (rc %s)' % (f, p.returncode))
    return d
def known_entries(prop):
    r = []
    try:
        for l in open(HERE + '/known_findings.txt'):
            if l.startswith('known: property=%s ' % prop):
                d = dict(x.split('=', 1) for x in l.split(' :: ')[0].split()[1:]); d['what'] = l.split(' :: ', 1)[1].strip(); r.append(d)
    except FileNotFoundError: pass
    return r
def main():
    a = sys.argv[1:]; prop = a[0]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1')); t0 = time.time()
    T = TABLE[prop]; secs = T['quick'] if tier == 'quick' else T['thorough']
    if '--secs' in a: secs = float(a[a.index('--secs') + 1])
    try: exe = build.make([T['sim']])[T['sim']]
    except RuntimeError as e: fail('build failed: %s' % e)
    tb = time.time() - t0
    out = HERE + '/build/out/' + prop
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    viol = []; known = known_entries(prop); knownkinds = []
    # 1. known findings: still there?  2. regression corpus: scenarios that once failed
    corpus = HERE + '/corpus/' + prop; files = sorted(os.path.join(corpus, f) for f in os.listdir(corpus)) if os.path.isdir(corpus) else []
    with cf.ThreadPoolExecutor(W) as ex:
        kres = list(ex.map(lambda k: replay(exe, HERE + '/' + k['replay']), known)); cres = list(ex.map(lambda f: replay(exe, f), files))
    for k, r in zip(known, kres):
        if r['KIND'] == k['kind'] : print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        if not k.get('quarantined'): knownkinds.append(k['kind'])   # quarantined: the generator leaves exactly this call out, so the search needs no exception
    for f, r in zip(files, cres):
        if r['KIND']: viol.append((r['KIND'], r['HASH'], f, r['DETAIL']))
    # 3. seeded search
    def worker(w):
        with open('%s/log.%d' % (out, w), 'wb') as lg:
            p = subprocess.run([exe, 'search', prop, str(seed), str(w), str(W), '0' if tier == 'quick' else '1', str(secs), '100000000', out] + knownkinds, stdout=lg, stderr=subprocess.STDOUT, timeout=secs * 3 + 400)
        return p.returncode
    ts = time.time()
    with cf.ThreadPoolExecutor(W) as ex: rcs = list(ex.map(worker, range(W)))
    tsearch = time.time() - ts
    tot = collections.Counter(); cls = collections.Counter(); faults = collections.Counter(); kn = collections.Counter(); probes = collections.Counter(); samples = []; nt = set(); tr = set(); stats = 0; nondet = []
    for w in range(W):
        for l in open('%s/log.%d' % (out, w), errors='replace'):
            if l.startswith('FOUND '):
                _, kind, h, f = l.split()[:4]; viol.append((kind, h, f, ''))
            elif l.startswith('NONDET'): nondet.append(l.strip())
            elif l.startswith('STATS '):
                d = json.loads(l[6:]); stats += 1
                for x in ('scenarios', 'runs', 'nontrivial', 'inconclusive', 'sim_s', 'events', 'twice'): tot[x] += d.get(x, 0)
                cls.update(d['classes']); faults.update(d['faults']); kn.update(d['known']); probes.update(d.get('probes', {})); samples += d['samples']
        for n, S in (('nt', nt), ('tr', tr)):
            try: S.update(open('%s/%s.%d' % (out, n, w)).read().split())
            except FileNotFoundError: pass
    trouble = []
    if nondet: trouble.append('a scenario did not repeat: %s (replay file in %s)' % (nondet[:3], out))
    if stats != W: trouble.append('a worker died: exit codes %s, see %s' % (rcs, out))
    # gate: the replay file alone, in a fresh process, twice, must give the same violation and the same run
    confirmed = []
    for kind, h, f, det in viol:
        r1 = replay(exe, f); r2 = replay(exe, f)
        if r1['KIND'] != kind or r1 != r2 or r1['HASH'] != h: trouble.append('violation %s of %s does not replay: %s / %s / %s' % (kind, prop, r1, r2, h)); continue
        confirmed.append((kind, f, r1['DETAIL']))
    for t in trouble: print('CHECK TROUBLE: ' + t)
    if trouble and not confirmed: sys.exit(2)      # nothing that replays was found, and the run cannot be trusted
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': T['level'], 'wall_s': round(time.time() - t0, 2), 'violations': len(confirmed), 'assumptions': T['assume'],
      'coverage': {'evaluations': tot['scenarios'], 'distinct_nontrivial': len(nt), 'rule': T['rule'], 'samples': samples[:10],
        'simulated_runs': tot['runs'], 'seeds': tot['scenarios'], 'runs_per_hour': int(tot['runs'] / max(tsearch, 1e-9) * 3600), 'seeds_per_hour': int(tot['scenarios'] / max(tsearch, 1e-9) * 3600),
        'simulated_seconds': round(tot['sim_s'], 3), 'simulator_events': tot['events'], 'faults_fired': dict(faults), 'distinct_interleavings': len(tr),
        'distinct_interleavings_measure': 'distinct hashes of the sequence of simulator events (allocations, clock reads, reads, writes, random draws, peer launches, solver calls, injected faults) of a scenario',
        'outcome_classes': dict(cls), 'inconclusive': tot['inconclusive'], 'scenarios_run_twice_for_determinism': tot['twice'], 'probes': dict(probes), 'known_finding_hits': dict(kn), 'regression_corpus': len(files),
        'real_components': T['real'], 'stub_components': T['stub'], 'build_s': round(tb, 1), 'search_s': round(tsearch, 1)}}
    os.makedirs(HERE + '/evidence', exist_ok=True)
    with open(HERE + '/evidence/%s.json' % prop, 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d scenarios, %d runs, %d distinct non-trivial, %d inconclusive, classes %s, faults %s, %.0f s' % (prop, tier, tot['scenarios'], tot['runs'], len(nt), tot['inconclusive'], dict(cls), dict(faults), time.time() - t0))
    for kind, f, det in confirmed: print('%s: %s' % (kind, det[:400])); print('VIOLATION property=%s replay=%s' % (prop, f))
    if not confirmed and tot['scenarios'] < T.get('min', 50): fail('too few scenarios (%d)' % tot['scenarios'])
    return 1 if confirmed else 0
if __name__ == '__main__': sys.exit(main())
