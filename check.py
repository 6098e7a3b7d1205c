#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]: decides one property for the current tree of /repo.

Rebuilds the MIR of the crate from the working tree, discharges every obligation of the property's contracts, and runs the
bounded cross-check of the compiled crate.  Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Other: no answer."""
import argparse
import collections
import fcntl
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)
B = os.path.join(ROOT, '.build')
T0 = time.time()


def say(*a):
    print(*a, flush=True)


def build(out):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(['bash', os.path.join(ROOT, 'tools/setup.sh'), out], capture_output=True, text=True)
    if r.returncode:
        say(r.stdout[-3000:])
        say(r.stderr[-6000:])
        say('ERROR: building the tools or /repo failed')
        sys.exit(2)


SAFE_PROPS = 'C01 C02 C03 C05 C06 C08 C13 C14 C16 C19 C21 C23'.split()
SAFE_UNITS = [('C09', 'one iteration'), ('C10', 'line search'), ('C12', 'errors reach the caller'), ('C11', 'the reported fit')]
JOBS = []
PROG = None
TIER = 'quick'


def job(i):
    u, cfg, safety, modular = JOBS[i]
    from glmvc import spec
    uu = u
    if not modular:
        uu = spec.Unit(u.prop, u.name, u.f, u.cfgs, u.anchors, u.tier, {}, u.private, u.base)
    try:
        r = spec.run_unit(PROG, uu, cfg, safety=safety, secs=20 if TIER == 'quick' else 60)
    except MemoryError:
        r = None
    except Exception:
        r = dict(unit=u.name, prop=u.prop, cfg=cfg, rows=[], covered=[], externs=[], assumed=[], paths=0, okpaths=0, status='unsupported',
                 msg='engine: ' + traceback.format_exc()[-400:], solver=0.0, modular=[], secs=0)
    return i, r


# where the contracts of callees are proved; those a property's units rely on are proved again with the property
PROVED_IN = {'fit::Fit::dispersion': ('C18', 'dispersion'), 'fit::Fit::leverage': ('C17', 'hat matrix and leverage'),
             'fit::Fit::dispersion_loo': ('C18', 'leave-one-out dispersion'), 'fit::Fit::null_model_fit': ('C15', 'null model'),
             'data::Standardizer::from_dataset': ('C02', 'standardizer of a built model')}


def support(units, all_units):
    have = {(u.prop, u.name) for u in units}
    need = []
    todo = [u for u in units if u.prop != 'C21']
    while todo:
        u = todo.pop()
        for k in u.contracts or {}:
            w = PROVED_IN.get(k)
            if w and w not in have:
                have.add(w)
                v = [x for x in all_units if (x.prop, x.name) == w]
                need += v
                todo += v
    return need


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def run_jobs(ids, deadline):
    """-> {i: result or None when out of time}"""
    out = {}
    if not ids:
        return out
    pool = mp.get_context('fork').Pool(8, initializer=limit, maxtasksperchild=1)
    it = pool.imap_unordered(job, ids, chunksize=1)
    try:
        for _ in ids:
            i, r = it.next(timeout=max(1, deadline - time.time()))
            out[i] = r
    except mp.TimeoutError:
        pass
    finally:
        pool.terminate()
    return out


def good(r):
    return r is not None and r['status'] == 'ok' and all(x['status'] == 'proved' for x in r['rows'])


def refuted(r):
    return [] if r is None or r['status'] != 'ok' else [x for x in r['rows'] if x['status'] == 'refuted']


def main():
    global PROG, TIER
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-build', action='store_true')
    ap.add_argument('--no-bounded', action='store_true')
    a = ap.parse_args()
    TIER = a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    dump = os.path.join(B, 'dump-%d.json' % os.getpid())
    if not a.no_build:
        build(dump)
    else:
        dump = os.path.join(B, 'setup-dump.json')
    try:
        sys.exit(decide(a, seed, dump))
    finally:
        if not a.no_build and os.path.exists(dump):
            os.unlink(dump)


def decide(a, seed, dump):
    global PROG
    from glmvc import spec, bounded
    import contracts
    contracts.load()
    from glmvc.engine import Prog
    PROG = Prog(dump)
    prop = a.prop
    t1 = time.time()
    units = [u for u in spec.UNITS if prop in ((u.prop,) if isinstance(u.prop, str) else u.prop) and (a.tier == 'thorough' or u.tier == 'quick')]
    if prop == 'C24':
        # between them these units execute every function of the crate; the thorough tier takes all units
        for u in spec.UNITS:
            if a.tier == 'thorough' or u.prop in SAFE_PROPS or (u.prop, u.name) in SAFE_UNITS:
                JOBS.extend((u, cfg, True, True) for cfg in u.cfgs)
    else:
        units += support(units, spec.UNITS)
        JOBS.extend((u, cfg, False, True) for u in units for cfg in u.cfgs)
    if not JOBS and prop not in bounded.TABLE:
        say('unknown property', prop)
        return 2
    hits, tot, tb = [], None, [0.0]
    if not a.no_bounded and prop in bounded.TABLE:
        tot = collections.Counter()

        def more(sd, n=150 if a.tier == 'quick' else 600, odd=False):
            t = time.time()
            r = bounded.run(prop, sd, n, odd)
            tb[0] += time.time() - t
            tot.update(cases=r['cases'], fits=r['fits'], compared=r['compared'])
            hits.extend(r['bad'])
        for k in range(1 if a.tier == 'quick' else 8):
            more(seed + 1000 * k)
    # an input that fails settles the outcome; the proof is then given only a while to name the obligations
    quick_end = T0 + ((240 if hits else 560) if a.tier == 'quick' else 3000)
    res = run_jobs(list(range(len(JOBS))), quick_end)
    # where callee contracts got in the way, the callees are executed instead (needless when an input shows the failure)
    again = [i for i in range(len(JOBS)) if JOBS[i][0].contracts and not JOBS[i][2] and not good(res.get(i))]
    if any(u.private and refuted(res.get(i)) for i, (u, _, _, _) in enumerate(JOBS)):
        # callers proved against a contract that does not hold are decided with the callee executed
        again = [i for i in range(len(JOBS)) if JOBS[i][0].contracts and not JOBS[i][2]]
    base = len(JOBS)
    relied = [u.name for u, _, _, _ in JOBS if u.base]
    for i in again:
        u, cfg, s, _ = JOBS[i]
        JOBS.append((u, cfg, s, False))
    if again and not hits:
        r2 = run_jobs(list(range(base, len(JOBS))), min(T0 + 760, time.time() + 300) if a.tier == 'quick' else T0 + 4000)
        for k, i in enumerate(again):
            r = r2.get(base + k)
            if good(r) or (r is not None and r['status'] == 'ok' and not refuted(r) and refuted(res.get(i))):
                res[i] = r
            elif not JOBS[i][0].private and good(res.get(i)):
                relied.append(JOBS[i][0].name)
    # outcome of the proof
    rows = collections.Counter()
    backs = collections.Counter()
    covered, externs, assumed, modular, failed, unk, private_failed = set(), set(), set(), set(), [], [], []
    solver = 0.0
    nunits, npaths = set(), 0
    samples = []
    for i in range(base):
        u, cfg, saf, _ = JOBS[i]
        r = res.get(i)
        label = '%s [%s]' % (u.name, ', '.join('%s=%s' % kv for kv in cfg.items()))
        if r is None:
            unk.append('%s: out of time or memory' % label)
            continue
        if r['status'] != 'ok':
            unk.append('%s: %s' % (label, r['msg'][:300]))
            continue
        nunits.add(u.name)
        npaths += r['paths']
        covered |= set(r['covered'])
        externs |= set(r['externs'])
        assumed |= set(r['assumed'])
        modular |= set(r['modular'])
        solver += r['solver']
        for x in r['rows']:
            rows[x['status']] += 1
            backs[x['backend'] or 'none'] += 1
            if len(samples) < 6 and x['status'] == 'proved':
                samples.append('%s: %s by %s' % (label, x['name'], x['backend']))
            if x['status'] == 'undecided':
                unk.append('%s: %s: %s' % (label, x['name'], str(x['detail'])[:200]))
        bad = refuted(r)
        if bad:
            (private_failed if u.private else failed).append((u, cfg, bad[0]))
    t_proof = time.time() - t1 - tb[0]
    # bounded cross-check on the compiled crate
    bres = None
    if tot is not None:
        if private_failed and not failed and not hits:
            more(seed + 17)
        if (failed or private_failed or unk) and not hits:
            k = 0
            t2 = time.time()
            while not hits and time.time() - t2 < (60 if failed or private_failed else 90) and k < 40:
                k += 1
                more(seed + 7919 * k, 300, k % 2 == 1)
        bres = dict(tot)
    say('%s: %d obligations, %d discharged, %d refuted, %d undecided; %d units, %d functions executed, %.0f s' % (
        prop, sum(rows.values()), rows['proved'], rows['refuted'], len(unk), len(nunits), len(covered), t_proof))
    for x in unk[:8]:
        say('  not decided by proof (bounded check stands in):', x[:300])
    if bres:
        say('  bounded cross-check of the compiled crate: %(cases)d cases, %(fits)d fits, %(compared)d comparisons' % bres)
    if private_failed:
        for u, cfg, x in private_failed[:3]:
            say('  internal contract not met: %s %s: %s' % (u.name, cfg, x['name']))
        # an internal function may change what it means; only public behaviour counts when it is fully decided without its contract
        carriers = [u for u in units if not u.private]
        if not failed and not hits and carriers and not unk and not relied:
            private_failed = []
    allfail = failed + private_failed
    code = 0
    nviol = 0
    if hits or allfail:
        nviol = len(hits) or len(allfail)
        code = 1
        rp = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, prop + '.json')
        rec = dict(property=prop, seed=seed, failed_obligations=[dict(unit=u.name, configuration=cfg, obligation=x['name'], backend=x['backend'], output=x['detail'])
                                                               for u, cfg, x in allfail[:20]])
        if hits:
            rec['failing_inputs'] = [dict(case=bounded.encode(c), observed=b) for c, b in hits[:10]]
            rec['how'] = 'python3-vt /verif/replay.py ' + path
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1, default=str)
        for u, cfg, x in allfail[:5]:
            say('  failed obligation: %s %s: %s' % (u.name, cfg, x['name']))
            say('    ' + str(x['detail'])[:600])
        for c, b in hits[:3]:
            say('  failing input: %s: %s' % (c['family'], b[0][:400]))
        say('VIOLATION property=%s replay=%s%s' % (prop, path, '' if hits else ' no-failing-input-found'))
    proof_ok = rows['proved'] > 0
    base_tb = ['rustc nightly (MIR construction) and the mirdump driver', 'the symbolic executor and term normal form in /verif/glmvc',
               'z3 where named as back end', 'the models of ndarray, ndarray-linalg, num-traits, core, itertools and statrs functions listed below']
    ev = dict(property=prop, tier=a.tier, seed=seed, level='proof', coverage=dict(
        obligations=sum(rows.values()), discharged=rows['proved'], refuted=rows['refuted'], undecided=rows['undecided'],
        checker_cmd='python3-vt /verif/check.py %s --tier %s' % (prop, a.tier),
        trusted_base=base_tb + sorted('model: ' + e for e in externs),
        back_ends=dict(backs), solver_seconds=round(solver, 2), proof_seconds=round(t_proof, 1), units=sorted(nunits), paths=npaths,
        functions_under_contract=sorted(covered), callee_contracts_used=sorted(modular), not_decided_by_proof=unk[:60],
        bounded=dict(bres, label='bounded: random cases on the compiled crate, never counted as proved', seeds=1) if bres else None, samples=samples),
        assumptions=['machine arithmetic is treated as real arithmetic (rounding, overflow and signed zeros are outside the proof)',
                     'identities hold where their denominators are non-zero', 'matrix inverses returned by LAPACK are exact inverses of symmetric matrices when no error is returned',
                     'array contents are finite'] + sorted(assumed),
        wall_s=round(time.time() - T0, 2), violations=nviol)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    return code


if __name__ == '__main__':
    main()
