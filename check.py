#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] | --replay <file>
Decides one property on /repo's current working tree: extracts the sources to LLVM IR, generates the verification
conditions of the property's contracts and discharges them; see DESIGN.md."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import shutil
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(VERIF, 'rdv'), os.path.join(VERIF, 'harness')]
sys.setrecursionlimit(20000)
EVID = os.path.join(VERIF, 'evidence')


def worker(prop, tier, i, deadline, q):
    resource.setrlimit(resource.RLIMIT_STACK, (512 << 20, resource.RLIM_INFINITY))
    import threading
    threading.stack_size(500 << 20)
    out = []

    def go():
        import task
        m = importlib.import_module('specs.' + prop.lower())
        out.append(task.run_task(m.tasks(tier)[i], deadline))
    th = threading.Thread(target=go)
    th.start()
    th.join()
    q.put((i, out[0] if out else None))


def run_tasks(prop, tier, n, names, deadline):
    """every task in its own process, 8 at a time"""
    ctx = mp.get_context('fork')
    todo, live, res = list(range(n)), {}, [None] * n
    while todo or live:
        while todo and len(live) < 8:
            i = todo.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=worker, args=(prop, tier, i, deadline, q))
            p.start()
            live[i] = (p, q)
        for i, (p, q) in list(live.items()):
            try:
                j, r = q.get(timeout=0.02)
                res[i] = r
                p.join()
                del live[i]
                continue
            except Exception:
                pass
            if not p.is_alive():
                try:
                    res[i] = q.get(timeout=1)[1]
                except Exception:
                    pass
                del live[i]
            elif time.time() > deadline + 30:
                p.kill()
                p.join()
                del live[i]
        time.sleep(0.01)
    for i in range(n):
        if res[i] is None:
            res[i] = dict(name=names[i], status='timeout', error='the verifier process ended without a result', obligations=[], trusted=[], contracts=[],
                          inlined=[], functions={}, solver=dict(queries=0, time=0), wall=0)
    return res


def known(prop):
    out = []
    for l in open(os.path.join(VERIF, 'known_findings.txt')):
        l = l.strip()
        if l.startswith('finding: property=%s ' % prop):
            key, _, what = l[len('finding: property=%s ' % prop):].partition(' ')
            out.append((key, what))
    return out


def main():
    t0 = time.time()
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(EVID, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='rdv-%s-' % prop)
    try:
        return decide(prop, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, tier, seed, tmp, t0):
    import hx
    from specs.notes import INFO
    info = INFO.get(prop, {})
    budget = 420 if tier == 'quick' else 3000
    m = importlib.import_module('specs.' + prop.lower())
    ts = m.tasks(tier)
    hname = 'h_' + prop.lower()
    have_h = os.path.exists(os.path.join(VERIF, 'harness', hname + '.py'))
    # the contracts are also run against the real code, while the proofs are under way
    side = {}
    ctx = mp.get_context('fork')
    hq = ctx.Queue()

    def side_run(sec):
        try:
            hq.put(hx.execute(hname, tmp, sec, seed))
        except Exception as e:
            hq.put(dict(status='error', what='harness: %s' % e))
    hp = None
    if have_h:
        hp = ctx.Process(target=side_run, args=(getattr(m, 'SIDE', 15) if tier == 'quick' else 240,))
        hp.start()
    res = run_tasks(prop, tier, len(ts), [t.name for t in ts], t0 + budget)
    if hp:
        try:
            side = hq.get(timeout=600)
        except Exception:
            side = dict(status='error', what='no answer')
        hp.join()

    # ---- what the verifier said
    groups = {}
    for t, r in zip(ts, res):
        groups.setdefault(getattr(t, 'group', None), []).append(r)
    alt = {g: rs for g, rs in groups.items() if g}
    main_rs = groups.get(None, [])
    findings = []
    picked = list(main_rs)
    if alt:
        pick = None
        order = list(alt)
        for g in order:
            if all(ok(r) for r in alt[g]):
                pick = g
                break
        listed = dict(known(prop))
        if pick is None:
            # report against the alternative closest to holding; a listed finding's characterisation if there is one
            picked += alt[order[-1] if order[-1] in listed else order[0]]
        else:
            picked += alt[pick]
            if pick in listed:
                findings.append((pick, listed[pick]))
            elif pick != order[0]:
                picked += alt[order[0]]
    fails = []
    incomplete = []
    for r in picked:
        if r['status'] != 'ok':
            incomplete.append('%s: %s' % (r['name'], r['error']))
        for o in r['obligations']:
            if o['nfails']:
                fails.append((r, o))
        if r['status'] == 'ok' and not r['obligations']:
            incomplete.append('%s: no obligation was generated' % r['name'])
    obl = sum(len([o for o in r['obligations']]) for r in picked)
    dis = sum(len([o for o in r['obligations'] if not o['nfails']]) for r in picked)
    inst = sum(o['instances'] for r in picked for o in r['obligations'])

    rep = None
    nofail = False
    if side.get('status') == 'found':
        rep = side
    elif fails or incomplete:
        if have_h:
            left = max(30, min(240 if tier == 'quick' else 900, t0 + 820 - time.time() - 60)) if tier == 'quick' else 900
            r2 = hx.execute(hname, tmp, left, seed + 1000)
            side2 = r2
            if r2.get('status') == 'found':
                rep = r2
            elif side.get('status') == 'ok' and r2.get('status') == 'ok':
                side['n'] += r2['n']
                side['distinct'] += r2['distinct']
        if rep is None and fails:
            nofail = True
    # ---- evidence
    funcs = {}
    for r in picked:
        funcs.update(r['functions'])
    trust = sorted(set(x for r in picked for x in r['trusted']))
    import externs
    import build
    from specs.ana import BACKEND_TEXT
    TEXT = dict(BACKEND_TEXT)
    TEXT.update(getattr(m, 'TEXT', {}))
    tb = ['clang-18 front end and mem2reg (the same sources, compiled -O0 to LLVM IR; the shipped objects are compiled by gcc -O3)',
          'rdv, the verification condition generator in /verif/rdv, and z3 %s' % __import__('z3').get_version_string()]
    tb += ['%s: %s' % (x, externs.TRUST.get(x, TEXT.get(x, 'assumed contract'))) for x in trust]
    tb += info.get('trusted', [])
    cov = dict(obligations=obl, discharged=dis, checker_cmd='check.py %s' % prop, trusted_base=tb,
               condition_instances=inst,
               functions_under_contract=sorted(info.get('functions', [])),
               functions_verified=funcs, callee_contracts_used=sorted(set(x for r in picked for x in r['contracts'])),
               inlined=sorted(set(x for r in picked for x in r['inlined'])),
               loop_invariants=sum(r.get('invariants') or 0 for r in picked), paths=sum(r.get('paths') or 0 for r in picked),
               solver_queries=sum(r['solver']['queries'] for r in picked), solver_seconds=round(sum(r['solver']['time'] for r in picked), 2),
               tasks=[dict(name=r['name'], status=r['status'], error=r.get('error'), seconds=round(r['wall'], 2), bounded=r.get('bounded'),
                           obligations=[dict(name=o['name'], kind=o['kind'], instances=o['instances'], proved=o['proved'], by=o['backends']) for o in r['obligations']])
                      for r in picked],
               source_sha256=build.source_hash())
    if have_h:
        cov['concrete_cross_check'] = dict(note='bounded: the contracts also evaluated on real executions of the rebuilt library (ASan, UBSan); not counted as proved',
                                           status=side.get('status'), evaluations=side.get('n'), distinct_nontrivial=side.get('distinct'),
                                           samples=side.get('samples'), what=side.get('what') if side.get('status') != 'ok' else None)
    level = info.get('level', 'proof')
    if incomplete:
        level = 'exploration'
        cov.update(evaluations=side.get('n') or 0, distinct_nontrivial=side.get('distinct') or 0, samples=side.get('samples') or [],
                   rule='the verifier could not bring the current source within reach (%s); the bounded concrete check stood in: random and boundary cases of the property, distinct by their parameters' % '; '.join(incomplete)[:1500])
    elif level == 'exploration':
        cov.update(evaluations=side.get('n') or 0, distinct_nontrivial=side.get('distinct') or 0, samples=side.get('samples') or [], rule=info['rule'])
    listed = dict(known(prop))
    for k in sorted(set(side.get('known') or [])):
        if k in listed and k not in dict(findings):
            findings.append((k, listed[k]))
    bad = rep is not None or nofail
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=info.get('assumptions', []) + ASSUME, wall_s=round(time.time() - t0, 2), violations=1 if bad else 0)
    p = os.path.join(EVID, prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.rename(p + '.tmp', p)

    print('%s %s: %d of %d obligations discharged (%d instances) in %d tasks, %.0f s solver time, %.0f s' %
          (prop, tier, dis, obl, inst, len(picked), cov['solver_seconds'], time.time() - t0))
    for x in incomplete:
        print('  not decided by the verifier: %s' % x[:400])
    for r, o in fails:
        print('  FAILED OBLIGATION %s / %s (%s) at %s' % (r['name'], o['name'], o['kind'], o['loc']))
    if have_h:
        print('  concrete cross-check: %s, %s cases%s' % (side.get('status'), side.get('n'), '' if side.get('status') == 'ok' else ' ' + str(side.get('what'))[-600:]))
    if bad:
        rp = os.path.join(EVID, 'replay-%s.json' % prop)
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, harness=hname if rep else None, case=rep and rep.get('case'), what=rep and rep.get('what'), output=rep and rep.get('output'),
                           how='python3-vt check.py --replay %s' % rp,
                           failed_obligations=[dict(task=r['name'], obligation=o['name'], kind=o['kind'], loc=o['loc'], verifier_output=o['fails']) for r, o in fails],
                           not_decided=incomplete), f, indent=1, default=str)
        if rep:
            print('  failing input: %s\n  %s' % (json.dumps(rep.get('case'), default=str)[:600], str(rep.get('what'))[:600]))
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if rep else ' no-failing-input-found'))
        return 1
    for k, what in findings:
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    return 0


ASSUME = ['FFTW, libjpeg, libpng and the C library behave as their contracts say', 'float arithmetic is IEEE 754 as clang emits it (no contraction, no fast-math)',
          'the memory model is object based: distinct allocations do not overlap, pointers into an object stay within it']


def ok(r):
    return r['status'] == 'ok' and r['obligations'] and not any(o['nfails'] for o in r['obligations'])


def replay(path):
    import hx
    d = json.load(open(path))
    if not d.get('case'):
        print(json.dumps(d, indent=1)[:6000])
        return 0
    tmp = tempfile.mkdtemp(prefix='rdv-replay-')
    try:
        c = os.path.join(tmp, 'c.json')
        json.dump(d['case'], open(c, 'w'))
        r = hx.execute(d['harness'], tmp, 60, 1, c)
        print(json.dumps(r, indent=1, default=str)[:6000])
        return 1 if r['status'] == 'found' else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    sys.stdout.flush()
    sys.exit(rc)
