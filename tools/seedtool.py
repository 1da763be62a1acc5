#!/usr/bin/env python3
"""seedtool.py make <spec.py> [id..]: write seeded/<id>/ from a spec; seedtool.py test [id..] [--nocheck]: confirm against /repo and run the property's check."""
import json, os, subprocess, sys, time, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
R = '/repo'
SH = '''#!/bin/bash
d=$(mktemp -d)
trap 'rm -r -- "$d"' EXIT
gcc -std=gnu99 -O1 -w -I include -I lib "$(dirname "$0")/demo.c" -o "$d/demo" -L . -lresdet -lm -Wl,-rpath,"$d" || exit 2
ln -s "$PWD/libresdet.so" "$d/libresdet.so.3" && ln -s "$PWD/libresdet.so" "$d/libresdet.so"
cd "$d" && timeout 200 ./demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def clean():
    assert sh('git -C %s status --porcelain -uno' % R).stdout == '', 'repo not clean'


def make(spec, ids):
    d = runpy.run_path(spec)['SEEDS']
    for s in d:
        if ids and s['id'] not in ids:
            continue
        clean()
        p = os.path.join(S, s['id'])
        os.makedirs(p, exist_ok=True)
        try:
            for f, a, b in s['edits']:
                t = open(os.path.join(R, f)).read()
                assert t.count(a) == 1, (s['id'], f, a, t.count(a))
                open(os.path.join(R, f), 'w').write(t.replace(a, b))
            df = sh('git -C %s diff' % R).stdout
        finally:
            sh('git -C %s checkout -- .' % R)
        open(os.path.join(p, 'patch.diff'), 'w').write(df)
        open(os.path.join(p, 'demo.sh'), 'w').write(s.get('sh', SH))
        if 'c' in s:
            open(os.path.join(p, 'demo.c'), 'w').write(s['c'].strip() + '\n')
        for n, t in s.get('files', {}).items():
            open(os.path.join(p, n), 'w').write(t)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(p, 'meta.json'), 'w'), indent=1)
        print('made', s['id'])


def demo(i):
    r = sh('bash %s/demo.sh' % os.path.join(S, i), cwd=R, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-300:]


def build():
    r = sh('bash /opt/vp/build.sh')
    return r.returncode, (r.stdout + r.stderr)[-500:]


def test(ids, check=True):
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = set(base.get('stable') or base.get('passed') or base.get('tests') or [])
    rows = []
    for i in ids:
        clean()
        m = json.load(open(os.path.join(S, i, 'meta.json')))
        build()
        row = [i, m['property'], 'demo-clean=%d' % demo(i)[0]]
        try:
            r = sh('git -C %s apply %s/patch.diff' % (R, os.path.join(S, i)))
            assert r.returncode == 0, r.stderr
            rc, o = build()
            row.append('build=%d' % rc)
            if rc == 0:
                rc, o = demo(i)
                row.append('demo-bug=%d %s' % (rc, o.strip()[:80].replace('\n', ' / ')))
                sh('bash /opt/vp/test.sh /tmp/seedtest.json')
                t = json.load(open('/tmp/seedtest.json'))
                bad = stable - set(t['passed'])
                row.append('tests-broken=%d %s' % (len(bad), sorted(bad)[:3] if bad else ''))
            if check:
                t0 = time.time()
                r = sh('python3-vt check.py %s' % m['property'], cwd=V, timeout=900, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                how = 'missed' if not v else m['property'] + (' (obligation, no failing input)' if 'no-failing' in v[0] else ' (failing input)')
                rf = os.path.join(V, 'tools', 'seed_results.json')
                rs = json.load(open(rf)) if os.path.exists(rf) else {}
                rs[i] = how
                json.dump(rs, open(rf, 'w'), indent=1, sort_keys=True)
                row.append('check rc=%d %.0fs %s' % (r.returncode, time.time() - t0, v[0][-60:] if v else r.stdout[-300:] + r.stderr[-300:]))
        finally:
            sh('git -C %s checkout -- .' % R)
            build()
        print(' | '.join(row), flush=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'make':
        make(a[1], a[2:])
    else:
        chk = '--nocheck' not in a
        ids = [x for x in a[1:] if not x.startswith('--')] or sorted(os.listdir(S))
        test(ids, chk)
