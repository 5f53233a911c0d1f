#!/usr/bin/env python3
"""Confirm planted bugs and see which checks report them.

plant.py make SPEC.py [ID...]   write /verif/seeded/ID from a spec module (BUGS: list of dicts with
                                id, property, needs, breaks, edits=[(file, old, new)], demo) and verify
plant.py verify [ID...]         re-verify: applies, builds, stable tests pass, demo 0 / nonzero
plant.py catch [ID...] [--all]  run the property's check (or all checks) on the changed copy
Works on scratch copies only.
"""
import json, os, shutil, subprocess, sys, tempfile, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + '/seeded'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def copy():
    d = tempfile.mkdtemp(prefix='plant-')
    sh('cp -a /repo %s/repo' % d)
    return d


def tests(d):
    out = d + '/out.json'
    for n in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + n).read().replace('/repo', d + '/repo')
        open(d + '/' + n, 'w').write(t)
    b = sh('timeout 300 bash %s/build.sh' % d)
    if b.returncode:
        return 'build: ' + b.stderr[-500:]
    t = sh('timeout 100 bash %s/test.sh %s' % (d, out))
    if not os.path.exists(out):
        return 'tests do not finish'
    r = json.load(open(out))
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    passed = set(r.get('passed') or [k for k, v in r.get('tests', r).items() if v in ('passed', 'pass', True)])
    bad = [x for x in stable if x not in passed]
    if bad:
        return 'tests fail: %s' % bad[:5]


def demo(i, d):
    e = dict(os.environ)
    e.pop('VERIF_SEED', None)
    dd = d + '/demo'
    if not os.path.exists(dd):
        shutil.copytree(S + '/' + i, dd, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    r = sh('bash %s/demo.sh' % dd, cwd=d + '/repo', timeout=300, env=e)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def verify(i):
    d = copy()
    try:
        c, o = demo(i, d)
        if c:
            return 'demo fails on the unchanged tree: ' + o
        r = sh('git -C %s/repo apply %s/%s/patch.diff' % (d, S, i))
        if r.returncode:
            return 'apply: ' + r.stderr
        e = tests(d)
        if e:
            return e
        c, o = demo(i, d)
        if c == 0:
            return 'demo passes with the patch: ' + o
        return 'ok (demo: %s)' % o.strip().splitlines()[-1][:150] if o.strip() else 'ok'
    finally:
        shutil.rmtree(d)


def catch(i, every=False):
    meta = json.load(open('%s/%s/meta.json' % (S, i)))
    d = copy()
    try:
        sh('git -C %s/repo apply %s/%s/patch.diff' % (d, S, i))
        props = [meta['property']]
        if every:
            props = sorted('C%02d' % k for k in range(1, 18))
        out = []
        for p in props:
            r = sh('bin/check %s quick' % p, cwd=V, env=dict(os.environ, DS_REPO=d + '/repo'))
            m = re.search('VIOLATION property=%s' % p, r.stdout)
            st = 'caught' if r.returncode == 1 and m else 'quiet' if r.returncode == 0 else 'ERROR'
            if st != 'quiet' or not every:
                out.append('%s:%s' % (p, st) + ('' if every else ' ' + r.stdout.strip()[:300].replace('\n', ' ')))
        return ' '.join(out)
    finally:
        shutil.rmtree(d)


def make(spec, ids):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns['BUGS']:
        i = b['id']
        if ids and i not in ids:
            continue
        d = copy()
        try:
            bad = None
            for f, old, new in b['edits']:
                p = '%s/repo/%s' % (d, f)
                t = open(p).read()
                if t.count(old) != 1:
                    bad = '%s: pattern found %d times in %s: %r' % (i, t.count(old), f, old[:60])
                    break
                open(p, 'w').write(t.replace(old, new))
            if bad:
                print(bad)
                continue
            diff = sh('git -C %s/repo diff' % d).stdout
        finally:
            shutil.rmtree(d)
        o = '%s/%s' % (S, i)
        os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'w').write(diff)
        open(o + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        open(o + '/demo.sh', 'w').write(b.get('sh') or
            '#!/bin/bash\n# exit 0: the property held\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
            'PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3\n'
            'exec $PY -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(o + '/meta.json', 'w'), indent=1)
        v = verify(i)
        print(i, v)
        if not v.startswith('ok'):
            shutil.rmtree(o)
            continue
        print('   ', catch(i))
        sys.stdout.flush()


if __name__ == '__main__':
    a = [x for x in sys.argv[2:] if not x.startswith('--')]
    if sys.argv[1] == 'make':
        make(a[0], a[1:])
    else:
        for i in a or sorted(os.listdir(S)):
            print(i, verify(i) if sys.argv[1] == 'verify' else catch(i, '--all' in sys.argv))
            sys.stdout.flush()
