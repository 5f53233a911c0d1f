"""check / replay / selfcheck: the orchestrating process."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = os.environ.get('DSIM_PYTHON') or ('/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python')
                                       else sys.executable)
NSHARD = int(os.environ.get('DSIM_SHARDS', '8'))

from . import clock, meta          # noqa: E402


def _fixed_layout():
    # no address-space randomisation: the memory layout is a function of the job
    try:
        import ctypes
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


def env_for(hashseed):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('PYTHON') or k.startswith('LC_') or k in ('TZ', 'LANG', 'LANGUAGE'):
            del e[k]
    e.update(LD_PRELOAD=clock.build(), PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1',
             PYTHONPATH=ROOT, TZ='UTC', LC_ALL='C.UTF-8', OMP_NUM_THREADS='1',
             OPENBLAS_NUM_THREADS='1')
    return e


class Shard(object):
    def __init__(self, job, work, name):
        self.job = job
        self.path = os.path.join(work, name + '.job')
        self.out = os.path.join(work, name + '.out')
        self.err = os.path.join(work, name + '.err')
        with open(self.path, 'w') as f:
            json.dump(job, f)
        self.start = time.monotonic()
        with open(self.err, 'w') as ef:
            self.p = subprocess.Popen([PY, '-m', 'dsim.worker', self.path, self.out], cwd=ROOT,
                                      env=env_for(job['hashseed']), stdout=ef, stderr=ef,
                                      preexec_fn=_fixed_layout)

    def poll(self):
        return self.p.poll() is not None

    def result(self):
        try:
            with open(self.out) as f:
                return json.load(f)
        except (OSError, ValueError):
            try:
                tail = open(self.err).read()[-2000:]
            except OSError:
                tail = ''
            return {'ok': False, 'error': 'shard died (exit %s)\n%s' % (self.p.returncode, tail)}

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()


def one(job, work, name, timeout):
    s = Shard(job, work, name)
    end = time.monotonic() + timeout
    while not s.poll():
        if time.monotonic() > end:
            s.kill()
            return {'ok': False, 'error': 'timeout after %ds' % timeout}
        time.sleep(0.02)
    return s.result()


def hashseed_for(shard):
    return 1000 + 17 * shard


def die(msg):
    print('ERROR %s' % msg)
    sys.stdout.flush()
    sys.exit(2)


def load_known(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    try:
        with open(p) as f:
            k = json.load(f)
    except OSError:
        return []
    return [x for x in k.get('findings', []) if x['property'] == pid and x.get('status') == 'open']


def plan_jobs(pid, tier, seed, info):
    n = info['thorough_chunks'] if tier == 'thorough' else info['quick_chunks']
    jobs = []
    for s in range(NSHARD):
        ch = list(range(s, n, NSHARD))
        if not ch:
            continue
        jobs.append({'mode': 'explore', 'prop': pid, 'tier': tier, 'seed': seed, 'chunks': ch,
                     'hashseed': hashseed_for(s), 'salt': s + 1, 'shard': s,
                     'cap_s': info.get('cap_thorough', 3000) if tier == 'thorough' else info.get('cap_quick', 300),
                     'known': [k['match'] for k in load_known(pid)]})
    return jobs


def check(pid, tier, seed):
    import importlib
    t0 = time.monotonic()
    info = meta.PROPS[pid]
    known = load_known(pid)
    work = tempfile.mkdtemp(prefix='dsim-')
    viol = []
    try:
        if info.get('special'):
            m = importlib.import_module('dsim.props.%s' % pid.lower())
            results, viol = m.orchestrate(sys.modules[__name__], pid, tier, seed, info, work)
        else:
            jobs = plan_jobs(pid, tier, seed, info)
            results, viol = explore(jobs, work, info, tier)
        return finish(pid, tier, seed, info, results, viol, known, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def explore(jobs, work, info, tier):
    shards = [Shard(j, work, 's%d' % j['shard']) for j in jobs]
    limit = (info.get('cap_thorough', 3000) if tier == 'thorough' else info.get('cap_quick', 300)) * 1.5 + 120
    end = time.monotonic() + limit
    results = {}
    viol = None
    try:
        while len(results) < len(shards):
            for i, s in enumerate(shards):
                if i not in results and s.poll():
                    results[i] = r = s.result()
                    r['job'] = s.job
                    if r['ok'] and r['found'] and viol is None:
                        viol = time.monotonic()
            if viol is not None and time.monotonic() - viol > 1.0:
                for i, s in enumerate(shards):
                    if i not in results:
                        s.kill()
                        results[i] = {'ok': True, 'killed': True, 'runs': 0, 'counts': {}, 'found': [],
                                      'samples': [], 'nontrivial': 0, 'probes': {}, 'job': s.job}
                break
            if time.monotonic() > end:
                for s in shards:
                    s.kill()
                return list(results.values()) + [{'ok': False, 'error': 'shards did not finish within %ds'
                                                  % limit}], []
            time.sleep(0.02)
    finally:
        for s in shards:
            s.kill()
    out = []
    for i in sorted(results):
        r = results[i]
        if r.get('ok'):
            for f in r['found']:
                f['job'] = r['job']
                out.append(f)
    return [results[i] for i in sorted(results)], out


def minimise_and_confirm(pid, v, work, tag):
    """Shrink, write the replay file, replay it in a fresh process."""
    if v.get('cross'):
        return cross_confirm(pid, v, work, tag)
    job = v['job']
    base = {k: job[k] for k in ('prop', 'tier', 'seed', 'hashseed', 'salt')}
    base['known'] = job.get('known', [])
    kind = v['found'][0]['kind']
    r = one(dict(base, mode='minimise', plan=v['plan'], kind=kind, chunk=v.get('chunk', 0)), work,
            'min' + tag, 400)
    if not r.get('ok'):
        return None, 'minimiser: ' + r.get('error', '')
    if not r['reproduced']:
        # it needs what earlier runs of the same process left behind: replay those too
        rep = {'property': pid, 'violation': v['found'], 'plan': v['plan'], 'chunk': v.get('chunk', 0), 'upto': v.get('i', 0),
               'shrink_tries': 0, 'job': base}
        return confirm(pid, rep, kind, work, tag, 'a violation (%s) did not reproduce from its recorded schedule' % kind)
    rep = {'property': pid, 'violation': r['found'], 'plan': r['plan'], 'chunk': v.get('chunk', 0),
           'shrink_tries': r['tries'], 'job': base}
    path, why = confirm(pid, rep, kind, work, tag, 'the minimised replay did not reproduce in a fresh process')
    if path is None:
        rep = dict(rep, violation=v['found'], plan=v['plan'], shrink_tries=0)
        path, why2 = confirm(pid, rep, kind, work, tag, why)
        if path is not None:
            why = why2
    return path, why


def confirm(pid, rep, kind, work, tag, why):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (pid, tag))
    with open(path, 'w') as f:
        json.dump(rep, f, indent=1)
    c = replay_file(path, work)
    if not c.get('ok'):
        return None, 'replay: ' + c.get('error', '')
    if not any(f['kind'] == kind for f in c['found']):
        os.unlink(path)
        return None, '%s: %s' % (why, json.dumps(rep)[:1500])
    rep['violation'] = [f for f in c['found'] if f['kind'] == kind] or rep['violation']
    return path, rep


def cross_confirm(pid, v, work, tag):
    import importlib
    m = importlib.import_module('dsim.props.%s' % pid.lower())
    rep, why = m.cross_minimise(sys.modules[__name__], v, work)
    if rep is None:
        return None, why
    rep = dict(rep, property=pid, cross=True)
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (pid, tag))
    with open(path, 'w') as f:
        json.dump(rep, f, indent=1)
    c = replay_file(path, work)
    if not c.get('ok') or not c['found']:
        return None, 'the minimised cross-process replay did not reproduce: %s' % json.dumps(rep)[:1500]
    return path, rep


def many(jobs, work, tag, timeout):
    """Run the jobs in parallel processes; their results in order."""
    shards = [Shard(j, work, '%s%d' % (tag, i)) for i, j in enumerate(jobs)]
    end = time.monotonic() + timeout
    try:
        while not all(s.poll() for s in shards):
            if time.monotonic() > end:
                return [{'ok': False, 'error': 'timeout after %ds' % timeout} for _ in jobs]
            time.sleep(0.02)
        return [s.result() for s in shards]
    finally:
        for s in shards:
            s.kill()


def replay_file(path, work):
    with open(path) as f:
        rep = json.load(f)
    if rep.get('cross'):
        import importlib
        m = importlib.import_module('dsim.props.%s' % rep['property'].lower())
        return m.cross_replay(sys.modules[__name__], rep, work)
    job = dict(rep['job'], mode='replay', plan=rep['plan'], chunk=rep['chunk'], upto=rep.get('upto'))
    return one(job, work, 'replay', 300)


def finish(pid, tier, seed, info, results, viol, known, work, t0):
    errors = [r['error'] for r in results if not r.get('ok')]
    errors += [e for r in results if r.get('ok') for e in r.get('errors', [])]
    counts, probes = {}, {}
    runs = nontrivial = 0
    samples = []
    cpu = 0.0
    for r in results:
        if not r.get('ok'):
            continue
        runs += r['runs']
        nontrivial += r['nontrivial']
        cpu += r.get('wall', 0)
        for k, n in r['counts'].items():
            counts[k] = counts.get(k, 0) + n
        for k, n in r.get('probes', {}).items():
            probes[k] = probes.get(k, 0) + n
        samples += r['samples'][:1]
    reported = []
    unconfirmed = []
    for i, v in enumerate(viol[:4]):
        path, rep = minimise_and_confirm(pid, v, work, '%d' % i)
        if path is None:
            unconfirmed.append(rep)
            continue
        reported.append((path, rep))
        break
    wall = time.monotonic() - t0
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'wall_s': round(wall, 2),
          'violations': len(reported),
          'coverage': {
              'evaluations': runs, 'distinct_nontrivial': nontrivial, 'rule': info['rule'],
              'samples': samples[:3] or ['none'],
              'simulated_runs_per_hour': int(runs / wall * 3600) if wall else 0,
              'seeds': 'run seed = H(VERIF_SEED, property, chunk, i); VERIF_SEED=%d' % seed,
              'worker_seconds': round(cpu, 1),
              'counters': counts, 'probes': probes, 'real_components': info['real'],
              'stub_components': info['stub'], 'shards': len(results),
              'stopped': [r.get('stopped') for r in results if r.get('stopped')]},
          'assumptions': info['assumes']}
    hist = {}
    for r in results:
        for k, n in r.get('known', {}).items():
            hist[k] = hist.get(k, 0) + n
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if hist:
        ev['coverage']['known_findings_met'] = hist
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if reported:
        path, rep = reported[0]
        for f in rep['violation'][:3]:
            print('  %s: %s' % (f['kind'], json.dumps(f['detail'])[:1200]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.stdout.flush()
        return 1
    if errors:
        die('%s: %s' % (pid, errors[0]))
    if unconfirmed:
        die('%s: unconfirmed: %s' % (pid, unconfirmed[0]))
    stopped = [r for r in results if r.get('stopped') == 'wall']
    print('OK property=%s runs=%d distinct=%d wall=%.1fs%s' % (
        pid, runs, nontrivial, wall, ' (wall cap reached)' if stopped else ''))
    return 0


def main(argv):
    cmd = argv[0]
    if cmd == 'check':
        tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '1'))
        return check(argv[1], tier, seed)
    if cmd == 'build':
        print(clock.build())
        return 0
    if cmd == 'replay':
        work = tempfile.mkdtemp(prefix='dsim-')
        try:
            r = replay_file(argv[1], work)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        if not r.get('ok'):
            die(r.get('error'))
        rep = json.load(open(argv[1]))
        print(json.dumps(r['found'], indent=1))
        if r['found']:
            print('VIOLATION property=%s replay=%s' % (rep['property'], argv[1]))
            return 1
        print('no violation')
        return 0
    if cmd == 'selfcheck':
        from . import selfcheck
        return selfcheck.main(argv[1:])
    die('unknown command %s' % cmd)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
