"""Determinism audit: one seed is one execution.

Every property's first chunks are executed four times - alone, again, after other
chunks in one process, and under another PYTHONHASHSEED and heap layout - and the
digests of all runs (schedule traces and answers) are compared.
"""
import shutil
import sys
import tempfile

from . import cli, meta


def main(argv):
    props = argv or sorted(meta.PROPS)
    work = tempfile.mkdtemp(prefix='dsim-')
    bad = 0
    try:
        for pid in props:
            if pid == 'C06':        # already compares whole processes
                continue
            base = {'mode': 'explore', 'prop': pid, 'tier': 'quick', 'seed': 1, 'salt': 3, 'cap_s': 600, 'digests': True}
            jobs = [dict(base, chunks=[0], hashseed=1017, shard=0), dict(base, chunks=[0], hashseed=1017, shard=1),
                    dict(base, chunks=[1, 2, 0], hashseed=1017, shard=2), dict(base, chunks=[0], hashseed=4242, shard=3, layout=5)]
            res = cli.many(jobs, work, pid, 900)
            for r in res:
                if not r.get('ok') or r.get('errors'):
                    print(pid, 'ERROR', r.get('error') or r['errors'][0])
                    bad += 1
                    break
            else:
                logs = [dict((tuple(d[:2]), d[2]) for d in r['digests']) for r in res]
                keys = sorted(k for k in logs[0] if k[0] == 0)
                off = [[k for k in keys if l.get(k) != logs[0][k]] for l in logs[1:]]
                print('%s %d runs: %s' % (pid, len(keys), 'identical in four processes' if not any(off) else
                                          'DIFFER again=%d after-other-chunks=%d other-hash-seed=%d (first %s)'
                                          % (len(off[0]), len(off[1]), len(off[2]), next(o[0] for o in off if o))))
                bad += bool(off[0] or off[1])    # the hash seed is part of a run and of its replay file
            sys.stdout.flush()
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 1 if bad else 0
