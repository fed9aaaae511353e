#!/usr/bin/env python3
"""Decide one property of /repo's current source: check.py <ID>."""
import os, pickle, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib')); sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
import rules, dump
from absint import Budget
import checks


def sharded(c, fn, n):
    """Run a check in n processes, each judging its share of the cases."""
    sys.stdout.flush()
    jobs = []
    for i in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            c.shard = (i, n); err = None
            try: fn(c)
            except BaseException as e: err = (type(e).__name__, str(e), traceback.format_exc())
            try:
                with os.fdopen(w, 'wb') as f: pickle.dump((err, (c.obs, c.floors, c.stats, c.notes, c.rules)), f)
            finally: os._exit(0)
        os.close(w); jobs.append((pid, r))
    parts = []; errs = []
    for pid, r in jobs:
        with os.fdopen(r, 'rb') as f: data = f.read()
        os.waitpid(pid, 0)
        if not data: raise Budget('a process of the check died')
        err, part = pickle.loads(data)
        if err: errs.append(err)
        parts.append(part)
    c.absorb(parts)
    for name, text, tb in errs:
        if name == 'Missing': raise rules.Missing(text)
        if name in ('Budget',): raise Budget(text)
        if name == 'CheckError': raise dump.CheckError(text)
        sys.stderr.write(tb); raise Budget('%s in the check: %s' % (name, text))


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    c = rules.Check(pid, tier)
    try:
        rules.prog()
        if pid in checks.SHARDED: sharded(c, checks.REG[pid], checks.SHARDED[pid])
        else: checks.REG[pid](c)
    except dump.CheckError as e:
        print('ERROR: %s' % e); return 2
    except rules.Missing as e:
        c.ob('anchor', str(e), False, 'the function this property is anchored in no longer exists')
    except Budget as e:
        # violations found before the analysis gave up still stand
        print('ERROR: %s' % e)
        c.notes.append('the analysis gave up: %s' % e)
        return 1 if any(not o[2] for o in c.obs) and c.finish() == 1 else 2
    return c.finish()


if __name__ == '__main__':
    sys.exit(main())
