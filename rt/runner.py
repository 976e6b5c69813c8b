"""Runs one bounded runtime-contract harness (h_<PROP>.py) against the real code in /repo.

usage: runner.py PROP OUT.json [--tier quick|thorough] [--seed N] [--budget SECONDS] [--only CASE_INDEX]
Writes OUT.json = {evaluations, distinct, samples, failures:[{case, index, message}], groups}.
PROGRESS (OUT.json.progress) names the case in progress, so that a crash of the C++ code is attributed to it.
"""
import sys, os, json, time, traceback, contextlib, argparse, importlib, hashlib, faulthandler
faulthandler.enable()


class Failure(Exception):
    pass


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, (int, float, str, bool)) or o is None:
        return o
    return repr(o)


class Run:
    def __init__(self, tier, seed, budget, only, progress):
        import numpy as np
        self.tier, self.seed, self.budget, self.only, self.progress = tier, seed, budget, only, progress
        self.t0 = time.time()
        self.n = 0
        self.evals = 0
        self.failures, self.samples, self.groups, self.seen = [], [], {}, set()
        self.rng = np.random.default_rng(seed)
        self.max_failures = 3
        self.cur = None
        self.truncated = []

    def left(self):
        return self.budget - (time.time() - self.t0)

    def more(self):
        """False when the harness should stop generating cases."""
        return self.left() > 0 and len(self.failures) < self.max_failures

    def expect(self, ok, msg):
        self.evals += 1
        if not ok:
            raise Failure(msg() if callable(msg) else msg)

    def case(self, group, **desc):
        return self._case(group, desc)

    @contextlib.contextmanager
    def _case(self, group, desc):
        i = self.n
        self.n += 1
        d = jsonable(desc)
        if self.only is not None and i != self.only:
            d['_skipped'] = True
        with open(self.progress, 'w') as f:
            json.dump(dict(index=i, group=group, case=d, since=time.time()), f)
        self.groups[group] = self.groups.get(group, 0) + 1
        h = hashlib.sha1(json.dumps([group, d], sort_keys=True).encode()).hexdigest()
        self.seen.add(h)
        if self.groups[group] <= 1 and len(self.samples) < 12:
            self.samples.append(dict(group=group, case=d))
        try:
            yield
        except Failure as e:
            self.failures.append(dict(index=i, group=group, case=d, message=str(e)))
        except (Exception, SystemExit) as e:
            tb = traceback.format_exc().splitlines()
            self.failures.append(dict(index=i, group=group, case=d, message='the operation raised %s: %s' % (type(e).__name__, e), traceback=tb[-12:]))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('out')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=120)
    ap.add_argument('--only', type=int)
    a = ap.parse_args()
    R = Run(a.tier, a.seed, a.budget, a.only, a.out + '.progress')
    mod = importlib.import_module('h_' + a.prop)
    err = None
    try:
        mod.run(R)
    except Exception:
        err = traceback.format_exc()
    json.dump(dict(evaluations=R.n, checks=R.evals, distinct=len(R.seen), samples=R.samples, failures=R.failures,
                   groups=R.groups, wall_s=time.time() - R.t0, harness_error=err, rule=getattr(mod, 'RULE', ''), out_of_time=R.left() <= 0),
              open(a.out, 'w'), indent=1)
    os._exit(0)


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    main()
