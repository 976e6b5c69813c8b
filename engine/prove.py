#!/usr/bin/env python3-vt
"""prove.py PROPERTY OUT.json [--tier T] [--budget SECONDS] [--jobs SUBSTRING]: discharges the obligations of one property on
/repo's current source."""
import sys, os, json, time, argparse, importlib, traceback
import multiprocessing
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)


def load():
    import job
    d = os.path.join(V, 'contracts')
    errs = []
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'):
            try:
                importlib.import_module('contracts.' + f[:-3])
            except Exception:      # noqa
                errs.append(f + ': ' + traceback.format_exc()[-1500:])
    return job.REG, errs


def work(a):
    name, prop, budget = a
    import job
    REG, _ = load()
    j = [x for x in REG if x.name == name][0]
    try:
        return job.run_job(j, prop, budget)
    except Exception:              # noqa
        return dict(name=name, functions=j.functions, obligations=[dict(name=name + ': within the verifier\'s reach', status='undecided', backend='-', detail=traceback.format_exc()[-1500:], time=0)],
                    trusted=[], assumptions=[], solver_time=0, error=traceback.format_exc()[-2000:], invariants=[], vacuity=[])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('out')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--budget', type=float, default=400)
    ap.add_argument('--jobs', default='')
    ap.add_argument('--procs', type=int, default=4)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    REG, errs = load()
    js = [j for j in REG if a.prop in j.props and a.jobs in j.name]
    args = [(j.name, a.prop, a.budget * (0.45 if a.tier == 'quick' else 0.9)) for j in js]
    t0 = time.time()
    if len(args) > 1 and a.procs > 1:
        # every job in a fresh process: its queries do not depend on the order of the jobs
        with multiprocessing.get_context('fork').Pool(a.procs, maxtasksperchild=1) as ex:
            rs = ex.map(work, args, chunksize=1)
    else:
        rs = [work(x) for x in args]
    out = dict(functions=[], obligations=[], trusted=[], assumptions=[], solver_time=0, invariants=[], vacuity=[], jobs=[], error=None)
    for r in rs:
        for k in ('functions', 'trusted', 'assumptions', 'invariants', 'vacuity'):
            for x in r.get(k) or []:
                if x not in out[k]:
                    out[k].append(x)
        out['obligations'] += r['obligations']
        out['solver_time'] += r.get('solver_time', 0)
        out['jobs'].append(dict(name=r['name'], time=round(r.get('time', 0), 1), paths=r.get('paths'), rounds=r.get('rounds'), queries=r.get('queries'), error=r.get('error')))
    if errs:
        out['error'] = '\n'.join(errs)
    json.dump(out, open(a.out, 'w'), indent=1, default=str)
    if a.v:
        for r in rs:
            print('== %s  %.1f s  paths=%s rounds=%s queries=%s %s' % (r['name'], r.get('time', 0), r.get('paths'), r.get('rounds'), r.get('queries'), r.get('error') or ''))
            for o in r['obligations']:
                if o['status'] != 'proved' or a.v:
                    print('   %-9s %s  [%s %.2fs]%s' % (o['status'], o['name'], o['backend'], o['time'], '' if o['status'] == 'proved' else ' ' + str(o['detail'])[:1200]))
        print('%d obligations: %s; %.1f s' % (len(out['obligations']), {s: sum(o['status'] == s for o in out['obligations']) for s in ('proved', 'refuted', 'undecided', 'failed')}, time.time() - t0))
        print(errs)


if __name__ == '__main__':
    main()
