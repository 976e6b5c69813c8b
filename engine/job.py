"""A verification job: symbolic inputs + contracts around real functions of /repo."""
import os, time, traceback
import val, solve
from val import Unsupported, BoolV
from ctx import verify, explore, Shared, PathEnd, PyRaise


class Job:
    """name; props: properties it serves; functions: ['File.py:Class.method']; run(ctx): one symbolic execution with obligations.
    Obligations named 'XYZ: ...' belong to property XYZ only; others to every property of the job.
    loops: True when the job contains loops cut by inferred invariants (a failed proof is then confirmed by unrolling)."""

    def __init__(self, name, props, functions, run, opts=None, trusted=(), assumptions=(), reach=(), unroll=3, bounded=None):
        self.name, self.props, self.functions, self.run = name, props, functions, run
        self.opts = opts or {}
        self.trusted, self.assumptions, self.reach, self.unroll = list(trusted), list(assumptions), list(reach), unroll
        self.bounded = bounded      # a stated bound (the job is then not a proof)


REG = []


def job(*a, **k):
    def deco(f):
        REG.append(Job(*a, run=f, **k))
        return f
    return deco


def guarded(run):
    """Exceptions of the code under verification are failed obligations."""
    def r(ctx):
        try:
            run(ctx)
        except PyRaise as e:
            ctx.note('exception %s %s' % (e.kind, str(e.value)[:100]))
            ctx.prove('no exception escapes', False)
    return r


def relevant(prop, name):
    h = name.split(':')[0]
    return not (len(h) == 3 and h[0].isupper() and h[1:].isdigit()) or h == prop


def run_job(j, prop, budget):
    """-> dict(obligations=[...], ...)"""
    t0 = time.time()
    out = dict(name=j.name, functions=j.functions, obligations=[], trusted=j.trusted, assumptions=j.assumptions, invariants=[], vacuity=[], error=None)
    for k in solve.STATS:
        solve.STATS[k] = 0
    opts = dict(j.opts)
    opts['deadline'] = t0 + budget
    run = guarded(j.run)
    if j.bounded:
        opts['unroll'] = j.unroll
    try:
        sh = verify(run, opts)
        if sh.unknown and any(r['bad'] or r['unk'] for n, r in sh.res.items() if relevant(prop, n)):
            # an inconclusive query dropped a candidate invariant: once more with larger limits
            sh = verify(run, dict(opts, timeout=4 * opts.get('timeout', 5000), inv_timeout=16000, feas_timeout=6000))
    except Unsupported as e:
        out['obligations'].append(dict(name=j.name + ': within the verifier\'s reach', status='undecided', backend='-', detail=str(e), time=time.time() - t0))
        out['error'] = 'unsupported: ' + str(e)
        sh = getattr(e, 'sh', None)
        if sh is not None and not sh.loops:
            for nm in sh.order:
                r = sh.res[nm]
                if r['bad'] and relevant(prop, nm):
                    out['obligations'].append(dict(name=j.name + ': ' + nm, status='refuted', backend=', '.join(r['backends']), time=round(r['time'], 3), vcs=r['vcs'], detail=r['bad'][0]))
        return fin(out, t0)
    except RecursionError as e:
        out['obligations'].append(dict(name=j.name + ': within the verifier\'s reach', status='undecided', backend='-', detail='recursion', time=time.time() - t0))
        return fin(out, t0)
    out['paths'] = sh.npaths
    out['rounds'] = sh.rounds
    failed = []
    for nm in sh.order:
        r = sh.res[nm]
        if not relevant(prop, nm):
            continue
        st = 'proved' if not r['bad'] and not r['unk'] else ('undecided' if not r['bad'] else 'failed')
        o = dict(name=j.name + ': ' + nm, status=st, backend=', '.join('%s x%d' % kv for kv in sorted(r['backends'].items())), time=round(r['time'], 3), vcs=r['vcs'], detail='')
        if st == 'failed':
            o['detail'] = r['bad'][0]
            failed.append((nm, o))
        elif st == 'undecided':
            o['detail'] = r['unk'][0]
        elif j.bounded:
            o['bounded'] = j.bounded
        out['obligations'].append(o)
    loops = bool(sh.loops)
    if failed:
        if not loops:
            for nm, o in failed:
                o['status'] = 'refuted'
        else:
            # confirm on unrolled executions
            sh2 = Shared()
            for k in range(1, j.unroll + 1):
                if os.environ.get('ENGINE_NOCONFIRM'):
                    break
                try:
                    sh2.only = {nm for nm, o in failed if not sh2.res.get(nm, {}).get('bad')}
                    if not sh2.only:
                        break
                    o2 = dict(j.opts, unroll=k, deadline=time.time() + max(20, budget / 3), max_paths=20000)
                    explore(run, sh2, 'prove', o2)
                except Unsupported as e:
                    out['error'] = 'unrolled run: ' + str(e)
                    break
            for nm, o in failed:
                r2 = sh2.res.get(nm)
                if r2 and r2['bad']:
                    o['status'] = 'refuted'
                    o['detail'] = dict(unrolled=j.unroll, **r2['bad'][0])
                elif sh.unknown:
                    o['status'] = 'undecided'
                    o['detail'] = 'not provable with the inferred invariants (some queries were inconclusive); not refuted by unrolling to %d' % j.unroll
                else:
                    # every inference query was conclusive, and the solver has a countermodel of the obligation
                    o['detail'] = dict(note='countermodel relative to the inferred invariants; not refuted by unrolling to %d' % j.unroll, **o['detail'])
    if not out['obligations']:
        out['obligations'].append(dict(name=j.name + ': has obligations', status='undecided', backend='-', detail='no obligation was generated', time=0))
    for p in j.reach:
        out['vacuity'].append(dict(point=p, reached=p in sh.reached))
        if p not in sh.reached:
            out['obligations'].append(dict(name=j.name + ': ' + p + ' is reachable', status='undecided', backend='-', detail='vacuity guard', time=0))
    out['invariants'] = sorted(sh.loops)
    return fin(out, t0)


def fin(out, t0):
    out['time'] = time.time() - t0
    out['solver_time'] = solve.STATS['z3'] + solve.STATS['cvc5']
    out['queries'] = solve.STATS['queries']
    return out
