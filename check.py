#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decides one property on /repo's current working tree.

1. rebuilds the C++ modules from /repo (under a lock);
2. the deductive step: engine/prove.py extracts the functions from /repo's current source, generates the obligations of the
   contracts in contracts/ and discharges them (z3, cvc5);
3. the bounded step (stand-in for functions outside the verifier's reach, and the search for a concrete failing input):
   runtime contracts of rt/h_<PROPERTY>.py on the real Python code and the rebuilt C++ modules.

exit 0: held.  exit 1 + "VIOLATION property=... replay=...": broken.  exit 2: no answer (the machinery itself failed).
"""
import sys, os, json, time, subprocess, fcntl, argparse, signal, shutil, tempfile

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'tools'))


def sh(cmd, timeout, **kw):
    """Run in its own process group; returns (rc, out).  rc None: timed out."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True, text=True, errors='replace', **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out


def build():
    if os.environ.get('VERIF_NO_BUILD'):
        return True, 'skipped'
    with open('/tmp/.dt_verif_build.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rc, out = sh(['bash', '/opt/vp/build_solibs.sh'], 800)
    return rc == 0, out


class Worker:
    """One harness process, watched for crashes and hangs."""

    def __init__(self, prop, seed, tier, budget, tmp):
        self.prop, self.seed, self.tier, self.budget = prop, seed, tier, budget
        self.dir = tempfile.mkdtemp(dir=tmp)
        self.out = os.path.join(self.dir, 'out.json')
        self.t0 = time.time()
        self.log = open(os.path.join(self.dir, 'log'), 'w')
        env = dict(os.environ, VERIF_SCRATCH=self.dir, TMPDIR=self.dir, PYTHONHASHSEED='0')
        self.p = subprocess.Popen(['bash', os.path.join(V, 'rt', 'run.sh'), prop, self.out, '--tier', tier, '--seed', str(seed), '--budget', str(budget)],
                                  stdout=self.log, stderr=subprocess.STDOUT, start_new_session=True, env=env)

    def progress(self):
        try:
            return json.load(open(self.out + '.progress'))
        except (OSError, ValueError):
            return None

    def wait(self, hang=120):
        """Returns (kind, data): ('done', result) | ('crash', code, case) | ('hang', case) | ('error', text)."""
        while self.p.poll() is None:
            time.sleep(0.05)
            pr = self.progress()
            last = pr['since'] if pr else self.t0
            if time.time() - last > hang or time.time() - self.t0 > self.budget + 2 * hang:
                os.killpg(self.p.pid, signal.SIGKILL)
                self.p.wait()
                return ('hang', pr) if pr else ('error', 'no progress at all')
        try:
            return 'done', json.load(open(self.out))
        except (OSError, ValueError):
            pr = self.progress()
            txt = open(os.path.join(self.dir, 'log'), errors='replace').read()[-3000:]
            if pr is None:
                return 'error', txt
            return 'crash', dict(code=self.p.returncode, case=pr, log=txt)


def bounded(prop, seed, tier, tmp, nworkers, budget):
    """Runs the harness with several seeds in parallel; returns (summary, failures)."""
    seeds = [seed] + [seed * 1009 + 7919 * k for k in range(1, nworkers)]
    ws = [Worker(prop, s, tier, budget, tmp) for s in seeds]
    summ = dict(evaluations=0, checks=0, distinct=0, groups={}, samples=[], rule='', errors=[], seeds=seeds)
    fails = []
    for w in ws:
        r = w.wait()
        if r[0] == 'done':
            d = r[1]
            summ['evaluations'] += d['evaluations']
            summ['checks'] += d['checks']
            summ['distinct'] += d['distinct']
            summ['rule'] = d['rule']
            for g, n in d['groups'].items():
                summ['groups'][g] = summ['groups'].get(g, 0) + n
            if not summ['samples']:
                summ['samples'] = d['samples'][:6]
            for f in d['failures']:
                fails.append(dict(f, seed=w.seed))
            if d['harness_error']:
                summ['errors'].append(d['harness_error'])
        elif r[0] in ('crash', 'hang'):
            # reproducible?  the same seed generates the same cases
            w2 = Worker(prop, w.seed, tier, budget, tmp)
            r2 = w2.wait()
            pr = r[1]['case'] if r[0] == 'crash' else r[1]
            pr2 = None if r2[0] not in ('crash', 'hang') else (r2[1]['case'] if r2[0] == 'crash' else r2[1])
            if pr and pr2 and pr['index'] == pr2['index']:
                msg = ('the process ended (code %s) during the operation' % r[1]['code']) if r[0] == 'crash' else 'the operation did not finish within 120 s'
                fails.append(dict(index=pr['index'], group=pr['group'], case=pr['case'], message=msg, seed=w.seed, log=(r[1].get('log') if r[0] == 'crash' else None)))
            else:
                summ['errors'].append('worker (seed %d): %s, not reproduced' % (w.seed, r[0]))
        else:
            summ['errors'].append(r[1])
    return summ, fails


def known(prop):
    """Known findings: lines 'KNOWN property=<id> match=<text> :: <what fails>' in KNOWN_FINDINGS.txt."""
    out = []
    for ln in open(os.path.join(V, 'KNOWN_FINDINGS.txt')):
        if ln.startswith('KNOWN property=%s ' % prop):
            a, b = ln.strip().split(' :: ', 1)
            out.append((a.split('match=', 1)[1], b))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    a = ap.parse_args()
    prop, tier = a.prop, 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    ev_dir = os.path.join(V, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='dtverif_')
    try:
        ok, out = build()
        if not ok:
            print('the C++ modules of /repo do not build:\n' + out[-2000:])
            return 2
        # deductive step, in parallel with the bounded step
        eng_out = os.path.join(tmp, 'engine.json')
        eng_budget = 420 if tier == 'quick' else 3000
        eng_log = open(os.path.join(tmp, 'engine.log'), 'w+')
        ep = subprocess.Popen(['python3-vt', os.path.join(V, 'engine', 'prove.py'), prop, eng_out, '--tier', tier, '--budget', str(eng_budget)],
                              stdout=eng_log, stderr=subprocess.STDOUT, start_new_session=True, env=dict(os.environ, PYTHONHASHSEED='0'))
        nw, bud = (4, 100) if tier == 'quick' else (7, 1500)
        summ, fails = bounded(prop, a.seed, tier, tmp, nw, bud)
        try:
            ep.wait(timeout=max(5, eng_budget + 60 - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            os.killpg(ep.pid, signal.SIGKILL)
            ep.wait()
        try:
            eng = json.load(open(eng_out))
        except (OSError, ValueError):
            eng_log.seek(0)
            eng = dict(functions=[], obligations=[], trusted=[], assumptions=[], error=eng_log.read()[-3000:], solver_time=0)
        refuted = [o for o in eng['obligations'] if o['status'] in ('refuted', 'failed')]
        undec = [o for o in eng['obligations'] if o['status'] == 'undecided']
        proved = [o for o in eng['obligations'] if o['status'] == 'proved']
        # a refuted obligation without a failing input yet: search longer for one
        if refuted and not fails and tier == 'quick':
            s2, fails = bounded(prop, a.seed + 50021, tier, tmp, 7, 150)
            summ['evaluations'] += s2['evaluations']
            summ['checks'] += s2['checks']
            summ['distinct'] += s2['distinct']
        kn = known(prop)
        for m, what in kn:
            hit = [f for f in fails if m in f['message']] + [o for o in refuted if m in o['name']]
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (prop, what))
        fails = [f for f in fails if not any(m in f['message'] for m, _ in kn)]
        refuted = [o for o in refuted if not any(m in o['name'] for m, _ in kn)]
        from evidence import write_evidence
        replay = os.path.join(ev_dir, 'replay_%s.json' % prop)
        if os.path.exists(replay):
            os.remove(replay)
        nviol = len(fails) + len(refuted)
        write_evidence(os.path.join(ev_dir, prop + '.json'), prop, tier, a.seed, eng, summ, nviol, time.time() - t0)
        print('%s: %d obligations, %d discharged, %d undecided, %d refuted; bounded cross-check: %d cases, %d checks, %d failures; %.0f s'
              % (prop, len(eng['obligations']), len(proved), len(undec), len(refuted), summ['evaluations'], summ['checks'], len(fails), time.time() - t0))
        for o in undec[:5]:
            print('  undecided: %s (%s)' % (o['name'], str(o.get('detail', ''))[:300]))
        if eng.get('error'):
            print('  deductive step: ' + str(eng['error'])[-1500:])
        for e in summ['errors'][:3]:
            print('  bounded step: ' + str(e)[-1500:])
        if fails:
            json.dump(dict(property=prop, kind='failing input on the real code', failures=fails[:5], failed_obligations=refuted[:5],
                           rerun='bash /verif/rt/run.sh %s OUT.json --tier %s --seed %d   # case index %s' % (prop, tier, fails[0]['seed'], fails[0]['index'])),
                      open(replay, 'w'), indent=1, default=str)
            for f in fails[:3]:
                print('  %s %s: %s' % (f['group'], json.dumps(f['case']), f['message'][:800]))
            print('VIOLATION property=%s replay=%s' % (prop, replay))
            return 1
        if refuted:
            json.dump(dict(property=prop, kind='failed obligation', failed_obligations=refuted), open(replay, 'w'), indent=1, default=str)
            for o in refuted[:3]:
                print('  failed obligation: %s\n    %s' % (o['name'], str(o.get('detail', ''))[:800]))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
            return 1
        if summ['errors'] and not summ['checks']:
            return 2
        if not summ['checks'] and not proved:
            print('nothing was explored')
            return 2
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
