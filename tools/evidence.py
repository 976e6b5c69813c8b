"""Writes evidence/<id>.json from what one run measured."""
import json


def write_evidence(path, prop, tier, seed, eng, summ, nviol, wall):
    obs = eng['obligations']
    proved = [o for o in obs if o['status'] == 'proved']
    by = {}
    for o in proved:
        by[o.get('backend', '?')] = by.get(o.get('backend', '?'), 0) + 1
    level = 'proof' if proved else 'exploration'
    cov = dict(
        obligations=len(obs), discharged=len(proved), checker_cmd='python3-vt /verif/engine/prove.py %s OUT.json' % prop,
        trusted_base=eng.get('trusted', []),
        undecided=[dict(name=o['name'], detail=str(o.get('detail', ''))[:300]) for o in obs if o['status'] == 'undecided'],
        refuted=[dict(name=o['name'], detail=str(o.get('detail', ''))[:600]) for o in obs if o['status'] in ('refuted', 'failed')],
        functions_under_contract=eng.get('functions', []), discharged_by_backend=by, solver_time_s=round(eng.get('solver_time', 0.0), 3),
        loop_invariants=eng.get('invariants', {}), vacuity=eng.get('vacuity', {}),
        bounded=dict(note='bounded stand-in and counterexample search on the real code; never counted as proved', evaluations=summ['evaluations'],
                     checks=summ['checks'], groups=summ['groups'], seeds=summ['seeds']),
        evaluations=summ['evaluations'], distinct_nontrivial=summ['distinct'], rule=summ['rule'] + ' (each case is a distinct generated scenario; a case is counted once per distinct description)',
        samples=summ['samples'][:4])
    json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=eng.get('assumptions', []), wall_s=round(wall, 2), violations=nviol),
              open(path, 'w'), indent=1, default=str)
