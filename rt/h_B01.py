"""B01: calls received by the user boundary functions (Python) and the outcome of each crossing (C++)."""
import functools
import numpy as np
import world as W
import movers as V
RULE = ('random species/boundary names and random subsets of user-supplied functions: table of chosen functions against the naming rule; random '
        'advances with recorded calls against the crossings found by an independent path tracer (particle, species, facet, fraction, normal, '
        'once each, in order); C++ choice observed through the effect of the chosen function (absorb/reflect) on each particle')


class Obj:
    pass


def table_case(R, seed):
    import Particle_Module as PM
    rng = np.random.default_rng(seed)
    sp = ['H', 'e', 'ions', 'test_electrons', 'neutral_H', 'x', 'He_plus'][: int(rng.integers(1, 8))]
    rng.shuffle(sp)
    bn = ['xmin', 'xmax', 'rmin', 'wall', 'a', 'xmin_for', 'bc'][: int(rng.integers(1, 8))]
    rng.shuffle(bn)
    tags = [int(t) for t in rng.choice(np.arange(1, 64), size=len(bn), replace=False)]
    u = Obj()
    fns = {}

    def add(name):
        f = functools.partial(lambda n, *a, **k: n, name)
        fns[name] = f
        setattr(u, name, f)
    pr = [float(rng.choice([0.0, 0.3, 1.0])) for _ in range(3)]
    if rng.random() < 0.7:
        add('default_bc')
    for b in bn:
        if rng.random() < pr[0]:
            add('default_bc_at_' + b)
        for s in sp:
            if rng.random() < pr[1]:
                add('bc_at_%s_for_%s' % (b, s))
    M = Obj()
    M.particle_boundary_dict = dict(zip(bn, tags))
    with W.quiet():
        T = PM.ParticleMeshBoundaryConditions_C(sp, M, u, print_flag=bool(rng.integers(0, 2)))
    for b, t in zip(bn, tags):
        for s in sp:
            want = None
            for n in ('bc_at_%s_for_%s' % (b, s), 'default_bc_at_' + b, 'default_bc'):
                if n in fns:
                    want = n
                    break
            got = T.bc_function_dict[t][s]
            R.expect(got is (fns[want] if want else None), lambda: 'boundary %s, species %s: the chosen function is %s, the rule gives %s (supplied: %s)' % (b, s, getattr(got, 'args', got), want, sorted(fns)))


def mover_case(R, seed, coord, kind, entry):
    s = V.scenario(seed, coord, False, kind, reach=float(np.random.default_rng(seed + 3).choice([1.0, 3.0])), dead=0.0)
    V.drop_unclear(s)
    V.fill(s)
    inv = {v: k for k, v in s.mesh_M.particle_boundary_dict.items()}
    preds = {nm: V.predict(s, nm) for nm, _, _ in s.species}
    s.bc.calls.clear()
    with W.quiet():
        if entry == 'species':
            for nm in preds:
                V.advance(s, nm)
        elif kind == 'neutral':
            s.P.advance_neutral_particles(s.ctrl)
        elif entry == 'all':
            s.P.advance_charged_particles_in_E_field(s.ctrl, neg_E_field=s.E)
        else:
            s.P.move_particles_in_electrostatic_field(s.ctrl, neg_E_field=s.E)
    calls = list(s.bc.calls)
    for nm, pr in preds.items():
        for r in pr:
            mine = [c for c in calls if c['uid'] == r['uid']]
            want = [(V.resolve(s.spec, inv[e[1]], nm)[0], e[0], e[5], e[4], e[3]) for e in r['events']]
            R.expect([(c['fn'], c['facet']) for c in mine] == [(w[0], w[1]) for w in want], lambda: '%s: particle %d called %s, its path crosses %s' % (nm, r['uid'], [(c['fn'], c['facet']) for c in mine], [(w[0], w[1]) for w in want]))
            for c, w in zip(mine, want):
                R.expect(c['species'] == nm, lambda: 'particle %d of species %s: called with species %r' % (r['uid'], nm, c['species']))
                R.expect(c['frac'] is not None and abs(c['frac'] - w[2]) < 1e-7, lambda: 'particle %d: crossing fraction %s, expected %s' % (r['uid'], c['frac'], w[2]))
                R.expect(c['normal'] is not None and np.abs(np.array(c['normal']) - w[3]).max() < 1e-7, lambda: 'particle %d: facet normal %s, expected %s' % (r['uid'], c['normal'], list(w[3])))
                R.expect(np.abs(np.array(c['start']) - w[4]).max() < 1e-7, lambda: 'particle %d: crossing point %s, expected %s' % (r['uid'], c['start'], list(w[4])))
    known = {r['uid'] for pr in preds.values() for r in pr}
    R.expect(all(c['uid'] in known for c in calls), 'a boundary function was called with an unknown particle')


def cpp_case(R, seed, coord, kind):
    s = V.scenario(seed, coord, True, kind, reach=float(np.random.default_rng(seed + 3).choice([1.0, 2.0])), dead=0.0)
    V.drop_unclear(s)
    V.fill(s)
    coords = W.COORDS[coord]
    inv = {v: k for k, v in s.mesh_M.particle_boundary_dict.items()}
    for nm, _, _ in s.species:
        pred = V.predict(s, nm)
        V.advance(s, nm)
        after = {int(r['unique_ID']): r for r in s.world.read(nm)}
        for r in pred:
            ev = [(inv[e[1]],) + V.resolve(s.spec, inv[e[1]], nm) for e in r['events']]
            lab = lambda: 'C++ %s: particle %d crosses %s' % (nm, r['uid'], ev)   # noqa
            R.expect((r['uid'] in after) == r['survive'], lambda: lab() + '; it is %s' % ('still stored' if r['uid'] in after else 'gone'))
            if r['survive'] and ev:
                u = np.array([float(after[r['uid']]['u' + c]) for c in coords])
                sc = 1 + np.abs(r['vel']).max()
                R.expect(np.abs(u - r['vel']).max() < 1e-7 * sc, lambda: lab() + '; its velocity is %s, expected %s' % (list(u), list(r['vel'])))


def run(R):
    i = 0
    top = 300 if R.tier == 'quick' else 6000
    while R.more() and i < top:
        seed = R.seed * 1000003 + i
        with R.case('choice of function', names_seed=seed):
            table_case(R, seed)
        coord, cpp, kind = V.CONFIGS[i % len(V.CONFIGS)]
        with R.case('%s %s %s' % ('C++' if cpp else 'Python', coord, kind), scenario_seed=seed):
            if cpp:
                cpp_case(R, seed, coord, kind)
            else:
                mover_case(R, seed, coord, kind, ['species', 'all', 'move'][(i // len(V.CONFIGS)) % 3])
        i += 1
