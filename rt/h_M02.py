"""M02: stored velocity and position after an advance against the equations of motion."""
import numpy as np
import world as W
import movers as V
RULE = ('random populations, fields (per-cell constant or linear; C++: per-cell constant as documented), external field, on/off choices per '
        'species, accel_only, meshes in 1-3 dimensions and particle dimensions above the mesh dimension; every particle without a boundary '
        'event must satisfy u1 = u0 + (q/m) E dt, x1 = x0 + u1 dt (relative tolerance 1e-11), weight and identity unchanged')
TOL = 1e-10


def close(a, b, scale):
    return np.all(np.abs(np.asarray(a, float) - np.asarray(b, float)) <= TOL * scale + 1e-300)


def compare(R, s, nm, pred, label):
    after = {int(r['unique_ID']): r for r in s.world.read(nm)}
    coords = V.W.COORDS[s.coord]
    for k, r in enumerate(pred):
        if r['events'] or not r['survive'] or r['error']:
            continue
        R.expect(r['uid'] in after, lambda: '%s: particle %d is gone' % (label, r['uid']))
        rec = after[r['uid']]
        p = s.pop[nm][k]
        u = [float(rec['u' + c]) for c in coords]
        x = [float(rec[c]) for c in coords]
        sc = 1 + np.abs(p['x']).max() + np.abs(p['u']).max() * max(1, s.dt) + np.abs(r['vel']).max() * max(1, s.dt)
        R.expect(close(u, r['vel'], sc), lambda: '%s: particle %d (storage position %d) had velocity %s, now %s, the equations of motion give %s (field %s, dt %g)' % (label, r['uid'], k, list(p['u']), u, list(r['vel']), r['E'], s.dt))
        R.expect(close(x, r['pos'], sc), lambda: '%s: particle %d (storage position %d) was at %s with velocity %s, now at %s, expected %s (dt %g)' % (label, r['uid'], k, list(p['x']), u, x, list(r['pos']), s.dt))
        R.expect(float(rec['weight']) == r['w'], lambda: '%s: weight of particle %d changed from %r to %r' % (label, r['uid'], r['w'], float(rec['weight'])))
        R.expect(int(rec['bitflags']) == r['flags'], lambda: '%s: bitflags of particle %d changed' % (label, r['uid']))
        if s.kind == 'neutral':
            R.expect(u == [float(t) for t in p['u']], lambda: '%s: neutral particle %d changed velocity %s -> %s' % (label, r['uid'], list(p['u']), u))


def mesh_case(R, seed, coord, cpp, kind, entry, gdim=None):
    rng = np.random.default_rng(seed + 5)
    accel = kind == 'charged' and rng.random() < 0.2
    names = ['test_electrons', 'ions']
    sol = None if rng.random() < 0.5 else {n: bool(rng.random() < 0.5) for n in names}
    exo = None if rng.random() < 0.5 else {n: bool(rng.random() < 0.5) for n in names}
    reach = float(rng.choice([0.05, 0.3, 1.0]))
    s = V.scenario(seed, coord, cpp, kind, apply_solved=sol, apply_ext=exo, gdim=gdim, reach=reach, spec=None if cpp or not gdim else {'default_bc': 'absorb'})
    ext = None
    exfn = None
    if kind == 'charged' and not cpp and rng.random() < 0.4:
        g = s.geo.g
        a = rng.normal(size=g)
        exfn = lambda x: a * (1 + np.sum(np.asarray(x)[:g]))   # noqa
        ext = V.ExtField(lambda x: exfn(x))
    useE = {n: sol is None or sol[n] for n in names}
    useX = {n: exo is None or exo[n] for n in names}
    for nm, _, _ in s.species:
        kw = dict(accel_only=accel, use_E=useE.get(nm, True), extE=exfn if ext is not None and useX.get(nm, True) else None)
        pr = V.predict(s, nm, **kw)
        s.pop[nm] = [p for p, r in zip(s.pop[nm], pr) if r['gap'] > 1e-7 and r['error'] is None]
    V.fill(s)
    for nm, _, _ in s.species:
        kw = dict(accel_only=accel, use_E=useE.get(nm, True), extE=exfn if ext is not None and useX.get(nm, True) else None)
        pred = V.predict(s, nm, **kw)
        s._p = pred
        if entry == 'species' or kind == 'neutral' and entry != 'all':
            if kind == 'neutral':
                V.advance(s, nm)
            else:
                V.advance(s, nm, ext=ext, accel_only=accel)
        compare_later = entry not in ('species',) and not (kind == 'neutral' and entry != 'all')
        if not compare_later:
            compare(R, s, nm, pred, '%s advance' % nm)
        else:
            s.__dict__.setdefault('pending', []).append((nm, pred))
    if getattr(s, 'pending', None):
        with W.quiet():
            if kind == 'neutral':
                s.P.advance_neutral_particles(s.ctrl)
            elif entry == 'all':
                if cpp:
                    s.P.advance_charged_particles_in_E_field(s.ctrl, neg_E_field=s.E)
                else:
                    s.P.advance_charged_particles_in_E_field(s.ctrl, neg_E_field=s.E, external_E_field=ext, accel_only=accel)
            else:
                s.P.move_particles_in_electrostatic_field(s.ctrl, neg_E_field=s.E, external_E_field=ext, accel_only=accel)
        for nm, pred in s.pending:
            compare(R, s, nm, pred, '%s, all-species advance (%s)' % (nm, entry))


def uniform_case(R, seed, cpp):
    rng = np.random.default_rng(seed)
    L = int(rng.choice([1, 2, 3, 5, 100]))
    N = int(rng.integers(1, 20))
    q, m = float(rng.normal()) + 0.1, float(rng.random()) + 0.2
    w = W.World('cartesian_xyz', None, cpp=cpp, seglen=L, species=(('e', q, m),))
    E0 = tuple(float(v) for v in rng.normal(size=3))
    dt = float(rng.choice([0.5, 0.01, 3.0]))
    X, U, Wt = rng.normal(size=(N, 3)), rng.normal(size=(N, 3)), rng.random(N)
    for i in range(N):
        w.put('e', X[i], U[i], w=float(Wt[i]), cell=0, uid=i + 1)
    ctrl = W.make_ctrl(dt, E0=E0)
    with W.quiet():
        if cpp:
            w.P.particle_solib.advance_charged_species_in_uniform_fields(w.P, 'e', ctrl)
        else:
            w.P.advance_charged_species_in_uniform_fields('e', ctrl)
    for i, rec in enumerate(w.read('e')):
        u = U[i] + q / m * dt * np.array(E0)
        x = X[i] + u * dt
        sc = 1 + np.abs(u).max() * max(1, dt) + np.abs(x).max()
        gu, gx = [float(rec['u' + c]) for c in 'xyz'], [float(rec[c]) for c in 'xyz']
        R.expect(close(gu, u, sc), lambda: 'uniform field: particle %d velocity %s, expected %s' % (i, gu, list(u)))
        R.expect(close(gx, x, sc), lambda: 'uniform field: particle %d position %s, expected %s' % (i, gx, list(x)))
        R.expect(float(rec['weight']) == float(Wt[i]) and int(rec['unique_ID']) == i + 1, 'uniform field: weight or identity changed')


def run(R):
    i = 0
    top = 260 if R.tier == 'quick' else 5000
    while R.more() and i < top:
        coord, cpp, kind = V.CONFIGS[i % len(V.CONFIGS)]
        rnd = i // len(V.CONFIGS)
        seed = R.seed * 1000003 + i
        entry = ['species', 'all', 'move'][rnd % 3]
        if cpp:
            entry = 'species'
        gdim = None
        if not cpp and rnd % 4 == 3:
            gdim = {'cartesian_xyz': [1, 2][(rnd // 4) % 2], 'cartesian_xy': 1}.get(coord)
        with R.case('%s %s %s' % ('C++' if cpp else 'Python', coord, kind), scenario_seed=seed, entry=entry, mesh_dimension=gdim or V.DIM[coord]):
            mesh_case(R, seed, coord, cpp, kind, entry, gdim)
        if i % 6 == 0:
            cp = bool((i // 6) % 2)
            with R.case('%s uniform field' % ('C++' if cp else 'Python'), scenario_seed=seed):
                uniform_case(R, seed, cp)
        i += 1
