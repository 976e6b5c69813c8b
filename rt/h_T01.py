"""T01: trajectory records against independently traced particles."""
import numpy as np
import world as W
import movers as V
RULE = ('several steps of random populations with random subsets of tracked particles, boundary crossings (recorded), deletions, small record '
        'limits, recording intervals, segment lengths 1..100; Python and C++ movers and the all-species mover; every trajectory record compared with '
        'the independently traced particle of the same identity')


def setup(s, rng, extra, max_points):
    from RecordedData_Module import TrajectoryInput_C, Trajectory_C
    P = s.P
    t = TrajectoryInput_C()
    t.max_points, t.extra_points = max_points, extra
    pc = P.position_coordinates
    base = ['step', 't', 'unique_ID'] + pc + ['u' + c for c in pc]
    perm = [base[k] for k in rng.permutation(len(base))]
    ch = perm + ['E' + c for c in P.negE1.dtype.names and [n[1:] for n in P.negE1.dtype.names]] + ['E' + n[1:] + '_ext' for n in P.negE1.dtype.names]
    fm = lambda names: [int if n in ('step', 'unique_ID') else np.float64 for n in names]
    t.charged_dict = {'names': ch, 'formats': fm(ch)}
    t.neutral_dict = {'names': perm, 'formats': fm(perm)}
    s.ctrl.write_trajectory_files = False
    s.ctrl.title, s.ctrl.author = 'T', 'A'
    with W.quiet():
        P.traj_T = Trajectory_C(t, s.ctrl, P.charged_species, P.neutral_species, P.species_index, P.mass, P.charge)
    return P.traj_T


def case(R, seed, coord, cpp, kind, mover='species'):
    rng = np.random.default_rng(seed + 17)
    if rng.random() < 0.3:
        s = V.scenario(seed, coord, cpp, kind, dead=0.0, nmax=20, reach=float(rng.choice([0.3, 1.0])), efield=True)
    else:
        s = V.scenario(seed, coord, cpp, kind, dead=0.0, nmax=20, reach=float(rng.choice([0.3, 1.0])))
    s.ctrl.n_timesteps = int(rng.integers(0, 9))
    T = setup(s, rng, int(rng.integers(0, 6)), None if rng.random() < 0.5 else int(rng.integers(1, 9)))
    P = s.P
    gd = s.geo.g
    R.expect(T.npoints >= 1, 'no room for a single trajectory point')
    cap = T.npoints
    ext = None
    if kind == 'charged' and not cpp and rng.random() < 0.4:
        ea, eb = rng.normal(size=gd) * 0.1, rng.normal(size=(gd, gd)) * 0.1
        extfn = lambda x: ea + eb @ np.asarray(x)[:gd]
        ext = V.ExtField(extfn)
    V.drop_unclear(s, extE=extfn if ext else None)
    track = {}
    ptrack = float(rng.choice([0.2, 0.6, 1.0]))
    model = {}
    for nm, q, m in s.species:
        for p in s.pop[nm]:
            tr = bool(rng.random() < ptrack)
            seg, full = s.world.put(nm, p['x'], p['u'], w=p['w'], flags=2 if tr else 0, cell=p['cell'], uid=p['uid'])
            if tr:
                with W.quiet():
                    T.create_trajectory(nm, full, 'charged' if q != 0 else 'neutral', unique_id_int=p['uid'])
                model[p['uid']] = []
                track[p['uid']] = nm
    pc = P.position_coordinates
    nE = len(P.negE1.dtype.names)

    def add(uid, step, t, x, u, E, Ee):
        if len(model[uid]) < cap:
            model[uid].append((step, t, np.array(x), np.array(u), E, Ee))

    def rec_all(step, t):
        with W.quiet():
            P.record_trajectory_data(step, t, neg_E_field=s.E if kind == 'charged' else None, external_E_field=ext)
        for nm, q, m in s.species:
            for p in s.pop[nm]:
                if p['uid'] in model:
                    E = np.zeros(gd) if (s.E is None or kind != 'charged') else -V.E_at(s, p['cell'], p['x'])
                    Ee = np.zeros(gd) if ext is None else extfn(p['x'])
                    add(p['uid'], step, t, p['x'], p['u'], E, Ee)
    step, time = 0, 2.0
    every = int(rng.choice([1, 1, 2]))
    last = None
    if rng.random() < 0.8:
        rec_all(step, time)
        last = step
        if rng.random() < 0.3:
            with W.quiet():
                P.record_trajectory_data(step, time)      # a second call on the same step must add nothing
    for k in range(int(rng.integers(1, 5))):
        for nm, _, _ in s.species:                   # paths too close to a vertex cannot be predicted: end the case
            if any(r['gap'] < 1e-7 or r['error'] for r in V.predict(s, nm, extE=extfn if ext else None)):
                k = None
                break
        if k is None:
            break
        late = bool(last == step)                    # advance before the counter moves on: the final record belongs to step+1
        if not (late and rng.random() < 0.3):
            step += 1
            time += s.dt
            late = False
        s.ctrl.timeloop_count, s.ctrl.time = step, time
        preds = {nm: V.predict(s, nm, extE=extfn if ext else None) for nm, _, _ in s.species}
        if mover == 'all':
            with W.quiet():
                P.move_particles_in_electrostatic_field(s.ctrl, neg_E_field=s.E, external_E_field=ext)
        else:
            for nm, _, _ in s.species:
                if kind == 'charged':
                    V.advance(s, nm, ext=ext) if not cpp else V.advance(s, nm)
                else:
                    V.advance(s, nm)
        for nm, q, m in s.species:
            new = []
            for r in preds[nm]:
                if r['uid'] in model:
                    E = r['E'] if kind == 'charged' else None
                    for (f, tag, ta, x, n, fr, v) in r['events']:
                        add(r['uid'], step, time - s.dt + ta * s.dt, x, v, None if (E is None or ext is not None) else E, None)
                    if not r['survive']:
                        st, tt = (step + 1, time + s.dt) if last == step else (step, time)
                        add(r['uid'], st, tt, r['pos'], r['vel'], np.zeros(gd), np.zeros(gd))
                        track[r['uid']] = None
                if r['survive']:
                    new.append(dict(x=r['pos'], u=r['vel'], w=r['w'], cell=r['cell'], uid=r['uid'], flags=0))
            s.pop[nm] = new
        if last == step:
            break
        if k % every == 0 or rng.random() < 0.3:
            rec_all(step, time)
            last = step
    where = '%s %s %s mover, segment length %d, room for %d points' % (coord, 'C++' if cpp else 'Python', kind, s.seglen, cap)
    for nm, q, m in s.species:
        uids = [int(u) for u in T.particle_unique_id_list[nm]]
        stored = [int(r['unique_ID']) for r in s.world.read(nm)]
        for i, u in enumerate(uids):
            ix = int(T.particle_index_list[nm][i])
            if track[u] is None:
                R.expect(ix == T.NO_PINDEX, lambda: '%s: trajectory of deleted particle %d still refers to storage index %d' % (where, u, ix))
            else:
                R.expect(0 <= ix < len(stored) and stored[ix] == u, lambda: '%s: trajectory of particle %d refers to storage index %d, the particle is at %s' % (where, u, ix, stored.index(u) if u in stored else 'no index'))
            n = int(T.trajectory_length[nm][i])
            want = model[u]
            R.expect(n == len(want), lambda: '%s: trajectory of particle %d has %d records, expected %d' % (where, u, n, len(want)))
            d = T.data_list[nm][i]
            for j, (st, t, x, v, E, Ee) in enumerate(want):
                g = lambda c: float(d[c][j])
                R.expect(int(d['unique_ID'][j]) == u, lambda: '%s: record %d of the trajectory of particle %d holds particle %d' % (where, j, u, int(d['unique_ID'][j])))
                R.expect(int(d['step'][j]) == st and abs(g('t') - t) < 1e-9, lambda: '%s: record %d of particle %d has step %d time %r, expected %d, %r' % (where, j, u, int(d['step'][j]), g('t'), st, t))
                gx, gu = [g(c) for c in pc], [g('u' + c) for c in pc]
                sc = 1 + np.abs(x).max() + np.abs(v).max()
                R.expect(np.abs(np.array(gx) - x).max() < 1e-8 * sc, lambda: '%s: record %d of particle %d has position %s, the particle is at %s' % (where, j, u, gx, list(x)))
                R.expect(np.abs(np.array(gu) - v).max() < 1e-8 * sc, lambda: '%s: record %d of particle %d has velocity %s, expected %s' % (where, j, u, gu, list(v)))
                if kind == 'charged':
                    nE = P.negE1.dtype.names
                    if E is not None:
                        gE = [g(c) for c in nE]
                        R.expect(np.abs(np.array(gE) - E).max() < 1e-8 * (1 + np.abs(E).max()), lambda: '%s: record %d of particle %d has field %s, the field acting on it is %s' % (where, j, u, gE, list(E)))
                    if Ee is not None:
                        gE = [g(c + '_ext') for c in nE]
                        R.expect(np.abs(np.array(gE) - Ee).max() < 1e-8 * (1 + np.abs(Ee).max()), lambda: '%s: record %d of particle %d has external field %s, expected %s' % (where, j, u, gE, list(Ee)))


def run(R):
    i = 0
    top = 700 if R.tier == 'quick' else 30000
    cf = [c + ('species',) for c in V.CONFIGS] + [(c, False, 'charged', 'all') for c in ('cartesian_x', 'cartesian_xy', 'cartesian_xyz')]
    while R.more() and i < top:
        coord, cpp, kind, mover = cf[i % len(cf)]
        seed = R.seed * 1000003 + i
        with R.case('%s %s %s%s' % (coord, 'C++' if cpp else 'Python', kind, ' (all species)' if mover == 'all' else ''), scenario_seed=seed):
            case(R, seed, coord, cpp, kind, mover)
        i += 1
