"""C01: created and loaded particles against the requested population."""
import numpy as np
import world as W
import movers as V
from h_R01 import volume
RULE = ('random regions (boxes, whole mesh, balls on radial meshes), particles per cell, densities, drifts and thermal speeds on irregular meshes, '
        'with particles already stored, segment lengths 1..100, Python and C++ storage; direct calls, initialize_particles, add_more_particles over '
        'ranges of steps and intervals, and lists loaded with create_from_list')


def region(M, geo, coord, rng):
    from Dolfin_Module import RectangularRegion_C, WholeMesh_C, SphericalRegion_C
    lo, hi = geo.X.min(axis=0), geo.X.max(axis=0)
    with W.quiet():
        for _ in range(20):
            a, b = np.sort(lo + (hi - lo) * rng.uniform(-0.1, 1.1, (2, geo.g)), axis=0)
            try:
                u = rng.random()
                if u < 0.2:
                    return WholeMesh_C(M)
                if u < 0.5 and coord == 'spherical_r':
                    return SphericalRegion_C(M, float(lo[0]), float(b[0] - lo[0]))
                return RectangularRegion_C(M, float(a[0]) if geo.g == 1 else tuple(map(float, a)), float(b[0]) if geo.g == 1 else tuple(map(float, b)))
            except RuntimeError:
                continue
        return WholeMesh_C(M)


def new_world(rng, coord, cpp, seed):
    dim = V.DIM[coord]
    n = {1: int(rng.integers(1, 9)), 2: int(rng.integers(1, 5)), 3: int(rng.integers(1, 3))}[dim]
    M, geo, _ = V.get_mesh(coord, cpp, n, seed % 11)
    L = int(rng.choice([1, 2, 3, 5, 8, 100]))
    species = [('a', -1.5, 1.0), ('b', 0.0, 3.0)]
    w = W.World(coord, None, cpp=cpp, seglen=L, species=species)
    with W.quiet():
        w.P.initialize_particle_mesh(M)
    w.mesh_M = M
    for sn, _, _ in species:
        N = int(rng.integers(0, 8)) if rng.random() < 0.6 else min(L, 8) * int(rng.integers(0, 3))
        for k, (c, x) in enumerate(V.random_points(geo, rng, N)):
            w.put(sn, x, rng.normal(size=dim), w=2.5, cell=c, uid=900000 + k)
    return w, M, geo, dim, L


def params(rng, dim, sn, thermal=None):
    return dict(species_name=sn, number_density=float(10 ** rng.uniform(-2, 12)), thermal_speed=float(rng.choice([0.0, 1.0, 1e5])) if thermal is None else thermal,
                drift_velocity=[float(v) for v in rng.normal(size=dim)], velocity_coordinate_system='x_y_z', number_per_cell=int(rng.integers(1, 6)),
                timestep_interval=int(rng.integers(1, 5)), initial_distribution_type='function_over_region')


def check_new(R, w, geo, coord, dim, before, reg, par, where, times=1):
    rec = w.read(par['species_name'])
    nb = len(before)
    npc, cells = par['number_per_cell'], [int(c) for c in reg.cell_index]
    R.expect(len(rec) == nb + times * npc * len(cells), lambda: '%s: %d particles before, %d after creating %d x %d per cell in %d cells' % (where, nb, len(rec), times, npc, len(cells)))
    R.expect(nb == 0 or rec[:nb].tobytes() == before.tobytes(), where + ': particles stored before were changed')
    new = rec[nb:]
    cnt = {}
    pc = w.P.position_coordinates
    for p in new:
        c = int(p['cell_index'])
        cnt[c] = cnt.get(c, 0) + 1
        x = np.array([float(p[k]) for k in pc])
        R.expect(c in cells, lambda: '%s: particle created in cell %d, the region has %s' % (where, c, cells))
        lam = geo.bary(c, x)
        R.expect(lam.min() >= -1e-9, lambda: '%s: particle created at %s is not in its cell %d (barycentric %s)' % (where, list(x), c, list(lam)))
        R.expect([float(p[k + '0']) for k in pc] == list(x), where + ': the previous position of a new particle is not its position')
        R.expect(int(p['bitflags']) & 1 == 0 and int(p['crossings']) == 0, where + ': a new particle is marked deleted or has crossings')
        if par['thermal_speed'] == 0.0:
            u = [float(p['u' + k]) for k in pc]
            R.expect(np.abs(np.array(u) - par['drift_velocity']).max() < 1e-12, lambda: '%s: velocity %s at zero temperature, drift %s' % (where, u, par['drift_velocity']))
        v = volume(coord, geo, c) / (4 * np.pi if coord == 'spherical_r' else 1.0) * par['number_density'] / npc
        R.expect(abs(float(p['weight']) - v) <= 1e-9 * v, lambda: '%s: weight %r in cell %d, density x volume / number per cell is %r' % (where, float(p['weight']), c, v))
    R.expect(cnt == {c: times * npc for c in cells}, lambda: '%s: particles per cell %s, requested %d in each of %s' % (where, cnt, times * npc, cells))
    ids = [int(p['unique_ID']) for p in new]
    R.expect(len(set(ids)) == len(ids), where + ': two new particles share an identity')
    return new


def case_create(R, seed, coord, cpp, how):
    rng = np.random.default_rng(seed)
    w, M, geo, dim, L = new_world(rng, coord, cpp, seed)
    sn, other = ('a', 'b') if rng.random() < 0.5 else ('b', 'a')
    reg, par = region(M, geo, coord, rng), params(rng, dim, sn)
    before, ob = w.read(sn), w.read(other).tobytes()
    np.random.seed(seed % 2 ** 31)
    where = '%s, %s storage, segment length %d' % (coord, 'C++' if cpp else 'Python', L)
    with W.quiet():
        if how == 'direct':
            w.P.create_maxwellian_particles(3, 0.5, reg, par)
        else:
            w.P.initial_particles_dict = {'init': (par, w.P.create_maxwellian_particles, reg)}
            w.P.initialize_particles({'a': False, 'b': False})
    new = check_new(R, w, geo, coord, dim, before, reg, par, where)
    R.expect(w.read(other).tobytes() == ob, where + ': another species was changed')
    if par['thermal_speed'] > 0 and len(new) >= 60:
        u = np.array([[float(p['u' + k]) for k in w.P.position_coordinates] for p in new]) - par['drift_velocity']
        z = np.abs(u.mean(axis=0)) / (par['thermal_speed'] / np.sqrt(len(u)))
        R.expect(z.max() < 6, lambda: '%s: mean velocity of %d particles is %.1f standard errors from the drift' % (where, len(u), z.max()))
        s = u.std(axis=0) / par['thermal_speed']
        R.expect(np.all(np.abs(s - 1) < 6 / np.sqrt(2 * len(u))), lambda: '%s: velocity spread %s of the thermal speed' % (where, list(s)))


def case_source(R, seed, coord, cpp):
    rng = np.random.default_rng(seed)
    w, M, geo, dim, L = new_world(rng, coord, cpp, seed)
    srcs, calls = {}, []
    np.random.seed(seed % 2 ** 31)
    for k in range(int(rng.integers(1, 4))):
        par = params(rng, dim, 'a' if rng.random() < 0.5 else 'b')
        par['number_per_cell'] = 1
        reg = region(M, geo, coord, rng)

        def fn(step, time, region, p, *rest, _k=k, **kw):
            calls.append((_k, step, time, region is srcs['s%d' % _k][2], p is srcs['s%d' % _k][0]))
            w.P.create_maxwellian_particles(step, time, region, p, *rest, **kw)
        srcs['s%d' % k] = (par, fn, reg)
    w.P.particle_source_dict = srcs
    ctrl = W.make_ctrl(0.5)
    want = []
    total = {sn: len(w.read(sn)) for sn in ('a', 'b')}
    for step in range(int(rng.integers(0, 4)), int(rng.integers(5, 16))):
        ctrl.timeloop_count, ctrl.time = step, 0.5 * step
        with W.quiet():
            w.P.add_more_particles(ctrl)
        for k, (nm, (par, _, reg)) in enumerate(srcs.items()):
            if step % par['timestep_interval'] == 0:
                want.append((k, step, 0.5 * step, True, True))
                total[par['species_name']] += len(reg.cell_index)
        R.expect(sorted(calls) == sorted(want), lambda: 'steps up to %d, intervals %s: source calls %s, expected %s' % (step, [s[0]['timestep_interval'] for s in srcs.values()], calls, want))
        for sn in total:
            R.expect(int(w.P.get_species_particle_count(sn)) == total[sn], lambda: 'step %d: species %s has %d particles, expected %d' % (step, sn, w.P.get_species_particle_count(sn), total[sn]))


def case_list(R, seed, coord, cpp, how):
    rng = np.random.default_rng(seed)
    w, M, geo, dim, L = new_world(rng, coord, cpp, seed)
    lists = {}
    for sn in ('a', 'b'):
        N = int(rng.integers(0, 12)) if rng.random() < 0.6 else min(L, 8) * int(rng.integers(0, 3))
        lists[sn] = [tuple(float(v) for v in rng.normal(size=3 * dim)) + (float(rng.random()), int(rng.choice([0, 2])), int(c), 50 + k, int(rng.integers(0, 9)))
                     for k, (c, x) in enumerate(V.random_points(geo, rng, N))]

    class U:
        @staticmethod
        def a(type):
            return len(lists['a']), lists['a']

        @staticmethod
        def b(type):
            return len(lists['b']), lists['b']
    w.P.user_particles_class = U
    before = {sn: w.read(sn) for sn in ('a', 'b')}
    which = ['a', 'b'][:int(rng.integers(1, 3))]
    with W.quiet():
        if how == 'direct':
            for sn in which:
                w.P.create_from_list(sn, print_flag=False)
        else:
            w.P.initial_particles_dict = {'i' + sn: (dict(species_name=sn, initial_distribution_type='listed'),) for sn in which}
            w.P.initialize_particles({'a': False, 'b': True})
    for sn in ('a', 'b'):
        rec = w.read(sn)
        nb = len(before[sn])
        lst = lists[sn] if sn in which else []
        R.expect(len(rec) == nb + len(lst), lambda: 'species %s: %d stored, %d listed, %d after loading' % (sn, nb, len(lst), len(rec)))
        R.expect(nb == 0 or rec[:nb].tobytes() == before[sn].tobytes(), 'particles stored before were changed')
        for k, t in enumerate(lst):
            g = tuple(v.item() for v in rec[nb + k])
            R.expect(g == t, lambda: 'species %s: listed particle %d is %r, stored %r' % (sn, k, t, g))


def run(R):
    i = 0
    top = 500 if R.tier == 'quick' else 20000
    while R.more() and i < top:
        coord = ['cartesian_x', 'cartesian_xy', 'cartesian_xyz', 'spherical_r'][i % 4]
        cpp = bool((i // 4) % 2)
        kind = ['direct', 'init', 'source', 'list', 'initlist'][(i // 8) % 5]
        seed = R.seed * 1000003 + i
        with R.case('%s %s storage, %s' % (coord, 'C++' if cpp else 'Python', kind), scenario_seed=seed):
            if kind in ('direct', 'init'):
                case_create(R, seed, coord, cpp, kind)
            elif kind == 'source':
                case_source(R, seed, coord, cpp)
            else:
                case_list(R, seed, coord, cpp, 'direct' if kind == 'list' else 'init')
        i += 1
