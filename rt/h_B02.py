"""B02: shipped reflecting and absorbing boundary functions: the particle record after the function returns."""
import importlib
import numpy as np
import world as W
import movers as V
RULE = ('every shipped reflecting/absorbing function called with random particle records, unit normals of any orientation, displacements and '
        'crossing fractions (Python, called directly; C++, through single- and multi-reflection moves on irregular meshes): mirror image of '
        'velocity and of the remaining displacement, same kinetic energy, every other attribute untouched; absorption sets the delete flag only')
# (module, function, action, coordinate systems)
PY = [('UserParticles_1D', 'default_bc', 'absorb', ('cartesian_x', 'spherical_r')), ('UserParticles_1D', 'default_bc_at_xmin', 'absorb', ('cartesian_x',)),
      ('UserParticles_1D', 'bc_at_xmin_for_neutral_H', 'absorb', ('cartesian_x',)), ('UserParticles_1D', 'default_bc_at_rmin', 'reflect', ('spherical_r', 'cartesian_x')),
      ('UserParticles_1D', 'default_bc_at_rmax', 'absorb', ('spherical_r',)), ('UserParticles_1D', 'bc_at_rmin_for_neutral_H', 'absorb', ('spherical_r',)),
      ('UserParticles_2D_e', 'default_bc', 'absorb', ('cartesian_xy',)), ('UserParticles_2D_e', 'default_bc_at_rmin', 'absorb', ('cartesian_xy',)),
      ('UserParticles_2D_e', 'bc_at_rmin_for_test_electrons', 'reflect', ('cartesian_xy', 'cartesian_xyz', 'cartesian_x')),
      ('UserParticles_3D', 'default_bc_at_xmin', 'absorb', ('cartesian_xyz',)), ('UserParticles_3D', 'default_bc_at_ymin', 'absorb', ('cartesian_xyz',)),
      ('UserParticles_3D', 'bc_at_xmin_for_neutral_H', 'absorb', ('cartesian_xyz',))]


def user(mod, P):
    C = importlib.import_module(mod).UserParticleBoundaryFunctions_C
    try:
        return C(P.position_coordinates, P.dx)
    except TypeError:
        return C


def py_case(R, mod, fn, act, coord, seed, N):
    rng = np.random.default_rng(seed)
    w = W.World(coord, None, seglen=4)
    P = w.P
    with W.quiet():
        u = user(mod, P)
    f = getattr(u, fn)
    cs = W.COORDS[coord]
    d = len(cs)
    for _ in range(N):
        x0, dx, vel = rng.normal(size=d), rng.normal(size=d), rng.normal(size=d) * float(rng.choice([1e-3, 1.0, 1e6]))
        n = rng.normal(size=d)
        if rng.random() < 0.3:
            n = np.zeros(d)
            n[rng.integers(0, d)] = float(rng.choice([-1, 1]))
        n /= np.linalg.norm(n)
        fr = float(rng.choice([rng.random(), 0.0, 1.0, 0.5]))
        # dx starts at the path start in this cell; the record has already been moved to the crossing point (x0) and end point (x)
        start = x0
        cross = start + fr * dx
        end = start + dx
        P.dx[:] = dx
        flags = int(rng.choice([0, 2, 1, 4]))
        rec = np.zeros(1, dtype=P.particle_dtype)
        rec[0] = tuple(end) + tuple(cross) + tuple(vel) + (2.5, flags, 7, 4321, 3)
        before = rec.copy()
        with W.quiet():
            f(rec[0], 'test_electrons', 11, dx_fraction=fr, facet_normal=n)
        got = rec[0]
        lab = lambda: '%s.%s: normal %s fraction %g displacement %s velocity %s' % (mod, fn, list(n), fr, list(dx), list(vel))  # noqa
        same = [c + '0' for c in cs] + ['weight', 'cell_index', 'unique_ID', 'crossings']
        if act == 'absorb':
            same += list(cs) + ['u' + c for c in cs]
            R.expect(int(got['bitflags']) == (flags | 1), lambda: lab() + ': bitflags %d -> %d' % (flags, got['bitflags']))
        else:
            same += ['bitflags']
            gx = np.array([float(got[c]) for c in cs])
            gu = np.array([float(got['u' + c]) for c in cs])
            wu = vel - 2 * np.dot(vel, n) * n
            wx = cross + (1 - fr) * (dx - 2 * np.dot(dx, n) * n)
            sv = 1e-300 + np.abs(vel).max()
            R.expect(np.abs(gu - wu).max() <= 1e-12 * sv, lambda: lab() + ': velocity after reflection %s, mirror image %s' % (list(gu), list(wu)))
            R.expect(abs(np.dot(gu, gu) - np.dot(vel, vel)) <= 1e-11 * sv * sv * d, lambda: lab() + ': kinetic energy changed')
            R.expect(np.abs(gx - wx).max() <= 1e-12 * (1 + np.abs(dx).max() + np.abs(x0).max()) * 4, lambda: lab() + ': end point %s, mirror image %s' % (list(gx), list(wx)))
        for k in same:
            R.expect(got[k] == before[0][k], lambda: lab() + ': %s changed from %r to %r' % (k, before[0][k], got[k]))


def mover_case(R, seed, coord, cpp, kind):
    """Reflections of a real advance: the final state of every reflected survivor is the multiply-mirrored path end."""
    rng = np.random.default_rng(seed + 1)
    spec = None
    if not cpp:
        spec = {'default_bc': 'absorb', 'default_bc_at_rmin': 'reflect'} if coord in ('cartesian_x', 'spherical_r') else {'default_bc': 'absorb', 'default_bc_at_rmin': 'absorb', 'bc_at_rmin_for_test_electrons': 'reflect'}
    s = V.scenario(seed, coord, cpp, kind, reach=1.0, interior=False, dead=0.0, spec=spec)
    if not cpp:
        mod = 'UserParticles_1D' if coord in ('cartesian_x', 'spherical_r') else 'UserParticles_2D_e'
        with W.quiet():
            u = importlib.import_module(mod).UserParticleBoundaryFunctions_C(s.P.position_coordinates, s.P.dx)

        class Only:
            pass
        o = Only()
        for nme in spec:
            setattr(o, nme, getattr(u, nme))
        s.world.set_bc(o)
    V.drop_unclear(s)
    V.fill(s)
    cs = W.COORDS[coord]
    nref = 0
    for nm, _, _ in s.species:
        pred = V.predict(s, nm)
        V.advance(s, nm)
        after = {int(r['unique_ID']): r for r in s.world.read(nm)}
        for k, r in enumerate(pred):
            if r['survive'] and r['events'] and r['uid'] in after:
                nref += 1
                a = after[r['uid']]
                p = s.pop[nm][k]
                u, x = np.array([float(a['u' + c]) for c in cs]), np.array([float(a[c]) for c in cs])
                sc = 1 + np.abs(r['vel']).max() * max(1, s.dt) + np.abs(x).max()
                lab = lambda: '%s %s: particle %d reflected %d times from %s' % ('C++' if cpp else 'Python', nm, r['uid'], len(r['events']), [list(e[4]) for e in r['events']])   # noqa
                R.expect(np.abs(u - r['vel']).max() <= 1e-8 * sc, lambda: lab() + ': velocity %s, mirror image %s' % (list(u), list(r['vel'])))
                R.expect(np.abs(x - r['pos']).max() <= 1e-8 * sc, lambda: lab() + ': end point %s, mirror image %s' % (list(x), list(r['pos'])))
                R.expect(float(a['weight']) == r['w'] and int(a['bitflags']) == 0, lambda: lab() + ': weight or flags changed')
            if r['events'] and not r['survive'] and not (r['flags'] & 1):
                R.expect(r['uid'] not in after, lambda: 'particle %d reached an absorbing boundary and is still stored' % r['uid'])
    return nref


def absorb_cpp_case(R, seed, coord, kind):
    """The record of an absorbed particle is left behind the stored particles: only the delete flag (and cell/crossing bookkeeping) differs."""
    s = V.scenario(seed, coord, True, kind, reach=3.0, npart=8, seglen=100, interior=False, nsp=2, dead=0.0, efield=False)
    V.drop_unclear(s)
    nm = s.species[1][0]       # not test_electrons
    pr = V.predict(s, nm)
    k = [i for i, r in enumerate(pr) if len(r['events']) == 1 and r['deleted']]
    a = [i for i, r in enumerate(pr) if r['survive']]
    if not k or not a:
        return
    s.pop = {s.species[0][0]: [], nm: [s.pop[nm][a[0]], s.pop[nm][k[0]]]}
    r = pr[k[0]]
    V.fill(s)
    V.advance(s, nm)
    seg, off = s.P.sap_dict[nm].get_segment_and_offset(0)
    rec = seg[off + 1]
    if int(rec['unique_ID']) != r['uid'] or int(s.P.get_species_particle_count(nm)) != 1:
        return
    cs = W.COORDS[coord]
    p = s.pop[nm][1]
    R.expect(int(rec['bitflags']) == 1, lambda: 'C++ absorbed particle: bitflags %d' % rec['bitflags'])
    R.expect(all(float(rec['u' + c]) == float(v) for c, v in zip(cs, p['u'])) and float(rec['weight']) == p['w'], 'C++ absorbed particle: velocity or weight altered')
    x = np.array([float(rec[c]) for c in cs])
    R.expect(np.abs(x - (p['x'] + p['u'] * s.dt)).max() < 1e-10 * (1 + np.abs(x).max()), 'C++ absorbed particle: position altered')


def run(R):
    i = 0
    rounds = 6 if R.tier == 'quick' else 120
    while R.more() and i < rounds:
        for mod, fn, act, coords in PY:
            for coord in coords:
                with R.case('Python %s %s' % (mod, fn), coordinate_system=coord, seed=R.seed * 613 + i):
                    py_case(R, mod, fn, act, coord, R.seed * 613 + i, 40)
        for k, (coord, cpp, kind) in enumerate(V.CONFIGS):
            for j in range(3):
                seed = R.seed * 1000003 + (i * 3 + j) * 37 + k
                with R.case('%s %s %s' % ('C++' if cpp else 'Python', coord, kind), scenario_seed=seed):
                    mover_case(R, seed, coord, cpp, kind)
            if cpp:
                with R.case('C++ %s %s absorbed record' % (coord, kind), scenario_seed=seed):
                    absorb_cpp_case(R, seed, coord, kind)
        i += 1
