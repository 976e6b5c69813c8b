"""M03: recorded cell of every surviving particle against the geometry of that cell; error reporting."""
import numpy as np
import dolfin as df
import world as W
import movers as V
RULE = ('random populations advanced over random simplex meshes with short and long displacements (many cells crossed), boundary functions '
        'absorb/reflect/pass, interior marked facets, facets of the mesh edge without any boundary mark, low limits on the number of '
        'crossings; recorded cells checked by barycentric coordinates, errors predicted by an independent path tracer')


def check_cells(R, s, nm, label):
    g = s.geo.g
    coords = W.COORDS[s.coord]
    for k, rec in enumerate(s.world.read(nm)):
        c = int(rec['cell_index'])
        x = [float(rec[q]) for q in coords][:g]
        R.expect(0 <= c < s.geo.nc, lambda: '%s: particle %d is stored with cell index %d (the mesh has %d cells)' % (label, rec['unique_ID'], c, s.geo.nc))
        R.expect(s.geo.inside(c, x, 1e-8), lambda: '%s: particle %d at %s is not in its recorded cell %d (barycentric coordinates %s)' % (label, rec['unique_ID'], x, c, list(s.geo.bary(c, x))))


def normal_case(R, seed, coord, cpp, kind):
    rng = np.random.default_rng(seed + 11)
    n = {1: [3, 12, 40], 2: [2, 4, 7], 3: [1, 2, 3]}[V.DIM[coord]][int(rng.integers(0, 3))]
    s = V.scenario(seed, coord, cpp, kind, n=n, reach=float(rng.choice([0.3, 1.0, 4.0])), dead=0.0)
    V.drop_unclear(s)
    V.fill(s)
    for rnd in range(2):
        for nm, _, _ in s.species:
            pred = V.predict(s, nm)
            if any(r['gap'] < 1e-7 or r['error'] for r in pred):
                return
            V.advance(s, nm)
            check_cells(R, s, nm, '%s round %d' % (nm, rnd))
            want = {r['uid']: r for r in pred if r['survive']}
            for rec in s.world.read(nm):
                r = want.get(int(rec['unique_ID']))
                if r is None:
                    R.expect(False, lambda: 'particle %d left the mesh and is still stored (cell %d)' % (rec['unique_ID'], rec['cell_index']))
                R.expect(int(rec['cell_index']) == r['cell'], lambda: 'particle %d: recorded cell %d, its path ends in cell %d' % (rec['unique_ID'], rec['cell_index'], r['cell']))
                R.expect(int(rec['crossings']) == r['crossings'], lambda: 'particle %d: %d crossings recorded, its path crosses %d facets' % (rec['unique_ID'], rec['crossings'], r['crossings']))
            s.pop[nm] = [dict(x=r['pos'], u=r['vel'], w=r['w'], cell=r['cell'], uid=r['uid'], flags=0) for r in pred if r['survive']]


def unmarked(seed, coord, cpp, kind):
    """A single particle leaves through a facet of the mesh edge that carries no mark."""
    rng = np.random.default_rng(seed + 13)
    s = V.scenario(seed, coord, cpp, kind, reach=2.0, npart=1, efield=False, interior=False, nsp=1, dead=0.0)
    nm = s.species[0][0]
    mk = s.mesh_M.particle_boundary_marker
    keep = mk.array().copy()
    try:
        mk.array()[:] = 0
        p = s.pop[nm][0]
        p['u'] = rng.normal(size=V.DIM[coord])
        p['u'] *= 4.0 * np.ptp(s.geo.X) / s.dt / np.abs(p['u']).max()
        V.fill(s)
        V.advance(s, nm)
        return len(s.world.read(nm))
    finally:
        mk.array()[:] = keep


def limit(seed, coord, cpp, kind, over):
    """The limit on facet crossings: exceeded -> an error; not exceeded -> none.  None: no suitable particle."""
    n = {1: 12, 2: 4, 3: 2}[V.DIM[coord]]
    s = V.scenario(seed, coord, cpp, kind, n=n, reach=1.0, npart=12, efield=False, interior=False, nsp=1, dead=0.0, maxcross=10 ** 6)
    nm = s.species[0][0]
    V.drop_unclear(s)
    pr = V.predict(s, nm)
    k = [i for i, r in enumerate(pr) if r['crossings'] >= 2]
    if not k:
        return None
    k = k[0]
    s.pop[nm] = [s.pop[nm][k]]
    s.ctrl.MAX_FACET_CROSS_COUNT = pr[k]['crossings'] - over
    V.fill(s)
    V.advance(s, nm)
    return len(s.world.read(nm))


def judge(R, what, over, res):
    R.expect(res[0] in ('ok', 'raised', 'exit') and not (res[0] == 'exit' and res[1] == 0), lambda: '%s: the advance ended with %s %s' % (what, res[0], res[1]))
    if what == 'unmarked':
        R.expect(res[0] != 'ok' or res[1] == 0, 'a particle left the mesh through a facet without boundary condition and is still stored')
    elif over:
        R.expect(res[0] != 'ok' or not res[1], 'a particle crossed more facets than the permitted number and was silently kept')
    else:
        R.expect(res[0] == 'ok', lambda: 'a particle that crosses exactly the permitted number of facets ended with %s %s' % (res[0], res[1]))


def local(fn, *a):
    try:
        return ('ok', fn(*a))
    except (Exception, SystemExit) as e:   # noqa
        return ('raised', '%s: %s' % (type(e).__name__, e))


def run(R):
    ncfg = len(V.CONFIGS)
    jobs = []
    rounds = 2 if R.tier == 'quick' else 12
    for r in range(rounds):
        for k, (coord, cpp, kind) in enumerate(V.CONFIGS):
            if cpp:
                seed = R.seed * 1000003 + r * ncfg + k
                jobs.append(('h_M03', 'unmarked', (seed, coord, cpp, kind)))
                jobs.append(('h_M03', 'limit', (seed, coord, cpp, kind, 1)))
                if r == 0:
                    jobs.append(('h_M03', 'limit', (seed, coord, cpp, kind, 0)))
    for (m, fn, a), res in W.separate(jobs):
        with R.case('C++ %s %s %s' % (a[1], a[3], fn), scenario_seed=a[0], over=a[4] if fn == 'limit' else None):
            judge(R, fn, fn == 'limit' and a[4], res)
    i = 0
    top = 400 if R.tier == 'quick' else 6000
    while R.more() and i < top:
        coord, cpp, kind = V.CONFIGS[i % ncfg]
        seed = R.seed * 1000003 + i
        lab = '%s %s %s' % ('C++' if cpp else 'Python', coord, kind)
        with R.case(lab, scenario_seed=seed):
            normal_case(R, seed, coord, cpp, kind)
        if not cpp and (i < 8 * ncfg or R.tier != 'quick'):
            with R.case(lab + ' unmarked', scenario_seed=seed):
                with W.quiet():
                    res = local(unmarked, seed, coord, cpp, kind)
                judge(R, 'unmarked', 0, res)
            for over in (0, 1):
                with R.case(lab + ' limit', scenario_seed=seed, over=over):
                    with W.quiet():
                        res = local(limit, seed, coord, cpp, kind, over)
                    judge(R, 'limit', over, res)
        i += 1
