"""Random scenarios for the particle movers: real worlds advanced by the real code, and the oracle's answer."""
import sys, functools
import numpy as np
import dolfin as df
import world as W
from oracle import Geo, Trace

CS = {'cartesian_x': 'Cartesian', 'cartesian_xy': 'Cartesian', 'cartesian_xyz': 'Cartesian', 'spherical_r': '1D-spherical-radial'}
DIM = {'cartesian_x': 1, 'spherical_r': 1, 'cartesian_xy': 2, 'cartesian_xyz': 3}
GMASS, GQ = 2.0, -3.0     # simple numbers for charged species
_mesh_cache = {}


def get_mesh(coord, cpp, n, seed, amount=0.6, gdim=None, interior=False, rside=0, diag='left', shear=0):
    key = (coord, cpp, tuple(np.atleast_1d(n)), seed, amount, gdim, interior, rside, diag, shear)
    if key in _mesh_cache:
        return _mesh_cache[key]
    dim = gdim or DIM[coord]
    lo = [0.5] * dim if coord == 'spherical_r' else [-1.0, -0.5, 0.25][:dim]
    hi = [2.0] * dim if coord == 'spherical_r' else [1.0, 1.5, 2.0][:dim]
    m = W.box_mesh(dim, n, lo, hi, diag)
    rng = np.random.default_rng(seed)
    if amount:
        W.perturb(m, rng, amount)
    inv = None
    if shear and dim > 1:   # oblique outer facets: an affine image of the box
        A = np.eye(dim) + 0.5 * (np.random.default_rng(shear).random((dim, dim)) - 0.5)
        m.coordinates()[:] = m.coordinates() @ A.T
        inv = np.linalg.inv(A)
    sides = ['xmin', 'xmax', 'ymin', 'ymax', 'zmin', 'zmax'][:2 * dim]
    names = list(sides)
    names[rside] = 'rmin'
    inter = None
    geo = Geo(m)
    if interior:
        fs = [f for f, cs in geo.facet_cells.items() if len(cs) == 2]
        inter = {int(f): ('baffle', 1 << 10) for f in rng.choice(fs, size=min(3, len(fs)), replace=False)}
    with W.quiet():
        M = W.make_mesh(m, CS[coord], names=names, cpp=cpp, tree=True, dicts=True, interior=inter, inv=inv)
    r = (M, geo, names)
    _mesh_cache[key] = r
    return r


class RecordingBC:
    """Python user boundary functions that record their calls; behaviour per boundary name."""

    def __init__(self, spec, names, species, cpp=False):
        """spec: {function name: 'reflect'|'absorb'|'pass'}"""
        self.calls = []
        for fn, act in spec.items():
            setattr(self, fn, functools.partial(self._do, fn, act))

    def bind(self, P):
        self.P = P

    def _do(self, fn, act, p, species_name, facet_index, dx_fraction=None, facet_normal=None):
        P = self.P
        nm = p.dtype.names
        pc = [c for c in P.position_coordinates]
        self.calls.append(dict(fn=fn, uid=int(p['unique_ID']), species=species_name, facet=int(facet_index), frac=None if dx_fraction is None else float(np.asarray(dx_fraction).ravel()[0]),
                               normal=None if facet_normal is None else [float(v) for v in np.asarray(facet_normal).ravel()],
                               pos=[float(p[c]) for c in pc], start=[float(p[c + '0']) for c in pc]))
        if act == 'absorb':
            p['bitflags'] = p['bitflags'] | 1
            p['cell_index'] = -1
        elif act == 'reflect':
            n = np.asarray(facet_normal, float).ravel()
            g = len(n)
            x = np.array([p[c] for c in pc])
            x0 = np.array([p[c + '0'] for c in pc])
            u = np.array([p['u' + c] for c in pc])
            x[:g] -= 2 * np.dot(x[:g] - x0[:g], n) * n
            u[:g] -= 2 * np.dot(u[:g], n) * n
            for k, c in enumerate(pc):
                p[c] = x[k]
                p['u' + c] = u[k]


def resolve(spec, boundary, species):
    for fn in ('bc_at_%s_for_%s' % (boundary, species), 'default_bc_at_' + boundary, 'default_bc'):
        if fn in spec:
            return fn, spec[fn]
    return None, None


CPP_SPEC = {'default_bc': 'absorb', 'default_bc_at_rmin': 'absorb', 'bc_at_rmin_for_test_electrons': 'reflect'}
CPP_SPEC_R = {'default_bc': 'absorb', 'default_bc_at_rmin': 'reflect'}


def random_points(geo, rng, k):
    """Points well inside random cells: (cell, x)."""
    out = []
    for _ in range(k):
        c = int(rng.integers(0, geo.nc))
        lam = rng.dirichlet(np.ones(geo.t + 1) * 1.5)
        lam = 0.9 * lam + 0.1 / (geo.t + 1)
        out.append((c, lam @ geo.X[geo.C[c]]))
    return out


class Scn:
    pass


def scenario(seed, coord, cpp, kind, nmax=30, seglen=None, n=None, reach=None, traj=None, interior=None, spec=None, nsp=None, dead=0.05, efield=None, ext=None, npart=None, apply_solved=None, apply_ext=None, gdim=None, maxcross=2000, dt=None):
    """kind: 'charged' | 'neutral'.  Builds the world, returns Scn with the initial population (not advanced)."""
    s = Scn()
    rng = np.random.default_rng(seed)
    s.rng, s.coord, s.cpp, s.kind, s.seed = rng, coord, cpp, kind, seed
    dim = DIM[coord]
    gd = gdim or dim
    seglen = seglen or int(rng.choice([1, 2, 3, 4, 5, 8, 100]))
    if n is None:
        n = {1: int(rng.choice([1, 2, 5, 9])), 2: int(rng.choice([1, 2, 4])), 3: int(rng.choice([1, 2]))}[gd]
    interior = bool(rng.integers(0, 2)) if interior is None else interior
    rside = int(rng.integers(0, 2 * gd)) if coord != 'spherical_r' else 0
    s.mesh_M, s.geo, s.names = get_mesh(coord, cpp, n, seed % 7, gdim=gdim, interior=interior and n > 1, rside=rside, shear=(seed % 5 if (seed // 13) % 2 else 0))
    species = []
    names = ['test_electrons', 'ions'] if kind == 'charged' else ['test_electrons', 'neutral_H']
    for k, nm in enumerate(names[:nsp or 2]):
        species.append((nm, (GQ if k == 0 else 2.5) if kind == 'charged' else 0.0, GMASS * (k + 1)))
    s.species = species
    if cpp:
        s.spec = dict(CPP_SPEC_R if coord == 'spherical_r' else CPP_SPEC)
        s.bc = None
    else:
        if spec is None:
            acts = ['absorb', 'reflect']
            spec = {'default_bc': str(rng.choice(acts))}
            for b in s.names:
                if rng.random() < 0.4:
                    spec['default_bc_at_' + b] = str(rng.choice(acts))
                for nm, _, _ in species:
                    if rng.random() < 0.3:
                        spec['bc_at_%s_for_%s' % (b, nm)] = str(rng.choice(acts))
            spec['default_bc_at_baffle'] = str(rng.choice(['absorb', 'pass']))
        s.spec = spec
        s.bc = RecordingBC(spec, s.names, [q[0] for q in species])
    if cpp:
        s.baffle = {'baffle': 'absorb'}
    s.world = W.World(coord, s.mesh_M, cpp=cpp, seglen=seglen, species=species, bc=s.bc, fdim=gd)
    s.P = s.world.P
    if not cpp:
        s.bc.bind(s.P)
    s.seglen = seglen
    s.dt = dt or float(rng.choice([0.5, 1.0, 0.125]))
    s.time, s.step = 3.0, 7
    s.ctrl = W.make_ctrl(s.dt, t=s.time, step=s.step, maxcross=maxcross, apply_solved=apply_solved, apply_ext=apply_ext)
    size = np.ptp(s.geo.X, axis=0)
    s.pop = {}
    reach = float(rng.choice([0.2, 1.0, 3.0])) if reach is None else reach
    s.E = None
    if kind == 'charged' and (efield if efield is not None else rng.random() < 0.7):
        a = rng.normal(size=gd) * 0.3 * reach
        B = rng.normal(size=(gd, gd)) * 0.2 * reach
        s.Efn = lambda x: a + B @ np.asarray(x)[:gd]
        s.deg = 0 if cpp else int(rng.integers(0, 2))    # C++: constant-in-cell fields (documented)
        s.E = W.field_from(s.mesh_M, s.Efn, 'DG' if s.deg == 0 else 'Lagrange', s.deg)
    s.ext = ext
    uid = 1
    for nm, q, m in species:
        N = int(rng.integers(0, nmax)) if npart is None else npart
        if rng.random() < 0.3 and npart is None:
            N = seglen * int(rng.integers(0, 4)) if seglen < 50 else N
        lst = []
        for c, x in random_points(s.geo, rng, N):
            x = np.concatenate([x, rng.normal(size=dim - gd)]) if dim > gd else x
            sz = np.concatenate([size, np.ones(dim - gd)]) if dim > gd else size
            u = rng.normal(size=dim) * sz * reach / s.dt * rng.choice([0.1, 1.0])
            fl = 1 if rng.random() < dead else 0
            lst.append(dict(x=np.array(x, float), u=u, w=float(rng.integers(1, 99)) / 8.0, cell=c, uid=uid, flags=fl))
            uid += 1
        s.pop[nm] = lst
    s.traj = traj
    return s


def fill(s):
    for nm, lst in s.pop.items():
        for p in lst:
            s.world.put(nm, p['x'], p['u'], w=p['w'], flags=p['flags'], cell=p['cell'], uid=p['uid'], crossings=0)


def E_at(s, cell, x):
    """Field value at the particle, from the nodal values the harness itself chose."""
    gd = s.geo.g
    if s.deg == 0:
        mid = s.geo.X[s.geo.C[cell]].mean(axis=0)
        return s.Efn(mid)
    lam = s.geo.bary(cell, x)
    return lam @ np.array([s.Efn(s.geo.X[v]) for v in s.geo.C[cell]])


def predict(s, nm, accel_only=False, use_E=True, extE=None):
    """Oracle: list of dict(uid, survive, x, u, cell, events, crossings, gap, error) in storage order."""
    q, m = [(b, c) for a, b, c in s.species if a == nm][0]
    marker = s.mesh_M.particle_boundary_marker
    inv = {v: k for k, v in s.mesh_M.particle_boundary_dict.items()}

    def action(tag):
        return resolve(s.spec, inv[tag], nm)[1]
    tr = Trace(s.geo, marker, action, s.ctrl.MAX_FACET_CROSS_COUNT)
    out = []
    dim, gd = DIM[s.coord], s.geo.g
    for k, p in enumerate(s.pop[nm]):
        u = p['u'].copy()
        if s.kind == 'charged':
            E = np.zeros(gd)
            if s.E is not None and use_E:
                # the field objects hold -E
                E = E - E_at(s, p['cell'], p['x'])
            if extE is not None:
                E = E + extE(p['x'])
            u[:gd] += q / m * s.dt * E
        x1 = p['x'] + (0 if accel_only else u * s.dt)
        if accel_only:
            r = dict(pos=p['x'], vel=u, cell=p['cell'], deleted=False, events=[], gap=1.0, error=None, crossings=0, start=p['x'])
        else:
            r = tr.run(p['x'], x1, u, p['cell'])
        r['uid'] = p['uid']
        r['w'] = p['w']
        r['survive'] = not r['deleted'] and not (p['flags'] & 1)
        r['flags'] = p['flags']
        r['E'] = E if s.kind == 'charged' else None
        out.append(r)
    return out


def drop_unclear(s, accel_only=False, use_E=True, extE=None, tol=1e-7, keep_errors=False):
    """Remove particles whose path is too close to a vertex/edge to be decided in floating point, or that the oracle
    does not follow (a boundary function that does nothing on the mesh edge)."""
    for nm in list(s.pop):
        pr = predict(s, nm, accel_only, use_E, extE)
        s.pop[nm] = [p for p, r in zip(s.pop[nm], pr) if r['gap'] > tol and (keep_errors or r['error'] is None)]


def advance(s, nm, **kw):
    return s.world.advance(nm, s.ctrl, negE=s.E if s.kind == 'charged' else None, **kw)


class ExtField:
    """Stand-in external field for the Python movers: a known value at each point."""

    def __init__(self, fn):
        self.fn = fn

    def interpolate_random_field_to_points(self, points, field_at_points):
        names = field_at_points.dtype.names
        for ip in range(points.shape[0]):
            x = [float(points[ip][k]) for k in range(len(names))]
            v = self.fn(np.array(x))
            for d in range(len(names)):
                field_at_points[ip][d] = v[d]

    interpolate_field_to_points = interpolate_random_field_to_points


# which movers exist
CONFIGS = [('cartesian_x', False, 'charged'), ('cartesian_xy', False, 'charged'), ('cartesian_xyz', False, 'charged'), ('spherical_r', False, 'charged'),
           ('cartesian_x', False, 'neutral'), ('cartesian_xy', False, 'neutral'), ('cartesian_xyz', False, 'neutral'), ('spherical_r', False, 'neutral'),
           ('cartesian_x', True, 'charged'), ('cartesian_xy', True, 'charged'), ('spherical_r', True, 'charged'),
           ('cartesian_xy', True, 'neutral'), ('cartesian_xyz', True, 'neutral')]
