"""F01: field arithmetic and interpolation to particles."""
import sys, warnings
import numpy as np
import world as W
import movers as V
RULE = ('random scalar and vector fields (constant-in-cell and piecewise linear) on irregular meshes in 1D-3D: sequences of set, multiply, '
        'multiply_add, Gaussian set/multiply with and without subdomains against plain vectors (random draws replayed from the same seed); '
        'interpolation to shuffled particle arrays (Python, random-multiplier and C++ versions) against barycentric evaluation')


def field(M, kind, deg, ft):
    from Dolfin_Module import Field_C
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return Field_C(M, element_type=kind, element_degree=deg, field_type=sys.intern(ft))


def vals(F):
    return np.array(F.function.vector().get_local())


def setv(F, v):
    F.function.vector().set_local(v)
    F.function.vector().apply('insert')


def region(M, geo, rng):
    from Dolfin_Module import RectangularRegion_C, WholeMesh_C
    lo, hi = geo.X.min(axis=0), geo.X.max(axis=0)
    for _ in range(20):
        a, b = np.sort(lo + (hi - lo) * rng.uniform(-0.1, 1.1, (2, geo.g)), axis=0)
        try:
            with W.quiet():
                if rng.random() < 0.1:
                    return WholeMesh_C(M)
                return RectangularRegion_C(M, float(a[0]) if geo.g == 1 else tuple(map(float, a)), float(b[0]) if geo.g == 1 else tuple(map(float, b)))
        except RuntimeError:
            continue
    return WholeMesh_C(M)


def dofs_of(F, r):
    dm = F.function_space.dofmap()
    return sorted({int(d) for c in r.cell_index for d in dm.cell_dofs(int(c))})


def arith(R, seed, coord):
    rng = np.random.default_rng(seed)
    dim = V.DIM[coord]
    n = {1: int(rng.integers(1, 9)), 2: int(rng.integers(1, 5)), 3: int(rng.integers(1, 3))}[dim]
    M, geo, _ = V.get_mesh(coord, False, n, seed % 11)
    kind, deg = [('DG', 0), ('Lagrange', 1), ('Lagrange', 2)][int(rng.integers(0, 3))]
    ft = ['scalar', 'vector'][int(rng.integers(0, 2))]
    F, G = field(M, kind, deg, ft), field(M, kind, deg, ft)
    v, g = rng.normal(size=len(vals(F))), rng.normal(size=len(vals(F)))
    setv(F, v)
    setv(G, g)
    for k in range(int(rng.integers(1, 6))):
        op = str(rng.choice(['set', 'set_sub', 'mul', 'mul_sub', 'add', 'muladd', 'gset', 'gset_sub', 'gmul']))
        a = float(rng.choice([0.0, 1.0, -1.0, rng.normal() * 3]))
        tol = 1e-12 * (1 + np.abs(v).max() + abs(a)) * (1 + np.abs(g).max())
        what = '%s field (%s%d, %s) after %s(%r)' % (ft, kind, deg, coord, op, a)
        gs = int(rng.integers(0, 2 ** 31))
        np.random.seed(gs)
        rs = np.random.RandomState(gs)
        loose = False
        with W.quiet():
            if op == 'set':
                F.set_values(a)
                v = np.full_like(v, a)
            elif op == 'set_sub':
                r = region(M, geo, rng)
                F.set_values(a, subdomain=r)
                v = np.zeros_like(v)
                v[dofs_of(F, r)] = a
            elif op == 'mul':
                F.multiply_values(a)
                v = v * a
            elif op == 'mul_sub':
                r = region(M, geo, rng)
                F.multiply_values(a, subdomain=r)
                d = dofs_of(F, r)
                v = v.copy()
                v[d] *= a
            elif op == 'add':
                F.multiply_add(G)
                v = v + g
            elif op == 'muladd':
                F.multiply_add(G, multiplier=a)
                v = v + a * g
            elif op == 'gset':
                F.set_gaussian_values(abs(a))
                want = rs.normal(0.0, abs(a), len(v))
                v, loose = want, True
            elif op == 'gset_sub':
                r = region(M, geo, rng)
                F.set_gaussian_values(abs(a), subdomain=r)
                got = vals(F)
                d = dofs_of(F, r)
                rest = np.setdiff1d(np.arange(len(v)), d)
                R.expect(np.all(got[rest] == 0.0), what + ': values outside the region')
                R.expect(a == 0.0 or np.count_nonzero(got[d]) == len(d), what + ': zero values inside the region')
                v = got
            elif op == 'gmul':
                F.multiply_values(abs(a), gaussian=True)
                want = v * rs.normal(0.0, abs(a), len(v))
                v, loose = want, True
        got = vals(F)
        if loose and np.abs(got - v).max() > tol * 10:
            # another way of drawing the numbers: only the statistics-free facts remain
            R.expect(a != 0.0 or np.all(got == 0.0), what + ': zero deviation gives non-zero values')
            v = got
        R.expect(np.abs(got - v).max() <= tol, lambda: what + ': got %s, expected %s' % (list(got), list(v)))
        R.expect(np.array_equal(vals(G), g), what + ': the operand field changed')


def interp(R, seed, coord, mode):
    rng = np.random.default_rng(seed)
    dim = V.DIM[coord]
    n = {1: int(rng.integers(1, 9)), 2: int(rng.integers(1, 5)), 3: int(rng.integers(1, 3))}[dim]
    M, geo, _ = V.get_mesh(coord, mode == 'cpp', n, seed % 11)
    g = geo.g
    deg = 0 if mode == 'cpp' else int(rng.integers(0, 2))
    a, B = rng.normal(size=g), rng.normal(size=(g, g))
    if rng.random() < 0.1:
        a, B = a * 0, B * 0
    fn = lambda x: a + B @ np.asarray(x)[:g]
    F = W.field_from(M, fn, 'DG' if deg == 0 else 'Lagrange', deg)
    N = int(rng.integers(0, 12))
    w = W.World(coord, None, cpp=False, seglen=max(1, N), species=[('a', -1.0, 1.0)])
    pts = V.random_points(geo, rng, N)
    arr = np.zeros(N, dtype=w.P.particle_dtype)
    for k, (c, x) in enumerate(pts):
        row = list(x) + list(rng.normal(size=dim)) + list(rng.normal(size=dim)) + [1.0, 0, c, k, 0]
        arr[k] = tuple(row)

    def at(c, x):
        if deg == 0:
            return fn(geo.X[geo.C[c]].mean(axis=0))
        return geo.bary(c, x) @ np.array([fn(geo.X[v]) for v in geo.C[c]])
    want = np.array([at(c, x) for c, x in pts]).reshape(N, g)
    m = int(rng.integers(0, 4))
    if mode == 'cpp':
        import numpy_types_solib     # registers the NumPy types of the particles
        import dolfin_functions_solib as S
        out = np.full((N + m, g), 777.0)
        use = int(rng.integers(0, N + 1))
        with W.quiet():
            getattr(S, 'interpolate_field_to_points_' + coord)(F, arr, use, out)
        got, rest = out[:use], out[use:]
        want = want[:use]
    else:
        names = ['E' + c for c in ['x', 'y', 'z'][:g]]
        out = np.full(N + m, 777.0, dtype=[(nm, np.float64) for nm in names])
        with W.quiet():
            if mode == 'random':
                F.interpolate_random_field_to_points(arr, out)
            else:
                F.interpolate_field_to_points(arr, out)
        full = np.array([[out[i][nm] for nm in names] for i in range(N + m)]).reshape(N + m, g)
        got, rest = full[:N], full[N:]
    R.expect(np.all(rest == 777.0), '%s: slots behind the %d points were written' % (mode, len(got)))
    for i in range(len(got)):
        if mode == 'random':
            nn = np.linalg.norm(want[i])
            if nn == 0:
                R.expect(np.all(got[i] == 0), 'random interpolation of a zero field is %s' % list(got[i]))
                continue
            f = got[i] @ want[i] / nn ** 2
            R.expect(np.abs(got[i] - f * want[i]).max() < 1e-9 * (1 + abs(f)) * (1 + nn), lambda: 'slot %d: value %s is not a multiple of the field %s at the particle' % (i, list(got[i]), list(want[i])))
        else:
            R.expect(np.abs(got[i] - want[i]).max() < 1e-10 * (1 + np.abs(want[i]).max()), lambda: 'slot %d of %d (%s, degree %d): value %s, field at the particle %s' % (i, N, mode, deg, list(got[i]), list(want[i])))
    if mode == 'random' and N > 6 and np.abs(want).min() > 0:
        fs = [got[i] @ want[i] / (want[i] @ want[i]) for i in range(N)]
        R.expect(len(set(np.round(fs, 9))) > 1, 'the random multipliers of %d particles are all equal' % N)


def run(R):
    i = 0
    top = 900 if R.tier == 'quick' else 20000
    while R.more() and i < top:
        coord = ['cartesian_x', 'cartesian_xy', 'cartesian_xyz', 'spherical_r'][i % 4]
        m = ['arith', 'arith', 'py', 'cpp', 'random'][(i // 4) % 5]
        if coord == 'spherical_r' and m == 'cpp':
            m = 'py'
        seed = R.seed * 1000003 + i
        with R.case('%s %s' % (coord, m), scenario_seed=seed):
            arith(R, seed, coord) if m == 'arith' else interp(R, seed, coord, m)
        i += 1
