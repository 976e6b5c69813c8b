"""R01: regions against midpoints computed from the vertex coordinates."""
import math
import numpy as np
import world as W
import movers as V
RULE = ('random boxes, balls and whole-mesh regions on irregular meshes (1D, 2D, 3D, radial), including boxes whose sides pass exactly '
        'through cell midpoints and empty selections: cell list, order-independent membership, multiplicity, volumes, midpoints')


def volume(coord, geo, c):
    X = geo.X[geo.C[c]]
    if coord == 'spherical_r':
        a, b = sorted(X[:, 0])
        return 4.0 * math.pi / 3.0 * (b ** 3 - a ** 3)
    if geo.g == 1:
        return abs(X[1, 0] - X[0, 0])
    return abs(np.linalg.det(X[1:] - X[0])) / math.factorial(geo.g)


def case(R, seed, coord, kind):
    from Dolfin_Module import RectangularRegion_C, SphericalRegion_C, WholeMesh_C
    rng = np.random.default_rng(seed)
    dim = V.DIM[coord]
    n = {1: int(rng.integers(1, 12)), 2: int(rng.integers(1, 5)), 3: int(rng.integers(1, 4))}[dim]
    M, geo, _ = V.get_mesh(coord, False, n, seed % 13, amount=float(rng.choice([0.0, 0.6])), diag=['left', 'right', 'crossed'][seed % 3])
    mid = np.array([geo.X[geo.C[c]].mean(axis=0) for c in range(geo.nc)])
    lo, hi = geo.X.min(axis=0), geo.X.max(axis=0)
    tol = 1e-9
    if kind == 'whole':
        want, edge = set(range(geo.nc)), set()
        make = lambda: WholeMesh_C(M)
        d = 'the whole mesh'
    elif kind == 'box':
        a, b = np.sort(lo + (hi - lo) * rng.uniform(-0.2, 1.2, (2, dim)), axis=0)
        for k in range(dim):
            u = rng.random()
            if u < 0.2:
                a[k] = lo[k]
            elif u < 0.35:
                a[k] = mid[rng.integers(0, geo.nc)][k]
            u = rng.random()
            if u < 0.2:
                b[k] = hi[k]
            elif u < 0.35:
                b[k] = mid[rng.integers(0, geo.nc)][k]
        inn = np.all((mid >= a) & (mid <= b), axis=1)
        out = np.any((mid < a - tol) | (mid > b + tol), axis=1)
        onto = np.all((mid >= a - 1e-13) & (mid <= b + 1e-13), axis=1)
        want = set(np.nonzero(inn | onto)[0].tolist())
        edge = set(range(geo.nc)) - want - set(np.nonzero(out)[0].tolist())
        pa, pb = (float(a[0]), float(b[0])) if dim == 1 else (tuple(map(float, a)), tuple(map(float, b)))
        if dim > 1 and rng.random() < 0.3:
            pa, pb = np.array(a), np.array(b)
        make = lambda: RectangularRegion_C(M, pa, pb)
        d = 'the box %s..%s' % (pa, pb)
    else:
        ctr = float(rng.uniform(lo[0] - 0.3, hi[0] + 0.3))
        rad = float(rng.uniform(0, 1.2 * (hi[0] - lo[0])))
        if rng.random() < 0.2:
            rad = abs(float(mid[rng.integers(0, geo.nc)][0]) - ctr)
        dist = np.abs(mid[:, 0] - ctr)
        want = set(np.nonzero(dist <= rad + 1e-13)[0].tolist())
        edge = set(np.nonzero((dist > rad + 1e-13) & (dist <= rad + tol))[0].tolist())
        make = lambda: SphericalRegion_C(M, ctr, rad)
        d = 'the ball of radius %r around %r' % (rad, ctr)
    if not want:
        if edge:
            return
        try:
            with W.quiet():
                r = make()
        except RuntimeError:
            R.expect(True, '')
            return
        R.expect(r.ncell == 0, '%s contains no cell midpoint but selects %d cells' % (d, r.ncell))
        return
    with W.quiet():
        r = make()
    got = [int(c) for c in r.cell_index]
    R.expect(len(got) == r.ncell == len(r.cell_list) == len(r.volume), '%s: ncell %d, lists of %d, %d, %d' % (d, r.ncell, len(got), len(r.cell_list), len(r.volume)))
    R.expect(len(set(got)) == len(got), '%s: a cell appears twice in %s' % (d, got))
    R.expect(set(got) - edge == want, lambda: '%s of a %s mesh: selected cells %s, midpoints inside: %s (midpoints %s)' % (d, coord, sorted(got), sorted(want), mid[sorted(set(got) ^ want)].tolist()))
    for i, c in enumerate(got):
        R.expect(r.cell_list[i].index() == c, 'entry %d: cell_index %d, cell_list %d' % (i, c, r.cell_list[i].index()))
        v = volume(coord, geo, c)
        R.expect(abs(r.volume[i] - v) <= 1e-9 * v + 1e-15, lambda: '%s: volume of cell %d is given as %r, it is %r' % (d, c, float(r.volume[i]), v))
        R.expect(np.abs(r.midpoint[i][:dim] - mid[c]).max() < 1e-12, lambda: '%s: midpoint of cell %d is given as %s, it is %s' % (d, c, r.midpoint[i], mid[c]))
        k = int(rng.integers(0, geo.nc))
        R.expect(bool(r.in_cell(mid[c], i)), '%s: the midpoint of cell %d is not in it' % (d, c))
        if k != c:
            q = np.zeros(3)
            q[:dim] = mid[k]
            R.expect(not r.in_cell(q[:dim], i), '%s: the midpoint of cell %d is reported in cell %d' % (d, k, c))


def run(R):
    i = 0
    top = 800 if R.tier == 'quick' else 20000
    while R.more() and i < top:
        coord = ['cartesian_x', 'cartesian_xy', 'cartesian_xyz', 'spherical_r'][i % 4]
        kind = ['box', 'box', 'whole', 'ball'][(i // 4) % 4]
        if kind == 'ball' and coord not in ('spherical_r', 'cartesian_x'):
            kind = 'box'
        seed = R.seed * 1000003 + i
        with R.case('%s %s' % (coord, kind), scenario_seed=seed):
            case(R, seed, coord, kind)
        i += 1
