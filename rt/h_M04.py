"""M04: facet search from random points in random cells, Python and C++, against barycentric geometry."""
import numpy as np
import world as W
import movers as V
RULE = ('random simplex meshes (1D, 2D, 3D, irregular), random start points inside or on the surface of a cell, random, axis-parallel and tiny '
        'displacements that stay in the cell or leave it; the returned facet, fraction and normal are compared with barycentric coordinates; '
        'paths through an edge or vertex accept any facet crossed there')
COORD = {1: ['cartesian_x', 'spherical_r'], 2: ['cartesian_xy'], 3: ['cartesian_xyz']}
_solib = []


def solib():
    if not _solib:
        import dolfin_functions_solib
        _solib.append(dolfin_functions_solib)
    return _solib[0]


def judge(R, geo, c, x0, d, got, label):
    facet, frac, normal = got
    g = geo.g
    A, b = geo.bary_map(c)
    l0, l1 = geo.bary(c, x0), geo.bary(c, np.asarray(x0) + d)
    slope = A @ d
    desc = lambda: '%s: cell %d, start %s, displacement %s -> facet %s fraction %s normal %s' % (label, c, list(x0), list(d), facet, frac, None if normal is None else list(np.ravel(normal)))  # noqa
    if facet == -1:
        R.expect(l1.min() > -1e-9, lambda: desc() + '; the path leaves the cell (barycentric end %s)' % list(l1))
        return
    R.expect(0 <= facet <= g, lambda: desc() + '; no such facet')
    R.expect(l1.min() < 1e-9, lambda: desc() + '; the path does not leave the cell')
    i = (1 - facet) if g == 1 else facet      # 1D: facet k is vertex k, i.e. opposite to the other vertex
    i = {0: 1, 1: 0}[facet] if g == 1 else facet
    fr = float(np.ravel(frac)[0])
    R.expect(-1e-12 <= fr <= 1 + 1e-12, lambda: desc() + '; the fraction is not in [0,1]')
    lc = l0 + fr * slope
    # accuracy of the crossing point in barycentric coordinates grows with the aspect of the path
    tol = 1e-9 * (1 + np.abs(slope).max())
    R.expect(abs(lc[i]) <= tol, lambda: desc() + '; the crossing point is not on facet %d (barycentric %s)' % (facet, list(lc)))
    R.expect(lc.min() >= -tol, lambda: desc() + '; the crossing point is outside the cell (barycentric %s)' % list(lc))
    R.expect(slope[i] < 0, lambda: desc() + '; the path does not leave through facet %d' % facet)
    n = geo.normal(c, i)
    got_n = np.ravel(normal)[:g]
    R.expect(len(got_n) == g and np.abs(got_n - n).max() < 1e-9, lambda: desc() + '; the outward unit normal is %s' % list(n))


def points(geo, rng, c):
    V_ = geo.X[geo.C[c]]
    lam = rng.dirichlet(np.ones(geo.t + 1))
    k = rng.integers(0, 5)
    if k == 0 and geo.t > 1:   # on a facet
        lam[rng.integers(0, geo.t + 1)] = 0
        lam /= lam.sum()
    x0 = lam @ V_
    size = np.ptp(V_, axis=0).max()
    m = 5 if k == 0 and geo.t > 1 else rng.integers(0, 6)      # (a path inside a facet plane is a rounding case)
    d = rng.normal(size=geo.g) * size * float(rng.choice([0.01, 0.3, 1.0, 10.0]))
    if m == 0:
        q = rng.integers(0, geo.g)
        d = np.zeros(geo.g)
        d[q] = float(rng.normal()) * size * 2
    elif m == 1:      # towards a vertex or a point of a facet, beyond it
        w = rng.dirichlet(np.ones(geo.t + 1))
        w[rng.integers(0, geo.t + 1)] = 0
        w /= w.sum()
        d = (w @ V_ - x0) * float(rng.choice([0.5, 0.999, 1.001, 3.0]))
    elif m == 2 and geo.g > 1:   # parallel to a facet
        a, b = rng.choice(geo.t + 1, 2, replace=False)
        d = (V_[a] - V_[b]) * float(rng.normal()) * 3
    return x0, d


def run(R):
    i = 0
    top = 60 if R.tier == 'quick' else 1500
    while R.more() and i < top:
        dim = 1 + i % 3
        rng = np.random.default_rng(R.seed * 7919 + i)
        coord = COORD[dim][(i // 3) % len(COORD[dim])]
        n = {1: [1, 4, 9], 2: [1, 3, 5], 3: [1, 2, 3]}[dim][(i // 3) % 3]
        with R.case('%dD' % dim, mesh_seed=R.seed * 7919 + i, divisions=n):
            M, geo, _ = V.get_mesh(coord, True, n, R.seed * 7919 + i, amount=0.8)
            for _ in range(60):
                c = int(rng.integers(0, geo.nc))
                x0, d = points(geo, rng, c)
                with W.quiet():
                    py = M.find_facet(np.array(x0), np.array(d), c)
                facet = int(py[0])
                judge(R, geo, c, x0, d, (facet, py[1], py[2]), 'Python')
                with W.quiet():
                    f2 = solib().find_facet(M, [float(v) for v in x0], [float(v) for v in d], c)
                r2 = (int(f2[0]), float(f2[1]), np.array(f2[2]) if len(f2) > 2 else None)
                judge(R, geo, c, x0, d, r2, 'C++')
                near = False
                if facet != r2[0]:
                    # only allowed when the path goes through a lower-dimensional corner or ends on the surface
                    lc = geo.bary(c, np.asarray(x0) + float(np.ravel(py[1])[0]) * d)
                    near = True
                    R.expect(np.sort(np.abs(lc))[min(1, geo.t)] < 1e-7 or np.abs(geo.bary(c, np.asarray(x0) + d)).min() < 1e-7 or min(facet, r2[0]) == -1 and geo.bary(c, np.asarray(x0) + d).min() > -1e-9, lambda: 'Python returns facet %d, C++ facet %d (cell %d, start %s, displacement %s)' % (facet, r2[0], c, list(x0), list(d)))
                if not near and facet != -1:
                    R.expect(abs(float(np.ravel(py[1])[0]) - r2[1]) < 1e-9, lambda: 'fractions differ: Python %r C++ %r' % (py[1], r2[1]))
            V._mesh_cache.clear()
        i += 1
