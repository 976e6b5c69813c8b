"""G02: point location, inside tests and initial cell assignment against barycentric coordinates."""
import numpy as np
import world as W
import movers as V
from oracle import Geo
from h_G01 import mesh_for
RULE = ('random meshes in 1-3 dimensions; points inside cells, near and on facets, in neighbouring and remote cells and outside the mesh; '
        'the located cell must contain the point, a point outside must not get a cell, inside tests of Python and C++ must agree with '
        'barycentric coordinates (points within 1e-9 of the surface may go either way, exact vertices and dyadic facet points must be inside)')


def run(R):
    import dolfin_functions_solib as S
    from Dolfin_Module import Mesh_C
    i = 0
    top = 60 if R.tier == 'quick' else 800
    while R.more() and i < top:
        seed = R.seed * 15485863 + i
        rng = np.random.default_rng(seed)
        m, cs, lo, hi = mesh_for(rng, i)
        geo = Geo(m)
        g = geo.g
        with R.case('%dD' % g, mesh_seed=seed, cells=geo.nc):
            with W.quiet():
                M = Mesh_C(Mesh=m, coordinate_system=cs, compute_dictionaries=True, compute_cpp_arrays=True, compute_tree=True)
            for _ in range(60):
                c = int(rng.integers(0, geo.nc))
                lam = rng.dirichlet(np.ones(geo.t + 1))
                k = int(rng.integers(0, 6))
                if k == 1:
                    lam[rng.integers(0, geo.t + 1)] = float(rng.choice([1e-6, 1e-4]))
                    lam /= lam.sum()
                x = lam @ geo.X[geo.C[c]]
                if k == 2:
                    x = x + rng.normal(size=g) * np.ptp(geo.X, axis=0) * float(rng.choice([0.02, 0.3, 1.0]))
                if k == 3:      # just outside one facet
                    j = int(rng.integers(0, geo.t + 1))
                    lam[j] = -float(rng.choice([1e-6, 1e-3, 0.2]))
                    lam += (1 - lam.sum()) / (geo.t + 1) * 0
                    lam[(j + 1) % (geo.t + 1)] += 1 - lam.sum()
                    x = lam @ geo.X[geo.C[c]]
                cells = [c] + [int(v) for v in rng.integers(0, geo.nc, 2)] + [q for q in (geo.neighbor(c, f) for f in geo.cell_facets[c]) if q >= 0]
                for q in cells:
                    b = geo.bary(q, x).min()
                    py = bool(M.is_inside_cell(x, q))
                    cp = bool(S.is_inside_vertices(m, [int(v) for v in geo.C[q]], [float(v) for v in x]))
                    if abs(b) > 1e-9:
                        R.expect(py == (b > 0), lambda: 'Python inside test of point %s in cell %d says %s (smallest barycentric coordinate %g)' % (list(x), q, py, b))
                        R.expect(cp == (b > 0), lambda: 'C++ inside test of point %s in cell %d says %s (smallest barycentric coordinate %g)' % (list(x), q, cp, b))
                inside = any(geo.bary(q, x).min() > -1e-9 for q in range(geo.nc))
                surely_out = all(geo.bary(q, x).min() < -1e-9 for q in range(geo.nc))
                with W.quiet():
                    try:
                        loc = M.compute_cell_index(x)
                    except (SystemExit, Exception) as e:  # noqa
                        loc = e
                if surely_out:
                    R.expect(isinstance(loc, BaseException) or int(loc) == -1, lambda: 'point %s is outside the mesh and was given cell %r' % (list(x), loc))
                else:
                    R.expect(not isinstance(loc, BaseException), lambda: 'point %s is in the mesh; locating it raised %r' % (list(x), loc))
                    R.expect(0 <= int(loc) < geo.nc and geo.bary(int(loc), x).min() > -1e-9, lambda: 'point %s was located in cell %r, which does not contain it' % (list(x), loc))
            # vertices are in the closed cell
            for q in rng.integers(0, geo.nc, 6):
                for v in geo.C[int(q)]:
                    x = geo.X[v]
                    R.expect(bool(M.is_inside_cell(x, int(q))), lambda: 'vertex %s of cell %d is not inside it (Python)' % (list(x), q))
                    R.expect(bool(S.is_inside_vertices(m, [int(t) for t in geo.C[int(q)]], [float(t) for t in x])), lambda: 'vertex %s of cell %d is not inside it (C++)' % (list(x), q))
        # initial assignment
        coord = {1: 'spherical_r' if cs != 'Cartesian' else 'cartesian_x', 2: 'cartesian_xy', 3: 'cartesian_xyz'}[g]
        for cpp in (False, True):
            with R.case('%dD initial assignment %s' % (g, 'C++ storage' if cpp else 'Python storage'), mesh_seed=seed):
                w = W.World(coord, None, cpp=cpp, seglen=int(rng.choice([1, 2, 5, 100])), species=(('a', 1.0, 1.0), ('b', 1.0, 1.0)))
                w.P.pmesh_M = M
                for sn in ('a', 'b'):
                    for c, x in V.random_points(geo, rng, int(rng.integers(0, 12))):
                        w.put(sn, x, [0.0] * g, cell=-1, uid=1)
                with W.quiet():
                    w.P.compute_mesh_cell_indices()
                for sn in ('a', 'b'):
                    for k, r in enumerate(w.read(sn)):
                        x = [float(r[q]) for q in W.COORDS[coord]]
                        R.expect(geo.inside(int(r['cell_index']), x), lambda: 'particle %d of species %s at %s was assigned cell %d' % (k, sn, x, r['cell_index']))
        i += 1
