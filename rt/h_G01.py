"""G01: mesh tables (Python dictionaries and C++ arrays) against the mesh itself."""
import numpy as np
import dolfin as df
import world as W
import movers as V
from oracle import Geo
RULE = ('random meshes (1D Cartesian and spherical, 2D with all diagonal kinds, 3D; regular and irregular; also meshes refined locally) : every '
        'entry of every table is compared with the vertex coordinates and cell connectivity of the mesh')


def mesh_for(rng, i):
    dim = 1 + i % 3
    spherical = dim == 1 and rng.random() < 0.5
    n = {1: int(rng.integers(1, 12)), 2: [int(rng.integers(1, 6)), int(rng.integers(1, 6))], 3: [int(rng.integers(1, 4)) for _ in range(3)]}[dim]
    lo = [float(v) for v in (rng.random(dim) if spherical else rng.normal(size=dim))]
    hi = [l + float(rng.random()) * 3 + 0.2 for l in lo]
    m = W.box_mesh(dim, n, lo, hi, str(rng.choice(['left', 'right', 'left/right', 'crossed'])))
    if rng.random() < 0.3 and dim > 1:
        mk = df.MeshFunction('bool', m, dim, False)
        for c in range(m.num_cells()):
            mk[c] = bool(rng.random() < 0.3)
        m = df.refine(m, mk)
    if rng.random() < 0.7:
        W.perturb(m, rng, 0.7)
    return m, '1D-spherical-radial' if spherical else 'Cartesian', lo, hi


def check(R, m, cs, lo, hi):
    from Dolfin_Module import Mesh_C
    with W.quiet():
        M = Mesh_C(Mesh=m, coordinate_system=cs, compute_dictionaries=True, compute_cpp_arrays=True, compute_tree=True)
    geo = Geo(m)
    g = geo.g
    R.expect(int(M.gdim) == g and int(M.tdim) == geo.t, 'dimensions of the mesh')
    nc = geo.nc
    for name in ('cell_dict', 'cell_vertices_dict', 'cell_facet_normals_dict', 'cell_neighbors_dict', 'cell_volume_dict'):
        R.expect(sorted(int(k) for k in getattr(M, name).keys()) == list(range(nc)), lambda: '%s does not have one entry per cell' % name)
    R.expect(sorted(M.cell_entity_indices_dict['facet'].keys()) == list(range(nc)), 'facet table does not have one entry per cell')
    vol = 0.0
    no = int(M.NO_CELL)
    vcells = {v: set() for v in range(len(geo.X))}
    for c in range(nc):
        R.expect(int(M.cell_dict[c].index()) == c, lambda: 'cell_dict[%d] is cell %d' % (c, M.cell_dict[c].index()))
        vs = [int(v) for v in M.cell_vertices_dict[c]]
        R.expect(vs == [int(v) for v in geo.C[c]], lambda: 'cell %d: vertices %s, the mesh has %s' % (c, vs, list(geo.C[c])))
        for v in vs:
            vcells[v].add(c)
        fs = [int(f) for f in M.cell_entity_indices_dict['facet'][c]]
        # facet k is opposite vertex k (in 1D the facets are the vertices themselves)
        want = [int(v) for v in geo.C[c]] if g == 1 else geo.cell_facets[c]
        R.expect(fs == want, lambda: 'cell %d: facets %s, expected %s' % (c, fs, want))
        nb = [int(k) for k in M.cell_neighbors_dict[c]]
        R.expect(len(nb) == geo.t + 1, lambda: 'cell %d: %d neighbours' % (c, len(nb)))
        wantnb = [geo.neighbor(c, f) for f in want]
        R.expect(nb == [no if k == -1 else k for k in wantnb], lambda: 'cell %d: neighbours %s through facets %s, expected %s' % (c, nb, fs, wantnb))
        cpp = [int(k) for k in list(M.mea_object.get_cell_neighbors(c))[:geo.t + 1]]
        R.expect(cpp == nb, lambda: 'cell %d: C++ neighbours %s, Python %s' % (c, cpp, nb))
        N = np.asarray(M.cell_facet_normals_dict[c], float).reshape(geo.t + 1, -1)
        flat = np.asarray(list(M.mea_object.get_cell_facet_normals(c)), float)
        for k in range(geo.t + 1):
            i = (1 - k) if g == 1 else k
            n = geo.normal(c, i)
            R.expect(N.shape[1] == g and np.abs(N[k] - n).max() < 1e-10, lambda: 'cell %d facet %d: normal %s, the outward unit normal is %s' % (c, k, list(N[k]), list(n)))
            nk = flat[3 * k:3 * k + g]
            R.expect(np.abs(nk - n).max() < 1e-10, lambda: 'cell %d facet %d: C++ normal %s, the outward unit normal is %s' % (c, k, list(nk), list(n)))
        v = float(M.cell_volume_dict[c])
        if cs == 'Cartesian':
            wv = geo.volume(c)
        else:
            a, b = sorted(float(q) for q in geo.X[geo.C[c]].ravel())
            wv = 4.0 / 3.0 * np.pi * (b ** 3 - a ** 3)
        R.expect(abs(v - wv) <= 1e-11 * abs(wv) + 1e-14, lambda: 'cell %d: volume %r, expected %r' % (c, v, wv))
        vol += v
    tot = float(np.prod(np.subtract(hi, lo))) if cs == 'Cartesian' else 4.0 / 3.0 * np.pi * (hi[0] ** 3 - lo[0] ** 3)
    R.expect(abs(vol - tot) <= 1e-9 * tot, lambda: 'cell volumes add up to %r, the domain has %r' % (vol, tot))
    for v, s in vcells.items():
        R.expect(set(int(k) for k in M.vertex_cells_dict[v]) == s, lambda: 'vertex %d: cells %s, expected %s' % (v, M.vertex_cells_dict[v], s))


def run(R):
    i = 0
    top = 90 if R.tier == 'quick' else 1200
    while R.more() and i < top:
        seed = R.seed * 104729 + i
        rng = np.random.default_rng(seed)
        m, cs, lo, hi = mesh_for(rng, i)
        with R.case('%dD %s' % (1 + i % 3, cs), mesh_seed=seed, cells=m.num_cells()):
            check(R, m, cs, lo, hi)
        i += 1
