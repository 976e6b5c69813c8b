"""Builds small real worlds (mesh + particles + boundary conditions) out of /repo's own classes.

Runs in /opt/venv/bin/python with PYTHONPATH=/opt/vp/plugin:/repo:/repo/cpp.  Nothing here
re-implements repository code; oracles live in the h_*.py harness files."""
import sys, os, io, contextlib, importlib
import dt_pybind11_bridge  # noqa: F401  (must precede *_solib modules)
import numpy as np
import dolfin as df
df.set_log_level(50)

ELEM_Q, ELEM_M = -1.602e-19, 9.109e-31
COORDS = {'cartesian_x': ['x'], 'spherical_r': ['r'], 'cartesian_xy': ['x', 'y'], 'cartesian_xyz': ['x', 'y', 'z']}


@contextlib.contextmanager
def quiet():
    """Silence Python-level and C++-level stdout."""
    sys.stdout.flush()
    fd = os.dup(1)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        sys.stdout.flush()
        os.dup2(fd, 1)
        os.close(dn)
        os.close(fd)


def box_mesh(dim, n, lo=None, hi=None, diag='left'):
    lo = lo or [0.0] * dim
    hi = hi or [1.0] * dim
    n = [n] * dim if isinstance(n, int) else list(n)
    if dim == 1:
        return df.IntervalMesh(n[0], lo[0], hi[0])
    if dim == 2:
        return df.RectangleMesh(df.Point(*lo), df.Point(*hi), n[0], n[1], diag)
    return df.BoxMesh(df.Point(*lo), df.Point(*hi), *n)


def _signed(mesh):
    c, g = mesh.coordinates(), mesh.geometry().dim()
    return np.array([np.linalg.det(c[v[1:]] - c[v[0]]) if g > 1 else (c[v[1]] - c[v[0]])[0] for v in mesh.cells()])


def perturb(mesh, rng, amount):
    """Displace interior vertices (keeps the domain a box, makes the cells irregular); no cell may flip or become flat."""
    c = mesh.coordinates()
    lo, hi = c.min(axis=0), c.max(axis=0)
    base, v0 = c.copy(), _signed(mesh)
    d = np.zeros_like(c)
    for i in range(len(c)):
        if np.all(c[i] > lo + 1e-9) and np.all(c[i] < hi - 1e-9):
            d[i] = amount * mesh.hmin() * (rng.random(c.shape[1]) - 0.5)
    while True:
        c[:] = base + d
        if np.all(_signed(mesh) / v0 > 0.15):
            return mesh
        d *= 0.7


def make_mesh(mesh, coordinate_system, boundaries=True, names=None, cpp=False, tree=True, dicts=True, interior=None, inv=None):
    """A repository Mesh_C with a particle-boundary marker: one tag per box side.

    names: side-name list in the order xmin,xmax,ymin,ymax,zmin,zmax; interior: {facet: tag}."""
    from Dolfin_Module import Mesh_C
    M = Mesh_C(Mesh=mesh, coordinate_system=coordinate_system, compute_dictionaries=dicts, compute_cpp_arrays=cpp, compute_tree=tree)
    g = mesh.geometry().dim()
    t = mesh.topology().dim()
    if boundaries:
        names = names or ['xmin', 'xmax', 'ymin', 'ymax', 'zmin', 'zmax'][:2 * g]
        box = mesh.coordinates() if inv is None else mesh.coordinates() @ inv.T
        lo, hi = box.min(axis=0), box.max(axis=0)
        mk = df.MeshFunction('size_t', mesh, t - 1, 0)
        mesh.init(t - 1, t)
        for f in df.facets(mesh):
            if len(f.entities(t)) == 1:
                m = f.midpoint().array()[:g]
                m = m if inv is None else inv @ m
                for d in range(g):
                    if abs(m[d] - lo[d]) < 1e-9:
                        mk[f.index()] = 1 << (2 * d)
                    elif abs(m[d] - hi[d]) < 1e-9:
                        mk[f.index()] = 1 << (2 * d + 1)
        bd = {}
        for i, nm in enumerate(names):
            bd[nm] = 1 << i
        if interior:
            for f, (nm, tag) in interior.items():
                mk[f] = tag
                bd[nm] = tag
        M.particle_boundary_marker = mk
        M.particle_boundary_dict = bd
    return M


def make_ctrl(dt, t=0.0, step=1, maxcross=1000, apply_solved=None, apply_ext=None, E0=None):
    from DT_Module import DTcontrol_C
    c = DTcontrol_C()
    c.dt, c.time, c.timeloop_count = dt, t, step
    c.n_timesteps = 100
    c.MAX_FACET_CROSS_COUNT = maxcross
    c.apply_solved_electric_field = apply_solved
    c.apply_random_external_electric_field = apply_ext
    if E0 is not None:
        class V:
            pass
        v = V()
        v.x, v.y, v.z = E0
        c.E0 = v
    return c


class World:
    """particle_P plus what it needs.  species: list of (name, charge, mass)."""

    def __init__(self, coord, mesh_M=None, cpp=False, seglen=100, species=(('e', ELEM_Q, ELEM_M),), bc=None, bcmod=None, force=True, trees=True, fdim=None):
        import Particle_Module as PM
        self.PM = PM
        self.coord, self.cpp = coord, cpp
        PM.Particle_C.SEGMENT_LENGTH = seglen
        pin = PM.ParticleInput_C()
        pin.precision = np.float64
        pin.particle_integration_loop = 'loop-on-particles'
        pin.coordinate_system = coord
        if force:
            pin.force_components = list(COORDS[coord])[:fdim]
            pin.force_precision = np.float64
        pin.use_cpp_integrators = cpp
        pin.particle_species = tuple(PM.ParticleSpecies_C(n, q, m, 'neutral' if q == 0 else 'explicit') for n, q, m in species)
        with quiet():
            self.P = PM.Particle_C(pin, print_flag=False)
            self.mesh_M = mesh_M
            if mesh_M is not None:
                self.P.initialize_particle_mesh(mesh_M)
                self.P.initialize_particle_integration()
                self.set_bc(bc, bcmod)

    def set_bc(self, bc=None, bcmod=None):
        P, M = self.P, self.mesh_M
        if not hasattr(M, 'particle_boundary_dict'):
            return
        with quiet():
            if self.cpp:
                mod = bcmod or {'cartesian_x': 'user_particle_boundary_functions_cartesian_x_solib',
                                'cartesian_xy': 'user_particle_boundary_functions_cartesian_xy_solib',
                                'cartesian_xyz': 'user_particle_boundary_functions_cartesian_xyz_solib',
                                'spherical_r': 'upbfs_spherical_r_solib'}[self.coord]
                B = importlib.import_module(mod)
                self.user = B.UserParticleBoundaryFunctions(P.position_coordinates)
                P.pmesh_bcs = P.particle_solib.ParticleMeshBoundaryConditions(P.species_names, M, self.user, print_flag=False)
            else:
                if bc is None:
                    bc = default_py_bc(self.coord)(P.position_coordinates, P.dx)
                elif isinstance(bc, type):
                    bc = bc(P.position_coordinates, P.dx)
                self.user = bc
                P.pmesh_bcs = self.PM.ParticleMeshBoundaryConditions_C(P.species_names, M, bc, print_flag=False)

    # particles ------------------------------------------------------------------------------
    def put(self, sn, x, u, w=1.0, flags=0, cell=None, uid=0, crossings=0, x0=None):
        x, u = list(x), list(u)
        x0 = x if x0 is None else list(x0)
        if cell is None:
            cell = 0 if self.mesh_M is None else locate(self.mesh_M.mesh, x)
        return self.P.sap_dict[sn].push_back(tuple(x) + tuple(x0) + tuple(u) + (w, flags, cell, uid, crossings))

    def read(self, sn):
        """All stored particles in order, through the public indexed access."""
        return read_sap(self.P.sap_dict[sn])

    def advance(self, sn, ctrl, negE=None, ext=None, accel_only=False):
        P = self.P
        with quiet():
            f = P.integrators[sn]
            if P.charge[sn] == 0.0:
                return f(P, sn, ctrl) if self.cpp else f(sn, ctrl)
            if self.cpp:
                ne = negE.function.cpp_object() if negE is not None else None
                return f(P, sn, ctrl, neg_E_field=ne, external_E_field=None, accel_only=accel_only)
            return f(sn, ctrl, neg_E_field=negE, external_E_field=ext, accel_only=accel_only)


def read_sap(sap):
    n = int(sap.get_number_of_items())
    out = []
    for i in range(n):
        pseg, off = sap.get_segment_and_offset(i)
        out.append(pseg[off].copy())
    if not out:
        return np.zeros(0)
    return np.array(out, dtype=out[0].dtype)


_trees = {}


def locate(mesh, x):
    g = mesh.geometry().dim()
    t = mesh.bounding_box_tree()
    return int(t.compute_first_entity_collision(df.Point(*[float(v) for v in x[:g]])))


def default_py_bc(coord):
    """The repository's own reflect/absorb class for the coordinate system."""
    if coord in ('cartesian_x', 'spherical_r'):
        return importlib.import_module('UserParticles_1D').UserParticleBoundaryFunctions_C
    return importlib.import_module('UserParticles_2D_e').UserParticleBoundaryFunctions_C


def field_from(mesh_M, fn, kind='DG', degree=0):
    """A repository Field_C filled with nodal values fn(x)->tuple (vector)."""
    from Dolfin_Module import Field_C
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        F = Field_C(mesh_M, element_type=kind, element_degree=degree, field_type=sys.intern('vector'))
    g = mesh_M.mesh.geometry().dim()
    V = F.function_space
    xs = V.tabulate_dof_coordinates().reshape(-1, g)
    vals = np.zeros(V.dim())
    nsub = (V.num_sub_spaces() if g > 1 else 1) or 1
    for d in range(nsub):
        dofs = V.sub(d).dofmap().dofs() if nsub > 1 else range(V.dim())
        for k in dofs:
            vals[k] = fn(xs[k])[d]
    F.function.vector().set_local(vals)
    F.function.vector().apply('insert')
    return F


def separate(jobs, timeout=100, workers=6):
    """Run each job (module, function, args) in its own process: the C++ code ends the process on a diagnosed error.
    Yields (job, result); result = ('ok', value) | ('raised', text) | ('exit', code) | ('signal', n) | ('hang', timeout)."""
    import subprocess, json, tempfile
    from concurrent.futures import ThreadPoolExecutor
    code = ("import sys, json, importlib\nm = importlib.import_module(sys.argv[1])\n"
            "try:\n    v = ('ok', getattr(m, sys.argv[2])(*json.loads(sys.argv[3])))\n"
            "except Exception as e:\n    v = ('raised', '%s: %s' % (type(e).__name__, e))\n"
            "json.dump(v, open(sys.argv[4], 'w'))\nimport os; os._exit(0)\n")

    def one(job):
        with tempfile.NamedTemporaryFile(suffix='.json') as t:
            try:
                p = subprocess.run([sys.executable, '-c', code, job[0], job[1], json.dumps(list(job[2])), t.name], timeout=timeout,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            except subprocess.TimeoutExpired:
                return job, ('hang', timeout)
            if p.returncode < 0:
                return job, ('signal', -p.returncode)
            txt = open(t.name).read()
            if txt:
                return job, tuple(json.loads(txt))
            return job, ('exit', p.returncode)
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(one, jobs))
