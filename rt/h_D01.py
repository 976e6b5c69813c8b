"""D01: deposition on the mesh against sums over the particle list and barycentric basis functions."""
import sys, warnings
import numpy as np
import world as W
import movers as V
RULE = ('random particle sets (several species, segment lengths, deletions in between, Python and C++ storage) deposited on irregular meshes: '
        'vector of the density fields against sums of weights times barycentric coordinates; cell density against weight / volume; charge '
        'density against the sum over species; repeated accumulation')


def scalar_field(M, kind, deg):
    from Dolfin_Module import Field_C
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return Field_C(M, element_type=kind, element_degree=deg, field_type=sys.intern('scalar'))


def vals(F):
    return np.array(F.function.vector().get_local())


class Stub:
    """Stand-in for the (absent) dnt_cpp deposition library: deposits exactly the particles it is given."""

    def __init__(self, dofF, cellF):
        self.dofF, self.cellF = dofF, cellF

    def __getattr__(self, name):
        if name.startswith('interpolate_weights_to_dofs'):
            return lambda seg, fn: [self.dofF.interpolate_delta_function_to_dofs(p) for p in seg]
        if name.startswith('add_weights_to_cells'):
            return lambda seg, fn: [self.cellF.add_weight_to_cell(p) for p in seg]
        if name == 'divide_by_cell_volumes':
            return lambda fn, d: self.cellF.divide_by_cell_volumes()
        raise AttributeError(name)


def case(R, seed, coord, cpp, entry):
    rng = np.random.default_rng(seed)
    dim = V.DIM[coord]
    n = {1: int(rng.integers(1, 9)), 2: int(rng.integers(1, 5)), 3: int(rng.integers(1, 3))}[dim]
    M, geo, _ = V.get_mesh(coord, False, n, seed % 11, diag=['left', 'right', 'crossed'][seed % 3])
    L = int(rng.choice([1, 2, 3, 5, 100]))
    sp = [('a', -1.5, 1.0), ('b', 2.0, 3.0), ('c', 0.0, 1.0)][:int(rng.integers(1, 4))]
    w = W.World(coord, None, cpp=cpp, seglen=L, species=sp)
    w.P.pmesh_M = M
    pop = {}
    for sn, _, _ in sp:
        N = int(rng.integers(0, 14))
        if rng.random() < 0.3:
            N = L * int(rng.integers(0, 4)) if L < 20 else N
        pop[sn] = []
        for k, (c, x) in enumerate(V.random_points(geo, rng, N)):
            if rng.random() < 0.2:
                x = geo.X[geo.C[c][rng.integers(0, geo.t + 1)]] if rng.random() < 0.5 else geo.X[geo.C[c]].mean(axis=0)
            wt = float(rng.random()) * 10 ** float(rng.integers(-3, 6))
            w.put(sn, x, [0.0] * dim, w=wt, cell=c, uid=k + 1)
            pop[sn].append((c, np.array(x), wt))
    # some history: an update pass that drops the last particles (stale records behind the count)
    if rng.random() < 0.4:
        for sn, _, _ in sp:
            sap = w.P.sap_dict[sn]
            if pop[sn]:
                keep = int(rng.integers(0, len(pop[sn]) + 1))
                st = sap.init_inout_loop()
                npSeg, segIn, segOut = st
                io, cnt = 0, 0
                while isinstance(segIn, np.ndarray):
                    for i in range(npSeg):
                        if cnt == keep:
                            break
                        if io == L:
                            segOut = sap.get_next_out_segment()
                            segOut = segOut[0] if isinstance(segOut, tuple) else segOut
                            io = 0
                        segOut[io] = segIn[i]
                        io += 1
                        cnt += 1
                    npSeg, segIn = sap.get_next_segment('in')
                sap.set_number_of_items('out', cnt)
                pop[sn] = pop[sn][:keep]
    dens = {sn: scalar_field(M, 'Lagrange', 1) for sn, _, _ in sp}
    cells = {sn: scalar_field(M, 'DG', 0) for sn, _, _ in sp}
    rounds = int(rng.integers(1, 3))
    start = {}
    for sn, _, _ in sp:
        v0 = float(rng.choice([0.0, 2.0]))
        with W.quiet():
            dens[sn].set_values(v0)
            cells[sn].set_values(0.0)
        start[sn] = v0
        before = w.read(sn).tobytes()
        for r in range(rounds):
            with W.quiet():
                kw = {}
                if r == 0:
                    kw['cell_number_density_F'] = cells[sn]
                kw['dof_number_density_F'] = dens[sn]
                if entry == 'cpp':
                    import Particle_Module as PM
                    PM.dnt_cpp = Stub(dens[sn], cells[sn])
                    w.P.accumulate_number_density_CPP(sn, **kw)
                    del PM.dnt_cpp
                else:
                    w.P.accumulate_number_density(sn, **kw)
        R.expect(w.read(sn).tobytes() == before, 'the deposition changed the particles')
        v = vals(dens[sn])
        want = np.full(len(v), v0)
        dm = dens[sn].function_space.dofmap()
        X = dens[sn].function_space.tabulate_dof_coordinates().reshape(-1, geo.g)
        vert2dof = {}
        for c in range(geo.nc):
            for d in dm.cell_dofs(c):
                k = int(np.argmin(np.abs(geo.X[geo.C[c]] - X[d]).sum(axis=1)))
                vert2dof[int(geo.C[c][k])] = int(d)
        tot = 0.0
        for c, x, wt in pop[sn]:
            lam = geo.bary(c, x)
            for k, vv in enumerate(geo.C[c]):
                want[vert2dof[int(vv)]] += rounds * wt * lam[k]
            tot += wt
        sc = 1 + rounds * sum(t[2] for t in pop[sn])
        R.expect(abs(v.sum() - len(v) * v0 - rounds * tot) <= 1e-10 * sc * (1 + len(v)), lambda: 'species %s: the degrees of freedom add up to %r, the particle weights to %r (%d particles, segment length %d, %d accumulations)' % (sn, v.sum() - len(v) * v0, rounds * tot, len(pop[sn]), L, rounds))
        R.expect(np.abs(v - want).max() <= 1e-10 * sc, lambda: 'species %s: nodal values %s, expected %s' % (sn, list(v), list(want)))
        cv = vals(cells[sn])
        cdm = cells[sn].function_space.dofmap()
        for c in range(geo.nc):
            vol = float(M.cell_volume_dict[c])
            ww = sum(t[2] for t in pop[sn] if t[0] == c) / vol
            got = cv[int(cdm.cell_dofs(c)[0])]
            R.expect(abs(got - ww) <= 1e-11 * (sc / vol), lambda: 'species %s: density of cell %d is %r, weight/volume is %r' % (sn, c, got, ww))
    rho = scalar_field(M, 'Lagrange', 1)
    r0 = float(rng.choice([0.0, -3.0]))
    with W.quiet():
        rho.set_values(r0)
        w.P.accumulate_charge_density_from_particles(dens, rho)
    want = r0 + sum(q * vals(dens[sn]) for sn, q, _ in sp)
    R.expect(np.abs(vals(rho) - want).max() <= 1e-11 * (1 + np.abs(want).max() + sum(abs(q) * np.abs(vals(dens[sn])).max() for sn, q, _ in sp)), lambda: 'charge density %s, expected %s' % (list(vals(rho)), list(want)))


def run(R):
    i = 0
    top = 160 if R.tier == 'quick' else 3000
    while R.more() and i < top:
        coord = ['cartesian_x', 'cartesian_xy', 'cartesian_xyz', 'spherical_r'][i % 4]
        cpp = bool((i // 4) % 2)
        entry = 'cpp' if (i // 8) % 4 == 3 else 'py'
        seed = R.seed * 1000003 + i
        with R.case('%s %s storage%s' % (coord, 'C++' if cpp else 'Python', ' (segment-wise path)' if entry == 'cpp' else ''), scenario_seed=seed):
            case(R, seed, coord, cpp, entry)
        i += 1
