"""O01: particle output file read back and compared with the particle list the harness keeps itself."""
import os, tempfile, shutil
import numpy as np
import world as W
import movers as V
from storage import populate, update_pass
RULE = ('random populations (several species, empty species, segment lengths 1..100, Python and C++ storage), random attribute selections and '
        'orders, several writes with deletions/additions in between and repeated writes on one step; the HDF5 file is read back with h5py')


def case(R, seed, coord, cpp):
    import h5py
    rng = np.random.default_rng(seed)
    dim = V.DIM[coord]
    L = int(rng.choice([1, 2, 3, 5, 8, 100]))
    species = [('a', -1.5, 1.0), ('b', 2.0, 3.0), ('neutral_c', 0.0, 0.5)][:int(rng.integers(1, 4))]
    w = W.World(coord, None, cpp=cpp, seglen=L, species=species)
    P = w.P
    where = '%s storage, segment length %d' % ('C++' if cpp else 'Python', L)
    pop = populate(w, rng, [s[0] for s in species], dim, L)
    tmp = tempfile.mkdtemp(prefix='o01')
    try:
        ctrl = W.make_ctrl(0.25)
        ctrl.title, ctrl.author = 'T', 'A'
        ctrl.particle_output_file = os.path.join(tmp, 'p.h5part')
        allatt = list(P.particle_dtype.names) + ['species_index']
        att = [allatt[k] for k in rng.permutation(len(allatt))[:int(rng.integers(1, len(allatt) + 1))]]
        if rng.random() < 0.5:
            att = [a for a in att if a != 'species_index'] + ['species_index']
        ctrl.particle_output_attributes = tuple(att)
        want = []
        step = int(rng.integers(0, 5))
        with W.quiet():
            P.check_particle_output_parameters(ctrl)
            P.initialize_particle_output_file(ctrl)
        nw = int(rng.integers(1, 5))
        for k in range(nw):
            ctrl.timeloop_count, ctrl.time = step, 0.5 * step + 0.125
            snap = {}
            rec = {sn: w.read(sn) for sn, _, _ in species}
            for a in att:
                if a == 'species_index':
                    snap[a] = [P.species_index[sn] for sn, _, _ in species for _q in pop[sn]]
                else:
                    snap[a] = [r[a].item() for sn, _, _ in species for r in rec[sn]]
            for sn, _, _ in species:
                R.expect([int(r['unique_ID']) for r in rec[sn]] == [q[5] for q in pop[sn]], 'storage lost its contents before the write')
            with W.quiet():
                P.write_particles_to_file(ctrl, close_flag=(k == nw - 1))
            want.append((ctrl.time, snap))
            if k < nw - 1 and rng.random() < 0.5:
                if rng.random() < 0.5:
                    for sn, _, _ in species:
                        if pop[sn]:
                            keep = [bool(rng.random() < 0.6) for _ in pop[sn]]
                            update_pass(P.sap_dict[sn], L, keep)
                            pop[sn] = [q for q, kk in zip(pop[sn], keep) if kk]
                with W.quiet():
                    P.write_particles_to_file(ctrl)
            for sn, _, _ in species:
                if rng.random() < 0.5 and pop[sn]:
                    keep = [bool(rng.random() < 0.6) for _ in pop[sn]]
                    update_pass(P.sap_dict[sn], L, keep)
                    pop[sn] = [q for q, kk in zip(pop[sn], keep) if kk]
                if rng.random() < 0.5:
                    for j in range(int(rng.integers(0, 3 * min(L, 8)))):
                        x, u = rng.normal(size=dim), rng.normal(size=dim)
                        uid = 10000 + 100 * k + j
                        w.put(sn, x, u, w=float(rng.random()), uid=uid, cell=int(rng.integers(-1, 5)))
                        pop[sn].append((x, u, 0.0, 0, 0, uid))
            step += int(rng.integers(1, 4))
        with h5py.File(ctrl.particle_output_file, 'r') as f:
            gs = sorted(g for g in f.keys())
            R.expect(gs == sorted('Step#%d' % k for k in range(len(want))), lambda: '%s: groups %s after %d writes on new steps' % (where, gs, len(want)))
            for k, (t, snap) in enumerate(want):
                g = f['Step#%d' % k]
                R.expect(float(g.attrs['TimeValue']) == t, lambda: 'group %d is marked with time %r, written at %r' % (k, g.attrs['TimeValue'], t))
                R.expect(sorted(g.keys()) == sorted(snap), lambda: 'group %d has datasets %s, requested %s' % (k, sorted(g.keys()), sorted(snap)))
                for a, v in snap.items():
                    d = np.array(g[a])
                    R.expect(len(d) == len(v) and all(float(p) == float(q) for p, q in zip(d, v)), lambda: '%s: attribute %s of group %d: file %s, particles %s' % (where, a, k, d.tolist(), v))
            for sn, q, m in species:
                R.expect(f.attrs['particle_type_%d' % P.species_index[sn]] == sn, 'species name in the header')
        R.expect(len({P.species_index[s[0]] for s in species}) == len(species), 'two species share a species index')
    finally:
        try:
            P.particle_output_handle.close()
        except Exception:
            pass
        shutil.rmtree(tmp)


def second_file(R, seed, cpp):
    """A second output file opened on the step of the last write must receive that step too."""
    import h5py
    rng = np.random.default_rng(seed)
    w = W.World('cartesian_xy', None, cpp=cpp, seglen=3, species=[('a', -1.0, 1.0)])
    n = int(rng.integers(0, 8))
    for k in range(n):
        w.put('a', rng.normal(size=2), rng.normal(size=2), uid=k, cell=0)
    tmp = tempfile.mkdtemp(prefix='o01')
    try:
        ctrl = W.make_ctrl(0.25)
        ctrl.title, ctrl.author = 'T', 'A'
        ctrl.particle_output_attributes = ('x', 'unique_ID')
        ctrl.timeloop_count = int(rng.integers(0, 9))
        for k in range(2):
            ctrl.particle_output_file = os.path.join(tmp, 'p%d.h5part' % k)
            with W.quiet():
                w.P.initialize_particle_output_file(ctrl)
                w.P.write_particles_to_file(ctrl, close_flag=True)
            with h5py.File(ctrl.particle_output_file, 'r') as f:
                R.expect(list(f.keys()) == ['Step#0'], 'file %d of two opened on step %d: groups %s after its first write' % (k + 1, ctrl.timeloop_count, list(f.keys())))
                R.expect(np.array(f['Step#0']['unique_ID']).tolist() == list(range(n)), 'contents of file %d' % (k + 1))
    finally:
        try:
            w.P.particle_output_handle.close()
        except Exception:
            pass
        shutil.rmtree(tmp)


def run(R):
    i = 0
    for k in range(4):
        with R.case('second file on the same step', scenario_seed=R.seed + k):
            second_file(R, R.seed + k, bool(k % 2))
    top = 300 if R.tier == 'quick' else 10000
    while R.more() and i < top:
        coord = ['cartesian_x', 'cartesian_xy', 'cartesian_xyz', 'spherical_r'][i % 4]
        cpp = bool((i // 4) % 2)
        seed = R.seed * 1000003 + i
        with R.case('%s %s storage' % (coord, 'C++' if cpp else 'Python'), scenario_seed=seed):
            case(R, seed, coord, cpp)
        i += 1
