"""Random storage histories: appends and update passes that drop some particles; keeps the expected sequence."""
import numpy as np


def update_pass(sap, L, keep):
    """One in/out pass that keeps the particles with keep[i]; returns the number kept."""
    n, segIn, segOut = sap.init_inout_loop()
    io = cnt = idx = 0
    while isinstance(segIn, np.ndarray):
        for i in range(n):
            if keep[idx]:
                if io == L:
                    segOut = sap.get_next_out_segment()
                    segOut = segOut[0] if isinstance(segOut, tuple) else segOut
                    io = 0
                segOut[io] = segIn[i]
                io += 1
                cnt += 1
            idx += 1
        n, segIn = sap.get_next_segment('in')
    sap.set_number_of_items('out', cnt)
    return cnt


def populate(w, rng, species, dim, L, nmax=14, cell=0, flags=0):
    """Fills the storages through a random history; returns {species: [(x, u, w, flags, cell, uid)]}."""
    pop, uid = {}, [1]
    for sn in species:
        lst = []
        for rnd in range(int(rng.integers(1, 4))):
            N = int(rng.integers(0, nmax))
            if rng.random() < 0.35 and L < 20:
                N = L * int(rng.integers(0, 4))
            for _ in range(N):
                x, u = rng.normal(size=dim), rng.normal(size=dim) * float(rng.choice([0.0, 1.0, 100.0]))
                wt = float(rng.random()) * 10 ** float(rng.integers(-2, 5))
                w.put(sn, x, u, w=wt, cell=cell, uid=uid[0], flags=flags)
                lst.append((x, u, wt, flags, cell, uid[0]))
                uid[0] += 1
            if rng.random() < 0.6:
                p = float(rng.choice([0.0, 0.3, 0.7, 1.0]))
                keep = [bool(rng.random() < p) for _ in lst]
                update_pass(w.P.sap_dict[sn], L, keep)
                lst = [q for q, k in zip(lst, keep) if k]
        pop[sn] = lst
    return pop
