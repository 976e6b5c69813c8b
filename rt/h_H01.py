"""H01: counts, sums and histories against the particle list the harness keeps itself."""
import numpy as np
import world as W
import movers as V
from storage import populate, update_pass
RULE = ('random storage histories (appends, passes with deletions, emptied storage; segment lengths 1..100; Python and C++ storage; 1-3 species): '
        'counts, species number and kinetic energy against the particle list; history recording over random sequences of steps and deletions, with '
        'and without a limit on the number of points')


def sums(pop, sn, m):
    num = sum(q[2] for q in pop[sn])
    ke = 0.5 * m * sum(q[2] * float(q[1] @ q[1]) for q in pop[sn])
    return len(pop[sn]), num, ke


def compare(R, w, pop, species, where):
    tot = 0
    for sn, q, m in species:
        n, num, ke = sums(pop, sn, m)
        tot += n
        with W.quiet():
            g = w.P.get_species_particle_count(sn, print_flag=bool(n % 2)), float(w.P.get_species_number(sn)), float(w.P.get_species_KE(sn))
        R.expect(int(g[0]) == n, lambda: '%s: species %s has %d particles, the count is %r' % (where, sn, n, g[0]))
        R.expect(abs(g[1] - num) <= 1e-10 * num, lambda: '%s: species %s with %d particles: sum of weights %r, reported %r' % (where, sn, n, num, g[1]))
        R.expect(abs(g[2] - ke) <= 1e-10 * ke, lambda: '%s: species %s with %d particles: kinetic energy %r, reported %r' % (where, sn, n, ke, g[2]))
    with W.quiet():
        t = w.P.get_total_particle_count(print_flag=bool(tot % 2))
    R.expect(int(t) == tot, lambda: '%s: %d particles in all, the total count is %r' % (where, tot, t))


def case(R, seed, coord, cpp, hist):
    from RecordedData_Module import ParticleHistoryInput_C, ParticleHistory_C
    rng = np.random.default_rng(seed)
    dim = V.DIM[coord]
    L = int(rng.choice([1, 2, 3, 5, 8, 100]))
    species = [('a', -1.5, 1.0), ('b', 2.0, 3.0), ('neutral_c', 0.0, 0.5)][:int(rng.integers(1, 4))]
    w = W.World(coord, None, cpp=cpp, seglen=L, species=species)
    where = '%s storage, segment length %d' % ('C++' if cpp else 'Python', L)
    pop = populate(w, rng, [s[0] for s in species], dim, L)
    before = {s[0]: w.read(s[0]).tobytes() for s in species}
    compare(R, w, pop, species, where)
    compare(R, w, pop, species, where + ', asked again')
    for s in species:
        R.expect(w.read(s[0]).tobytes() == before[s[0]], where + ': asking for the sums changed the particles')
    if not hist:
        return
    ctrl = W.make_ctrl(0.25)
    ctrl.n_timesteps = int(rng.integers(1, 30))
    hin = ParticleHistoryInput_C()
    hin.max_points = None if rng.random() < 0.5 else int(rng.integers(1, 40))
    names = ['count', 'KE']
    hin.scalar_histories = [names[k] for k in rng.permutation(2)[:int(rng.integers(1, 3))]]
    with W.quiet():
        H = w.P.histories = ParticleHistory_C(hin, ctrl, w.P.history_function_dict, w.P.species_names)
    if hin.max_points is not None:
        R.expect(1 <= len(H.data_array) <= hin.max_points, lambda: '%d history points for a limit of %d' % (len(H.data_array), hin.max_points))
        R.expect(len(H.data_array) == len(range(0, ctrl.n_timesteps + 1, H.skip)), lambda: '%d history points for %d steps recorded every %d' % (len(H.data_array), ctrl.n_timesteps, H.skip))
    else:
        R.expect(H.skip == 1 and len(H.data_array) == ctrl.n_timesteps + 1, lambda: '%d history points (skip %d) for %d steps' % (len(H.data_array), H.skip, ctrl.n_timesteps))
    want = []
    for step in range(0, ctrl.n_timesteps + 1, H.skip):
        if rng.random() < 0.3:
            sn = species[int(rng.integers(0, len(species)))][0]
            if pop[sn]:
                keep = [bool(rng.random() < 0.7) for _ in pop[sn]]
                update_pass(w.P.sap_dict[sn], L, keep)
                pop[sn] = [q for q, k in zip(pop[sn], keep) if k]
        t = 0.125 * step + 1.0
        with W.quiet():
            w.P.record_history_data(step, t)
        row = dict(step=step, t=t)
        for h in hin.scalar_histories:
            row[h] = 0.0
            for sn, q, m in species:
                n, num, ke = sums(pop, sn, m)
                v = {'count': n, 'KE': ke}[h]
                row[sn + '_' + h] = v
                row[sn + '_ppp_' + h] = v / max(num, 1)
                row[h] += v
        want.append(row)
    R.expect(H.counter == len(want), '%d history records after %d recordings' % (H.counter, len(want)))
    for i, row in enumerate(want):
        for k, v in row.items():
            g = float(H.data_array[k][i])
            R.expect(abs(g - v) <= 1e-5 * abs(v) + 1e-30, lambda: 'history record %d, entry %s: %r, expected %r' % (i, k, g, v))


def run(R):
    i = 0
    top = 400 if R.tier == 'quick' else 20000
    while R.more() and i < top:
        coord = ['cartesian_x', 'cartesian_xy', 'cartesian_xyz', 'spherical_r'][i % 4]
        cpp = bool((i // 4) % 2)
        hist = bool((i // 8) % 2)
        seed = R.seed * 1000003 + i
        with R.case('%s %s storage%s' % (coord, 'C++' if cpp else 'Python', ', histories' if hist else ''), scenario_seed=seed):
            case(R, seed, coord, cpp, hist)
        i += 1
