"""M01: contents of the storage before and after an advance."""
import numpy as np
import world as W
import movers as V
RULE = ('random populations on random simplex meshes (1D/2D/3D), segment lengths 1..100, counts incl. 0 and exact multiples of the segment '
        'length, boundary functions that absorb or reflect, particles already flagged deleted; Python and C++ movers; the surviving particles '
        '(order, identity, weight) are predicted by an independent path tracer')


def names_of(rec):
    return [int(r['unique_ID']) for r in rec]


def check_species(R, s, nm, before_other, pred, label):
    P = s.P
    after = s.world.read(nm)
    want = [r['uid'] for r in pred if r['survive']]
    got = names_of(after)
    R.expect(int(P.get_species_particle_count(nm)) == len(want), lambda: '%s: count is %r after the advance, %d particles should survive; stored ids %r, expected ids %r' % (label, P.get_species_particle_count(nm), len(want), got, want))
    R.expect(got == want, lambda: '%s: stored particle ids %r, expected %r' % (label, got, want))
    w = {r['uid']: r['w'] for r in pred}
    for rec in after:
        R.expect(float(rec['weight']) == w[int(rec['unique_ID'])], lambda: '%s: weight of particle %d changed' % (label, rec['unique_ID']))
        R.expect(int(rec['bitflags']) & 1 == 0, lambda: '%s: a deleted particle is stored' % label)


def raw(s, nm):
    return s.world.read(nm).tobytes()


def mesh_case(R, seed, coord, cpp, kind, entry, **kw):
    s = V.scenario(seed, coord, cpp, kind, **kw)
    V.drop_unclear(s)
    V.fill(s)
    names = [q[0] for q in s.species]
    for rnd in range(2):
        preds = {nm: V.predict(s, nm) for nm in names}
        if entry == 'species':
            for nm in names:
                others = {o: raw(s, o) for o in names if o != nm}
                V.advance(s, nm)
                check_species(R, s, nm, None, preds[nm], 'species %s round %d' % (nm, rnd))
                for o, b in others.items():
                    R.expect(raw(s, o) == b, lambda: 'advancing %s changed species %s' % (nm, o))
        else:
            with W.quiet():
                if kind == 'neutral':
                    s.P.advance_neutral_particles(s.ctrl)
                elif entry == 'all':
                    s.P.advance_charged_particles_in_E_field(s.ctrl, neg_E_field=s.E)
                else:
                    s.P.move_particles_in_electrostatic_field(s.ctrl, neg_E_field=s.E)
            for nm in names:
                check_species(R, s, nm, None, preds[nm], 'all-species advance, %s round %d' % (nm, rnd))
        # second round starts from the survivors
        for nm in names:
            new = []
            for r in preds[nm]:
                if r['survive']:
                    new.append(dict(x=r['pos'], u=r['vel'], w=r['w'], cell=r['cell'], uid=r['uid'], flags=0))
            s.pop[nm] = new
        pr = [r for nm in names for r in V.predict(s, nm)]
        if any(r['gap'] < 1e-6 or r['error'] for r in pr):
            break


def uniform_case(R, seed, cpp, L, N):
    rng = np.random.default_rng(seed)
    w = W.World('cartesian_xyz', None, cpp=cpp, seglen=L, species=(('e', -3.0, 2.0), ('ion', 1.0, 5.0)))
    live = []
    for i in range(N):
        fl = 1 if rng.random() < 0.3 and not cpp else 0    # the C++ uniform mover documents that it deletes nothing
        x, u = rng.normal(size=3), rng.normal(size=3)
        wt = float(rng.integers(1, 99)) / 8
        w.put('e', x, u, w=wt, flags=fl, cell=0, uid=i + 1)
        live.append((i + 1, wt, fl))
    w.put('ion', rng.normal(size=3), rng.normal(size=3), w=2.0, uid=999)
    ctrl = W.make_ctrl(0.5, E0=(1.0, -2.0, 3.0))
    other = w.read('ion').tobytes()
    for rnd in range(3):
        with W.quiet():
            if cpp:
                w.P.particle_solib.advance_charged_species_in_uniform_fields(w.P, 'e', ctrl)
            else:
                w.P.advance_charged_species_in_uniform_fields('e', ctrl)
        live = [t for t in live if not t[2]]
        after = w.read('e')
        R.expect(int(w.P.get_species_particle_count('e')) == len(live), lambda: 'uniform-field mover: count %r, expected %d' % (w.P.get_species_particle_count('e'), len(live)))
        R.expect([(int(r['unique_ID']), float(r['weight'])) for r in after] == [t[:2] for t in live], lambda: 'uniform-field mover: stored %r expected %r' % ([int(r['unique_ID']) for r in after], [t[0] for t in live]))
        R.expect(w.read('ion').tobytes() == other, 'uniform-field mover changed another species')
        if len(live) and rng.random() < 0.5 and not cpp:
            k = int(rng.integers(0, len(live)))
            seg, off = w.P.sap_dict['e'].get_segment_and_offset(k)
            seg[off]['bitflags'] = 1
            live[k] = (live[k][0], live[k][1], 1)


def run(R):
    i = 0
    top = 300 if R.tier == 'quick' else 6000
    while R.more() and i < top:
        coord, cpp, kind = V.CONFIGS[i % len(V.CONFIGS)]
        seed = R.seed * 1000003 + i
        entry = 'species' if cpp else ['species', 'all', 'move'][(i // len(V.CONFIGS)) % 3]
        if cpp and (i // len(V.CONFIGS)) % 3 == 1:
            entry = 'all'
        with R.case('%s %s %s' % ('C++' if cpp else 'Python', coord, kind), scenario_seed=seed, entry=entry):
            mesh_case(R, seed, coord, cpp, kind, entry)
        if i % 3 == 0:
            L = [1, 2, 3, 4, 7][(i // 3) % 5]
            N = [0, L, 2 * L, 3 * L, 2 * L + 1, max(0, 3 * L - 1), 1][(i // 15) % 7]
            cp = bool((i // 3) % 2)
            with R.case('%s uniform field' % ('C++' if cp else 'Python'), scenario_seed=seed, segment_length=L, particles=N):
                uniform_case(R, seed, cp, L, N)
        i += 1
