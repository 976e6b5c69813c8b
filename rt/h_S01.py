"""S01: the segmented storage against a plain Python list as oracle (Python and C++ storage)."""
import numpy as np
import world as W
RULE = ('random operation histories (append as array/tuple, indexed read, traversal, in/out update pass with random deletions, '
        'emptying) on the real storage with segment lengths 1..9, compared after every operation with a Python list; a case is one '
        'history; non-trivial when it appends at least one particle')


def dtype_for(coord):
    import Particle_Module as PM  # noqa
    w = W.World(coord, None, seglen=4)
    return w.P.particle_dtype


def make(coord, cpp, L):
    w = W.World(coord, None, cpp=cpp, seglen=L)
    return w.P.sap_dict['e'], w.P.particle_dtype, w


def item(rng, dt, k):
    v = []
    for nm in dt.names:
        if dt[nm].kind == 'f':
            v.append(float(k) + float(rng.integers(1, 1000)) / 1024.0)
        else:
            v.append(int(rng.integers(0, 100)) + (k if nm == 'unique_ID' else 0))
    return tuple(v)


def same(rec, t):
    return tuple(x.item() if hasattr(x, 'item') else x for x in rec) == t


def history(R, coord, cpp, L, nops, seed):
    rng = np.random.default_rng(seed)
    sap, dt, w = make(coord, cpp, L)
    model = []
    k = 0
    log = []

    def where():
        return 'after %s' % (log[-8:],)

    def traverse():
        out = []
        n, seg = sap.init_out_loop()
        guard = 0
        while isinstance(seg, np.ndarray):
            R.expect(0 < n <= L, lambda: 'segment of %r particles (length %d) %s' % (n, L, where()))
            for i in range(n):
                R.expect(int(sap.get_full_index(i, 'out')) == len(out), lambda: 'full index %r of item %d of the traversal %s' % (sap.get_full_index(i, 'out'), len(out), where()))
                out.append(seg[i].copy())
            n, seg = sap.get_next_segment('out')
            guard += 1
            R.expect(guard <= len(model) + 2, lambda: 'traversal does not end ' + where())
        R.expect(n == 0, lambda: 'traversal ended with count %r ' % n + where())
        return out

    def compare(full):
        R.expect(int(sap.get_number_of_items()) == len(model), lambda: 'count is %r, %d particles are stored %s' % (sap.get_number_of_items(), len(model), where()))
        cin, cout = sap.get_capacity()
        sin, sout = sap.get_number_of_segments()
        R.expect(int(cout) == int(sout) * L and int(cin) == int(sin) * L and int(cout) >= len(model), lambda: 'capacity %r segments %r items %d %s' % ((cin, cout), (sin, sout), len(model), where()))
        b = sap.get_number_of_mbytes()
        R.expect(abs(b[1] - cout * dt.itemsize / 1e6) < 1e-12 and abs(b[0] - cin * dt.itemsize / 1e6) < 1e-12, lambda: 'storage size %r Mb for capacity %r %s' % (b, (cin, cout), where()))
        if full:
            for i, t in enumerate(model):
                pseg, off = sap.get_segment_and_offset(i)
                R.expect(0 <= off < L and same(pseg[off], t), lambda: 'particle %d reads %r, stored %r %s' % (i, pseg[off], t, where()))
                if cpp:
                    d = sap.get_item(i)
                    R.expect(all(d[nm] == tt for nm, tt in zip(dt.names, t) if nm in d), lambda: 'get_item(%d) %r != %r %s' % (i, d, t, where()))
                    R.expect(tuple(sap.get_as_tuple(i)) == t, lambda: 'get_as_tuple(%d) %s' % (i, where()))
                    R.expect(tuple(sap.get_as_list(i)) == t, lambda: 'get_as_list(%d) %s' % (i, where()))
                else:
                    R.expect(same(sap.get_item(i), t) and same(sap[i], t), lambda: 'get_item(%d) %r != %r %s' % (i, sap.get_item(i), t, where()))
    compare(True)
    for _ in range(nops):
        op = rng.choice(['push', 'push', 'push', 'pushn', 'trav', 'pass', 'keepall', 'empty', 'read', 'partial', 'modify'])
        if op in ('push', 'pushn'):
            m = 1 if op == 'push' else int(rng.integers(1, 2 * L + 2))
            for _ in range(m):
                t = item(rng, dt, k)
                k += 1
                form = rng.integers(0, 3)
                arg = t if form == 0 else (list(t) if form == 1 and cpp else np.array([t], dtype=dt))
                log.append('append')
                off, full = sap.push_back(arg)
                model.append(t)
                R.expect(int(full) == len(model) - 1 and int(off) == (len(model) - 1) % L, lambda: 'append returned %r, expected index %d %s' % ((off, full), len(model) - 1, where()))
        elif op == 'trav':
            log.append('traverse')
            out = traverse()
            R.expect(len(out) == len(model) and all(same(a, b) for a, b in zip(out, model)), lambda: 'traversal gave %d items, stored %d %s' % (len(out), len(model), where()))
        elif op == 'partial':
            log.append('first segment only')
            sap.init_out_loop()
            for _ in range(int(rng.integers(0, 3))):
                n, seg = sap.get_next_segment('out')
                if not isinstance(seg, np.ndarray):
                    break
        elif op == 'read':
            if model:
                i = int(rng.integers(0, len(model)))
                pseg, off = sap.get_segment_and_offset(i)
                R.expect(same(pseg[off], model[i]), lambda: 'particle %d differs %s' % (i, where()))
        elif op == 'modify':
            if model and not cpp:
                i = int(rng.integers(0, len(model)))
                t = item(rng, dt, k)
                k += 1
                log.append('set item %d' % i)
                sap[i] = t
                model[i] = t
        else:
            keep_p = dict(pass_=rng.random(), keepall=1.0, empty=0.0)['pass_' if op == 'pass' else op]
            log.append('update pass keeping %.2f of %d' % (keep_p, len(model)))
            n, sin, sout = sap.init_inout_loop()
            seen, new = [], []
            io = 0
            guard = 0
            while isinstance(sin, np.ndarray):
                for i in range(n):
                    t = tuple(x.item() for x in sin[i])
                    R.expect(len(seen) < len(model) and same(sin[i], model[len(seen)]), lambda: 'update pass read item %d as %r %s' % (len(seen), sin[i], where()))
                    R.expect(tuple(int(v) for v in sap.get_full_indices(i, min(io, L - 1))) [0] == len(seen), lambda: 'in index of item %d %s' % (len(seen), where()))
                    seen.append(t)
                    if rng.random() < keep_p:
                        if io == L:
                            r = sap.get_next_out_segment()
                            sout = r[0] if isinstance(r, tuple) else r
                            io = 0
                        sout[io] = sin[i]
                        R.expect(int(sap.get_full_index(io, 'out')) == len(new), lambda: 'out index of kept item %d is %r %s' % (len(new), sap.get_full_index(io, 'out'), where()))
                        new.append(t)
                        io += 1
                n, sin = sap.get_next_segment('in')
                guard += 1
                R.expect(guard <= len(model) + 2, lambda: 'update pass does not end ' + where())
            R.expect(len(seen) == len(model), lambda: 'update pass saw %d of %d items %s' % (len(seen), len(model), where()))
            sap.set_number_of_items('out', len(new))
            model[:] = new
        compare(rng.random() < 0.5)
    log.append('final')
    compare(True)
    out = traverse()
    R.expect(len(out) == len(model) and all(same(a, b) for a, b in zip(out, model)), lambda: 'final traversal gave %d items, stored %d' % (len(out), len(model)))


def run(R):
    coords = ['cartesian_xyz', 'cartesian_x', 'cartesian_xy', 'spherical_r']
    reps = 60 if R.tier == 'quick' else 2500
    i = 0
    while R.more() and i < reps * 2:
        cpp = bool(i % 2)
        L = [1, 2, 3, 4, 5, 7, 9][(i // 2) % 7]
        coord = coords[(i // 2) % 4]
        nops = 25 if i % 3 else 60
        seed = R.seed * 100003 + i
        with R.case('cpp storage' if cpp else 'python storage', coordinates=coord, segment_length=L, operations=nops, history_seed=seed):
            with W.quiet():
                history(R, coord, cpp, L, nops, seed)
        i += 1
