"""H01: sums over the stored particles (Particle_Module.py) and the history records."""
import z3
import val
from val import atom, lift, BoolV, And, Or, Not, Implies, Ite, Unsupported, zb, Num
from ctx import PathEnd, PyRaise
from interp import Module, Interp, Obj, Model, Opaque, Func
from models import Arr
from job import job
from contracts import _store as S
from contracts._mover import uf, INT, REAL
from contracts.movers_py import STUBS, COORDS

FILE = 'Particle_Module.py'
FIELDS = {c: [q for k in (COORDS[c], [x + '0' for x in COORDS[c]], ['u' + x for x in COORDS[c]]) for q in k] + ['weight', 'bitflags', 'cell_index', 'unique_ID', 'crossings'] for c in COORDS}
AS = ['floating-point numbers are treated as real numbers']
TR = ['storage traversal by the contract proved for SegmentedArrayPair_C (property S01)', 'numpy.sum of an array is the sum of its elements', 'finite sums are linear and S(i+1) = S(i) + e(i)']


class Name:
    """The name of species number i of an arbitrary list of species."""

    def __init__(self, i):
        self.i = i

    def __add__(self, o):
        return Key(self, '', o)

    def __radd__(self, o):
        return Key(self, o, '')

    def __str__(self):
        return 'sp'


class Key:
    def __init__(self, n, a, b):
        self.n, self.a, self.b = n, a, b

    def __add__(self, o):
        return Key(self.n, self.a, self.b + o)

    def __radd__(self, o):
        return Key(self.n, o + self.a, self.b)


class Names(Model):
    """species_names: a list of n species."""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.__dict__['n'] = ctx.fresh('number_of_species')
        ctx.assume(self.n >= 0)

    def len_(self):
        return self.n

    def sym_iter(self, I):
        return S.Iter(0, self.n, lambda i: Name(i))

    def getitem(self, k):
        self.ctx.prove('species index in range', And(k >= 0, k < self.n))
        return Name(k)


class BySpecies:
    def __init__(self, f):
        self.f = f

    def getitem(self, k):
        if not isinstance(k, Name):
            raise Unsupported('species key')
        return self.f(k.i)


class P:
    """A Particle_C object with an arbitrary number of species, each with its own storage."""

    def __init__(self, ctx, coord='cartesian_xyz'):
        self.ctx, self.coord = ctx, coord
        self.coords = COORDS[coord]
        self.stores, self.contracts = {}, {}
        self.L = ctx.fresh('L')
        ctx.assume(self.L >= 1)
        self.names = Names(ctx)
        self.more = []
        self.I = Interp(STUBS, self.contracts, S.inv(lambda: list(self.stores.values()), lambda env, entry, locs: [c for m in self.more for c in m(env, entry, locs)]))
        self.cls = Module.load(FILE, STUBS).lookup('Particle_C')
        self.obj = Obj(ctx, self.cls, species_names=self.names, sap_dict=BySpecies(self.store), mass=BySpecies(lambda i: atom(uf('mass', INT, REAL)(lift(i).z()))),
                       charge=BySpecies(lambda i: atom(uf('charge', INT, REAL)(lift(i).z()))), velocity_coordinates=['u' + c for c in self.coords],
                       phase_coordinates=FIELDS[coord][:3 * len(self.coords)], position_coordinates=list(self.coords), particle_dimension=len(self.coords), SEGMENT_LENGTH=self.L)

    def nitems(self, i):
        return atom(uf('nitems', INT, INT)(lift(i).z()))

    def mass(self, i):
        return atom(uf('mass', INT, REAL)(lift(i).z()))

    def store(self, i):
        k = frozenset(lift(i).p.items())
        if k not in self.stores:
            s = S.Store(self.ctx, FIELDS[self.coord], self.L, tag='_sp', N=self.nitems(i), extra=(i,))
            s.__dict__['tag'] = '_sp'
            s.__dict__['label'] = i
            s.accs.append(('sum of weights', lambda k, s=s: S.sums(self.ctx).prefix(lambda j: s.In('weight', j), k)))
            for sub in range(1, len(self.coords) + 1):
                s.accs.append(('sum of weight * u^2', lambda k, s=s, sub=sub: S.sums(self.ctx).prefix(lambda j: self.ke(s, j), k)))
                s.accs.append(('sum of m w u^2 / 2', lambda k, s=s, sub=sub: S.sums(self.ctx).prefix(lambda j: self.ke(s, j), k) * self.mass(s.label) * Fr(1, 2)))
                break
            self.stores[k] = s
        return self.stores[k]

    def ke(self, s, j):
        e = 0
        for c in self.coords:
            u = s.In('u' + c, j)
            e = e + s.In('weight', j) * u * u
        return e

    def number(self, i):
        s = self.store(i)
        return S.sums(self.ctx).prefix(lambda j: s.In('weight', j), s.N0)

    def energy(self, i):
        s = self.store(i)
        return self.mass(i) * S.sums(self.ctx).prefix(lambda j: self.ke(s, j), s.N0) * Fr(1, 2)

    def call(self, name, *args, **kw):
        r = self.cls.find(name)
        if r is None:
            raise Unsupported('no method ' + name)
        return self.I.call_func(Func(r[0].mod, r[1], r[0]), [self.obj] + list(args), kw)


from fractions import Fraction as Fr      # noqa

for _c in COORDS:
    @job('get_species_number, get_species_KE %s' % _c, ['H01'], functions=[FILE + ':Particle_C.get_species_number', FILE + ':Particle_C.get_species_KE'], trusted=TR, assumptions=AS, reach=['sums done'])
    def _(ctx, c=_c):
        p = P(ctx, c)
        sp = ctx.fresh('species')
        nm = Name(sp)
        if ctx.choose('which'):
            ctx.prove('H01: the species number is the sum of the stored weights', p.call('get_species_number', nm) == p.number(sp))
        else:
            ctx.prove('H01: the species kinetic energy is the sum of m w u^2 / 2 over the stored particles', p.call('get_species_KE', nm) == p.energy(sp))
        ctx.reach('sums done')


@job('particle counts', ['H01'], functions=[FILE + ':Particle_C.get_species_particle_count', FILE + ':Particle_C.get_total_particle_count'], trusted=TR[:1] + TR[2:], assumptions=AS, reach=['counts done'])
def _(ctx):
    p = P(ctx)
    sp = ctx.fresh('species')
    tot = lambda k: S.sums(ctx).prefix(p.nitems, k)      # noqa

    def more(env, entry, locs):
        out = []
        for n, v in locs:
            for m, w in locs:
                if n != m and isinstance(v, Num) and isinstance(w, Num) and v.i and w.i:
                    out.append(('%s is the count of the species before %s' % (n, m), lambda v=v, w=w: v == tot(w)))
        return out
    p.more.append(more)
    old = p.names.sym_iter

    def it(I):
        def item(i):
            S.sums(ctx).at(i)
            return Name(i)
        return S.Iter(0, p.names.n, item)
    p.names.__dict__['sym_iter'] = it
    if ctx.choose('which'):
        ctx.prove('H01: the species count is the number of stored particles', p.call('get_species_particle_count', Name(sp)) == p.nitems(sp))
    else:
        ctx.prove('H01: the total count is the sum over the species', p.call('get_total_particle_count') == tot(p.names.n))
    ctx.reach('counts done')


class Hist(Model):
    """histories.data_array: the followed row and column only."""

    def __init__(self, ctx, cols, npoints):
        super().__init__(ctx)
        self.__dict__.update(cols=cols, n=npoints, wsp=ctx.fresh('watched_species'), wrow=ctx.fresh('watched_row'))
        for c in cols:
            self.cells[c] = ctx.fresh('old_' + c, 'real')

    def kind(self, key):
        """column -> (kind, species or None)"""
        if isinstance(key, str):
            return key, None
        if isinstance(key, Key) and key.a == '':
            return '*' + key.b, key.n.i
        raise Unsupported('history column')

    def getitem(self, key):
        k, sp = self.kind(key)
        if k not in self.cols:
            raise PyRaise('ValueError', 'no field %r' % k)
        return HCol(self, k, sp)


class HCol(Model):
    def __init__(self, h, k, sp):
        super().__init__(h.ctx)
        self.__dict__.update(h=h, k=k, sp=sp)

    def on(self, i):
        self.ctx.prove('H01: history points are written inside the array', And(i >= 0, i < self.h.n))
        c = BoolV(zb(lift(i) == self.h.wrow))
        if self.sp is not None:
            c = And(c, self.sp == self.h.wsp)
        return bool(c)

    def setitem(self, i, v):
        if self.on(i):
            self.h.put(self.k, lift(v))

    def getitem(self, i):
        if self.on(i):
            return self.h.get(self.k)
        return self.ctx.fresh('other', 'real')


def hist_job(hists):
    @job('record_history_data %s' % '+'.join(hists), ['H01'], functions=[FILE + ':Particle_C.record_history_data'], trusted=TR[2:] + ['the diagnostics by their contracts (jobs above)', 'NumPy structured array access'],
         assumptions=AS, reach=['record made'])
    def _(ctx):
        p = P(ctx)
        V = {h: (lambda i, h=h: atom(uf('value_' + h, INT, REAL)(lift(i).z()))) for h in hists}
        npts = ctx.fresh('npoints')
        counter = ctx.fresh('counter')
        ctx.assume(And(counter >= 0, counter < npts))
        cols = ['step', 't'] + [x for h in hists for x in (h, '*_' + h, '*_ppp_' + h)]
        da = Hist(ctx, cols, npts)
        old = dict(da.cells)
        ho = Obj(ctx, None, counter=counter, data_array=da, scalar_histories=list(hists))
        p.obj.cells['histories'] = ho
        p.obj.cells['history_function_dict'] = {'species_' + h: (lambda slf, nm, h=h: V[h](nm.i)) for h in hists}
        num = lambda i: atom(uf('number', INT, REAL)(lift(i).z()))      # noqa
        p.contracts['Particle_C.get_species_number'] = lambda I, slf, nm: num(nm.i)
        step, time = ctx.fresh('step'), ctx.fresh('time', 'real')
        SS = S.sums(ctx)

        def item(i):
            SS.at(i)
            return Name(i)
        p.names.__dict__['sym_iter'] = lambda I: S.Iter(0, p.names.n, item)
        hot = And(da.wrow == counter, da.wsp >= 0, da.wsp < p.names.n)

        def ok(h, kk):
            i, v = da.wsp, da.get(kk + h)
            if kk == '*_':
                return v == V[h](i)
            return And(Implies(num(i) > 1, v * num(i) == V[h](i)), Implies(num(i) <= 1, v == V[h](i)))

        def more(env, entry, locs):
            out = []
            idx = [(n, v) for n, v in locs if isinstance(v, Num) and v.i]
            for h in hists:
                for n, v in locs:
                    if isinstance(v, (Num, Fr)):
                        for m, w in idx:
                            if m != n:
                                out.append(('%s is the sum of %s before %s' % (n, h, m), lambda v=v, w=w, h=h: v == SS.prefix(V[h], w)))
                for m, w in idx:
                    for kk in ('*_', '*_ppp_'):
                        out.append(('%s%s recorded for the species before %s' % (kk, h, m), lambda w=w, h=h, kk=kk: Implies(And(da.wrow == counter, da.wsp >= 0, da.wsp < w), ok(h, kk))))
                out.append(('other rows of %s' % h, lambda h=h: Implies(da.wrow != counter, And(da.get('*_' + h) == old['*_' + h], da.get('*_ppp_' + h) == old['*_ppp_' + h]))))
            return out
        p.more.append(more)
        p.call('record_history_data', step, time)
        ctx.reach('record made')
        ctx.prove('H01: one point is added', ho.cells['counter'] == counter + 1)
        ctx.prove('H01: the point carries its step and time', Implies(da.wrow == counter, And(da.get('step') == step, da.get('t') == time)))
        for h in hists:
            ctx.prove('H01: the value of each species is recorded', Implies(hot, ok(h, '*_')))
            ctx.prove('H01: the value per physical particle is recorded', Implies(hot, ok(h, '*_ppp_')))
            ctx.prove('H01: the sum over the species is recorded', Implies(da.wrow == counter, da.get(h) == SS.prefix(V[h], p.names.n)))
        for c in cols:
            ctx.prove('H01: earlier and later points are not touched', Implies(da.wrow != counter, da.get(c) == old[c]))


hist_job(['count'])
hist_job(['count', 'KE'])


@job('history points', ['H01'], functions=['RecordedData_Module.py:History_C.__init__'], trusted=['int() of a non-negative quotient rounds down'], assumptions=[], reach=['limits'])
def _(ctx):
    mod = Module.load('RecordedData_Module.py', STUBS)
    I = Interp(STUBS, {})
    n = ctx.fresh('n_timesteps')
    ctx.assume(n >= 0)
    mx = None if ctx.choose('no limit') else ctx.fresh('max_points')
    if mx is not None:
        ctx.assume(mx >= 1)
    hin = Obj(ctx, None, max_points=mx, scalar_histories=['count'])
    ctrl = Obj(ctx, None, n_timesteps=n)
    o = I.call(mod.lookup('History_C'), [hin, ctrl])
    ctx.reach('limits')
    sk, np_ = o.cells['skip'], o.cells['npoints']
    ctx.prove('H01: recording starts with no point', o.cells['counter'] == 0)
    ctx.prove('H01: the interval is at least one step', sk >= 1)
    ctx.prove('H01: every multiple of the interval from 0 to the last step has a point', And(n < np_ * sk, (np_ - 1) * sk <= n))
    if mx is not None:
        # skip = floor(n/mx) + 1 > n/mx, so floor(n/skip) < mx + 1
        ctx.prove('H01: no more points than requested are kept, besides the initial one', np_ <= mx + 1)
