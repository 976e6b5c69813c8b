"""C01: creation of particles.  Storage of any size; one arbitrary item number w is followed (before the call, or created by it)."""
import z3
import val
from val import atom, lift, BoolV, And, Or, Not, Implies, Ite, Unsupported, zb, Num
from ctx import PathEnd, PyRaise
from interp import Module, Interp, Obj, Model, Opaque, Func, Bound
from models import Arr
from job import job
from contracts import _mover as M, _store as S, _field as F
from contracts import movers_py as MP
from contracts.movers_py import COORDS, RecArr, RecRow
from contracts._mover import uf, INT, REAL, INTF, DEL, TRJ

FILE = 'Particle_Module.py'
AS = ['floating-point numbers are treated as real numbers']
TR = ['storage access by the contract proved for SegmentedArrayPair_C (property S01)', 'NumPy structured arrays and tuples: fields in the order of the particle type']
FN = [FILE + ':Particle_C.__init__', FILE + ':Particle_C.initialize_particle_integration']


class GStore(Model):
    """Storage that grows; item w is followed: its fields, and the calls made for its trajectory."""

    def __init__(self, ctx, sn, fields, L):
        super().__init__(ctx)
        d = self.__dict__
        d.update(sn=sn, fields=list(fields), L=L, w=ctx.fresh('watched_' + sn), N0=ctx.fresh('N0_' + sn))
        ctx.assume(And(self.N0 >= 0, self.w >= 0))
        self.cells['N'] = self.N0
        for f in self.fields:
            self.cells['w_' + f] = self.old(f)
        self.cells.update(ntraj=0, nrec=0, last=None)

    def old(self, f):
        return atom(uf('stored_%s_%s' % (f, self.sn), INT if f in INTF else REAL)())

    def push_back(self, item):
        ctx = self.ctx
        if isinstance(item, RecArr):
            ctx.prove('C01: one particle is added at a time', item.n == 1)
            item = item.getitem(0)
        v = item.fields_(self.fields)
        N = self.get('N')
        if bool(BoolV(zb(lift(N) == self.w))):
            for f in self.fields:
                self.put('w_' + f, v[f])
            if self.__dict__.get('on_push'):
                self.on_push(True, v)
        elif self.__dict__.get('on_push'):
            self.on_push(False, v)
        q, r = ctx.divmod(N, self.L)
        self.put('N', N + 1)
        ctx.memo['pushed_' + self.sn] = (N, v, r)
        return (r, N)

    def get_segment_and_offset(self, i):
        self.ctx.prove('only stored items are addressed', And(i >= 0, i < self.get('N')))
        q, r = self.ctx.divmod(i, self.L)
        return (GSeg(self, q, i, r), r)

    def get_item(self, i):
        self.ctx.prove('only stored items are addressed', And(i >= 0, i < self.get('N')))
        return GRef(self, i)
    getitem = get_item

    def get_number_of_items(self):
        return self.get('N')

    def read(self, f, i):
        p = self.ctx.memo.get('pushed_' + self.sn)
        if p is not None and lift(p[0]).p == lift(i).p:
            return p[1][f]
        if bool(BoolV(zb(lift(i) == self.w))):
            return self.get('w_' + f)
        raise Unsupported('another stored particle is read')

    def unchanged(self):
        return And(*[self.get('w_' + f) == self.old(f) for f in self.fields])


class GSeg(Model):
    def __init__(self, st, q, i, r):
        super().__init__(st.ctx)
        self.__dict__.update(st=st, q=q, i=i, r=r)

    def getitem(self, k):
        if isinstance(k, (str, slice)):
            raise Unsupported('part of a segment')
        self.ctx.prove('reads stay within the stored items', And(k >= 0, k < self.st.L, self.q * self.st.L + k < self.st.get('N')))
        return GRef(self.st, self.i if lift(k).p == lift(self.r).p else self.q * self.st.L + k)


class GRef(Model):
    def __init__(self, st, i):
        super().__init__(st.ctx)
        self.__dict__.update(st=st, i=i)

    def getitem(self, k):
        if isinstance(k, int):
            k = self.st.fields[k]
        if k not in self.st.fields:
            raise PyRaise('ValueError', 'no field %r' % (k,))
        return self.st.read(k, self.i)

    def setitem(self, k, v):
        self.ctx.prove('C01: stored particles are not changed', False)

    def fields_(self, names):
        return {f: self.st.read(f, self.i) for f in names}


class CEnv(MP.Env):
    def __init__(self, ctx, coord, **kw):
        self.stores = {}
        super().__init__(ctx, coord, traj=False, **kw)
        self.I.inv = S.inv(lambda: [], lambda env, entry, locs: self.more(env, entry, locs))

    def more(self, env, entry, locs):
        return []

    def new_sap(self, L, dtype):
        sn = self.names[len(self.worlds)]
        self.stores[sn] = GStore(self.ctx, sn, dtype.names, self.L)
        self.worlds.append(M.World(self.ctx, self.L, dtype.names, len(self.coords), self.coords, sn=sn, tag='_x' + sn))
        return self.stores[sn]

    def set_traj(self, sn):
        """traj_T: None, or an object whose create_trajectory is checked against what is asked for."""
        self.has_traj = bool(self.ctx.choose('a trajectory object exists'))
        st, ctx, e = self.stores[sn], self.ctx, self

        def create(species, index, kind, unique_id_int=None):
            N, v, r = ctx.memo.get('pushed_' + sn, (None, None, None))
            if N is None:
                ctx.prove('C01: a trajectory is created for the particle just stored', False)
                return
            ctx.prove('C01: a trajectory is created for the particle just stored', And(species == sn, lift(index) == N, lift(unique_id_int) == v['unique_ID']))
            ctx.prove('C01: the trajectory is of the right kind', kind == ('neutral' if sn.startswith('neu') else 'charged'))
            if bool(BoolV(zb(lift(N) == st.w))):
                st.put('ntraj', st.get('ntraj') + 1)
        self.obj.cells['traj_T'] = Obj(ctx, None, create_trajectory=create) if self.has_traj else None


class ListItem(Model):
    def __init__(self, l, i):
        super().__init__(l.ctx)
        self.__dict__.update(l=l, i=i)

    def fields_(self, names):
        return {f: self.l.at(k, i=self.i) for k, f in enumerate(names)}

    def getitem(self, k):
        return self.l.at(k, self.i)


class PList(Model):
    """The user's list: n tuples."""

    def __init__(self, ctx, n, fields):
        super().__init__(ctx)
        self.__dict__.update(n=n, fields=fields)

    def at(self, k, i):
        f = self.fields[k]
        return atom(uf('listed_' + f, INT, INT if f in INTF else REAL)(lift(i).z()))

    def getitem(self, i):
        if isinstance(i, slice):
            if i.start not in (None, 0) or i.step is not None:
                raise Unsupported('part of the list')
            m = self.n if i.stop is None else i.stop
            self.ctx.prove('C01: the list is read inside its length', And(m >= 0, m <= self.n))
            return PList(self.ctx, m, self.fields)
        self.ctx.prove('C01: the list is read inside its length', And(i >= 0, i < self.n))
        return ListItem(self, i)

    def len_(self):
        return self.n

    def sym_iter(self, I):
        return S.Iter(0, self.n, self.getitem)


for _c in COORDS:
    @job('create_from_list ' + _c, ['C01'], functions=FN + [FILE + ':Particle_C.create_from_list'], trusted=TR, assumptions=AS, reach=['created'])
    def _(ctx, c=_c):
        e = CEnv(ctx, c)
        sn = 'el' if ctx.choose('species') else 'neu'
        e.set_traj(sn)
        st, other = e.stores[sn], e.stores['neu' if sn == 'el' else 'el']
        n = ctx.fresh('listed')
        ctx.assume(And(n >= 0, st.w < st.N0 + n))
        lst = PList(ctx, n, st.fields)
        asked = []

        def method(type=None):
            asked.append(type)
            return (n, lst)
        e.obj.cells['user_particles_class'] = Obj(ctx, None, **{sn: method})
        new = st.w >= st.N0
        flag = BoolV(zb(And(new, M.eqb(ctx.bit(lst.at(st.fields.index('bitflags'), st.w - st.N0), TRJ), True))))

        def stored():
            return And(*[st.get('w_' + f) == lst.at(k, st.w - st.N0) for k, f in enumerate(st.fields)])
        tracks = flag if e.has_traj else False
        done = lambda: st.w < st.get('N')      # noqa

        def more(env, entry, locs):
            out = [('old particles are kept', lambda: Implies(Not(new), And(st.unchanged(), lift(st.get('ntraj')) == 0))),
                   ('listed particle stored', lambda: Implies(And(new, done()), stored())),
                   ('trajectory made', lambda: Implies(And(new, done()), lift(st.get('ntraj')) == Ite(tracks, 1, 0))),
                   ('trajectory not yet made', lambda: Implies(And(new, Not(done())), lift(st.get('ntraj')) == 0))]
            for nm, v in locs:
                if isinstance(v, Num) and v.i:
                    out.append(('%s particles stored' % nm, lambda v=v: st.get('N') == st.N0 + v))
            return out
        e.more = more
        e.call('create_from_list', sn)
        ctx.reach('created')
        ctx.prove('C01: the listed particles are asked for once', asked == ['listed'])
        ctx.prove('C01: exactly the listed particles are added', st.get('N') == st.N0 + n)
        ctx.prove('C01: particles stored before are kept', Implies(Not(new), st.unchanged()))
        ctx.prove('C01: listed particle k is item N0+k', Implies(new, stored()))
        ctx.prove('C01: a trajectory is created for exactly the marked particles', lift(st.get('ntraj')) == Ite(tracks, 1, 0))
        ctx.prove('C01: other species are not touched', And(other.get('N') == other.N0, other.unchanged()))


class SymDict(Model):
    """Dictionary with n entries in order; entry i is item(i)."""

    def __init__(self, ctx, n, key, item):
        super().__init__(ctx)
        self.__dict__.update(n=n, key=key, item=item)

    def attr(self, k):
        it = {'items': lambda i: (self.key(i), self.item(i)), 'values': self.item, 'keys': self.key}
        if k not in it:
            raise Unsupported('dict.' + k)
        return lambda: Seq(self.ctx, self.n, it[k])

    def sym_iter(self, I):
        return S.Iter(0, self.n, self.key)

    def getitem(self, k):
        i = getattr(k, 'i', None)
        if i is None:
            raise Unsupported('key of the dictionary')
        return self.item(i)

    def len_(self):
        return self.n


class Seq(Model):
    def __init__(self, ctx, n, f):
        super().__init__(ctx)
        self.__dict__.update(n=n, f=f)

    def sym_iter(self, I):
        return S.Iter(0, self.n, self.f)


class Key(Opaque):
    def __init__(self, i):
        super().__init__('name')
        self.i = i


class FieldTok:
    def __init__(self, name):
        self.name = name


@job('add_more_particles', ['C01'], functions=[FILE + ':Particle_C.add_more_particles'], trusted=['Python dict iteration: every entry once'], assumptions=['intervals are positive integers'], reach=['run'])
def _(ctx):
    e = CEnv(ctx, 'cartesian_xy')
    n, k = ctx.fresh('sources'), ctx.fresh('k')
    ctx.assume(And(n >= 0, k >= 0, k < n))
    G = Model(ctx, calls=0)
    neg, ext = FieldTok('negE'), FieldTok('ext')

    def interval(i):
        v = atom(uf('interval', INT, INT)(lift(i).z()))
        ctx.assume(v >= 1)
        return v
    it = {}

    def item(i):
        key = frozenset(lift(i).p.items())
        if key not in it:
            par = {'timestep_interval': interval(k if bool(BoolV(zb(lift(i) == k))) else i)}
            reg = FieldTok('region')

            def src(step, time, region, params, negE=None, extE=None):
                ctx.prove('C01: a source gets the step, time, its region, its parameters and the fields', And(step == e.step, time == e.time, region is reg, params is par, negE is neg, extE is ext))
                if bool(BoolV(zb(lift(i) == k))):
                    G.put('calls', G.get('calls') + 1)
            it[key] = (par, src, reg)
        return it[key]
    e.obj.cells['particle_source_dict'] = SymDict(ctx, n, Key, item)
    q, r = ctx.divmod(e.step, interval(k))
    due = r == 0

    def more(env, entry, locs):
        out = [('runs', lambda: Or(lift(G.get('calls')) == 0, And(due, lift(G.get('calls')) == 1)))]
        for nm, v in locs:
            if isinstance(v, Num) and v.i:
                out.append(('not before ' + nm, lambda v=v: Implies(k >= v, lift(G.get('calls')) == 0)))
                out.append(('once before ' + nm, lambda v=v: Implies(And(k < v, due), lift(G.get('calls')) == 1)))
        return out
    e.more = more
    e.call('add_more_particles', e.ctrl, neg_E_field=neg, external_E_field=ext)
    ctx.reach('run')
    ctx.prove('C01: a source runs exactly when the step is a multiple of its interval, once', lift(G.get('calls')) == Ite(due, 1, 0))


class Kind:
    """A symbolic string compared with the known kinds."""

    def __init__(self, i):
        self.i = i

    def is_kind(self, nm):
        return BoolV(uf('kind_is_' + nm, INT, z3.BoolSort())(lift(self.i).z()))

    def __eq__(self, o):
        if o in ('listed', 'function_over_region'):
            return self.is_kind(o)
        raise Unsupported('comparison of a distribution type')

    def __ne__(self, o):
        return Not(self == o)
    __hash__ = None


@job('initialize_particles', ['C01'], functions=[FILE + ':Particle_C.initialize_particles'], trusted=['Python dict iteration: every entry once', 'create_from_list by its contract'], assumptions=[], reach=['run', 'refused'])
def _(ctx):
    e = CEnv(ctx, 'cartesian_xy')
    n, k = ctx.fresh('entries'), ctx.fresh('k')
    ctx.assume(And(n >= 0, k >= 0, k < n))
    G = Model(ctx, listed=0, funcs=0, bad=False)
    neg = FieldTok('negE')
    it, cur = {}, [None]

    def kinds(i):
        K = Kind(i)
        ctx.assume(Not(And(K.is_kind('listed'), K.is_kind('function_over_region'))))
        return K

    def item(i):
        key = frozenset(lift(i).p.items())
        if key not in it:
            sn = 'el' if bool(BoolV(uf('species_is_el', INT, z3.BoolSort())(lift(i).z()))) else 'neu'
            K = kinds(i)
            par = {'species_name': sn, 'initial_distribution_type': K}
            reg = FieldTok('region')

            def func(step, time, region, params, negE=None, extE=None):
                ctx.prove('C01: the creation function gets step 0, time 0, its region, its parameters and the field', And(step == 0, time == 0, region is reg, params is par, negE is neg, extE is None))
                if bool(BoolV(zb(lift(i) == k))):
                    G.put('funcs', G.get('funcs') + 1)
            it[key] = (par, func, reg)
        cur[0] = i
        return it[key]

    def listed(I, slf, sn, print_flag=False):
        i = cur[0]
        ctx.prove('C01: the list of the species of the entry is loaded', sn == it[frozenset(lift(i).p.items())][0]['species_name'])
        if bool(BoolV(zb(lift(i) == k))):
            G.put('listed', G.get('listed') + 1)
    e.contracts['Particle_C.create_from_list'] = listed
    e.obj.cells['initial_particles_dict'] = SymDict(ctx, n, Key, item)
    K = kinds(k)
    isl, isf = K.is_kind('listed'), K.is_kind('function_over_region')

    def state(p):
        return And(lift(G.get('listed')) == Ite(And(p, isl), 1, 0), lift(G.get('funcs')) == Ite(And(p, isf), 1, 0))

    def more(env, entry, locs):
        out = []
        for nm, v in locs:
            if isinstance(v, Num) and v.i:
                out.append(('done before ' + nm, lambda v=v: state(k < v)))
                out.append(('known kinds before ' + nm, lambda v=v: Implies(k < v, Or(isl, isf))))
        return out
    e.more = more
    try:
        e.call('initialize_particles', {'el': False, 'neu': False}, neg_E_field=neg)
    except PyRaise as x:
        i = cur[0]
        ctx.reach('refused')
        K2 = kinds(i)
        ctx.prove('C01: only an unknown kind of entry is refused', And(x.kind == 'RuntimeError', Not(Or(K2.is_kind('listed'), K2.is_kind('function_over_region')))))
        return
    ctx.reach('run')
    ctx.prove('C01: every entry is created once, by the way it asks for', state(True))
    ctx.prove('C01: unknown kinds are not ignored', Or(isl, isf))


# --- creation over a region

class NpC(MP.Np):
    class random:      # noqa
        @staticmethod
        def normal(loc=0.0, scale=1.0, size=None):
            ctx = val.CTX[0]
            if not isinstance(size, int):
                raise Unsupported('normal draw of unknown size')
            zs = [ctx.fresh('Z', 'real') for _ in range(size)]
            ctx.memo['normal'] = list(zs)
            return Arr(ctx, [z * scale + loc for z in zs])

        @staticmethod
        def uniform(low=0.0, high=1.0, size=None):
            return F.NpF.random.uniform(low, high, size)


CSTUBS = dict(MP.STUBS, numpy=NpC())


class Domain(Model):
    """A region by its contract (R01): ncell cells with index, volume, radius, midpoint; in_cell tests the cell."""

    def __init__(self, ctx, g, j, npc):
        super().__init__(ctx)
        self.__dict__.update(g=g, n=ctx.fresh('ncell'), j=j, npc=npc)
        ctx.assume(self.n >= 1)

    def idx(self, i):
        return F.U('cell_index', INT, i)

    def vol(self, i):
        return F.U('volume', REAL, i)

    def rad(self, i):
        return F.U('radius', REAL, i)

    def mid(self, i, d):
        return F.U('midpoint%d' % d, REAL, i)

    def inside(self, i, pt):
        zs = [M.zr(x) for x in pt]
        return BoolV(uf('inside', INT, *([REAL] * self.g + [z3.BoolSort()]))(lift(i).z(), *zs))

    def visit(self, i):
        """Positions of the particles of cell i, and of cell j, do not overlap (integer arithmetic)."""
        ctx, npc, j = self.ctx, self.npc, self.j
        ctx.prove('C01: the tables of the region are read inside their length', And(i >= 0, i < self.n))
        key = ('visit', frozenset(lift(i).p.items()))
        ctx.memo['cell'] = i
        if key in ctx.memo:
            return
        ctx.memo[key] = 1
        for a, b in ((i, j), (j, i), (i, self.n), (j, self.n)):
            ctx.prove('lemma: (b-a-1)*n >= 0 for a < b', Implies(lift(a) < b, (lift(b) - a - 1) * npc >= 0))
        ctx.prove('lemma: products of equal numbers', Implies(lift(i) == j, lift(i) * npc == lift(j) * npc))
        ctx.assume(self.inside(i, [self.mid(i, d) for d in range(self.g)]))
        ctx.assume(self.vol(i) > 0)

    def attr(self, k):
        ctx = self.ctx
        if k == 'ncell':
            return self.n
        if k in ('gdim', 'tdim'):
            return self.g
        if k == 'in_cell':
            def in_cell(pt, i):
                self.ctx.prove('C01: the tables of the region are read inside their length', And(i >= 0, i < self.n))
                vs = pt.vals()
                if len(vs) < self.g:
                    ctx.prove('C01: a point of the mesh is tested', False)
                return self.inside(i, vs[:self.g])
            return in_cell
        if k == 'cell_list':
            return Opaque('cell_list')
        f = {'cell_index': self.idx, 'volume': self.vol, 'radius': self.rad, 'midpoint': lambda i: Arr(ctx, [self.mid(i, d) for d in range(self.g)])}.get(k)
        if f is None:
            raise Unsupported('region.' + k)
        return Tab(self, f)


class Tab(Model):
    def __init__(self, dom, f):
        super().__init__(dom.ctx)
        self.__dict__.update(dom=dom, f=f)

    def getitem(self, i):
        self.dom.visit(i)
        return self.f(i)


class CField:
    """A field by its interpolation contract (F01)."""

    def __init__(self, e, name):
        self.e, self.name = e, name

    def val(self, c, pos):
        return atom(uf('%s_%s' % (self.name, c), *([REAL] * (len(pos) + 1)))(*[M.zr(p) for p in pos]))

    def interpolate_field_to_points(self, pts, arr):
        if not (isinstance(pts, RecArr) and isinstance(arr, RecArr) and pts.n == 1):
            raise Unsupported('interpolation to something else than one particle')
        pos = [pts.get((0, c)) for c in self.e.coords]
        for c, n in zip(self.e.coords, arr.names):
            arr.put((0, n), self.val(c, pos))


for _c in COORDS:
    for _fields in (True, False):
        @job('create_maxwellian_particles %s fields=%s' % (_c, _fields), ['C01'], functions=FN + [FILE + ':Particle_C.create_maxwellian_particles'],
             trusted=TR + ['regions by the contract proved for CellSet_C (property R01)', 'numpy.random: normal(m, s, n) is m + s * standard normal numbers, uniform(a, b, n) is within [a, b]',
                           'a cell contains its midpoint', 'field interpolation by its contract (F01)', 'record_trajectory_datum by its contract (T01)'], assumptions=AS + ['number_per_cell is at least 1'], reach=['created'])
        def _(ctx, c=_c, fields=_fields):
            e = CEnv(ctx, c, stubs=CSTUBS)
            I = e.I
            sn = 'el' if ctx.choose('species') else 'neu'
            e.set_traj(sn)
            st, other = e.stores[sn], e.stores['neu' if sn == 'el' else 'el']
            g = len(e.coords)
            I.statics = Model(ctx)
            uid0 = ctx.fresh('unique_id_counter')
            I.statics.cells['Particle_C.UNIQUE_ID_COUNTER'] = uid0
            npc, j, q = ctx.fresh('number_per_cell'), ctx.fresh('j'), ctx.fresh('q')
            ctx.assume(npc >= 1)
            dom = Domain(ctx, g, j, npc)
            new = bool(ctx.choose('the watched particle is a new one'))
            if new:
                ctx.assume(And(j >= 0, j < dom.n, q >= 0, q < npc, st.w == st.N0 + j * npc + q))
                ctx.prove('lemma: (b-a-1)*n >= 0 for a < b', (dom.n - j - 1) * npc >= 0)
                ctx.assume(dom.vol(j) > 0)
            else:
                ctx.assume(st.w < st.N0)
                ctx.assume(And(j >= 0, j < dom.n))
            pi = val.atom(z3.Real('pi'))
            ctx.assume(pi > 3)
            # any density, written as a multiple of the number per cell (not zero)
            th = ctx.fresh('thermal_speed', 'real')
            w0 = ctx.fresh('weight_per_volume', 'real')
            dens = w0 * npc * (4 * pi if c == 'spherical_r' else 1)
            drift = [ctx.fresh('drift%d' % i, 'real') for i in range(g)]
            par = {'species_name': sn, 'number_density': dens, 'thermal_speed': th, 'drift_velocity': list(drift), 'velocity_coordinate_system': 'x_y_z', 'number_per_cell': npc}
            N, X = CField(e, 'negE'), CField(e, 'Eext')
            Z = Model(ctx, **{'z%d' % i: 0 for i in range(g)})

            def on_push(watched, v):
                zs = ctx.memo.pop('normal', None)
                ctx.prove('C01: every particle has velocity numbers of its own', zs is not None and len(zs) == g)
                if watched and zs:
                    for i in range(g):
                        Z.put('z%d' % i, zs[i])
            st.__dict__['on_push'] = on_push

            def record(I, slf, s, off, idx, step, time, E_field_comps=None, external_E_field_comps=None, facet_crossing=False):
                Np_, v, r = ctx.memo.get('pushed_' + sn)
                ctx.prove('C01: the first trajectory point is that of the new particle', And(s == sn, lift(off) == r, lift(idx) == Np_, step == e.step, time == e.time, facet_crossing is False))
                ctx.prove('C01: the trajectory exists before its first point', lift(st.get('ntraj')) == 1 if bool(BoolV(zb(lift(Np_) == st.w))) else True)
                if sn == 'el':
                    pos = [v[x] for x in e.coords]
                    for i, x in enumerate(e.coords):
                        ctx.prove('C01: the first trajectory point has the fields at the particle', And(E_field_comps.getitem((0, i)) == (-N.val(x, pos) if fields else 0), external_E_field_comps.getitem((0, i)) == (X.val(x, pos) if fields else 0)))
                if bool(BoolV(zb(lift(Np_) == st.w))):
                    st.put('nrec', st.get('nrec') + 1)
            e.contracts['Particle_C.record_trajectory_datum'] = record
            vx = ['u' + x for x in e.coords]

            def right():
                """The watched particle as requested."""
                w = lambda f: st.get('w_' + f)      # noqa
                out = [w('cell_index') == dom.idx(j), dom.inside(j, [w(x) for x in e.coords])]
                out += [w(x + '0') == w(x) for x in e.coords]
                out += [w(u) == drift[i] + th * Z.get('z%d' % i) for i, u in enumerate(vx)]
                out += [w('weight') == dom.vol(j) * w0]
                out += [w('unique_ID') == uid0 + (st.w - st.N0), w('crossings') == 0]
                out += [Not(ctx.bit(w('bitflags'), DEL))]
                return out
            names = ['in the cell of the list', 'inside its cell'] + ['starts at its position'] * g + ['velocity is drift plus thermal'] * g + ['weight is density times volume over number per cell', 'identities are consecutive', 'no crossings', 'not deleted']
            made = lambda: lift(st.get('ntraj'))      # noqa

            def more(env, entry, locs):
                done = lambda: st.w < st.get('N')      # noqa
                cnt = lambda: I.statics.get('Particle_C.UNIQUE_ID_COUNTER')      # noqa
                out = [('only growing', lambda: st.get('N') >= st.N0), ('identity counter', lambda: cnt() == uid0 + (st.get('N') - st.N0))]
                if not new:
                    out.append(('old particles are kept', lambda: And(st.unchanged(), made() == 0, lift(st.get('nrec')) == 0)))
                else:
                    rs = right()
                    for k, nm in enumerate(names):
                        out.append(('%s %d' % (nm, k), lambda k=k: Implies(done(), right()[k])))
                    out.append(('trajectory of a marked particle', lambda: And(Implies(done(), made() == (Ite(ctx.bit(st.get('w_bitflags'), TRJ), 1, 0) if e.has_traj else 0)), Implies(Not(done()), made() == 0), lift(st.get('nrec')) == made())))
                pc, cell = e.obj.cells['pcoord'], ctx.memo.get('cell')
                if cell is not None:
                    for nm, v in env.vars.items():
                        if isinstance(v, (bool, BoolV)):
                            out.append(('%s means inside' % nm, lambda v=v: Implies(v, dom.inside(cell, pc.vals()[:g]))))
                for nm, v in locs:
                    if isinstance(v, Num) and v.i:
                        out.append(('%s cells filled' % nm, lambda v=v: st.get('N') == st.N0 + v * npc))
                        out.append(('%s+1 cells filled' % nm, lambda v=v: st.get('N') == st.N0 + v * npc + npc))
                        for nm2, v2 in locs:
                            if isinstance(v2, Num) and v2.i and nm2 != nm:
                                out.append(('%s cells and %s particles' % (nm, nm2), lambda v=v, v2=v2: st.get('N') == st.N0 + v * npc + v2))
                return out
            e.more = more
            kw = dict(neg_E_field=N, external_E_field=X) if fields else {}
            e.call('create_maxwellian_particles', e.step, e.time, dom, par, **kw)
            ctx.reach('created')
            ctx.prove('C01: the number per cell is added for every cell', st.get('N') == st.N0 + dom.n * npc)
            if not new:
                ctx.prove('C01: particles stored before are kept', st.unchanged())
            else:
                for nm, x in zip(names, right()):
                    ctx.prove('C01: a new particle: ' + nm, x)
                ctx.prove('C01: a trajectory is started for exactly the marked particles', And(made() == (Ite(ctx.bit(st.get('w_bitflags'), TRJ), 1, 0) if e.has_traj else 0), lift(st.get('nrec')) == made()))
            ctx.prove('C01: other species are not touched', And(other.get('N') == other.N0, other.unchanged()))
