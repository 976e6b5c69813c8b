"""O01: the particle output file.

An arbitrary number of species; one arbitrary stored particle (item w of species s) is followed: its place in every dataset is the number of
particles of the species before s, plus w."""
import z3
import val
from val import atom, lift, BoolV, And, Or, Not, Implies, Ite, Unsupported, zb, Num
from ctx import PathEnd, PyRaise
from interp import Module, Interp, Obj, Model, Opaque, Func, TypeName, SStr
from job import job
from contracts import _store as S
from contracts._mover import uf, INT, REAL, INTF
from contracts.h01 import P, Name, BySpecies, FIELDS
from contracts.movers_py import STUBS, Np

FILE = 'Particle_Module.py'
AS = ['integers and real numbers are stored exactly in 64 bit', 'h5py writes the data it is given under the name it is given']
TR = ['storage traversal by the contract proved for SegmentedArrayPair_C (property S01)', 'NumPy slice assignment and reinterpretation of a buffer', 'h5py groups, attributes and datasets', 'prefix sums of the particle counts: tot(i+1) = tot(i) + n(i)']


class Buf(Model):
    """One-dimensional array of n numbers; the number in place `slot` is followed."""

    def __init__(self, ctx, n, slot, dt='float64'):
        super().__init__(ctx)
        self.__dict__.update(n=n, slot=slot)
        self.cells['v'] = ctx.fresh('unset', 'real')
        self.cells['dtype'] = dt

    def attr(self, k):
        if k in ('size', 'n'):
            return self.n
        if k == 'shape':
            return (self.n,)
        if k == 'dtype':
            return TypeName(self.cells['dtype'])
        raise Unsupported('buffer.' + k)

    def set_attr(self, k, v):
        if k != 'dtype':
            raise Unsupported('buffer.%s is set' % k)
        nm = getattr(v, 'name', getattr(v, '__name__', None))
        if nm not in ('int64', 'float64'):
            raise Unsupported('buffer type')
        self.put('dtype', nm)
        self.put('v', self.ctx.fresh('reinterpreted', 'real'))

    def len_(self):
        return self.n

    def getitem(self, k):
        if isinstance(k, slice) and k.step is None:
            return BufSlice(self, 0 if k.start is None else k.start, self.n if k.stop is None else k.stop)
        raise Unsupported('buffer element')

    def setitem(self, k, v):
        ctx = self.ctx
        if not (isinstance(k, slice) and k.step is None):
            a, b = k, k + 1
        else:
            a, b = 0 if k.start is None else k.start, self.n if k.stop is None else k.stop
        ctx.prove('O01: the output fits into the buffer', And(a >= 0, a <= b, b <= self.n))
        isint = self.cells['dtype'] == 'int64'
        if isinstance(v, S.Vec):
            ctx.prove('O01: as many values are copied as there is room for', v.n == b - a)
            new = v.g(v.off + self.slot - a)
        elif lift(v) is not None:
            new = lift(v)
        else:
            raise Unsupported('buffer value')
        if isint and not lift(new).i:
            new = ctx.fresh('truncated', 'real')
        hit = And(a <= self.slot, self.slot < b)
        self.put('v', Ite(hit, new * 1 if lift(new) is new else new, self.get('v')))


class BufSlice(Model):
    def __init__(self, buf, a, b):
        super().__init__(buf.ctx)
        self.__dict__.update(buf=buf, a=a, b=b)


class H5(Model):
    """The output file: what is added is recorded in `log`."""

    def __init__(self, ctx):
        super().__init__(ctx)
        self.__dict__['log'] = []
        self.__dict__['attrs'] = Attrs(self.log, 'file')

    def create_group(self, name, *a, **k):
        self.log.append(('group', name))
        return Group(self, name)

    def flush(self):
        self.log.append(('flush',))

    def close(self):
        self.log.append(('close',))

    def attr(self, k):
        if k in ('create_group', 'flush', 'close', 'attrs'):
            return getattr(self, k)
        raise Unsupported('h5py file.' + k)


class Attrs:
    def __init__(self, log, who):
        self.log, self.who = log, who

    def setitem(self, k, v):
        self.log.append(('attr', self.who, k, v))


class Group(Model):
    def __init__(self, f, name):
        super().__init__(f.ctx)
        self.__dict__.update(f=f, name=name, attrs=Attrs(f.log, 'group'))

    def create_dataset(self, name, data=None, **k):
        if k:
            raise Unsupported('dataset options')
        if not isinstance(data, BufSlice):
            raise Unsupported('dataset from something else than the buffer')
        self.f.log.append(('dataset', name, data.a, data.b, data.buf.get('v'), data.buf.cells['dtype'], data.buf.slot))

    def attr(self, k):
        if k in ('create_dataset', 'attrs'):
            return getattr(self, k)
        raise Unsupported('h5py group.' + k)


def parts(s):
    return s.parts if isinstance(s, SStr) else [s]


def setup(ctx, coord):
    p = P(ctx, coord)
    SS = S.sums(ctx)
    tot = lambda k: SS.prefix(p.nitems, k)      # noqa
    sp, w = ctx.fresh('species'), ctx.fresh('item')
    ctx.assume(And(sp >= 0, sp < p.names.n, w >= 0, w < p.nitems(sp)))
    SS.at(sp)

    def item(i):
        SS.at(i)
        ctx.assume(p.nitems(i) >= 0)
        # prefix sums of non-negative numbers are monotone
        ctx.assume(And(tot(i + 1) <= tot(p.names.n), tot(i) >= 0, Implies(sp < i, tot(sp + 1) <= tot(i)), Implies(lift(i) < sp, tot(i + 1) <= tot(sp))))
        return Name(i)
    ctx.assume(And(tot(sp + 1) <= tot(p.names.n), tot(sp) >= 0))
    p.names.__dict__['sym_iter'] = lambda I: S.Iter(0, p.names.n, item)
    p.contracts['Particle_C.get_species_particle_count'] = lambda I, slf, nm, print_flag=False: p.nitems(nm.i)
    p.contracts['Particle_C.get_total_particle_count'] = lambda I, slf, print_flag=False: tot(p.names.n)
    slot = tot(sp) + w
    sidx = lambda i: atom(uf('species_index', INT, INT)(lift(i).z()))      # noqa
    p.obj.cells['species_index'] = BySpecies(sidx)
    p.obj.cells['particle_dtype'] = PD(FIELDS[coord])
    return p, tot, sp, w, slot, sidx


class PD:
    def __init__(self, names):
        self.names = tuple(names)

    def getitem(self, k):
        if k not in self.names:
            raise PyRaise('KeyError', k)
        return TypeName(('int32' if k in INTF else 'float64'))


class NpO(Np):
    slot = None

    def empty(self, shape=None, dtype=None, **k):
        if NpO.slot is not None and isinstance(shape, Num):
            return Buf(val.CTX[0], shape, NpO.slot, getattr(dtype, 'name', 'float64'))
        return super().empty(shape, dtype, **k)


OSTUBS = dict(STUBS, numpy=NpO())


def write_job(coord, attrs, close):
    @job('write_particles_to_file %s %s' % (coord, '+'.join(attrs)), ['O01'], functions=[FILE + ':Particle_C.write_particles_to_file'], trusted=TR, assumptions=AS, reach=['written', 'second call'])
    def _(ctx):
        p, tot, sp, w, slot, sidx = setup(ctx, coord)
        NpO.slot = slot
        p.I.stubs = OSTUBS
        p.cls = Module.load(FILE, OSTUBS).lookup('Particle_C')
        p.obj.__dict__['cls'] = p.cls
        n0 = ctx.fresh('buffer_length')
        ctx.assume(n0 >= 0)
        f = H5(ctx)
        cnt, last, step, time = ctx.fresh('groups'), ctx.fresh('last_step'), ctx.fresh('step'), ctx.fresh('time', 'real')
        p.obj.cells.update(h5_buffer_length=n0, h5_buffer=Buf(ctx, n0, slot), particle_output_handle=f, h5_step_counter=cnt, h5_last_write_step=last)
        ctrl = Obj(ctx, None, timeloop_count=step, time=time, particle_output_attributes=list(attrs))
        st = p.store(sp)
        value = lambda a: sidx(sp) if a == 'species_index' else st.In(a, w)      # noqa

        def more(env, entry, locs):
            out = []
            b = p.obj.cells['h5_buffer']
            a = env.vars.get('pA')
            fo = [e for e in [env] if True]
            cur = [s2 for s2 in p.stores.values() if s2.label is not sp and s2.get('started') is True][-1:]
            ints = [(n, v) for n, v in locs if isinstance(v, Num) and v.i]
            for n, v in ints:
                out.append(('%s not beyond the total' % n, lambda v=v: v <= tot(p.names.n)))
                for m, k in ints:
                    if m != n:
                        out.append(('%s is the number of particles of the species before %s' % (n, m), lambda v=v, k=k: v == tot(k)))
                        out.append(('order %s %s' % (n, m), lambda v=v, k=k: Implies(sp < k, tot(sp) + p.nitems(sp) <= v)))
                        out.append(('order2 %s %s' % (n, m), lambda v=v, k=k: Implies(sp >= k, v <= tot(sp))))
                        if isinstance(a, str):
                            out.append(('written before %s, %s' % (m, a), lambda k=k: Implies(sp < k, b.get('v') == value(a))))
                for s2 in cur:
                    i2 = s2.label
                    out.append(('%s within the current species' % n, lambda v=v, i2=i2, s2=s2: v == tot(i2) + s2.base()))
            out.append(('room', lambda: tot(p.names.n) <= b.n))
            for s2 in cur:
                i2 = s2.label
                if isinstance(a, str):
                    # inside the loop over the segments of species i2
                    out.append(('earlier species stay, ' + a, lambda i2=i2: Implies(sp < i2, b.get('v') == value(a))))
                    out.append(('this species up to here, ' + a, lambda i2=i2, s2=s2: Implies(And(sp == i2, w < s2.base()), b.get('v') == value(a))))
            return out
        p.more.append(more)
        p.call('write_particles_to_file', ctrl, *([True] if close else []))
        NpO.slot = None
        if bool(step == last):
            ctx.reach('second call')
            ctx.prove('O01: a second write on the same step adds nothing', len([x for x in f.log if x[0] in ('group', 'dataset', 'attr')]) == 0)
            ctx.prove('O01: a second write on the same step changes no counter', And(p.obj.cells['h5_step_counter'] == cnt, p.obj.cells['h5_last_write_step'] == last))
            return
        ctx.reach('written')
        gs = [x for x in f.log if x[0] == 'group']
        ctx.prove('O01: one group is added', len(gs) == 1)
        q = parts(gs[0][1])
        if len(q) != 2 or not isinstance(q[0], str) or not isinstance(q[1], Num):
            raise Unsupported('group name')
        ctx.prove('O01: groups are numbered consecutively', And(q[0] == 'Step#', q[1] == cnt, p.obj.cells['h5_step_counter'] == cnt + 1))
        ctx.prove('O01: the written step is remembered', p.obj.cells['h5_last_write_step'] == step)
        ta = [x for x in f.log if x[0] == 'attr' and x[1] == 'group' and x[2] == 'TimeValue']
        ctx.prove('O01: the group carries the time', len(ta) == 1 and ta[0][3] == time)
        ds = [x for x in f.log if x[0] == 'dataset']
        ctx.prove('O01: one dataset per requested attribute', [x[1] for x in ds] == list(attrs))
        for x in ds:
            ctx.prove('O01: a dataset holds as many values as there are particles', And(x[2] == 0, x[3] == tot(p.names.n)))
            ctx.prove('O01: a dataset holds the attribute of every particle in its place', x[4] == value(x[1]))
            ctx.prove('O01: integers are stored as integers, real numbers as real numbers', x[5] == ('int64' if x[1] in INTF or x[1] == 'species_index' else 'float64'))
        ctx.prove('O01: the file is closed on request', (('close',) in f.log) == bool(close))


write_job('cartesian_xyz', ['x', 'cell_index', 'species_index'], False)
write_job('cartesian_x', ['ux', 'weight'], True)
write_job('spherical_r', ['species_index', 'r', 'unique_ID'], False)


@job('check_particle_output_parameters', ['O01'], functions=[FILE + ':Particle_C.check_particle_output_parameters'], trusted=[], assumptions=[], reach=['accepted', 'refused'])
def _(ctx):
    p, tot, sp, w, slot, sidx = setup(ctx, 'cartesian_xyz')
    bad = ctx.choose('one attribute is not available')
    ctrl = Obj(ctx, None, particle_output_attributes=['x', 'species_index', 'nonsense' if bad else 'weight', 'ux'])
    try:
        p.call('check_particle_output_parameters', ctrl)
        ctx.reach('accepted')
        ctx.prove('O01: unavailable attributes are refused', not bad)
    except PyRaise as e:
        ctx.reach('refused')
        ctx.prove('O01: available attributes are accepted', bad and e.kind == 'RuntimeError')


class WAttrs(Model):
    """Attributes of the output file: those of the followed species are tracked."""

    def __init__(self, ctx, p, sp, sidx):
        super().__init__(ctx)
        self.__dict__.update(p=p, sp=sp, sidx=sidx, plain={})
        for k in ('particle_type_', 'mass_', 'charge_'):
            self.cells[k] = False

    def setitem(self, k, v):
        ctx, ps = self.ctx, parts(k)
        if len(ps) == 1 and isinstance(ps[0], str):
            if ctx.active:
                raise Unsupported('file attribute in a loop')
            self.plain[ps[0]] = v
            return
        if len(ps) != 2 or ps[0] not in self.cells or lift(ps[1]) is None:
            raise Unsupported('file attribute')
        if ps[0] == 'particle_type_':
            good = v.i == self.sp if isinstance(v, Name) else False
        else:
            f = self.p.mass if ps[0] == 'mass_' else self.p.charge
            good = lift(v) == f(self.sp) if lift(v) is not None else False
        hit = lift(ps[1]) == self.sidx(self.sp)
        self.put(ps[0], Or(And(hit, good), And(Not(hit), self.get(ps[0]))))


class H5Module:
    made = None

    def File(self, name, mode='r', **k):
        H5Module.made.append((name, mode))
        return H5Module.file


@job('initialize_particle_output_file', ['O01'], functions=[FILE + ':Particle_C.initialize_particle_output_file'], trusted=['h5py: opening a file for writing, setting attributes, flush'], assumptions=['different species have different species_index'],
     reach=['opened', 'refused'])
def _(ctx):
    st = dict(OSTUBS, h5py=H5Module())
    p, tot, sp, w, slot, sidx = setup(ctx, 'cartesian_x')
    charge = lambda i: atom(uf('charge', INT, REAL)(lift(i).z()))      # noqa
    p.charge = charge
    base = p.names.sym_iter(None).f

    def item(i):
        ctx.assume(Implies(sidx(i) == sidx(sp), i == sp))
        return base(i)
    p.names.__dict__['sym_iter'] = lambda I: S.Iter(0, p.names.n, item)
    at = WAttrs(ctx, p, sp, sidx)
    log = []
    f = Obj(ctx, None, attrs=at, flush=lambda: log.append('flush'))
    H5Module.made, H5Module.file = [], f
    p.obj.cells['number_of_species'] = p.names.n
    title, author, name = Opaque('title'), Opaque('author'), Opaque('name')
    none = ctx.choose('no file name')
    ctrl = Obj(ctx, None, particle_output_file=None if none else name, title=title, author=author)
    cls = Module.load(FILE, st).lookup('Particle_C')

    def more(env, entry, locs):
        return [('%s of the species before %s' % (k, n), lambda k=k, v=v: Implies(sp < v, at.get(k))) for n, v in locs if isinstance(v, Num) and v.i for k in at.cells]
    I = Interp(st, {}, S.inv(lambda: [], more))
    r = cls.find('initialize_particle_output_file')
    try:
        I.call_func(Func(r[0].mod, r[1], r[0]), [p.obj, ctrl], {})
    except PyRaise as e:
        if e.kind != 'RuntimeError':
            raise
        ctx.reach('refused')
        ctx.prove('O01: initialisation is refused only without a file name', none)
        return
    ctx.prove('O01: initialisation without a file name is refused', not none)
    ctx.reach('opened')
    ctx.prove('O01: the named file is opened for writing, once', len(H5Module.made) == 1 and H5Module.made[0][0] is name and H5Module.made[0][1] == 'w')
    ctx.prove('O01: the handle of the file is kept for the later calls', p.obj.cells.get('particle_output_handle') is f)
    ctx.prove('O01: title, author and number of species are recorded', at.plain.get('Title:') is title and at.plain.get('Author:') is author and lift(at.plain.get('NumParticleTypes:')) == p.names.n)
    ctx.prove('O01: name, mass and charge of every species are recorded under its index', And(*[at.get(k) for k in ('particle_type_', 'mass_', 'charge_')]))
    ctx.prove('O01: step groups are numbered from zero', And(p.obj.cells.get('h5_step_counter') == 0, p.obj.cells.get('h5_last_write_step') == -1))
