"""R01: the cells of a region.  Any mesh; one arbitrary cell C is followed: whether it is selected, how often, and where."""
import z3
import val
from val import atom, lift, BoolV, And, Or, Not, Implies, Ite, Unsupported, zb, Num
from ctx import PathEnd, PyRaise
from fractions import Fraction
from interp import Module, Interp, Obj, Model, Opaque, Func, Env
from models import Arr
from job import job
from contracts import _store as S, _field as F

AS = ['floating-point numbers are treated as real numbers']
TR = ['dolfin cells: midpoint, circumradius, contains', 'Python list append and length', 'Mesh_C.cell_volume_dict (property G01)']
NEAR = Fraction(1, 10 ** 8)


class CellList(Model):
    """A list of cells: cell C occurs `count` times, first at position `pos`."""

    def __init__(self, ctx, m, n=0, count=0, pos=-1):
        super().__init__(ctx)
        self.__dict__['m'] = m
        self.cells.update(n=n, count=count, pos=pos)

    def append(self, v):
        if not isinstance(v, F.CellM):
            raise Unsupported('list of something else than cells')
        n = self.get('n')
        if bool(BoolV(zb(lift(v.c) == self.m.C))):
            if bool(BoolV(zb(lift(self.get('count')) == 0))):
                self.put('pos', n)
            self.put('count', self.get('count') + 1)
        self.put('n', n + 1)

    def len_(self):
        return lift(self.get('n'))

    def getitem(self, k):
        ctx = self.ctx
        if isinstance(k, slice):
            raise Unsupported('part of a cell list')
        ctx.prove('R01: cells are read inside the list', And(k >= 0, k < self.get('n')))
        if bool(BoolV(zb(And(lift(self.get('count')) > 0, lift(k) == self.get('pos'))))):
            return F.CellM(ctx, self.m, self.m.C)
        c = F.U('listed_cell_%d' % self.oid, z3.IntSort(), k)
        ctx.assume(And(c >= 0, c < self.m.ncell))
        if not isinstance(self.get('count'), int) or self.get('count') > 1:
            ctx.assume(Implies(lift(self.get('count')) <= 1, c != self.m.C))
        else:
            ctx.assume(c != self.m.C)
        return F.CellM(ctx, self.m, c)

    def sym_iter(self, I):
        return S.Iter(0, self.get('n'), self.getitem)


def cells_comp(self, I, e, env):
    """[c for c in cells(mesh) if cond]"""
    ctx, m = self.ctx, self.m
    g = e.generators[0]

    def at(c, test):
        en = Env(env.mod, {}, env, env.fn)
        I.assign(g.target, F.CellM(ctx, m, c), en)
        if test and not all(I.truth(I.eval(q, en)) for q in g.ifs):
            return None
        v = I.eval(e.elt, en)
        if not isinstance(v, F.CellM) or lift(v.c).p != lift(c).p:
            raise Unsupported('comprehension over the cells')
        return v
    at(ctx.fresh('any_cell'), False)
    if not g.ifs:
        return CellList(ctx, m, m.ncell, 1, m.C)
    n = ctx.fresh('selected')
    ctx.assume(And(n >= 0, n <= m.ncell))
    if at(m.C, True) is None:
        return CellList(ctx, m, n, 0, -1)
    pos = ctx.fresh('position')
    ctx.assume(And(pos >= 0, pos < n))
    return CellList(ctx, m, n, 1, pos)


F.Cells.map_comp = cells_comp


class Table(Model):
    """An array with one row per listed cell; the row of the followed cell is tracked."""
    lst = None

    def __init__(self, ctx, n, width=None, integer=False):
        super().__init__(ctx)
        self.__dict__.update(n=n, width=width)
        for i in range(width or 1):
            self.cells[i] = ctx.fresh('uninit', 'int' if integer else 'real')

    shape = property(lambda self: (self.n,) if self.width is None else (self.n, self.width))
    size = property(lambda self: self.n * (self.width or 1))

    def len_(self):
        return self.n

    def chk(self, k):
        self.ctx.prove('R01: tables are used inside their length', And(k >= 0, k < self.n))

    def hit(self, k):
        return lift(k) == Table.lst().get('pos')

    def split(self, k):
        if isinstance(k, tuple):
            if len(k) != 2 or self.width is None:
                raise Unsupported('index')
            return k
        return k, None

    def getitem(self, k):
        k, i = self.split(k)
        if isinstance(k, slice):
            raise Unsupported('part of a table')
        self.chk(k)
        if self.width is not None and i is None:
            return TRow(self, k)
        i = i or 0
        return self.ctx.pick(self.hit(k), lambda: self.get(i), lambda: self.ctx.fresh('other_row', 'real'))

    def setitem(self, k, v):
        k, i = self.split(k)
        if isinstance(k, slice):
            raise Unsupported('part of a table')
        self.chk(k)
        if self.width is not None and i is None:
            vs = v.vals() if isinstance(v, Arr) else list(v)
            if len(vs) != self.width:
                raise PyRaise('ValueError')
        else:
            vs, i = [v], i or 0
            for j, x in enumerate(vs):
                self.put(i + j, self.ctx.pick(self.hit(k), lambda x=x: x, lambda j=j: self.get(i + j)))
            return
        for j, x in enumerate(vs):
            self.put(j, self.ctx.pick(self.hit(k), lambda x=x: x, lambda j=j: self.get(j)))


class TRow(Model):
    def __init__(self, t, k):
        super().__init__(t.ctx)
        self.__dict__.update(t=t, k=k)

    def setitem(self, i, v):
        if isinstance(i, slice) and (i.start, i.stop, i.step) == (None, None, None):
            self.t.setitem(self.k, v)
            return
        if not isinstance(i, int) or not 0 <= i < self.t.width:
            raise PyRaise('IndexError')
        self.t.setitem((self.k, i), v)

    def getitem(self, i):
        return self.t.getitem((self.k, i))


class NpR(F.NpF):
    def empty(self, shape=None, dtype=None, **k):
        if isinstance(shape, Num):
            shape = (shape,)
        if isinstance(shape, tuple) and isinstance(shape[0], Num):
            return Table(val.CTX[0], shape[0], shape[1] if len(shape) > 1 else None, 'int' in getattr(dtype, 'name', ''))
        return super().empty(shape, dtype, **k)

    zeros = empty


RSTUBS = dict(F.FSTUBS, numpy=NpR())


def setup(ctx, g):
    m = F.MeshW(ctx, g, RSTUBS)
    m.C = ctx.fresh('C')
    ctx.assume(And(m.C >= 0, m.C < m.ncell))
    lists = []

    def new():
        lists.append(CellList(ctx, m))
        return lists[-1]
    mid = [m.midpoint(m.C, i) for i in range(g)]
    return m, mid, lists, new


def check(ctx, m, mid, o, g, sel_in, sel_out):
    """The region object built: C selected at most once, exactly when it should be, with its data."""
    L = o.cells['cell_list']
    n, cnt, pos = L.get('n'), L.get('count'), L.get('pos')
    ctx.prove('R01: no cell is selected twice', cnt <= 1)
    ctx.prove('R01: a cell whose midpoint is in the region is selected', Implies(sel_in, lift(cnt) == 1))
    ctx.prove('R01: a cell whose midpoint is outside is not selected', Implies(sel_out, lift(cnt) == 0))
    ctx.prove('R01: the number of cells is the length of the list', o.cells['ncell'] == n)
    has = lift(cnt) == 1
    ctx.prove('R01: a selected cell is in the list', Implies(has, And(pos >= 0, pos < n)))
    for nm, w in [('cell_index', m.C), ('volume', m.volume(m.C)), ('radius', m.radius(m.C))]:
        t = o.cells[nm]
        ctx.prove('R01: the tables have one entry per selected cell', t.n == n)
        ctx.prove('R01: %s of a selected cell is that of the cell' % nm, Implies(has, t.get(0) == w))
    t = o.cells['midpoint']
    ctx.prove('R01: the tables have one entry per selected cell', t.n == n)
    for i in range(g):
        ctx.prove('R01: the midpoint of a selected cell is that of the cell', Implies(has, t.get(i) == mid[i]))


def more_for(ctx, m, mid, lists, obj, decided):
    def more(env, entry, locs):
        out = []
        ints = [(n, v) for n, v in locs if isinstance(v, Num) and v.i]
        L = lists[-1] if lists else None
        if L is not None:
            cnt, pos, n = (lambda: lift(L.get('count'))), (lambda: L.get('pos')), (lambda: L.get('n'))
            out.append(('list position', lambda: Implies(cnt() >= 1, And(pos() >= 0, pos() < n()))))
            out.append(('at most once', lambda: And(cnt() >= 0, cnt() <= 1)))
            for nm, v in ints:
                out.append(('not before %s' % nm, lambda v=v: Implies(m.C >= v, cnt() == 0)))
                out.append(('selected before %s' % nm, lambda v=v: Implies(And(m.C < v, decided[0]()), cnt() == 1)))
                out.append(('refused before %s' % nm, lambda v=v: Implies(And(m.C < v, decided[1]()), cnt() == 0)))
                out.append(('length up to %s' % nm, lambda v=v: And(n() >= 0, n() <= v)))
        o = obj()
        L2 = o.cells.get('cell_list')
        if L2 is not None:
            for nm, v in ints:
                for t, w in [('cell_index', lambda: [m.C]), ('volume', lambda: [F.U('volume', z3.RealSort(), m.C)]), ('radius', lambda: [m.radius(m.C)]), ('midpoint', lambda: mid)]:
                    if t in o.cells:
                        for i, x in enumerate(w()):
                            out.append(('%s %d filled before %s' % (t, i, nm), lambda t=t, i=i, x=x, v=v: Implies(And(lift(L2.get('count')) == 1, L2.get('pos') < v), o.cells[t].get(i) == x)))
        return out
    return more


def build(ctx, cls, g, args, sel_in, sel_out, m, mid, lists, new):
    c = m.mod.lookup(cls)
    o = Obj(ctx, c)
    o.__dict__['complete'] = True
    I = Interp(RSTUBS, {}, S.inv(lambda: [], more_for(ctx, m, mid, lists, lambda: o, (lambda: sel_in, lambda: sel_out))))
    I.empty_list = new
    Table.lst = staticmethod(lambda: o.cells['cell_list'])
    r = c.find('__init__')
    try:
        I.call_func(Func(r[0].mod, r[1], r[0]), [o, m.obj] + args, {})
    except PyRaise as e:
        ctx.reach('empty')
        ctx.prove('R01: only an empty region is refused', And(e.kind == 'RuntimeError', Not(sel_in)))
        return
    ctx.reach('built')
    o.__dict__['complete'] = True
    check(ctx, m, mid, o, g, sel_in, sel_out)
    # in_cell
    pt = [ctx.fresh('p%d' % i, 'real') for i in range(g)]
    L = o.cells['cell_list']
    if bool(BoolV(zb(lift(L.get('count')) == 1))):
        b = F.method(I, o, 'in_cell', Arr(ctx, pt), L.get('pos'))
        ctx.prove('R01: in_cell tests the selected cell', BoolV(zb(b) == zb(m.inside(m.C, F.Pt(ctx, pt)))))


BASE = [F.FILE + ':CellSet_C.__init__', F.FILE + ':CellSet_C.in_cell']
for _g in (1, 2, 3):
    @job('RectangularRegion_C %dD' % _g, ['R01'], functions=BASE + [F.FILE + ':RectangularRegion_C.__init__', F.FILE + ':RectangularRegion_C.inside'], trusted=TR, assumptions=AS, reach=['built', 'empty'])
    def _(ctx, g=_g):
        m, mid, lists, new = setup(ctx, g)
        lo, hi = [ctx.fresh('lo%d' % i, 'real') for i in range(g)], [ctx.fresh('hi%d' % i, 'real') for i in range(g)]
        sel_in = And(*[And(x >= a, x <= b) for x, a, b in zip(mid, lo, hi)])
        sel_out = Or(*[Or(x < a - NEAR, x > b + NEAR) for x, a, b in zip(mid, lo, hi)])
        args = [lo[0], hi[0]] if g == 1 else [tuple(lo), tuple(hi)]
        build(ctx, 'RectangularRegion_C', g, args, sel_in, sel_out, m, mid, lists, new)

    @job('WholeMesh_C %dD' % _g, ['R01'], functions=BASE + [F.FILE + ':WholeMesh_C.__init__'], trusted=TR, assumptions=AS, reach=['built'])
    def _(ctx, g=_g):
        m, mid, lists, new = setup(ctx, g)
        build(ctx, 'WholeMesh_C', g, [], True, False, m, mid, lists, new)


@job('SphericalRegion_C', ['R01'], functions=BASE + [F.FILE + ':SphericalRegion_C.__init__', F.FILE + ':SphericalRegion_C.inside'], trusted=TR, assumptions=AS, reach=['built', 'empty'])
def _(ctx):
    m, mid, lists, new = setup(ctx, 1)
    c, r = ctx.fresh('centre', 'real'), ctx.fresh('region_radius', 'real')
    ctx.assume(r >= 0)
    build(ctx, 'SphericalRegion_C', 1, [c, r], And(mid[0] - c <= r, c - mid[0] <= r), Or(mid[0] - c > r + NEAR, c - mid[0] > r + NEAR), m, mid, lists, new)
