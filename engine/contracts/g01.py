"""G01: the connectivity and geometry dictionaries of Mesh_C (Dolfin_Module.py).

A mesh with any number of cells; the entry of one arbitrary cell is followed.  The mesh library's own answers about a cell
(vertices, facets, cells at a facet, normal, volume, vertex coordinates) are functions of the cell."""
import math
from fractions import Fraction
import z3
import val
from val import atom, lift, BoolV, And, Or, Not, Implies, Ite, Unsupported, zb, Num
from ctx import PyRaise
from interp import Module, Interp, Obj, Model, Func, Env, Opaque
from models import Arr, mkarr
from job import job
from contracts import _store as S, _field as F
from contracts._mover import uf, INT, REAL

FILE = F.FILE
BOOL = z3.BoolSort()


def U(name, sort, *a):
    return atom(uf(name, *([INT if lift(x).i else REAL for x in a] + [sort]))(*[lift(x).z() for x in a]))


class M:
    """The mesh."""

    def __init__(self, ctx, dim):
        self.ctx, self.dim = ctx, dim
        self.ncell, self.W = ctx.fresh('ncell'), ctx.fresh('W')
        ctx.assume(And(self.ncell >= 1, self.W >= 0, self.W < self.ncell))

    def has_nb(self, c, f):
        return BoolV(uf('has_neighbour', INT, INT, BOOL)(lift(c).z(), lift(f).z()))

    def nb(self, c, f):
        return U('neighbour', INT, c, f)

    def entity(self, c, d, k):
        return U('entity_%d' % d, INT, c, k)

    def normal(self, c, f, x):
        return U('normal_%d' % x, REAL, c, f) if x < self.dim else 0

    def volume(self, c):
        return U('volume', REAL, c)

    def coord(self, c, k, x):
        return U('coord', REAL, c, k * self.dim + x)


class Facet(Model):
    def __init__(self, ctx, m, c, f):
        super().__init__(ctx)
        self.__dict__.update(m=m, c=c, f=f)

    def index(self):
        return self.m.entity(self.c, self.m.dim - 1, self.f)

    def at(self):
        """The cells at the facet, in an arbitrary order."""
        m, ctx, c, f = self.m, self.ctx, self.c, self.f
        key = ('at', frozenset(lift(c).p.items()), f)
        if key not in ctx.memo:
            if ctx.branch(m.has_nb(c, f)):
                n = m.nb(c, f)
                ctx.assume(And(n >= 0, n < m.ncell, n != c))
                ctx.memo[key] = [c, n] if ctx.choose('order of the cells at a facet') else [n, c]
            else:
                ctx.memo[key] = [c]
        return ctx.memo[key]

    def entities(self, d):
        if d != self.m.dim:
            raise Unsupported('entities of a facet')
        return Arr(self.ctx, self.at(), dtype='int')

    def num_entities(self, d):
        if d != self.m.dim:
            raise Unsupported('entities of a facet')
        return len(self.at())

    def exterior(self):
        return len(self.at()) == 1


class Cell(Model):
    def __init__(self, ctx, m, c):
        super().__init__(ctx)
        self.__dict__.update(m=m, c=c)

    def index(self):
        return self.c

    def entities(self, d):
        n = math.comb(self.m.dim + 1, d + 1)
        return Arr(self.ctx, [self.m.entity(self.c, d, k) for k in range(n)], dtype='int')

    def num_entities(self, d):
        return math.comb(self.m.dim + 1, d + 1)

    def normal(self, f):
        self.ctx.prove('G01: normals of existing facets are asked for', And(f >= 0, f <= self.m.dim))
        return F.Pt(self.ctx, [self.m.normal(self.c, f, x) for x in range(self.m.dim)])

    def volume(self):
        return self.m.volume(self.c)

    def get_vertex_coordinates(self):
        return Arr(self.ctx, [self.m.coord(self.c, k, x) for k in range(self.m.dim + 1) for x in range(self.m.dim)])

    def same_cell(self, o):
        return isinstance(o, Cell) and lift(o.c).p == lift(self.c).p


class Cells(Model):
    def __init__(self, ctx, m):
        super().__init__(ctx)
        self.__dict__['m'] = m

    def sym_iter(self, I):
        return S.Iter(0, self.m.ncell, lambda i: Cell(self.ctx, self.m, i))

    def fn(self, I, e, env, out):
        g = e.generators[0]
        if g.ifs:
            raise Unsupported('filtered comprehension over the cells')
        vs = dict(env.vars)

        def f(i):
            en = Env(env.mod, {}, Env(env.mod, dict(vs), env.closure, env.fn), env.fn)
            I.assign(g.target, Cell(self.ctx, self.m, i), en)
            return out(en)
        return f

    def map_comp(self, I, e, env):
        return Pairs(self.ctx, self.m, self.fn(I, e, env, lambda en: I.eval(e.elt, en)))

    def map_dict(self, I, e, env):
        return Pairs(self.ctx, self.m, self.fn(I, e, env, lambda en: (I.eval(e.key, en), I.eval(e.value, en)))).dict_(I)


class Pairs(Model):
    """(key, value) for every cell, in order."""

    def __init__(self, ctx, m, f):
        super().__init__(ctx)
        self.__dict__.update(m=m, f=f)

    def dict_(self, I):
        i = self.ctx.fresh('any_cell')
        self.ctx.assume(And(i >= 0, i < self.m.ncell))
        k = self.f(i)
        if not isinstance(k, (tuple, list)) or len(k) != 2:
            raise Unsupported('dict of a comprehension')
        self.ctx.prove('G01: entries are stored under the index of their cell', lift(k[0]) == i)
        d = Table.make()
        d.write(self.m.W, self.f(self.m.W)[1])
        return d


class Table(Model):
    """A dictionary with an entry for each cell; the entry of cell W is followed."""
    make = None

    def __init__(self, ctx, m, n, kind):
        super().__init__(ctx)
        self.__dict__.update(m=m, n=n, kind=kind)
        self.cells['has'] = False
        for i in range(n):
            self.cells[i] = ctx.fresh('none', kind)

    def flat(self, v):
        if isinstance(v, Arr):
            return v.vals()
        if isinstance(v, (list, tuple)):
            return [x for y in v for x in self.flat(y)]
        if isinstance(v, Cell):
            return [v.c]
        if lift(v) is None:
            raise Unsupported('value of an entry')
        return [v]

    def write(self, k, v):
        ctx = self.ctx
        vs = self.flat(v)
        ctx.prove('G01: an entry has the size of the data of one cell', len(vs) == self.n)
        hit = lift(k) == self.m.W
        for i, x in enumerate(vs):
            self.put(i, Ite(hit, x, self.get(i)))
        self.put('has', Or(self.get('has'), hit))
        if isinstance(v, Arr):
            own = not ctx.active or v.buf.oid > ctx.active[0][2]
            ctx.prove('G01: each cell has an array of its own', own and ctx.memo.setdefault('stored', {}).get(v.buf.oid, lift(k).p) == lift(k).p)
            ctx.memo['stored'][v.buf.oid] = lift(k).p
            v.buf.__dict__['mirror'] = (self, v.idx, hit)

    def setitem(self, k, v):
        self.ctx.prove('G01: entries are stored under the index of a cell', And(k >= 0, k < self.m.ncell))
        self.write(k, v)
        self.__dict__['last'] = (lift(k).p, v)

    def getitem(self, k):
        l = self.__dict__.get('last')
        if l is not None and lift(k).p == l[0]:
            return l[1]
        raise Unsupported('reading the table')

    def len_(self):
        raise Unsupported('len of a table')


class Df(F.Df):
    m = None

    def cells(self, mesh):
        if not isinstance(mesh, MeshH):
            raise Unsupported('cells of something else')
        return Cells(val.CTX[0], mesh.m)

    def facets(self, c):
        if not isinstance(c, Cell):
            raise Unsupported('facets of something else than a cell')
        return [Facet(c.ctx, c.m, c.c, f) for f in range(c.m.dim + 1)]


class MeshH(Model):
    def __init__(self, ctx, m):
        super().__init__(ctx)
        self.__dict__['m'] = m

    def init(self, *a):
        return None

    def num_cells(self):
        return self.m.ncell


STUBS = dict(F.FSTUBS, dolfin=Df())
TR = ['dolfin: index, entities, normal, volume and vertex coordinates of a cell, cells at a facet (one or two, one of them the cell itself)', 'iteration over the cells visits every cell once']


def setup(ctx, dim, n, kind, **attrs):
    m = M(ctx, dim)
    Table.make = staticmethod(lambda: Table(ctx, m, n, kind))

    def cands(env, entry, locs):
        out = []
        for t in [v for v in obj.cells.values() if isinstance(v, Table)]:
            for nm, v in locs:
                if isinstance(v, Num) and v.i:
                    out.append(('cells before %s have their entry' % nm, lambda v=v, t=t: Implies(m.W < v, t.get('has'))))
                    for i in range(n):
                        out.append(('entry %d of the cells before %s' % (i, nm), lambda v=v, t=t, i=i: Implies(m.W < v, t.get(i) == m.want(i))))
        return out
    I = Interp(STUBS, {}, S.inv(lambda: [], cands))
    I.empty_dict = Table.make
    cls = Module.load(FILE, STUBS).lookup('Mesh_C')
    obj = Obj(ctx, cls, mesh=MeshH(ctx, m), gdim=dim, tdim=dim, facet_normal_3d=Arr(ctx, [ctx.fresh('n3', 'real') for _ in range(3)]), coordinate_system='Cartesian', **attrs)
    return m, I, obj, cls


def run(I, obj, cls, name, *a):
    r = cls.find(name)
    if r is None:
        raise Unsupported('no method ' + name)
    return I.call_func(Func(r[0].mod, r[1], r[0]), [obj] + list(a), {})


def done(ctx, m, t, n, what):
    if not isinstance(t, Table):
        raise Unsupported('the table')
    ctx.reach('table made')
    ctx.prove('G01: every cell has an entry', t.get('has'))
    ctx.prove('G01: the entry of a cell holds ' + what, And(*[t.get(i) == m.want(i) for i in range(n)]))


for _d in (1, 2, 3):
    @job('cell neighbours %dD' % _d, ['G01'], functions=[FILE + ':Mesh_C.compute_cell_neighbors_dict'], trusted=TR, reach=['table made'])
    def _(ctx, d=_d):
        m, I, obj, cls = setup(ctx, d, d + 1, 'int')
        no = I.getattr(cls, 'NO_CELL')
        m.want = lambda f: Ite(m.has_nb(m.W, f), m.nb(m.W, f), no)
        ctx.prove('G01: the no-cell mark is not the index of a cell', Or(lift(no) < 0, lift(no) >= m.ncell))
        run(I, obj, cls, 'compute_cell_neighbors_dict')
        done(ctx, m, obj.cells.get('cell_neighbors_dict'), d + 1, 'the cell across each facet, or the no-cell mark')

    @job('facet normals %dD' % _d, ['G01'], functions=[FILE + ':Mesh_C.compute_cell_facet_normals_dict'], trusted=TR, reach=['table made'])
    def _(ctx, d=_d):
        m, I, obj, cls = setup(ctx, d, (d + 1) * d, 'real')
        m.want = lambda i: m.normal(m.W, i // d, i % d)
        run(I, obj, cls, 'compute_cell_facet_normals_dict')
        done(ctx, m, obj.cells.get('cell_facet_normals_dict'), (d + 1) * d, 'the normal of each facet')

    @job('cell vertices %dD' % _d, ['G01'], functions=[FILE + ':Mesh_C.compute_cell_vertices_dict'], trusted=TR, reach=['table made'])
    def _(ctx, d=_d):
        m, I, obj, cls = setup(ctx, d, d + 1, 'int')
        m.want = lambda i: m.entity(m.W, 0, i)
        run(I, obj, cls, 'compute_cell_vertices_dict')
        done(ctx, m, obj.cells.get('cell_vertices_dict'), d + 1, 'its vertices')

    for _e, _k in (('vertex', 0), ('facet', _d - 1)):
        @job('cell entity indices %s %dD' % (_e, _d), ['G01'], functions=[FILE + ':Mesh_C.compute_cell_entity_indices_dict'], trusted=TR, reach=['table made'])
        def _(ctx, d=_d, e=_e, k=_k):
            n = math.comb(d + 1, k + 1)
            m, I, obj, cls = setup(ctx, d, n, 'int')
            m.want = lambda i: m.entity(m.W, k, i)
            obj.cells['entity_dimension'] = {'vertex': 0, 'edge': 1, 'face': 2, 'facet': d - 1, 'cell': d}
            tab = obj.cells['cell_entity_indices_dict'] = {}
            run(I, obj, cls, 'compute_cell_entity_indices_dict', e)
            done(ctx, m, obj.cells['cell_entity_indices_dict'].get(e), n, 'its entities')

    @job('cell volumes %dD' % _d, ['G01'], functions=[FILE + ':Mesh_C.compute_cell_volume_dict'], trusted=TR + ['the volume of a cell in Cartesian coordinates'], reach=['table made'])
    def _(ctx, d=_d):
        m, I, obj, cls = setup(ctx, d, 1, 'real')
        obj.cells['cell_volume_dict'] = Table.make()
        m.want = lambda i: m.volume(m.W)
        run(I, obj, cls, 'compute_cell_volume_dict')
        done(ctx, m, obj.cells.get('cell_volume_dict'), 1, 'its volume')


@job('cell volumes in spherical geometry', ['G01'], functions=[FILE + ':Mesh_C.compute_cell_volume_dict'], trusted=TR, assumptions=['pi is the real number pi', 'in a 1D mesh the first vertex of a cell is the inner one'], reach=['table made'])
def _(ctx):
    m, I, obj, cls = setup(ctx, 1, 1, 'real')
    obj.cells['coordinate_system'] = '1D-spherical-radial'
    obj.cells['cell_volume_dict'] = Table.make()
    pi = STUBS['numpy'].pi
    a, b = m.coord(m.W, 0, 0), m.coord(m.W, 1, 0)
    m.want = lambda i: lift(pi) * Fraction(4, 3) * (b * b * b - a * a * a)
    run(I, obj, cls, 'compute_cell_volume_dict')
    done(ctx, m, obj.cells.get('cell_volume_dict'), 1, 'the volume of the shell between its vertices')
