"""B01: the table of boundary functions (Particle_Module.py, ParticleMeshBoundaryConditions_C.__init__).

Any number of boundaries and of species, any set of functions defined by the user's class.  The entry of one arbitrary
(boundary, species) pair is followed."""
import re
import z3
from val import atom, lift, BoolV, And, Or, Not, Implies, Ite, Unsupported, zb, Num
from ctx import PyRaise
from interp import Module, Interp, Obj, Model, Func, Env, Opaque
from job import job
from contracts import _store as S
from contracts._mover import uf, INT
from contracts.movers_py import STUBS

FILE = 'Particle_Module.py'
BOOL = z3.BoolSort()


class W:
    """Followed pair; names and tags are represented by the index of the boundary / species."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.nb, self.ns = ctx.fresh('boundaries'), ctx.fresh('species')
        self.b, self.s = ctx.fresh('b'), ctx.fresh('s')
        ctx.assume(And(self.nb >= 0, self.ns >= 0, self.b >= 0, self.b < self.nb, self.s >= 0, self.s < self.ns))
        self.reg = {}

    def token(self, kind, i):
        k = (kind, frozenset(lift(i).p.items()))
        if k not in self.reg:
            t = '\x01%s%d\x02' % (kind, len(self.reg))
            self.reg[k] = t
            self.reg[t] = (kind, i)
        return self.reg[k]

    def parse(self, s):
        return [self.reg[p] if p[:1] == '\x01' else p for p in re.split('(\x01[^\x02]*\x02)', s) if p]

    # does the user's class define ...?
    def h0(self):
        return BoolV(z3.Bool('has_default'))

    def h1(self, i):
        return BoolV(uf('has_default_at', INT, BOOL)(lift(i).z()))

    def h2(self, i, j):
        return BoolV(uf('has_bc_for', INT, INT, BOOL)(lift(i).z(), lift(j).z()))


class Tag(Model):
    def __init__(self, w, i):
        super().__init__(w.ctx)
        self.__dict__.update(w=w, i=i)

    def cmp(self, op, o):
        if isinstance(o, Tag) and op in ('Eq', 'NotEq'):
            r = self.i == o.i
            return r if op == 'Eq' else Not(r)
        raise Unsupported('comparison of a boundary tag')


class FVal(Model):
    """None or a function; code: 0 None, 1 global default, 2 / 3 default / specific function of the followed pair, 9 another."""

    def __init__(self, ctx, code):
        super().__init__(ctx)
        self.__dict__['code'] = code

    def is_(self, o):
        if o is None:
            return self.code == 0
        raise Unsupported('identity of functions')

    def truth(self, I=None):
        return Not(self.code == 0)


def code(v):
    if v is None:
        return lift(0)
    if isinstance(v, FVal):
        return lift(v.code)
    raise Unsupported('value stored as boundary function')


class User(Model):
    """The user's class of boundary functions: an arbitrary subset of the names of the naming scheme (and other names)."""

    def __init__(self, w):
        super().__init__(w.ctx)
        self.__dict__['w'] = w

    def find(self, k):
        w = self.w
        p = w.parse(k)
        if p == ['default_bc']:
            return w.h0(), lambda: lift(1)
        if len(p) == 2 and p[0] == 'default_bc_at_' and p[1][0] == 'B':
            return w.h1(p[1][1]), lambda: Ite(p[1][1] == w.b, 2, 9)
        if len(p) == 4 and p[0] == 'bc_at_' and p[1][0] == 'B' and p[2] == '_for_' and p[3][0] == 'S':
            return w.h2(p[1][1], p[3][1]), lambda: Ite(And(p[1][1] == w.b, p[3][1] == w.s), 3, 9)
        return self.ctx.fresh('has_other', 'bool'), lambda: lift(9)

    def hasattr_(self, k):
        return self.find(k)[0]

    def missing(self, k):
        h, c = self.find(k)
        if not self.ctx.branch(h):
            raise PyRaise('AttributeError', k)
        return FVal(self.ctx, c())
    attr = missing


class Seq(Model):
    """A sequence of n elements, element i given by item(i)."""

    def __init__(self, w, n, item):
        super().__init__(w.ctx)
        self.__dict__.update(w=w, n=n, item=item)

    def len_(self):
        return self.n

    def sym_iter(self, I):
        return S.Iter(0, self.n, self.item)

    def list_(self):
        return self

    def getitem(self, i):
        self.ctx.prove('B01: index in range', And(i >= 0, i < self.n))
        return self.item(i)

    def fn(self, I, e, env, out):
        g = e.generators[0]
        if g.ifs:
            raise Unsupported('filtered comprehension')
        vs = dict(env.vars)

        def f(i):
            en = Env(env.mod, {}, Env(env.mod, dict(vs), env.closure, env.fn), env.fn)
            I.assign(g.target, self.item(i), en)
            return out(en)
        return f

    def map_comp(self, I, e, env):
        return Seq(self.w, self.n, self.fn(I, e, env, lambda en: I.eval(e.elt, en)))

    def map_dict(self, I, e, env):
        return Seq(self.w, self.n, self.fn(I, e, env, lambda en: (I.eval(e.key, en), I.eval(e.value, en)))).dict_(I)

    def dict_(self, I):
        i = self.ctx.fresh('any')
        it = self.item(i)
        if not isinstance(it, (tuple, list)) or len(it) != 2:
            raise Unsupported('dict of a sequence')
        kind, j = keyof(self.w, it[0])
        if j is not i and lift(j).p != lift(i).p:
            raise Unsupported('keys of a dict')
        if isinstance(it[1], Map) and not isinstance(it[1], Table) and kind == 'T' and it[1].kind == 'S':
            return Table(self.w, code(self.item(self.w.b)[1].val(self.w.s)))
        return Map(self.w, self.n, kind, lambda i: self.item(i)[0], lambda i: self.item(i)[1])


def keyof(w, k):
    if isinstance(k, Tag):
        return 'T', k.i
    if isinstance(k, str):
        p = w.parse(k)
        if len(p) == 1 and isinstance(p[0], tuple):
            return p[0]
    raise Unsupported('key')


class Map(Model):
    """A dictionary with one entry for each boundary or species."""

    def __init__(self, w, n, kind, key, val):
        super().__init__(w.ctx)
        self.__dict__.update(w=w, n=n, kind=kind, key=key, val=val)

    def len_(self):
        return self.n

    def index(self, k):
        kind, i = keyof(self.w, k)
        if kind != self.kind:
            raise Unsupported('key of another kind')
        self.ctx.prove('B01: the key exists', And(i >= 0, i < self.n))
        return i

    def getitem(self, k):
        return self.val(self.index(k))

    def contains(self, k):
        kind, i = keyof(self.w, k)
        return And(i >= 0, i < self.n) if kind == self.kind else False

    def keys(self):
        return Seq(self.w, self.n, self.key)

    def values(self):
        return Seq(self.w, self.n, self.val)

    def items(self):
        return Seq(self.w, self.n, lambda i: (self.key(i), self.val(i)))

    def sym_iter(self, I):
        return S.Iter(0, self.n, self.key)

    def list_(self):
        return self.keys()

    def map_comp(self, I, e, env):
        return self.keys().map_comp(I, e, env)

    def map_dict(self, I, e, env):
        return self.keys().map_dict(I, e, env)

    def setitem(self, k, v):
        raise Unsupported('assignment to a dict with symbolic keys')


class Table(Map):
    """bc_function_dict: only the entry of the followed pair is tracked."""

    def __init__(self, w, v):
        Map.__init__(self, w, w.nb, 'T', lambda i: Tag(w, i), lambda i: TableRow(self, i))
        self.cells['v'] = v


class TableRow(Map):
    def __init__(self, t, i):
        w = t.w
        Map.__init__(self, w, w.ns, 'S', lambda j: w.token('S', j), lambda j: FVal(w.ctx, w.ctx.pick(self.hit(j), lambda: lift(t.get('v')), lambda: w.ctx.fresh('entry'))))
        self.__dict__.update(t=t, i=i)

    def hit(self, j):
        return And(self.i == self.w.b, j == self.w.s)

    def setitem(self, k, v):
        j = self.index(k)
        c = code(v)
        self.t.put('v', Ite(self.hit(j), c, self.t.get('v')))


@job('table of boundary functions', ['B01'], functions=[FILE + ':ParticleMeshBoundaryConditions_C.__init__'],
     trusted=['names of boundaries and of species are distinct and their concatenations in the naming scheme do not collide'],
     assumptions=['facet tags of different boundaries differ'], reach=['built'])
def _(ctx):
    w = W(ctx)
    want = Ite(w.h2(w.b, w.s), 3, Ite(w.h1(w.b), 2, Ite(w.h0(), 1, 0)))
    tables = []

    def inv(env, entry, locs):
        out = []
        t = obj.cells.get('bc_function_dict')
        if isinstance(t, Table):
            for n, v in locs:
                if isinstance(v, Num) and v.i:
                    out.append(('boundaries before %s are done' % n, lambda v=v: Implies(w.b < v, t.get('v') == want)))
                    out.append(('species before %s are done' % n, lambda v=v: Implies(w.s < v, t.get('v') == want)))
                    for m, u in locs:
                        if m != n and isinstance(u, Num) and u.i:
                            out.append(('boundaries before %s, species before %s are done' % (n, m), lambda v=v, u=u: Implies(Or(w.b < v, And(w.b == v, w.s < u)), t.get('v') == want)))
                            out.append(('boundaries up to %s, species before %s are done' % (n, m), lambda v=v, u=u: Implies(Or(w.b + 1 < v, And(w.b + 1 == v, w.s < u)), t.get('v') == want)))
                            out.append(('species before %s, boundaries before %s are done' % (n, m), lambda v=v, u=u: Implies(Or(w.s + 1 < v, And(w.s + 1 == v, w.b < u)), t.get('v') == want)))
        return out
    I = Interp(STUBS, {}, S.inv(lambda: [], inv))
    cls = Module.load(FILE, STUBS).lookup('ParticleMeshBoundaryConditions_C')
    obj = Obj(ctx, cls)
    names = Seq(w, w.ns, lambda j: w.token('S', j))
    mesh = Obj(ctx, Module.load('Dolfin_Module.py', STUBS).lookup('Mesh_C'), particle_boundary_dict=Map(w, w.nb, 'B', lambda i: w.token('B', i), lambda i: Tag(w, i)))
    r = cls.find('__init__')
    flag = BoolV(z3.Bool('print_flag'))
    I.call_func(Func(r[0].mod, r[1], r[0]), [obj, names, mesh, User(w)], dict(print_flag=flag))
    t = obj.cells.get('bc_function_dict')
    if not isinstance(t, Table):
        raise Unsupported('bc_function_dict is not a table by boundary and species')
    ctx.reach('built')
    ctx.prove('B01: each boundary and species gets the most specific function: its own, else the default of the boundary, else the global default, else none', t.get('v') == want)
