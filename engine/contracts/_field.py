"""Finite-element fields on a mesh with any number of cells and degrees of freedom (dofs): one arbitrary dof d is followed.

Contracts of dolfin: every cell has NBF dofs, all different; evaluate_basis_all gives the values of the cell's basis functions at the
point; a vector is read and written by NumPy's slice and index-array rules (an index array with `a[i] += v` reads, adds, writes)."""
import z3
import val
from val import atom, lift, BoolV, And, Or, Not, Implies, Ite, Unsupported, zb, Num
from ctx import PathEnd, PyRaise
from interp import Module, Interp, Obj, Model, Opaque, Func, TypeName
from models import NumpyStub, Arr, base_stubs
from contracts import _store as S
from contracts._mover import uf, INT, REAL, BOOL, DType

FILE = 'Dolfin_Module.py'


def U(name, sort, *args):
    zs = [lift(a).z() for a in args]
    return atom(uf(name, *([z.sort() for z in zs] + [sort]))(*zs))


class FV(Model):
    """The vector of a field: n numbers, the one of dof d is followed."""

    def __init__(self, ctx, n, d, name='value'):
        super().__init__(ctx)
        self.__dict__.update(n=n, d=d, name=name)
        self.cells['v'] = ctx.fresh(name, 'real')

    def len_(self):
        return self.n

    size = property(lambda self: self.n)

    def other(self, j):
        return self.ctx.fresh('other_' + self.name, 'real')

    def read(self, j, v=None):
        v = self.get('v') if v is None else v
        if lift(j).p == lift(self.d).p:
            return v
        return self.ctx.pick(lift(j) == self.d, lambda: v, lambda: self.other(j))

    def write(self, j, x):
        self.put('v', self.ctx.pick(lift(j) == self.d, lambda: x, lambda: self.get('v')))

    def vec(self):
        v = self.get('v')
        return S.Vec(self.ctx, 0, self.n, lambda j: self.read(j, v))

    def getitem(self, k):
        if isinstance(k, slice):
            if (k.start, k.stop, k.step) != (None, None, None):
                raise Unsupported('part of a field vector')
            return self.vec()
        if isinstance(k, (Arr, list)):
            return Arr(self.ctx, [self.read(j) for j in (k.vals() if isinstance(k, Arr) else k)])
        if isinstance(k, DofSet):
            return Picked(self.ctx, k, self.vec().g)
        if isinstance(k, (Num, int)):
            return self.read(k)
        raise Unsupported('field vector index')

    def setitem(self, k, x):
        if isinstance(k, slice):
            if (k.start, k.stop, k.step) != (None, None, None):
                raise Unsupported('part of a field vector')
            if isinstance(x, FV):
                x = x.vec()
            if isinstance(x, Rnd):
                x = x.vec()
            if isinstance(x, S.Vec):
                if lift(x.n).p != lift(self.n).p:
                    self.ctx.prove('vectors have the same length', x.n == self.n)
                self.put('v', x.g(lift(x.off) + self.d))
                return
            if lift(x) is None:
                raise Unsupported('field vector value')
            self.put('v', x)
            return
        if isinstance(k, (Arr, list)):
            js = k.vals() if isinstance(k, Arr) else k
            if isinstance(x, Arr):
                xs = x.vals()
            elif isinstance(x, list):
                xs = x
            elif lift(x) is not None:
                xs = [x] * len(js)
            else:
                raise Unsupported('field vector value')
            if len(xs) == 1:
                xs = xs * len(js)
            if len(xs) != len(js):
                raise PyRaise('ValueError', 'shape mismatch')
            for j, v in zip(js, xs):
                self.write(j, v)
            return
        if isinstance(k, DofSet):
            if isinstance(x, Picked):
                self.put('v', Ite(k.has(self.d), x.g(self.d), self.get('v')))
            elif lift(x) is not None:
                self.put('v', Ite(k.has(self.d), x, self.get('v')))
            else:
                raise Unsupported('field vector value')
            return
        if isinstance(k, (Num, int)):
            self.write(k, x)
            return
        raise Unsupported('field vector index')

    # NumPy arithmetic
    def __add__(self, o): return self.vec() + (o.vec() if isinstance(o, FV) else o)
    __radd__ = __add__
    def __mul__(self, o): return self.vec() * (o.vec() if isinstance(o, FV) else o)
    __rmul__ = __mul__
    def __sub__(self, o): return self.vec() - (o.vec() if isinstance(o, FV) else o)
    def get_local(self): return self.vec()
    def set_local(self, v): self.setitem(slice(None), v)

    def iop(self, op, o):
        """PETSc vector in-place arithmetic"""
        f = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mult': lambda a, b: a * b, 'Div': lambda a, b: a / b}[op]
        self.setitem(slice(None), f(self.vec(), o.vec() if isinstance(o, (FV, Rnd)) else o))
        return self

    def axpy(self, a, o):
        self.setitem(slice(None), self.vec() + o.vec() * a)

    def attr(self, k):
        if k in ('get_local', 'set_local', 'axpy', 'size', 'n'):
            return getattr(self, k)
        if k == 'apply':
            return lambda *a: None
        raise Unsupported('field vector.' + k)


class Scratch(Model):
    """A work array: contents as a function of the index."""

    def __init__(self, ctx, n):
        super().__init__(ctx)
        self.__dict__['n'] = n
        self.cells['g'] = lambda i: ctx.fresh('scratch', 'real')

    size = property(lambda self: self.n)

    def len_(self):
        return self.n

    def g(self):
        g = self.get('g')
        if not callable(g) or type(g).__name__ == 'Poison':
            raise Unsupported('contents of the work array at a loop head')
        return g

    def vec(self):
        return S.Vec(self.ctx, 0, self.n, self.g())

    def getitem(self, k):
        if isinstance(k, slice):
            return self.vec().getitem(k)
        self.ctx.prove('the work array is used inside its length', And(k >= 0, k < self.n))
        return self.g()(lift(k))

    def setitem(self, k, x):
        if isinstance(k, slice):
            if (k.start, k.stop, k.step) != (None, None, None):
                raise Unsupported('part of the work array')
            if hasattr(x, 'vec'):
                x = x.vec()
            if isinstance(x, S.Vec):
                if lift(x.n).p != lift(self.n).p:
                    self.ctx.prove('vectors have the same length', x.n == self.n)
                self.put('g', lambda i: x.g(lift(x.off) + i))
            elif lift(x) is not None:
                self.put('g', lambda i: x)
            else:
                raise Unsupported('work array value')
            return
        if isinstance(x, Arr):
            if x.size != 1:
                raise PyRaise('ValueError')
            x = x.vals()[0]
        self.ctx.prove('the work array is used inside its length', And(k >= 0, k < self.n))
        old, ctx = self.get('g'), self.ctx

        def g(i):
            if lift(i).p == lift(k).p:
                return x
            if type(old).__name__ == 'Poison':
                raise Unsupported('contents of the work array at a loop head')
            return ctx.pick(lift(i) == k, lambda: x, lambda: old(i))
        self.put('g', g)

    def __mul__(self, o): return self.vec() * o
    __rmul__ = __mul__


class Picked(Model):
    """vector[set of dofs]"""

    def __init__(self, ctx, ds, g):
        super().__init__(ctx)
        self.__dict__.update(ds=ds, g=g)

    def _bin(self, o, f):
        if lift(o) is None:
            raise Unsupported('picked values with %s' % type(o).__name__)
        return Picked(self.ctx, self.ds, lambda j: f(self.g(j), o))

    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __truediv__(self, o): return self._bin(o, lambda a, b: self.ctx.div(a, b))


class Rnd(Model):
    """numpy.random.normal(mean, s, n): number k is mean + s * Z(k), Z the standard normal sequence of this call."""
    count = 0

    def __init__(self, ctx, m, s, n):
        super().__init__(ctx)
        k = ctx.memo.setdefault('draws', [0])
        k[0] += 1
        self.__dict__.update(m=m, s=s, n=n, Z='Z%d' % k[0])

    def g(self, i):
        return self.s * U(self.Z, REAL, i) + self.m

    def vec(self):
        return S.Vec(self.ctx, 0, self.n, self.g)

    def len_(self):
        return self.n

    def getitem(self, k):
        if isinstance(k, slice):
            if (k.start, k.stop, k.step) != (None, None, None):
                raise Unsupported('part of a random array')
            return self.vec()
        self.ctx.prove('random numbers are read inside the array', And(k >= 0, k < self.n))
        return self.g(k)

    def __mul__(self, o): return self.vec() * o
    __rmul__ = __mul__
    def __add__(self, o): return self.vec() + o
    __radd__ = __add__


class DofSet(Model):
    """A list of dofs given by membership (for reads, and writes of one value per dof, repetitions do not matter)."""

    def __init__(self, ctx, has):
        super().__init__(ctx)
        self.__dict__['has'] = has


class Fld:
    """One field: an object of the real class Field_C."""

    def __init__(self, mesh, name, nbf, space='V', n=None, d=None):
        ctx = self.ctx = mesh.ctx
        self.mesh, self.nbf, self.name, self.space = mesh, nbf, name, space
        self.n = mesh.ndof if n is None else n
        self.d = mesh.d if d is None else d
        self.fv = FV(ctx, self.n, self.d, name)
        self.v0 = self.fv.get('v')
        self.fun = Fun(ctx, self)
        self.obj = Obj(ctx, mesh.field_cls, mesh_M=mesh.obj, mesh_gdim=mesh.gdim, mesh_tdim=mesh.gdim, function_space=FSpace(ctx, self), function=self.fun, function_values=self.fv,
                       function_len=self.n, scratch_array=Scratch(ctx, self.n), field_type='scalar')

    @property
    def v(self):
        return self.fv.get('v')


class Fun(Model):
    """dolfin.Function: f(point, values=out) evaluates the field."""

    def __init__(self, ctx, fld):
        super().__init__(ctx)
        self.__dict__['fld'] = fld

    def vector(self):
        return self.fld.fv

    def value(self, comp, p):
        return U('Value_%s_%d' % (self.fld.name, comp), REAL, *p)

    def call(self, p, values=None, **k):
        p = list(p.vals()) if isinstance(p, Arr) else p.coords if isinstance(p, Pt) else list(p)
        if len(p) != self.fld.mesh.gdim:
            self.ctx.prove('the field is evaluated at a point of the mesh', False)
            raise PathEnd()
        if values is None:
            raise Unsupported('evaluation without an array for the result')
        for i in range(values.size):
            values.setitem(i, self.value(i, p))
        return values

    def attr(self, k):
        if k in ('vector', 'value'):
            return getattr(self, k)
        raise Unsupported('Function.' + k)


class FSpace(Model):
    def __init__(self, ctx, fld):
        super().__init__(ctx)
        self.__dict__['fld'] = fld

    def element(self):
        return El(self.ctx, self.fld)

    def dofmap(self):
        return Dofmap(self.ctx, self.fld)

    def dim(self):
        return self.fld.n

    def mesh(self):
        return self.fld.mesh.mesh


class El(Model):
    def __init__(self, ctx, fld):
        super().__init__(ctx)
        self.__dict__['fld'] = fld

    def space_dimension(self):
        return self.fld.nbf

    def value_dimension(self, *a):
        return 1

    def evaluate_basis_all(self, point, coordinate_dofs, orientation):
        ctx, m = self.ctx, self.fld.mesh
        p = point.vals() if isinstance(point, Arr) else point.coords if isinstance(point, Pt) else list(point)
        if len(p) != m.gdim:
            ctx.prove('basis functions are evaluated at a point of the mesh', False)
            raise PathEnd()
        if not (isinstance(coordinate_dofs, CDofs) and isinstance(orientation, (CellOf, int))):
            raise Unsupported('arguments of evaluate_basis_all')
        if isinstance(orientation, CellOf):
            ctx.prove('D01: the orientation is that of the cell', orientation.c == coordinate_dofs.c)
        return Arr(ctx, [self.fld.mesh.basis(self.fld, k, coordinate_dofs.c, p) for k in range(self.fld.nbf)])


class CDofs(Model):
    def __init__(self, ctx, c):
        super().__init__(ctx)
        self.__dict__['c'] = c


class CellOf(CDofs):
    pass


class Dofmap(Model):
    def __init__(self, ctx, fld):
        super().__init__(ctx)
        self.__dict__['fld'] = fld

    def cell_dofs(self, c):
        return Arr(self.ctx, self.fld.mesh.dofs(self.fld, c))


class Pt(Model):
    """dolfin.Point: absent coordinates are zero."""

    def __init__(self, ctx, coords):
        super().__init__(ctx)
        self.__dict__['coords'] = list(coords)

    def getitem(self, k):
        if not 0 <= k < 3:
            raise PyRaise('IndexError')
        return self.coords[k] if k < len(self.coords) else 0

    def x(self): return self.getitem(0)
    def y(self): return self.getitem(1)
    def z(self): return self.getitem(2)

    def array(self):
        return Arr(self.ctx, [self.getitem(i) for i in range(3)])

    def full(self):
        return [self.getitem(i) for i in range(3)]


class CellM(Model):
    """dolfin.Cell number c."""

    def __init__(self, ctx, mesh, c):
        super().__init__(ctx)
        self.__dict__.update(mesh=mesh, c=c)

    def index(self):
        return self.c

    def get_coordinate_dofs(self):
        return CDofs(self.ctx, self.c)

    def get_vertex_coordinates(self):
        return CDofs(self.ctx, self.c)

    def orientation(self):
        return CellOf(self.ctx, self.c)

    def volume(self, *a):
        return self.mesh.volume(self.c)

    def midpoint(self):
        return Pt(self.ctx, [self.mesh.midpoint(self.c, i) for i in range(self.mesh.gdim)])

    def circumradius(self):
        return self.mesh.radius(self.c)

    def contains(self, p):
        return self.mesh.inside(self.c, p)

    def havoc(self, ctx, name):
        from ctx import Poison
        return Poison(name)


class Df:
    """The dolfin module."""
    stub = True

    def Cell(self, mesh, c):
        if not isinstance(mesh, MeshH):
            raise Unsupported('Cell of another mesh')
        ctx = val.CTX[0]
        ctx.prove('cells of the mesh are used', And(c >= 0, c < mesh.m.ncell))
        return CellM(ctx, mesh.m, c)

    def cells(self, mesh):
        return Cells(val.CTX[0], mesh.m)

    def Point(self, *a):
        ctx = val.CTX[0]
        if len(a) == 1 and isinstance(a[0], Arr):
            a = a[0].vals()
        elif len(a) == 1 and isinstance(a[0], (list, tuple)):
            a = a[0]
        elif len(a) == 1 and isinstance(a[0], Pt):
            return a[0]
        return Pt(ctx, a)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if k in ('SubDomain', 'UserExpression', 'Expression'):
            return Opaque('dolfin.' + k)
        raise Unsupported('dolfin.%s is not modelled' % k)


class Cells(Model):
    """All cells of the mesh."""

    def __init__(self, ctx, m):
        super().__init__(ctx)
        self.__dict__['m'] = m

    def sym_iter(self, I):
        return S.Iter(0, self.m.ncell, lambda i: CellM(self.ctx, self.m, i))


class MeshH(Model):
    def __init__(self, ctx, m):
        super().__init__(ctx)
        self.__dict__['m'] = m

    def num_cells(self):
        return self.m.ncell

    def num_entities(self, d):
        if d == self.m.gdim:
            return self.m.ncell
        raise Unsupported('num_entities')


class ByCell:
    """A table over cells."""

    def __init__(self, f, n=None):
        self.f, self.n = f, n

    def getitem(self, c):
        if self.n is not None:
            val.CTX[0].prove('tables over cells are read at cells of the mesh', And(c >= 0, c < self.n))
        return self.f(c)


class NpF(NumpyStub):
    class random:      # noqa
        @staticmethod
        def normal(loc=0.0, scale=1.0, size=None):
            ctx = val.CTX[0]
            if size is None:
                r = Rnd(ctx, loc, scale, 1)
                return r.g(0)
            if isinstance(size, int):
                r = Rnd(ctx, loc, scale, size)
                return Arr(ctx, [r.g(i) for i in range(size)])
            return Rnd(ctx, loc, scale, size)

        @staticmethod
        def uniform(low=0.0, high=1.0, size=None):
            ctx = val.CTX[0]
            out = []
            for _ in range(1 if size is None else size):
                u = ctx.fresh('uniform', 'real')
                ctx.assume(And(u >= low, u <= high))
                out.append(u)
            return out[0] if size is None else Arr(ctx, out)

    class linalg:      # noqa
        @staticmethod
        def norm(a):
            ctx = val.CTX[0]
            r = ctx.fresh('norm', 'real')
            vs = a.vals() if isinstance(a, Arr) else list(a)
            ctx.assume(And(r >= 0, BoolV(zb(r == 0) == zb(And(*[v == 0 for v in vs])))))
            return r

    def concatenate(self, a, **k):
        if isinstance(a, CellDofs):
            return a.set()
        raise Unsupported('concatenate')

    def unique(self, a, **k):
        if isinstance(a, DofSet) and not k:
            return a
        raise Unsupported('unique')

    def any(self, a):
        return a.any()

    def count_nonzero(self, a):
        r = 0
        for v in a.vals():
            r = r + Ite(v == 0, 0, 1)
        return r


FSTUBS = dict(base_stubs(), numpy=NpF(), dolfin=Df())
FSTUBS['matplotlib.pyplot'] = Opaque('matplotlib')


class MeshW:
    """A mesh with any number of cells; functions of the cell number are uninterpreted."""

    def __init__(self, ctx, gdim, stubs=None):
        self.ctx, self.gdim = ctx, gdim
        self.stubs = stubs or FSTUBS
        self.ncell, self.ndof, self.d = ctx.fresh('ncell'), ctx.fresh('ndof'), ctx.fresh('dof')
        ctx.assume(And(self.ncell >= 1, self.ndof >= 1, self.d >= 0, self.d < self.ndof))
        self.mod = Module.load(FILE, self.stubs)
        self.field_cls = self.mod.lookup('Field_C')
        self.mesh_cls = self.mod.lookup('Mesh_C')
        self.mesh = MeshH(ctx, self)
        self.obj = Obj(ctx, self.mesh_cls, mesh=self.mesh, gdim=gdim, tdim=gdim, cell_volume_dict=ByCell(self.volume, self.ncell), cell_dict=ByCell(lambda c: CellM(ctx, self, c), self.ncell))
        self.seen = {}
        self.cell = None        # the followed cell

    def dofs(self, fld, c):
        out = [U('dof_%s_%d' % (fld.space, k), INT, c) for k in range(fld.nbf)]
        key = (fld.space, frozenset(lift(c).p.items()))
        if key not in self.seen:
            self.seen[key] = c
            ctx = self.ctx
            for k in range(fld.nbf):
                ctx.assume(And(out[k] >= 0, out[k] < fld.n))
                for j in range(k):
                    ctx.assume(out[j] != out[k])
            if fld.nbf == 1 and fld.space == 'DG0':
                # DG0: different cells have different dofs, so the followed dof belongs to one cell
                ctx.assume(BoolV(zb(out[0] == fld.d) == zb(lift(c) == self.cell_of_dof(fld.d))))
        return out

    def cell_of_dof(self, d):
        return U('cell_of_dof', INT, d)

    def basis(self, fld, k, c, p):
        return U('basis_%s_%d' % (fld.space, k), REAL, c, *[lift(x) + 0 if not lift(x).i else Num(lift(x).p, False) for x in p])

    def volume(self, c):
        if self.cell is not None and lift(c).p != lift(self.cell).p and bool(BoolV(zb(lift(c) == self.cell))):
            c = self.cell
        v = U('volume', REAL, c)
        self.ctx.assume(v > 0)
        return v

    def radius(self, c):
        return U('circumradius', REAL, c)

    def midpoint(self, c, i):
        return U('midpoint_%d' % i, REAL, c)

    def inside(self, c, p):
        zs = [lift(x) for x in (p.coords if isinstance(p, Pt) else p)]
        zs = [z3.ToReal(x.z()) if x.i else x.z() for x in zs]
        return BoolV(uf('inside', INT, *([REAL] * len(zs) + [BOOL]))(lift(c).z(), *zs))


class Region:
    """A set of cells: ncell cells with numbers cell_index[i]; `has(k)` says whether the followed dof is in one of the first k."""

    def __init__(self, mesh, fld):
        ctx = self.ctx = mesh.ctx
        self.mesh, self.fld = mesh, fld
        self.n = ctx.fresh('region_ncell')
        ctx.assume(self.n >= 1)
        self.seen = {}
        ctx.assume(Not(self.has(0)))
        self.obj = Obj(ctx, None, ncell=self.n, cell_index=Index(ctx, self))

    def has(self, k):
        return BoolV(uf('in_region', INT, BOOL)(lift(k).z()))

    def last(self, k):
        """The last of the first k cells that has the followed dof."""
        return atom(uf('last_cell', INT, INT)(lift(k).z()))

    def cell(self, i):
        c = U('region_cell', INT, i)
        key = frozenset(lift(i).p.items())
        if key not in self.seen:
            self.seen[key] = i
            ctx = self.ctx
            ctx.assume(And(c >= 0, c < self.mesh.ncell))
            hit = Or(*[j == self.fld.d for j in self.mesh.dofs(self.fld, c)])
            ctx.assume(BoolV(zb(self.has(i + 1)) == zb(Or(self.has(i), hit))))
            ctx.assume(self.last(i + 1) == Ite(hit, i, self.last(i)))
        return c


class Index(Model):
    """region.cell_index"""

    def __init__(self, ctx, r):
        super().__init__(ctx)
        self.__dict__['r'] = r

    def len_(self):
        return self.r.n

    size = property(lambda self: self.r.n)

    def getitem(self, i):
        self.ctx.prove('region cells are read inside the list', And(i >= 0, i < self.r.n))
        return self.r.cell(i)

    def sym_iter(self, I):
        return S.Iter(0, self.r.n, self.getitem)

    def map_comp(self, I, e, env):
        from interp import Env
        g = e.generators[0]
        if g.ifs:
            raise Unsupported('filtered comprehension')
        i = self.ctx.fresh('any_cell')
        self.ctx.assume(And(i >= 0, i < self.r.n))
        en = Env(env.mod, {}, env, env.fn)
        c = self.getitem(i)
        I.assign(g.target, c, en)
        v = I.eval(e.elt, en)
        want = self.r.mesh.dofs(self.r.fld, c)
        if not isinstance(v, Arr) or [lift(x).p for x in v.vals()] != [lift(x).p for x in want]:
            raise Unsupported('comprehension over the cells of a region')
        return CellDofs(self.ctx, self.r)


class CellDofs(Model):
    """[cell_dofs(c) for c in region]"""

    def __init__(self, ctx, r):
        super().__init__(ctx)
        self.__dict__['r'] = r

    def set(self):
        r = self.r

        def has(d):
            if lift(d).p != lift(r.fld.d).p:
                raise Unsupported('membership of another dof')
            return r.has(r.n)
        return DofSet(self.ctx, has)


def method(I, obj, name, *args, **kw):
    r = obj.cls.find(name)
    if r is None:
        raise Unsupported('no method ' + name)
    return I.call_func(Func(r[0].mod, r[1], r[0]), [obj] + list(args), kw)
