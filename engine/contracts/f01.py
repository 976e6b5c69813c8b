"""F01: field arithmetic and interpolation to particles (Dolfin_Module.py Field_C).  One arbitrary dof, one arbitrary point are followed."""
import z3
import val
from val import atom, lift, BoolV, And, Or, Not, Implies, Ite, Unsupported, zb, Num
from ctx import PathEnd, PyRaise
from interp import Module, Interp, Obj, Model, Opaque, Func
from models import Arr
from job import job
from contracts import _store as S, _field as F
from contracts._mover import uf, INT, REAL, DType
from contracts.h01 import FIELDS
from contracts.movers_py import COORDS

AS = ['floating-point numbers are treated as real numbers']
TR = ['NumPy/dolfin vector slice and index-array arithmetic', 'dolfin dof maps', 'numpy.random.normal(m, s, n) is m + s * Z with Z the standard normal sequence of the call']
Q = F.FILE + ':Field_C.'


def run(f, more, name, *a, **k):
    return F.method(Interp(F.FSTUBS, {}, S.inv(lambda: [], more)), f.obj, name, *a, **k)


def two(ctx, nbf, g=2):
    m = F.MeshW(ctx, g)
    f = F.Fld(m, 'field', nbf)
    return m, f, F.Region(m, f)


def pure(ctx, f, *others):
    for o in others:
        ctx.prove('F01: operand fields are not changed', o.v == o.v0)


for _nbf, _g in [(1, 3), (2, 1), (3, 2), (4, 3), (6, 2)]:
    @job('set_values %dD, %d dofs per cell' % (_g, _nbf), ['F01'], functions=[Q + 'set_values'], trusted=TR, assumptions=AS, reach=['everywhere', 'region'])
    def _(ctx, nbf=_nbf, g=_g):
        m, f, r = two(ctx, nbf, g)
        a = ctx.fresh('value', 'real')

        def more(env, entry, locs):
            return [('cells before %s are set' % n, lambda v=v: f.v == Ite(r.has(v), a, 0)) for n, v in locs if isinstance(v, Num) and v.i]
        if ctx.choose('region given'):
            run(f, more, 'set_values', a, subdomain=r.obj)
            ctx.reach('region')
            ctx.prove('F01: set_values gives the value to the dofs of the region and zero to the others', f.v == Ite(r.has(r.n), a, 0))
        else:
            run(f, more, 'set_values', a)
            ctx.reach('everywhere')
            ctx.prove('F01: set_values gives the value to every dof', f.v == a)

    @job('multiply_values %dD, %d dofs per cell' % (_g, _nbf), ['F01'], functions=[Q + 'multiply_values'], trusted=TR, assumptions=AS, reach=['everywhere', 'region', 'gaussian'])
    def _(ctx, nbf=_nbf, g=_g):
        m, f, r = two(ctx, nbf, g)
        a = ctx.fresh('multiplier', 'real')

        def more(env, entry, locs):
            return [('cells before %s are multiplied' % n, lambda v=v: f.v == Ite(r.has(v), f.v0 * a, f.v0)) for n, v in locs if isinstance(v, Num) and v.i]
        if ctx.choose('region given'):
            run(f, more, 'multiply_values', a, subdomain=r.obj)
            ctx.reach('region')
            ctx.prove('F01: multiply_values multiplies the dofs of the region, each once, and no other', f.v == Ite(r.has(r.n), f.v0 * a, f.v0))
        elif ctx.choose('gaussian'):
            ctx.assume(a >= 0)
            run(f, more, 'multiply_values', a, gaussian=True)
            ctx.reach('gaussian')
            z = F.U('Z1', REAL, m.d)
            ctx.prove('F01: the Gaussian multiplier of every dof has mean zero and the given deviation', f.v == f.v0 * a * z)
        else:
            run(f, more, 'multiply_values', a)
            ctx.reach('everywhere')
            ctx.prove('F01: multiply_values multiplies every dof', f.v == f.v0 * a)

    @job('set_gaussian_values %dD, %d dofs per cell' % (_g, _nbf), ['F01'], functions=[Q + 'set_gaussian_values'], trusted=TR, assumptions=AS, reach=['everywhere', 'region'])
    def _(ctx, nbf=_nbf, g=_g):
        m, f, r = two(ctx, nbf, g)
        a = ctx.fresh('deviation', 'real')
        ctx.assume(a >= 0)

        def more(env, entry, locs):
            return [('cells before %s are set' % n, lambda v=v: f.v == Ite(r.has(v), a * F.U('Z1', REAL, r.last(v)), 0)) for n, v in locs if isinstance(v, Num) and v.i]
        if ctx.choose('region given'):
            run(f, more, 'set_gaussian_values', a, subdomain=r.obj)
            ctx.reach('region')
            ctx.prove('F01: set_gaussian_values gives a random number of the given deviation to the dofs of the region and zero to the others', f.v == Ite(r.has(r.n), a * F.U('Z1', REAL, r.last(r.n)), 0))
        else:
            run(f, more, 'set_gaussian_values', a)
            ctx.reach('everywhere')
            ctx.prove('F01: set_gaussian_values gives a random number of the given deviation to every dof', f.v == a * F.U('Z1', REAL, m.d))


@job('multiply_add', ['F01', 'D01'], functions=[Q + 'multiply_add'], trusted=TR[:1], assumptions=AS, reach=['plain', 'multiplied'])
def _(ctx):
    m = F.MeshW(ctx, 2)
    f, o = F.Fld(m, 'field', 3), F.Fld(m, 'operand', 3)
    a = ctx.fresh('multiplier', 'real')
    if ctx.choose('multiplier given'):
        run(f, lambda *a: [], 'multiply_add', o.obj, multiplier=a)
        ctx.reach('multiplied')
        ctx.prove('F01: multiply_add adds the multiple of the operand', f.v == f.v0 + a * o.v0)
    else:
        run(f, lambda *a: [], 'multiply_add', o.obj)
        ctx.reach('plain')
        ctx.prove('F01: multiply_add adds the operand', f.v == f.v0 + o.v0)
    pure(ctx, f, o)


class Points(Model):
    """n particles (structured array)."""

    def __init__(self, ctx, n, fields, w):
        super().__init__(ctx)
        self.__dict__.update(n=n, w=w, fields=list(fields), dtype=DType(fields))

    def at(self, i, k):
        return F.U('point_' + self.fields[k], REAL, i)

    shape = property(lambda self: (self.n,))
    size = property(lambda self: self.n)

    def len_(self):
        return self.n

    def getitem(self, i):
        if isinstance(i, str):
            return S.Vec(self.ctx, 0, self.n, lambda j: self.at(j, self.fields.index(i)))
        if isinstance(i, slice):
            raise Unsupported('slice of the points')
        self.ctx.prove('F01: points are read inside the array', And(i >= 0, i < self.n))
        if bool(BoolV(zb(lift(i) == self.w))):
            i = self.w
        return Point(self, i)

    def sym_iter(self, I):
        return S.Iter(0, self.n, self.getitem)


class Point(Model):
    def __init__(self, a, i):
        super().__init__(a.ctx)
        self.__dict__.update(a=a, i=i)

    def getitem(self, k):
        if isinstance(k, str):
            if k not in self.a.fields:
                raise PyRaise('ValueError')
            k = self.a.fields.index(k)
        return self.a.at(self.i, k)

    def havoc(self, ctx, name):
        from ctx import Poison
        return Poison(name)


class FDType(DType):
    """The type of the array of results."""

    def getitem(self, k):
        return Opaque('float64')

    fields = property(lambda self: list(self.names))


class Out(Model):
    """field_at_points: nrow rows, row w is followed."""

    def __init__(self, ctx, names, nrow, w):
        super().__init__(ctx)
        self.__dict__.update(names=list(names), nrow=nrow, w=w, dtype=FDType(names))
        for c in range(len(names)):
            self.cells[c] = ctx.fresh('old_%d' % c, 'real')
        self.__dict__['old'] = [self.cells[c] for c in range(len(names))]

    shape = property(lambda self: (self.nrow,))
    size = property(lambda self: self.nrow)

    def len_(self):
        return self.nrow

    def comp(self, k):
        if isinstance(k, str):
            if k not in self.names:
                raise PyRaise('ValueError')
            return self.names.index(k)
        if not isinstance(k, int) or not 0 <= k < len(self.names):
            raise PyRaise('IndexError')
        return k

    def write(self, i, c, v):
        self.ctx.prove('F01: results are written inside the array', And(i >= 0, i < self.nrow))
        self.put(c, self.ctx.pick(lift(i) == self.w, lambda: v, lambda: self.get(c)))

    def getitem(self, i):
        if isinstance(i, (str, slice)):
            raise Unsupported('column of the results')
        return OutRow(self, i)

    def setitem(self, i, v):
        if isinstance(i, (str, slice)):
            raise Unsupported('column of the results')
        if not isinstance(v, tuple):
            raise Unsupported('row of results')
        if len(v) != len(self.names):
            raise PyRaise('ValueError')
        for c, x in enumerate(v):
            self.write(i, c, x)


class OutRow(Model):
    def __init__(self, o, i):
        super().__init__(o.ctx)
        self.__dict__.update(o=o, i=i)

    def setitem(self, k, v):
        self.o.write(self.i, self.o.comp(k), v)

    def getitem(self, k):
        return Ite(lift(self.i) == self.o.w, self.o.get(self.o.comp(k)), self.ctx.fresh('other', 'real'))

    def havoc(self, ctx, name):
        from ctx import Poison
        return Poison(name)


for _coord, _g, _nc in [('cartesian_x', 1, 1), ('spherical_r', 1, 1), ('cartesian_xy', 2, 2), ('cartesian_xyz', 3, 3), ('cartesian_xyz', 2, 2), ('cartesian_xyz', 1, 1), ('cartesian_xyz', 3, 1)]:
    for _rnd in (False, True):
        @job('%s %s %dD mesh %d components' % ('interpolate_random_field_to_points' if _rnd else 'interpolate_field_to_points', _coord, _g, _nc), ['F01'],
             functions=[Q + ('interpolate_random_field_to_points' if _rnd else 'interpolate_field_to_points')], trusted=['dolfin.Function evaluation'] + TR[2:], assumptions=AS, reach=['interpolated'])
        def _(ctx, coord=_coord, g=_g, nc=_nc, rnd=_rnd):
            m = F.MeshW(ctx, g)
            f = F.Fld(m, 'field', 3)
            n, nrow, w = ctx.fresh('npoints'), ctx.fresh('nrows'), ctx.fresh('row')
            ctx.assume(And(n >= 0, nrow >= n, w >= 0, w < nrow))
            pts, out = Points(ctx, n, FIELDS[coord], w), Out(ctx, ['E%d' % c for c in range(nc)], nrow, w)
            want = [f.fun.value(c, [pts.at(w, k) for k in range(g)]) for c in range(nc)]
            got = lambda: [out.get(c) for c in range(nc)]      # noqa

            def more(env, entry, locs):
                o = []
                for nm, v in locs:
                    if isinstance(v, Num) and v.i:
                        if not rnd:
                            o.append(('rows before %s are filled' % nm, lambda v=v: Implies(w < v, And(*[a == b for a, b in zip(got(), want)]))))
                        else:
                            o.append(('rows before %s are proportional' % nm, lambda v=v: Implies(w < v, prop())))
                        o.append(('rows from %s are untouched' % nm, lambda v=v: Implies(w >= v, And(*[a == b for a, b in zip(got(), out.old)]))))
                return o

            def prop():
                c = And(*[got()[a] * want[b] == got()[b] * want[a] for a in range(nc) for b in range(a)])
                z = And(*[Implies(want[a] == 0, got()[a] == 0) for a in range(nc)])
                return And(c, z)
            run(f, more, 'interpolate_random_field_to_points' if rnd else 'interpolate_field_to_points', pts, out)
            ctx.reach('interpolated')
            if rnd:
                ctx.prove('F01: the random variant gives a multiple of the value at the particle', Implies(w < n, prop()))
            else:
                ctx.prove('F01: every particle gets the value of the field at its position, component by component', Implies(w < n, And(*[a == b for a, b in zip(got(), want)])))
            ctx.prove('F01: rows beyond the particles are not changed', Implies(w >= n, And(*[a == b for a, b in zip(got(), out.old)])))
            ctx.prove('F01: the field is not changed', f.v == f.v0)
