"""M04: Mesh_C.find_facet (1, 2 and 3 dimensions), for every simplex cell, start point in the closed cell and displacement.

Cell: vertices V_0..V_d, facet f is opposite vertex f (in one dimension the facet is named by the vertex the table gives, see G01),
outward unit normals N_f with N_f.(V_j - V_k) = 0 for the vertices of the facet and N_f.(V_f - V_j) < 0.  The closed cell is the
set of points x with N_f.(V_j - x) >= 0 for every facet."""
import z3
import val
from val import atom, lift, BoolV, And, Or, Not, Implies, Ite, Unsupported, zb, Num
from ctx import PathEnd, PyRaise
from interp import Module, Interp, Obj, Model, Opaque, Func
from models import NumpyStub, Arr, base_stubs, mkarr, dot as rawdot
from job import job

FILE = 'Dolfin_Module.py'


def named(ctx, p):
    """A name for a polynomial (keeps the products of sums small)."""
    p = lift(p)
    if p.conc() is not None or len(p.p) == 1 and all(len(m) <= 1 for m in p.p):
        return p.norm()
    key = ('named', frozenset(p.p.items()))
    if key not in ctx.memo:
        neg = ('named', frozenset((m, -c) for m, c in p.p.items()))
        if neg in ctx.memo:
            return -ctx.memo[neg]
        t = ctx.fresh('dot', 'real')
        ctx.defs.append(zb(t == Num(p.p, False)))
        ctx.memo[key] = t
    return ctx.memo[key]


class Np(NumpyStub):
    def dot(self, a, b):
        r = rawdot(a, b)
        return named(val.CTX[0], r) if isinstance(r, Num) else r
    inner = vdot = dot


class Df:
    def __getattr__(self, k):
        raise Unsupported('dolfin.%s is not modelled' % k)


STUBS = dict(base_stubs(), numpy=Np(), dolfin=Df())


class OneKey:
    """Table read at one (arbitrary) key."""

    def __init__(self, key, v, what):
        self.key, self.v, self.what = key, v, what

    def getitem(self, k):
        val.CTX[0].prove('M04: the %s of the given cell is used' % self.what, k == self.key)
        return self.v


class Cell(Model):
    def __init__(self, ctx, coords):
        super().__init__(ctx)
        self.__dict__['coords'] = coords

    def get_vertex_coordinates(self):
        return list(self.coords)


def simplex(ctx, d):
    """(V, N): vertices and outward normals of an arbitrary non-degenerate simplex."""
    V = [[ctx.fresh('V%d_%d' % (j, i), 'real') for i in range(d)] for j in range(d + 1)]
    N = [[ctx.fresh('N%d_%d' % (f, i), 'real') for i in range(d)] for f in range(d + 1)]
    dt = lambda a, b: named(ctx, sum((x * y for x, y in zip(a, b)), 0))      # noqa
    sub = lambda a, b: [x - y for x, y in zip(a, b)]      # noqa
    for f in range(d + 1):
        if d == 1:
            # dolfin: in one dimension facet f is the vertex f
            on = [f]
            off = [1 - f]
        else:
            on = [j for j in range(d + 1) if j != f]
            off = [f]
        for j in on[1:]:
            ctx.assume(dt(N[f], sub(V[on[0]], V[j])) == 0)
        ctx.assume(dt(N[f], sub(V[off[0]], V[on[0]])) < 0)
    return V, N


def HINTS(V, N, d):
    """Instances tried first in the search for a counterexample: the unit simplex and a stretched one."""
    out = []
    for sc in (1, 3):
        vs = [[0] * d] + [[sc * (i + 1) if i == j else 0 for i in range(d)] for j in range(d)]
        ns = [None] * (d + 1)
        if d == 1:
            ns = [[-1], [1]]
        else:
            ns[0] = [60 // (sc * (i + 1)) for i in range(d)]
            for j in range(d):
                ns[j + 1] = [-1 if i == j else 0 for i in range(d)]
        out.append([zb(V[j][i] == vs[j][i]) for j in range(d + 1) for i in range(d)] + [zb(N[j][i] == ns[j][i]) for j in range(d + 1) for i in range(d)])
    return out


def on_facet(d, f):
    return f if d == 1 else (f + 1) % (d + 1)


def mk(d):
    @job('find_facet %dD' % d, ['M04'], functions=[FILE + ':Mesh_C.find_facet'],
         trusted=['dolfin Cell.get_vertex_coordinates: the vertex coordinates in order', 'tables of normals by the contract of G01', 'NumPy dot, subtract, array, reshape on small arrays'],
         assumptions=['floating-point numbers are treated as real numbers', 'the start point is in the closed cell (contract of M03)', 'the length of the normals is not used'],
         reach=['a facet is returned', 'no facet is returned'], opts=dict(timeout=8000))
    def _(ctx):
        mod = Module.load(FILE, STUBS)
        cls = mod.lookup('Mesh_C')
        I = Interp(STUBS, {})
        V, N = simplex(ctx, d)
        k = ctx.fresh('cell_index')
        nofacet = I.getattr(cls, 'NO_FACET')
        unin = lambda n: Arr(ctx, [ctx.fresh(n, 'real') for _ in range(d)])      # noqa
        o = Obj(ctx, cls, gdim=d, tdim=d, dx=unin('scratch'), x0=unin('scratch'),
                cell_dict=OneKey(k, Cell(ctx, [c for v in V for c in v]), 'vertices'),
                cell_facet_normals_dict=OneKey(k, Arr(ctx, [c for n in N for c in n], (d + 1, d)), 'normals'))
        r0 = [ctx.fresh('r0_%d' % i, 'real') for i in range(d)]
        dr = [ctx.fresh('dr_%d' % i, 'real') for i in range(d)]
        dt = lambda a, b: named(ctx, sum((x * y for x, y in zip(a, b)), 0))      # noqa
        D = [dt(N[f], [V[on_facet(d, f)][i] - r0[i] for i in range(d)]) for f in range(d + 1)]
        A = [dt(N[f], dr) for f in range(d + 1)]
        for f in range(d + 1):
            ctx.assume(D[f] >= 0)
        if d == 1:
            # unit normals in one dimension: +-1 (kept linear)
            for f in (0, 1):
                ctx.assume(Or(N[f][0] == 1, N[f][0] == -1))
        ra, da = Arr(ctx, list(r0)), Arr(ctx, list(dr))
        r = cls.find('find_facet')
        nvals = [list(n) for n in N]
        lf, fr, nrm = I.call_func(Func(r[0].mod, r[1], r[0]), [o, ra, da, k], {})
        ctx.hints = HINTS(V, N, d)
        ctx.prove('M04: the arguments are not changed', And(*[And(ra.getitem(i) == r0[i], da.getitem(i) == dr[i]) for i in range(d)]))
        if isinstance(fr, Arr):
            fr = fr.vals()[0]       # an array of one element (one dimension)
        nonzero = Or(*[x != 0 for x in dr])
        if isinstance(lf, Num):
            raise Unsupported('symbolic facet number')
        if lf == nofacet:
            ctx.reach('no facet is returned')
            for g in range(d + 1):
                ctx.prove('M04: no facet is reported only if the path ends in the closed cell', Implies(nonzero, D[g] - A[g] >= 0))
            return
        ctx.reach('a facet is returned')
        ctx.prove('M04: the facet is one of the cell', 0 <= lf <= d)
        if not 0 <= lf <= d:
            return
        ctx.prove('M04: the path leaves through the facet returned', A[lf] > 0)
        ctx.prove('M04: the fraction is between 0 and 1', And(fr >= 0, fr <= 1))
        ctx.prove('M04: a facet is reported only if the path ends outside', D[lf] - A[lf] < 0)
        ctx.prove('M04: the crossing point lies in the plane of the facet', D[lf] - fr * A[lf] == 0)
        for g in range(d + 1):
            ctx.prove('M04: the crossing point lies in the closed cell', D[g] - fr * A[g] >= 0)
        if d == 1:
            x = nrm.getitem(0) if hasattr(nrm, 'getitem') else nrm
            ctx.prove('M04: the normal is the outward normal of the facet', x == nvals[lf][0])
        else:
            ctx.prove('M04: the normal is the outward normal of the facet', And(*[nrm.getitem(i) == nvals[lf][i] for i in range(d)]))


for _d in (1, 2, 3):
    mk(_d)
