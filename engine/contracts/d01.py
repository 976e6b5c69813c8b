"""D01: deposition of the particles on the mesh.

One arbitrary dof d is followed.  Per function: the deposit of one particle adds weight * (value of d's basis function at the particle) if
d is a dof of the particle's cell, nothing otherwise; the loop over the stored particles adds the sum over all of them; the charge is the
sum over the species of charge * density."""
import z3
import val
from val import atom, lift, BoolV, And, Or, Not, Implies, Ite, Unsupported, zb, Num
from ctx import PathEnd, PyRaise
from interp import Module, Interp, Obj, Model, Opaque, Func
from job import job
from contracts import _store as S, _field as F
from contracts._mover import uf, INT, REAL
from contracts.h01 import P, Name, BySpecies, FIELDS

AS = ['floating-point numbers are treated as real numbers']
TRF = ['dolfin dof maps (the dofs of a cell are different; a constant-in-cell field has one dof per cell), basis functions (sum 1 in the cell), cell volumes > 0', 'NumPy index-array arithmetic']
TRS = ['storage traversal by the contract proved for SegmentedArrayPair_C (property S01)', 'finite sums are linear and S(i+1) = S(i) + e(i)']


def particle(ctx, coord, mesh):
    """One arbitrary stored particle."""
    st = S.Store(ctx, FIELDS[coord], ctx.fresh('L'), tag='_p')
    i = ctx.fresh('item')
    ctx.assume(And(i >= 0, i < st.N))
    ctx.assume(And(st.In('cell_index', i) >= 0, st.In('cell_index', i) < mesh.ncell))
    return st, i, S.Ref(st, i)


for _coord, _g, _nbf in [('cartesian_x', 1, 1), ('cartesian_x', 1, 2), ('spherical_r', 1, 2), ('cartesian_xy', 2, 3), ('cartesian_xy', 2, 6), ('cartesian_xyz', 3, 1), ('cartesian_xyz', 3, 4), ('cartesian_xyz', 1, 2), ('cartesian_xyz', 2, 3)]:
    @job('interpolate_delta_function_to_dofs %s mesh %dD %d basis functions' % (_coord, _g, _nbf), ['D01'], functions=[F.FILE + ':Field_C.interpolate_delta_function_to_dofs'], trusted=TRF, assumptions=AS, reach=['deposited'])
    def _(ctx, coord=_coord, g=_g, nbf=_nbf):
        m = F.MeshW(ctx, g)
        f = F.Fld(m, 'density', nbf)
        st, i, p = particle(ctx, coord, m)
        I = Interp(F.FSTUBS, {}, None)
        F.method(I, f.obj, 'interpolate_delta_function_to_dofs', p)
        c, w = st.In('cell_index', i), st.In('weight', i)
        pos = [st.In(x, i) for x in FIELDS[coord][:g]]
        add = 0
        for k, d in enumerate(m.dofs(f, c)):
            add = add + Ite(d == m.d, w * m.basis(f, k, c, pos), 0)
        ctx.reach('deposited')
        ctx.prove('D01: a particle adds its weight times the basis functions of its own cell at its position, and nothing elsewhere', f.v == f.v0 + add)


class Source:
    def __init__(self, space, point, w):
        self.space, self.point, self.w = space, point, w

    def apply(self, fv):
        ctx = val.CTX[0]
        f = self.space.fld
        ctx.prove('D01: the point source acts on the vector of its own field', fv is f.fv)
        f.fv.put('v', f.v + self.w * F.U('PointSource', REAL, m_d(f), *[Num(lift(x).p, False) for x in self.point.full()]))


def m_d(f):
    return f.d


for _coord, _g in [('cartesian_x', 1), ('cartesian_xy', 2), ('cartesian_xyz', 3), ('cartesian_xyz', 2)]:
    @job('integrate_delta_function %s mesh %dD' % (_coord, _g), ['D01'], functions=[F.FILE + ':Field_C.integrate_delta_function'], trusted=['dolfin.PointSource adds its magnitude times the basis functions at the point'], assumptions=AS, reach=['deposited'])
    def _(ctx, coord=_coord, g=_g):
        m = F.MeshW(ctx, g)
        f = F.Fld(m, 'density', 3)
        st, i, p = particle(ctx, coord, m)
        F.Df.PointSource = staticmethod(lambda sp, pt, w: Source(sp, pt, w))
        F.method(Interp(F.FSTUBS, {}, None), f.obj, 'integrate_delta_function', p)
        pos = [st.In(x, i) for x in FIELDS[coord][:g]] + [0] * (3 - g)
        ctx.reach('deposited')
        ctx.prove('D01: a point source with the weight of the particle is applied at its position', f.v == f.v0 + st.In('weight', i) * F.U('PointSource', REAL, m.d, *[Num(lift(x).p, False) for x in pos]))


@job('add_weight_to_cell', ['D01'], functions=[F.FILE + ':Field_C.add_weight_to_cell'], trusted=TRF, assumptions=AS, reach=['deposited'])
def _(ctx):
    m = F.MeshW(ctx, 2)
    f = F.Fld(m, 'cell_density', 1, space='DG0')
    st, i, p = particle(ctx, 'cartesian_xy', m)
    F.method(Interp(F.FSTUBS, {}, None), f.obj, 'add_weight_to_cell', p)
    c, w = st.In('cell_index', i), st.In('weight', i)
    m.dofs(f, c)
    ctx.reach('deposited')
    ctx.prove('D01: the weight is added to the cell of the particle and to no other', f.v == f.v0 + Ite(c == m.cell_of_dof(m.d), w, 0))


@job('divide_by_cell_volumes', ['D01'], functions=[F.FILE + ':Field_C.divide_by_cell_volumes'], trusted=TRF, assumptions=AS, reach=['divided'])
def _(ctx):
    m = F.MeshW(ctx, 3)
    f = F.Fld(m, 'cell_density', 1, space='DG0')
    C = m.cell_of_dof(m.d)
    ctx.assume(And(C >= 0, C < m.ncell))
    m.cell = C
    q = ctx.div(f.v0, m.volume(C))

    def more(env, entry, locs):
        return [('cells before %s are divided' % n, lambda v=v: f.v == Ite(C < v, q, f.v0)) for n, v in locs if isinstance(v, Num) and v.i]
    F.method(Interp(F.FSTUBS, {}, S.inv(lambda: [], more)), f.obj, 'divide_by_cell_volumes')
    ctx.reach('divided')
    ctx.prove('D01: every cell value is divided by the volume of that cell, once', f.v == q)


class Dens:
    """Deposits into a field, by the contracts above."""

    def __init__(self, p, st, m, name, space, kind):
        self.f = F.Fld(m, name, 1 if space == 'DG0' else 4, space=space)
        self.kind, self.st, self.m, self.p = kind, st, m, p
        self.divided = False

    def dep(self, i):
        return F.U('Deposit_' + self.kind, REAL, i)

    def sum(self, k):
        return S.sums(self.m.ctx).prefix(self.dep, k)


@job('accumulate_number_density', ['D01'], functions=['Particle_Module.py:Particle_C.accumulate_number_density'], trusted=TRS, assumptions=AS, reach=['both', 'dof only', 'cell only', 'none'])
def _(ctx):
    p = P(ctx)
    m = F.MeshW(ctx, 3)
    sp = ctx.fresh('species')
    st = p.store(sp)
    D, C = Dens(p, st, m, 'dof_density', 'V', 'dof'), Dens(p, st, m, 'cell_density', 'DG0', 'cell')
    C.div = F.U('volume', REAL, m.cell_of_dof(m.d))
    ctx.assume(C.div > 0)

    def deposit(E):
        def f(I, slf, q):
            ctx.prove('D01: the field is one of the fields given', slf is D.f.obj or slf is C.f.obj)
            ctx.prove('D01: each kind of deposit goes to its own field', slf is E.f.obj)
            if not isinstance(q, S.Ref) or q.st is not st:
                raise Unsupported('deposit of something else than a stored particle')
            E.f.fv.put('v', E.f.v + E.dep(q.i))
        return f
    p.contracts['Field_C.interpolate_delta_function_to_dofs'] = deposit(D)
    p.contracts['Field_C.add_weight_to_cell'] = deposit(C)

    def divide(I, slf):
        ctx.prove('D01: only the cell density is divided by volumes', slf is C.f.obj)
        C.f.fv.put('v', ctx.div(C.f.v, C.div))
    p.contracts['Field_C.divide_by_cell_volumes'] = divide
    a, b = ctx.choose('with dof field'), ctx.choose('with cell field')
    st.accs[:] = [('deposit in the dofs', lambda k: D.f.v0 + (D.sum(k) if a else 0)), ('deposit in the cells', lambda k: C.f.v0 + (C.sum(k) if b else 0))]
    st.__dict__['acc_cells'] = lambda: [('dof field', D.f.v), ('cell field', C.f.v)]
    p.call('accumulate_number_density', Name(sp), *([D.f.obj if a else None] + ([C.f.obj] if b else [])))
    ctx.reach('both' if a and b else 'dof only' if a else 'cell only' if b else 'none')
    ctx.prove('D01: the dof density grows by the sum of the deposits of all stored particles', D.f.v == D.f.v0 + (D.sum(st.N0) if a else 0))
    ctx.prove('D01: the cell density is the sum of the weights in the cell over its volume', C.f.v == (ctx.div(C.f.v0 + C.sum(st.N0), C.div) if b else C.f.v0))


class Cpp:
    """dnt_cpp: the C++ loops over an array of particles (their code: cpp/dolfin_functions.cpp)."""

    def __init__(self, f):
        self.f = f

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return lambda *a: self.f(k, *a)


for _coord in ['cartesian_x', 'cartesian_xy', 'cartesian_xyz']:
    @job('accumulate_number_density_CPP ' + _coord, ['D01'], functions=['Particle_Module.py:Particle_C.accumulate_number_density_CPP'], trusted=TRS + ['the C++ loops over an array of particles by their contract'], assumptions=AS, reach=['both', 'dof only', 'cell only', 'none'])
    def _(ctx, coord=_coord):
        p = P(ctx, coord)
        m = F.MeshW(ctx, len(p.coords))
        sp = ctx.fresh('species')
        st = p.store(sp)
        D, C = Dens(p, st, m, 'dof_density', 'V', 'dof'), Dens(p, st, m, 'cell_density', 'DG0', 'cell')
        C.div = F.U('volume', REAL, m.cell_of_dof(m.d))
        ctx.assume(C.div > 0)
        p.obj.cells['pmesh_M'] = m.obj
        for E in (D, C):
            E.f.fun.cells['_cpp_object'] = E
            E.f.fun.__dict__['attr'] = lambda k, E=E: E if k == '_cpp_object' else getattr(E.f.fun, k)

        def call(k, *a):
            if k == 'divide_by_cell_volumes':
                ctx.prove('D01: only the cell density is divided by volumes', a[0] is C and len(a) == 2 and a[1] is m.obj.cells['cell_volume_dict'])
                C.f.fv.put('v', ctx.div(C.f.v, C.div))
                return
            E = {'interpolate_weights_to_dofs%dD' % m.gdim: D, 'add_weights_to_cells%dD' % m.gdim: C}.get(k)
            ctx.prove('D01: the C++ function for this dimension is used with its own field', E is not None and len(a) == 2 and a[1] is E)
            if E is None or len(a) != 2:
                raise PathEnd()
            seg = a[0]
            if not isinstance(seg, S.Seg) or seg.st is not st:
                raise Unsupported('deposit of something else than a segment')
            ctx.prove('a segment is used only where there is one', seg.valid)
            o = seg.seg * st.L + seg.start
            E.f.fv.put('v', E.f.v + E.sum(o + seg.n) - E.sum(o))
        mod = p.cls.mod
        mod.vals['dnt_cpp'] = Cpp(call)
        mod.defs.setdefault('dnt_cpp', None)
        a, b = ctx.choose('with dof field'), ctx.choose('with cell field')
        st.accs[:] = [('deposit in the dofs', lambda k: D.f.v0 + (D.sum(k) if a else 0)), ('deposit in the cells', lambda k: C.f.v0 + (C.sum(k) if b else 0))]
        st.__dict__['acc_cells'] = lambda: [('dof field', D.f.v), ('cell field', C.f.v)]
        p.call('accumulate_number_density_CPP', Name(sp), *([D.f.obj if a else None] + ([C.f.obj] if b else [])))
        ctx.reach('both' if a and b else 'dof only' if a else 'cell only' if b else 'none')
        ctx.prove('D01: the dof density grows by the sum of the deposits of all stored particles', D.f.v == D.f.v0 + (D.sum(st.N0) if a else 0))
        ctx.prove('D01: the cell density is the sum of the weights in the cell over its volume', C.f.v == (ctx.div(C.f.v0 + C.sum(st.N0), C.div) if b else C.f.v0))


@job('accumulate_charge_density_from_particles', ['D01'], functions=['Particle_Module.py:Particle_C.accumulate_charge_density_from_particles'], trusted=TRS[1:] + ['Field_C.multiply_add by its contract (F01)'], assumptions=AS, reach=['summed', 'no mesh'])
def _(ctx):
    p = P(ctx)
    m = F.MeshW(ctx, 3)
    rho = F.Fld(m, 'charge_density', 4)
    dens = lambda i: F.U('density', REAL, i)      # noqa
    charge = lambda i: atom(uf('charge', INT, REAL)(lift(i).z()))      # noqa
    SS = S.sums(ctx)
    tot = lambda k: SS.prefix(lambda i: charge(i) * dens(i), k)      # noqa

    def item(i):
        SS.at(i)
        return Name(i)
    p.names.__dict__['sym_iter'] = lambda I: S.Iter(0, p.names.n, item)

    class SpField(Obj):
        pass

    def fld(i):
        o = SpField(ctx, m.field_cls)
        o.__dict__['sp'] = i
        return o

    def multiply_add(I, slf, other, multiplier=None):
        ctx.prove('D01: only the charge density is changed', slf is rho.obj)
        if not isinstance(other, SpField):
            raise Unsupported('operand')
        d = dens(other.sp)
        rho.fv.put('v', rho.v + (d if multiplier is None else d * multiplier))
    p.contracts['Field_C.multiply_add'] = multiply_add

    def more(env, entry, locs):
        return [('charge density is the sum up to %s' % n, lambda v=v: rho.v == rho.v0 + tot(v)) for n, v in locs if isinstance(v, Num) and v.i]
    p.more.append(more)
    mesh = ctx.choose('mesh given')
    p.obj.cells['pmesh_M'] = m.obj if mesh else None
    try:
        p.call('accumulate_charge_density_from_particles', BySpecies(fld), rho.obj)
    except PyRaise as e:
        ctx.reach('no mesh')
        ctx.prove('D01: only a missing mesh is refused', not mesh)
        return
    ctx.reach('summed')
    ctx.prove('D01: the charge density grows by the sum over species of charge times density', rho.v == rho.v0 + tot(p.names.n))
