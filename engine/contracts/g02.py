"""G02: locating points, the inside test, and the initial assignment of cells to the stored particles.

inside(c, x): the closed cell c contains the point x (dolfin's Cell.contains and bounding-box tree, assumed exact)."""
import z3
import val
from val import atom, lift, BoolV, And, Or, Not, Implies, Ite, Unsupported, zb, Num
from ctx import PathEnd, PyRaise
from interp import Module, Interp, Obj, Model, Opaque, Func
from job import job
from contracts import _store as S, _field as F
from contracts._mover import uf, INT, REAL, BOOL
from contracts.h01 import P, Name, BySpecies, FIELDS
from contracts.d01 import particle

AS = ['floating-point numbers are treated as real numbers']
TRD = ['dolfin Cell.contains is the closed-cell test; BoundingBoxTree.compute_first_entity_collision gives a cell that contains the point, or 2^32-1 if there is none']
TRS = ['storage traversal by the contract proved for SegmentedArrayPair_C (property S01)']
NONE = 4294967295


def inside(m, c, pos):
    pos = list(pos) + [0] * (3 - len(pos))
    return m.inside(c, [Num(lift(x).p, False) for x in pos])


class Tree(Model):
    def __init__(self, ctx, m):
        super().__init__(ctx)
        self.__dict__['m'] = m

    def compute_first_entity_collision(self, p):
        ctx, m = self.ctx, self.m
        if not isinstance(p, F.Pt):
            raise Unsupported('point')
        c = ctx.fresh('first_cell')
        ctx.assume(And(c >= 0, m.ncell < NONE))
        ctx.assume(Or(c == NONE, And(c < m.ncell, m.inside(c, p))))
        # a point in some cell is found: stated for one arbitrary cell
        ctx.assume(Implies(c == NONE, Not(m.inside(m.anycell, p))))
        return c

    compute_first_collision = None

    def attr(self, k):
        if k == 'compute_first_entity_collision':
            return self.compute_first_entity_collision
        raise Unsupported('BoundingBoxTree.' + k)


def mesh(ctx, g):
    m = F.MeshW(ctx, g)
    m.anycell = ctx.fresh('any_cell')
    ctx.assume(And(m.anycell >= 0, m.anycell < m.ncell))
    m.obj.cells['bbtree'] = Tree(ctx, m)
    m.inside = lambda c, p: F.MeshW.inside(m, c, p.full() if isinstance(p, F.Pt) else p)
    return m


for _coord, _g in [('cartesian_x', 1), ('spherical_r', 1), ('cartesian_xy', 2), ('cartesian_xyz', 3), ('cartesian_xyz', 2), ('cartesian_xyz', 1)]:
    @job('compute_cell_index, is_inside_cell %s mesh %dD' % (_coord, _g), ['G02'], functions=[F.FILE + ':Mesh_C.compute_cell_index', F.FILE + ':Mesh_C.is_inside_cell'], trusted=TRD, assumptions=AS, reach=['located', 'outside', 'tested'])
    def _(ctx, coord=_coord, g=_g):
        m = mesh(ctx, g)
        st, i, p = particle(ctx, coord, m)
        pos = [st.In(x, i) for x in FIELDS[coord][:g]]
        I = Interp(F.FSTUBS, {}, None)
        if ctx.choose('inside test'):
            c = ctx.fresh('cell')
            ctx.assume(And(c >= 0, c < m.ncell))
            r = F.method(I, m.obj, 'is_inside_cell', p, c)
            ctx.reach('tested')
            ctx.prove('G02: the inside test is the test of the given cell at the position of the particle', BoolV(zb(r) == zb(inside(m, c, pos))))
            return
        try:
            c = F.method(I, m.obj, 'compute_cell_index', p)
        except PyRaise as e:
            if e.kind != 'SystemExit':
                raise
            ctx.reach('outside')
            ctx.prove('G02: only points outside of every cell are refused', Not(inside(m, m.anycell, pos)))
            return
        ctx.reach('located')
        ctx.prove('G02: the located cell contains the point', And(c >= 0, c < m.ncell, inside(m, c, pos)))


for _coord, _g in [('cartesian_x', 1), ('cartesian_xy', 2), ('cartesian_xyz', 3), ('cartesian_xyz', 2)]:
    @job('compute_mesh_cell_indices %s mesh %dD' % (_coord, _g), ['G02'], functions=['Particle_Module.py:Particle_C.compute_mesh_cell_indices'], trusted=TRS + ['Mesh_C.compute_cell_index and is_inside_cell by the contracts above'], assumptions=AS, reach=['assigned', 'refused', 'no mesh'])
    def _(ctx, coord=_coord, g=_g):
        p = P(ctx, coord)
        m = mesh(ctx, g)
        sp = ctx.fresh('species')
        ctx.assume(And(sp >= 0, sp < p.names.n))
        made = {}

        def store(i):
            if lift(i).p != lift(sp).p and bool(BoolV(zb(lift(i) == sp))):
                i = sp
            k = frozenset(lift(i).p.items())
            if k not in made:
                s = S.Store(ctx, FIELDS[coord], p.L, tag='_sp', N=p.nitems(i), extra=(i,), mutable=('cell_index',))
                ctx.assume(And(s.watch >= 0, s.watch < s.N0))
                s.__dict__['watched_species'] = lift(i).p == lift(sp).p
                made[k] = s
                p.stores[k] = s
                s.__dict__['wfacts'] = lambda s=s: [('is in its cell', lambda: located(s))] if s.watched_species else []
            return made[k]

        def located(s):
            c = s.get('w_cell_index')
            return And(c >= 0, c < m.ncell, inside(m, c, [s.In(x, s.watch) for x in FIELDS[coord][:g]]))
        W = store(sp)
        W0 = W.get('w_cell_index')
        p.obj.cells['sap_dict'] = BySpecies(store)
        given = ctx.choose('mesh given')
        p.obj.cells['pmesh_M'] = m.obj if given else None

        def pos(q):
            if not isinstance(q, S.Ref):
                raise Unsupported('location of something else than a stored particle')
            return [q.st.In(x, q.i) for x in FIELDS[coord][:g]]

        def cell_index(I, slf, q):
            c = ctx.fresh('located')
            if ctx.choose('outside of the mesh'):
                raise PyRaise('SystemExit')
            ctx.assume(And(c >= 0, c < m.ncell, inside(m, c, pos(q))))
            return c
        p.contracts['Mesh_C.compute_cell_index'] = cell_index
        p.contracts['Mesh_C.is_inside_cell'] = lambda I, slf, q, c: inside(m, c, pos(q))

        def more(env, entry, locs):
            return [('watched species before %s is located' % n, lambda v=v: Implies(sp < v, located(W))) for n, v in locs if isinstance(v, Num) and v.i]
        p.more.append(more)
        try:
            p.call('compute_mesh_cell_indices')
        except PyRaise as e:
            if e.kind not in ('SystemExit', 'RuntimeError'):
                raise
            ctx.reach('refused')
            ctx.prove('G02: an assignment that contradicts the inside test does not happen', e.kind == 'SystemExit')
            return
        if not given:
            ctx.reach('no mesh')
            ctx.prove('G02: without a mesh nothing is assigned', W.get('w_cell_index') == W0)
            return
        ctx.reach('assigned')
        ctx.prove('G02: every stored particle gets a cell that contains it', located(W))
