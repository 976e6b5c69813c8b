"""T01: the trajectory functions of Particle_Module.py and RecordedData_Module.py.

Any number of trajectories; one arbitrary trajectory k, one arbitrary row r of its data are followed.  The trajectory of the particle at
hand is number t.  Invariant (kept by these functions and by the movers): trajectories that have a particle have different ones."""
import z3
import val
from val import atom, lift, BoolV, And, Or, Not, Implies, Ite, Unsupported, zb, Num
from ctx import PathEnd, PyRaise
from interp import Module, Interp, Obj, Model, Opaque, Func
from models import Arr
from job import job
from contracts import _mover as M, _store as S
from contracts._mover import uf, INT, REAL
from contracts import movers_py as MP
from contracts.movers_py import STUBS, COORDS, RecArr, RecRow

FILE = 'Particle_Module.py'
RD = 'RecordedData_Module.py'
AS = ['floating-point numbers are treated as real numbers', 'one charged and one neutral species (the code treats each species of a list alike)']
TR = ['storage access by the contract proved for SegmentedArrayPair_C (property S01)', 'list.index, list.append and NumPy structured array access', 'field interpolation by its contract (F01)']


class WList(Model):
    """List of integers of symbolic length; element k is followed."""

    def __init__(self, ctx, name, n, k):
        super().__init__(ctx)
        self.__dict__.update(name=name, n0=n, k=k)
        self.cells['n'] = n
        self.cells['w'] = self.at(k)
        self.cells['dirty'] = False
        self.__dict__['overlay'] = {}

    def at(self, i):
        """The value at entry."""
        return atom(uf(self.name, INT, INT)(lift(i).z()))

    def len_(self):
        return self.get('n')

    def okey(self, i):
        return (sum(self.ctx.visits.values()), frozenset(lift(i).p.items()))

    def bounds(self, i):
        self.ctx.prove('T01: trajectory lists are accessed inside their length', And(i >= 0, i < self.get('n')))

    def getitem(self, i):
        self.bounds(i)
        if bool(BoolV(zb(lift(i) == self.k))):
            return self.get('w')
        key = self.okey(i)
        if key not in self.overlay:
            self.overlay[key] = self.at(i) if self.get('dirty') is False else self.ctx.fresh('other_' + self.name)
        return self.overlay[key]

    def setitem(self, i, v):
        self.bounds(i)
        if bool(BoolV(zb(lift(i) == self.k))):
            self.put('w', v)
            return
        self.put('dirty', True)
        self.overlay.clear()
        self.overlay[self.okey(i)] = v

    def index(self, x):
        """The first position that holds x."""
        ctx = self.ctx
        if self.get('dirty') is not False:
            raise Unsupported('index() in a changed list')
        j = ctx.fresh('found_at')
        ctx.assume(And(j >= 0, j < self.get('n'), self.at(j) == x))
        if self.__dict__.get('holder') is not None:
            # some trajectory holds x (otherwise ValueError): here number t does, and different trajectories hold different particles
            ctx.prove('T01: the particle looked up has a trajectory', x == self.at(self.holder))
            ctx.assume(j == self.holder)
        else:
            raise Unsupported('index() without a known trajectory')
        return j

    def append(self, v):
        n = self.get('n')
        if bool(BoolV(zb(n == self.k))):
            self.put('w', v)
        else:
            self.put('dirty', True)
        self.put('n', n + 1)


class Data(Model):
    """data_list[sn]: a list of structured arrays; row r of trajectory k is followed."""

    def __init__(self, ctx, cols, n, npoints, k, r):
        super().__init__(ctx)
        self.__dict__.update(cols=list(cols), npoints=npoints, k=k, r=r)
        self.cells['n'] = n
        for c in cols:
            self.cells[c] = ctx.fresh('data_' + c, 'real')
        self.cells['new'] = None

    def len_(self):
        return self.get('n')

    def getitem(self, i):
        self.ctx.prove('T01: trajectory lists are accessed inside their length', And(i >= 0, i < self.get('n')))
        return DTraj(self, i)

    def append(self, v):
        self.put('new', v)
        self.put('n', self.get('n') + 1)


class DTraj(Model):
    def __init__(self, d, i):
        super().__init__(d.ctx)
        self.__dict__.update(d=d, i=i)

    def getitem(self, c):
        if not isinstance(c, str):
            return DRow(self, c)
        if c not in self.d.cols:
            raise PyRaise('ValueError', 'no field %r' % (c,))
        return DCol(self, c)


class DRow(Model):
    """data[row][comp] (a view of the row)"""

    def __init__(self, t, row):
        super().__init__(t.ctx)
        self.__dict__.update(t=t, row=row)

    def setitem(self, c, v):
        self.t.getitem(c).setitem(self.row, v)


class DCol(Model):
    def __init__(self, t, c):
        super().__init__(t.ctx)
        self.__dict__.update(t=t, c=c)

    def setitem(self, row, v):
        d = self.t.d
        self.ctx.prove('T01: points are written inside the trajectory array', And(row >= 0, row < d.npoints))
        if bool(And(self.t.i == d.k, row == d.r)):
            d.put(self.c, lift(v))


class TEnv(MP.Env):
    """Particle_C made by the real constructor with storages that hold N items each."""

    def __init__(self, ctx, coord, **kw):
        self.stores = {}
        super().__init__(ctx, coord, traj=False, **kw)
        self.I.inv = S.inv(lambda: list(self.stores.values()), lambda env, entry, locs: self.more(env, entry, locs))

    def more(self, env, entry, locs):
        return []

    def new_sap(self, L, dtype):
        sn = self.names[len(self.worlds)]
        st = S.Store(self.ctx, list(dtype.names), self.L, tag='_' + sn)
        self.stores[sn] = st
        self.worlds.append(M.World(self.ctx, self.L, dtype.names, len(self.coords), self.coords, sn=sn, tag='_x' + sn))
        return st

    def trajectories(self):
        ctx, e = self.ctx, self
        mod = Module.load(RD, STUBS)
        cls = mod.lookup('Trajectory_C')
        e.no_pindex = self.I.getattr(cls, 'NO_PINDEX')
        e.npoints = ctx.fresh('npoints')
        ctx.assume(e.npoints >= 1)
        e.k, e.r, e.t = ctx.fresh('k'), ctx.fresh('row'), ctx.fresh('t')
        e.fields = e.stores[e.names[0]].fields
        E = ['E' + c for c in e.coords] + ['E%s_ext' % c for c in e.coords]
        e.cd, e.nd = ['step', 't'] + e.fields + E, ['step', 't'] + e.fields
        T = e.T = Obj(ctx, cls, npoints=e.npoints, last_step=ctx.fresh('last_step'), charged_dict={'names': e.cd, 'formats': None}, neutral_dict={'names': e.nd, 'formats': None},
                      charged_species=[n for n in e.names if not n.startswith('neu')], neutral_species=[n for n in e.names if n.startswith('neu')],
                      particle_index_list={}, trajectory_length={}, data_list={}, particle_unique_id_list={})
        e.idx, e.len, e.data, e.uid = {}, {}, {}, {}
        for n in e.names:
            nt = ctx.fresh('trajectories_' + n)
            ctx.assume(nt >= 0)
            e.idx[n] = WList(ctx, 'pindex_' + n, nt, e.k)
            e.len[n] = WList(ctx, 'length_' + n, nt, e.k)
            e.uid[n] = WList(ctx, 'uid_' + n, nt, e.k)
            e.data[n] = Data(ctx, e.nd if n.startswith('neu') else e.cd, nt, e.npoints, e.k, e.r)
            T.cells['particle_index_list'][n], T.cells['trajectory_length'][n], T.cells['data_list'][n], T.cells['particle_unique_id_list'][n] = e.idx[n], e.len[n], e.data[n], e.uid[n]
            ctx.assume(Implies(And(e.k >= 0, e.k < nt), e.len[n].at(e.k) >= 0))
        e.obj.cells['traj_T'] = T
        e.old = {n: (dict(e.idx[n].cells), dict(e.len[n].cells), dict(e.data[n].cells)) for n in e.names}
        return T

    def holder(self, sn):
        """Trajectory t exists and is that of the particle at hand."""
        ctx, n = self.ctx, self.idx[sn].n0
        ctx.assume(And(self.t >= 0, self.t < n, self.len[sn].at(self.t) >= 0))
        self.idx[sn].__dict__['holder'] = self.t

    def same(self, sn, what=('idx', 'len', 'data')):
        o = self.old[sn]
        c = []
        if 'idx' in what:
            c += [self.idx[sn].get('w') == o[0]['w'], self.idx[sn].get('n') == o[0]['n']]
        if 'len' in what:
            c += [self.len[sn].get('w') == o[1]['w'], self.len[sn].get('n') == o[1]['n']]
        if 'data' in what:
            c += [self.data[sn].get(x) == o[2][x] for x in self.data[sn].cols] + [self.data[sn].get('n') == o[2]['n']]
        return And(*c)


class PassSap(Model):
    """The storage during an advance."""

    def __init__(self, ctx, st):
        super().__init__(ctx)
        self.__dict__.update(st=st, cin=ctx.fresh('in_segment'), cout=ctx.fresh('out_segment'))

    def get_full_index(self, i, io):
        if io not in ('in', 'out'):
            raise Unsupported('get_full_index')
        return (self.cin if io == 'in' else self.cout) * self.st.L + i

    def get_full_indices(self, i, j):
        return (self.get_full_index(i, 'in'), self.get_full_index(j, 'out'))

    def get_current_out_segment(self):
        return S.Seg(self.ctx, self.st, True, self.cout, self.st.L, whole=True)


def passing(e, sn):
    ps = PassSap(e.ctx, e.stores[sn])
    e.obj.cells['sap_dict'][sn] = ps
    ii, io = e.ctx.fresh('ip_in'), e.ctx.fresh('ip_out')
    e.ctx.assume(And(ii >= 0, ii < e.L, io >= 0, io < e.L))
    return ps, ii, io


FN = [FILE + ':Particle_C.__init__', FILE + ':Particle_C.initialize_particle_integration']

for _sn in ('el', 'neu'):
    @job('update_trajectory_particleId %s' % _sn, ['T01'], functions=FN + [FILE + ':Particle_C.update_trajectory_particleId'], trusted=TR, assumptions=AS, reach=['updated'])
    def _(ctx, sn=_sn):
        e = TEnv(ctx, 'cartesian_xyz')
        e.trajectories()
        e.holder(sn)
        ps, ii, io = passing(e, sn)
        ctx.assume(e.idx[sn].at(e.t) == ps.cin * e.L + ii)
        ctx.assume(And(e.k >= 0, e.k < e.idx[sn].n0))
        e.call('update_trajectory_particleId', sn, ii, io)
        ctx.reach('updated')
        ctx.prove('T01: the trajectory follows its particle to the new index', Implies(e.k == e.t, e.idx[sn].get('w') == ps.cout * e.L + io))
        ctx.prove('T01: other trajectories keep their particles', Implies(e.k != e.t, e.idx[sn].get('w') == e.old[sn][0]['w']))
        ctx.prove('T01: no point is recorded by an index update', And(e.same(sn, ('len', 'data')), e.idx[sn].get('n') == e.idx[sn].n0))
        for o in e.names:
            if o != sn:
                ctx.prove('T01: other species are not touched', e.same(o))

    for _c in COORDS:
        @job('remove_trajectory_particleId %s %s' % (_sn, _c), ['T01'], functions=FN + [FILE + ':Particle_C.remove_trajectory_particleId'], trusted=TR, assumptions=AS, reach=['removed'])
        def _(ctx, sn=_sn, c=_c):
            e = TEnv(ctx, c)
            T = e.trajectories()
            e.holder(sn)
            ps, ii, io = passing(e, sn)
            ctx.assume(e.idx[sn].at(e.t) == ps.cin * e.L + ii)
            ctx.assume(And(e.k >= 0, e.k < e.idx[sn].n0))
            ls = T.cells['last_step']
            e.call('remove_trajectory_particleId', sn, ii, io, e.step, e.time, e.dt)
            ctx.reach('removed')
            o = e.old[sn]
            ln = e.len[sn].at(e.t)
            full = ln >= e.npoints
            hit = And(e.k == e.t, Not(full), e.r == ln)
            ctx.prove('T01: the trajectory of a deleted particle has no particle any more', Implies(e.k == e.t, e.idx[sn].get('w') == e.no_pindex))
            ctx.prove('T01: other trajectories keep their particles', And(Implies(e.k != e.t, e.idx[sn].get('w') == o[0]['w']), e.idx[sn].get('n') == e.idx[sn].n0))
            ctx.prove('T01: one last point is recorded, none if the trajectory is full', e.len[sn].get('w') == o[1]['w'] + Ite(And(e.k == e.t, Not(full)), 1, 0))
            same = ls == e.step
            d = e.data[sn]
            last = ps.cout * e.L + io
            exp = {'step': e.step + Ite(same, 1, 0), 't': e.time + Ite(same, e.dt, 0)}
            for x in d.cols:
                v = exp.get(x, e.stores[sn].In(x, last) if x in e.fields else 0)
                ctx.prove('T01: the last point holds step, time and state of the particle', Implies(hit, d.get(x) == v))
            ctx.prove('T01: earlier points and other trajectories keep their data', Implies(Not(hit), e.same(sn, ('data',))))
            for q in e.names:
                if q != sn:
                    ctx.prove('T01: other species are not touched', e.same(q))

        for _f in (False, True):
            @job('record_trajectory_datum %s %s crossing=%s' % (_sn, _c, _f), ['T01'], functions=FN + [FILE + ':Particle_C.record_trajectory_datum'], trusted=TR, assumptions=AS, reach=['recorded'])
            def _(ctx, sn=_sn, c=_c, f=_f):
                e = TEnv(ctx, c)
                e.trajectories()
                e.holder(sn)
                ps, ii, io = passing(e, sn)
                fi = ctx.fresh('full_index')
                ctx.assume(e.idx[sn].at(e.t) == fi)
                ctx.assume(And(e.k >= 0, e.k < e.idx[sn].n0))
                E = [ctx.fresh('E%d' % i, 'real') for i in range(len(e.coords))]
                X = [ctx.fresh('X%d' % i, 'real') for i in range(len(e.coords))]
                d1 = (1, len(e.coords))
                kw = dict(E_field_comps=Arr(ctx, E, d1), external_E_field_comps=Arr(ctx, X, d1)) if sn == 'el' else {}
                e.call('record_trajectory_datum', sn, io, fi, e.step, e.time, facet_crossing=f, **kw)
                ctx.reach('recorded')
                o = e.old[sn]
                ln = e.len[sn].at(e.t)
                full = ln >= e.npoints
                hit = And(e.k == e.t, Not(full), e.r == ln)
                ctx.prove('T01: recording a point changes no particle index', e.same(sn, ('idx',)))
                ctx.prove('T01: one point is recorded, none if the trajectory is full', And(e.len[sn].get('w') == o[1]['w'] + Ite(And(e.k == e.t, Not(full)), 1, 0), e.len[sn].get('n') == e.idx[sn].n0))
                d = e.data[sn]
                pos = ps.cout * e.L + io
                exp = {'step': e.step, 't': e.time}
                for i, q in enumerate(e.coords):
                    exp['E' + q], exp['E%s_ext' % q] = E[i], X[i]
                for x in d.cols:
                    g = x + '0' if f and x in e.coords else x
                    v = exp[x] if x in exp else e.stores[sn].In(g, pos)
                    ctx.prove('T01: the point holds step, time, state and fields of the particle', Implies(hit, d.get(x) == v))
                ctx.prove('T01: earlier points and other trajectories keep their data', Implies(Not(hit), e.same(sn, ('data',))))
                for q in e.names:
                    if q != sn:
                        ctx.prove('T01: other species are not touched', e.same(q))


class TField:
    """A field: its interpolation contract (F01)."""

    def __init__(self, e, name):
        self.e, self.name = e, name

    def val(self, c, pos):
        return atom(uf('%s_%s' % (self.name, c), *([REAL] * (len(pos) + 1)))(*[M.zr(p) for p in pos]))

    def interpolate_field_to_points(self, pts, arr):
        if not (isinstance(pts, RecArr) and isinstance(arr, RecArr) and pts.n == 1):
            raise Unsupported('interpolation to something else than one particle')
        pos = [pts.get((0, c)) for c in self.e.coords]
        for c, n in zip(self.e.coords, arr.names):
            arr.put((0, n), self.val(c, pos))


for _c in COORDS:
    for _neg, _ext in ((True, True), (False, False)) + (((True, False), (False, True)) if _c == 'cartesian_x' else ()):
        @job('record_trajectory_data %s neg_E=%s external_E=%s' % (_c, _neg, _ext), ['T01'], functions=FN + [FILE + ':Particle_C.record_trajectory_data'], trusted=TR, assumptions=AS, reach=['recorded', 'second call'])
        def _(ctx, c=_c, neg=_neg, ext=_ext):
            e = TEnv(ctx, c)
            T = e.trajectories()
            sn = 'el' if ctx.choose('species') else 'neu'
            N, X = TField(e, 'negE'), TField(e, 'Eext')
            ctx.assume(And(e.k >= 0, e.k < e.idx[sn].n0))
            o = e.old[sn]
            at = e.idx[sn].at
            for q in e.names:
                ctx.assume(Implies(And(e.k >= 0, e.k < e.idx[q].n0), Or(e.idx[q].at(e.k) == e.no_pindex, And(e.idx[q].at(e.k) >= 0, e.idx[q].at(e.k) < e.stores[q].N0))))
            # every trajectory: its particle is stored, its length is not negative
            getidx, getlen = e.idx, e.len
            for q in e.names:
                patch(ctx, e, q)
            ls = T.cells['last_step']
            ln = o[1]['w']
            i = o[0]['w']
            live, full = i != e.no_pindex, ln >= e.npoints
            rec = And(live, Not(full))
            hit = And(rec, e.r == ln)
            d = e.data[sn]
            st = e.stores[sn]
            pos = [st.In(q, i) for q in e.coords]
            exp = {'step': e.step, 't': e.time}
            for q in e.coords:
                exp['E' + q] = -N.val(q, pos) if neg else 0
                exp['E%s_ext' % q] = X.val(q, pos) if ext else 0

            def done(x):
                return d.get(x) == (exp[x] if x in exp else st.In(x, i))

            def more(env, entry, locs):
                out = []
                for n, v in locs:
                    if isinstance(v, Num) and v.i:
                        w = e.k < v
                        out.append(('%s passed: length %s' % (n, sn), lambda w=w: And(Implies(w, e.len[sn].get('w') == ln + Ite(rec, 1, 0)), Implies(Not(w), e.len[sn].get('w') == ln))))
                        for x in d.cols:
                            out.append(('%s passed: %s %s' % (n, x, sn), lambda w=w, x=x: Implies(And(hit, w), done(x))))
                            out.append(('%s not passed: %s %s' % (n, x, sn), lambda w=w, x=x: Implies(Not(And(hit, w)), d.get(x) == o[2][x])))
                out.append(('length recorded ' + sn, lambda: e.len[sn].get('w') == ln + Ite(rec, 1, 0)))
                for x in d.cols:
                    out.append(('recorded ' + x + sn, lambda x=x: Implies(hit, done(x))))
                    out.append(('others kept ' + x + sn, lambda x=x: Implies(Not(hit), d.get(x) == o[2][x])))
                return out
            e.more = more
            e.call('record_trajectory_data', e.step, e.time, neg_E_field=N if neg else None, external_E_field=X if ext else None)
            if bool(ls == e.step):
                ctx.reach('second call')
                ctx.prove('T01: a second call on the same step records nothing', e.same(sn))
                return
            ctx.reach('recorded')
            ctx.prove('T01: the recorded step is remembered', T.cells['last_step'] == e.step)
            ctx.prove('T01: recording points changes no particle index', e.same(sn, ('idx',)))
            ctx.prove('T01: each trajectory with a particle and room gets one point, others none', And(e.len[sn].get('w') == ln + Ite(rec, 1, 0), e.len[sn].get('n') == e.len[sn].n0))
            for x in d.cols:
                ctx.prove('T01: the point holds step, time, state and fields of the particle', Implies(hit, done(x)))
                ctx.prove('T01: earlier points and other trajectories keep their data', Implies(Not(hit), d.get(x) == o[2][x]))


def patch(ctx, e, q):
    """Class invariant instances for the other trajectories that are read."""
    idx, ln = e.idx[q], e.len[q]
    old = idx.getitem

    def getitem(i):
        v = WList.getitem(idx, i)
        ctx.assume(Or(v == e.no_pindex, And(v >= 0, v < e.stores[q].N0)))
        return v
    idx.__dict__['getitem'] = getitem

    def getlen(i):
        v = WList.getitem(ln, i)
        ctx.assume(v >= 0)
        return v
    ln.__dict__['getitem'] = getlen


@job('create_trajectory', ['T01'], functions=[RD + ':Trajectory_C.create_trajectory'], trusted=TR[1:2], assumptions=AS[:1], reach=['created'])
def _(ctx):
    e = TEnv(ctx, 'cartesian_xyz')
    T = e.trajectories()
    sn = 'el' if ctx.choose('species') else 'neu'
    n = e.idx[sn].n0
    ctx.assume(And(e.k >= 0, e.k <= n))
    pi, uid = ctx.fresh('pindex'), ctx.fresh('uid')
    cls = T.cls
    r = cls.find('create_trajectory')
    e.I.call_func(Func(r[0].mod, r[1], r[0]), [T, sn, pi, 'charged' if sn == 'el' else 'neutral'], dict(unique_id_int=uid))
    ctx.reach('created')
    o = e.old[sn]
    ctx.prove('T01: one trajectory is added', And(*[x[sn].get('n') == n + 1 for x in (e.idx, e.len, e.data, e.uid)]))
    ctx.prove('T01: the new trajectory has the particle, its identity and no point', Implies(e.k == n, And(e.idx[sn].get('w') == pi, e.uid[sn].get('w') == uid, e.len[sn].get('w') == 0)))
    ctx.prove('T01: earlier trajectories are not touched', Implies(e.k < n, And(e.idx[sn].get('w') == o[0]['w'], e.len[sn].get('w') == o[1]['w'])))
    new = e.data[sn].get('new')
    ctx.prove('T01: the new trajectory has room for all points and all attributes', new is not None and And(new.n == e.npoints, list(new.names) == (e.cd if sn == 'el' else e.nd)))
    for q in e.names:
        if q != sn:
            ctx.prove('T01: other species are not touched', e.same(q))
