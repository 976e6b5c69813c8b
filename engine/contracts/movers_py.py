"""The Python movers of Particle_Module.py against the contracts of _mover.py.  The Particle_C object is built by the real
__init__ and initialize_particle_integration."""
import os
import z3
import val
from val import atom, lift, BoolV, And, Or, Not, Implies, Ite, Unsupported, zb, Num
from ctx import PathEnd, PyRaise
from interp import Module, Interp, Obj, Model, Opaque, Func, TypeName
from models import NumpyStub, Arr, base_stubs
from job import job
from contracts import _mover as M

FILE = 'Particle_Module.py'
COORDS = {'cartesian_x': ['x'], 'spherical_r': ['r'], 'cartesian_xy': ['x', 'y'], 'cartesian_xyz': ['x', 'y', 'z']}


class RecArr(Model):
    """Structured array with a concrete number of rows."""

    def __init__(self, ctx, n, names):
        super().__init__(ctx)
        self.__dict__.update(n=n, names=list(names), dtype=M.DType(names), size=n, shape=(n,))
        for i in range(n):
            for f in names:
                self.cells[(i, f)] = ctx.fresh('uninit', 'int' if f in M.INTF else 'real')

    def getitem(self, k):
        if isinstance(k, str):
            return RecCol(self, k)
        if isinstance(k, slice):
            if k.start in (None, 0) and k.stop in (None, self.n) and k.step is None:
                return self
            raise Unsupported('slice of a record array')
        if isinstance(k, Num):
            raise Unsupported('symbolic index of a record array')
        if not 0 <= k < self.n:
            raise PyRaise('IndexError')
        return RecRow(self, k)

    def setitem(self, k, v):
        if isinstance(k, str):
            return
        if isinstance(v, M.OutRef) or isinstance(v, M.InRef):
            for f in self.names:
                self.put((k, f), v.getitem(f))
        elif isinstance(v, RecRow):
            for f, g in zip(self.names, v.arr.names):
                self.put((k, f), v.arr.get((v.i, g)))
        elif hasattr(v, 'fields_'):
            for f, x in v.fields_(self.names).items():
                self.put((k, f), x)
        elif isinstance(v, tuple):
            for f, x in zip(self.names, v):
                self.put((k, f), x)
        else:
            raise Unsupported('record array assignment')

    def len_(self):
        return self.n


class RecRow(Model):
    def __init__(self, arr, i):
        super().__init__(arr.ctx)
        self.__dict__.update(arr=arr, i=i, dtype=arr.dtype)

    def f(self, k):
        if isinstance(k, int):
            return self.arr.names[k]
        if k in self.arr.names:
            return k
        raise PyRaise('ValueError', 'no field %r' % (k,))

    def getitem(self, k):
        return self.arr.get((self.i, self.f(k)))

    def setitem(self, k, v):
        self.arr.put((self.i, self.f(k)), v)

    def fields_(self, names):
        return {f: self.arr.get((self.i, g)) for f, g in zip(names, self.arr.names)}


class RecCol(Model):
    def __init__(self, arr, f):
        super().__init__(arr.ctx)
        self.__dict__.update(arr=arr, f=f)

    def iop(self, op, v):
        g = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mult': lambda x, y: x * y}[op]
        for i in range(self.arr.n):
            x = v.getitem(i) if hasattr(v, 'getitem') else v
            self.arr.put((i, self.f), g(self.arr.get((i, self.f)), x))
        return self

    def getitem(self, i):
        return self.arr.get((i, self.f))


class Np(NumpyStub):
    def dtype(self, d):
        return M.DType(d['names'], d.get('formats'))

    def _mk(self, shape, v, dtype=None):
        ctx = val.CTX[0]
        names = None
        if isinstance(dtype, M.DType):
            names = dtype.names
        elif isinstance(dtype, dict):
            names = dtype['names']
        if isinstance(shape, tuple) and len(shape) == 1:
            shape = shape[0]
        if names is not None:
            if isinstance(shape, int):
                return self.rec(ctx, shape, names, v)
            if isinstance(shape, Num):
                return M.FieldArr(ctx, names, shape, lambda c: M.Fn(lambda i: v()))
        if isinstance(shape, Num):
            return Opaque('buffer')
        if isinstance(shape, tuple) and isinstance(shape[0], Num):
            return M.FieldArr(ctx, [str(i) for i in range(shape[1])], shape[0], lambda c: M.Fn(lambda i: v()))
        return super()._mk(shape, v)

    def rec(self, ctx, n, names, v):
        a = RecArr(ctx, n, names)
        for k in a.cells:
            if v is not None:
                a.cells[k] = v()
        return a

    def empty(self, shape=None, dtype=None, **k):
        return self._mk(shape, lambda: val.CTX[0].fresh('uninitialised', 'real'), dtype)

    def zeros(self, shape=None, dtype=None, **k):
        return self._mk(shape, lambda: 0, dtype)


class SAM:
    """import SegmentedArrayPair_Module: the constructor is replaced by its contract."""
    env = None

    def SegmentedArrayPair_C(self, L, dtype):
        return SAM.env.new_sap(L, dtype)


STUBS = dict(base_stubs(), numpy=Np(), SegmentedArrayPair_Module=SAM(), h5py=Opaque('h5py'))


class Env:
    """A Particle_C object made by the real constructor, one charged and one neutral species."""

    def __init__(self, ctx, coord, names=('el', 'neu'), traj=False, charges=None, force=None, stubs=None):
        stubs = stubs or STUBS
        self.ctx, self.coord = ctx, coord
        self.worlds, self.saps = [], []
        SAM.env = self
        self.contracts = {}
        self.I = Interp(stubs, self.contracts, M.inv(lambda: self.worlds))
        self.mod = Module.load(FILE, stubs)
        self.cls = self.mod.lookup('Particle_C')
        self.L = ctx.fresh('L')
        ctx.assume(self.L >= 1)
        self.obj = Obj(ctx, self.cls)
        self.obj.cells['SEGMENT_LENGTH'] = self.L
        self.coords = COORDS[coord]
        self.names = list(names)
        self.q, self.m = {}, {}
        sps = []
        for n in names:
            self.q[n] = 0 if n.startswith('neu') else ctx.fresh('charge_' + n, 'real')
            self.m[n] = ctx.fresh('mass_' + n, 'real')
            ctx.assume(self.m[n] != 0)
            if not n.startswith('neu'):
                ctx.assume(self.q[n] != 0)
            sps.append(Obj(ctx, None, name=n, charge=self.q[n], mass=self.m[n], dynamics=Opaque('dynamics')))
        self.pi = Obj(ctx, None, precision=Opaque('float64'), particle_species=sps, coordinate_system=coord, use_cpp_integrators=False,
                      force_components=list(force or self.coords), force_precision=Opaque('float64'), particle_integration_loop=Opaque('loop'))
        self.call('__init__', self.pi)
        self.call('initialize_particle_integration')
        mesh_cls = Module.load('Dolfin_Module.py', stubs).lookup('Mesh_C')
        self.NO_CELL, self.NO_FACET = self.I.getattr(mesh_cls, 'NO_CELL'), self.I.getattr(mesh_cls, 'NO_FACET')
        self.dt, self.time, self.step = ctx.fresh('dt', 'real'), ctx.fresh('time', 'real'), ctx.fresh('step')
        self.MAX = ctx.fresh('MAX')
        self.ctrl = Obj(ctx, None, dt=self.dt, timeloop_count=self.step, time=self.time, MAX_FACET_CROSS_COUNT=self.MAX, apply_solved_electric_field=None, apply_random_external_electric_field=None)
        for w in self.worlds:
            w.NO_CELL, w.NO_FACET, w.MAX, w.dt, w.time0, w.traj = self.NO_CELL, self.NO_FACET, self.MAX, self.dt, self.time, bool(traj)
        self.traj = traj
        self.obj.cells['traj_T'] = Opaque('traj_T') if traj else None

    def new_sap(self, L, dtype):
        self.ctx.prove('the storage is made with the segment length and the particle type', L == self.L)
        sn = self.names[len(self.worlds)]
        w = M.World(self.ctx, self.L, dtype.names, len(self.coords), self.coords, sn=sn, tag='' if not self.worlds else '_' + sn)
        self.worlds.append(w)
        s = M.Sap(self.ctx, w)
        self.saps.append(s)
        return s

    def call(self, name, *args, **kw):
        r = self.cls.find(name)
        if r is None:
            raise Unsupported('no method ' + name)
        return self.I.call_func(Func(r[0].mod, r[1], r[0]), [self.obj] + list(args), kw)

    def attach_mesh(self, w):
        self.obj.cells['pmesh_M'] = M.Mesh(self.ctx, w)
        self.obj.cells['pmesh_bcs'] = Obj(self.ctx, None, bc_function_dict=M.BCs(w))
        ctx = self.ctx

        def record(I, slf, sn, ip_out, full_index, step, time, E_field_comps=None, external_E_field_comps=None, facet_crossing=False):
            g, gp = w.g, w.gp
            ctx.reach('a crossing is recorded')
            ctx.prove('T01: the recorded crossing is that of the current particle', And(sn == w.sn, g.get('pend'), g.get('cs_out') * w.L + ip_out == g.get('pslot'), full_index == g.get('pidx')))
            ctx.prove('T01: the crossing is recorded with the step and the crossing time', And(step == self.step, time == gp.get('tcur'), facet_crossing is True))
            ctx.prove('T01: crossings are recorded at marked facets only', And(gp.get('found'), gp.get('calls') == 0, w.marker(gp.get('mf')) != 0, w.bit(w.rec.get('bitflags'), M.TRJ)))
            if w.charged:
                E = self.spec_E(w, g.get('pidx'))
                X = self.spec_Eext(w, g.get('pidx'))
                if E_field_comps is None or external_E_field_comps is None:
                    ctx.prove('T01: the crossing is recorded with the fields at the particle', False)
                else:
                    ctx.prove('T01: the crossing is recorded with the fields at the particle', And(*[And(E_field_comps.getitem((0, i)) == E[c], external_E_field_comps.getitem((0, i)) == X[c]) for i, c in enumerate(w.coords)]))
            gp.put('nrec', gp.get('nrec') + 1)

        def update(I, slf, sn, ip_in, ip_out):
            g, gp = w.g, w.gp
            ctx.prove('T01: the index update names the old and the new index of the particle', And(sn == w.sn, g.get('pend'), g.get('cs_in') * w.L + ip_in == g.get('pidx'), g.get('cs_out') * w.L + ip_out == g.get('pslot')))
            gp.put('nupd', gp.get('nupd') + 1)

        def remove(I, slf, sn, ip_in, ip_out, step, time, dt):
            g, gp = w.g, w.gp
            ctx.prove('T01: the removal names the particle, step and time', And(sn == w.sn, g.get('pend'), g.get('cs_in') * w.L + ip_in == g.get('pidx'), g.get('cs_out') * w.L + ip_out == g.get('pslot'), step == self.step, time == self.time, dt == self.dt))
            gp.put('nrem', gp.get('nrem') + 1)
        self.contracts['Particle_C.record_trajectory_datum'] = record
        self.contracts['Particle_C.update_trajectory_particleId'] = update
        self.contracts['Particle_C.remove_trajectory_particleId'] = remove

    # fields
    def set_fields(self, w, solved, ext, accel):
        """solved/ext: None (absent), 'on', 'on-flag', 'off'."""
        self.accel = accel
        self.solved, self.ext = solved, ext
        self.fneg = M.Field(self.ctx, w, 'negE') if solved else None
        self.fext = M.Field(self.ctx, w, 'Eext') if ext else None
        flags = {'on': None, None: None, 'on-flag': True, 'off': False}
        if flags[solved] is not None:
            self.ctrl.cells['apply_solved_electric_field'] = {n: flags[solved] for n in self.names}
        if flags[ext] is not None:
            self.ctrl.cells['apply_random_external_electric_field'] = {n: flags[ext] for n in self.names}
        w.charged = True

        def spec(w, i):
            E = self.spec_E(w, i)
            out = {}
            k = self.ctx.div(self.q[w.sn], self.m[w.sn]) * self.dt
            for c in w.coords:
                u = w.In('u' + c, i) + k * E[c]
                out['u' + c] = u
                out[c] = w.In(c, i) if accel else w.In(c, i) + u * self.dt
            out['weight'] = w.In('weight', i)
            return out
        w.spec = spec

    def spec_Eext(self, w, i):
        return {c: (self.fext.rnd(i, c) if self.ext in ('on', 'on-flag') else 0) for c in w.coords}

    def spec_E(self, w, i):
        X = self.spec_Eext(w, i)
        return {c: (-self.fneg.at(i, c) if self.solved in ('on', 'on-flag') else 0) + X[c] for c in w.coords}


def finish(ctx, w):
    ctx.prove('M01: the update pass is completed', Or(w.g.get('done'), And(w.N0 == 0, Not(w.g.get('pend')))))
    ctx.reach('end of the advance')


def advance(e, w, name, *args, **kw):
    """Runs a mover; a RuntimeError is allowed in the diagnosed cases only."""
    ctx = e.ctx
    try:
        e.call(name, *args, **kw)
    except PyRaise as x:
        if x.kind != 'RuntimeError':
            raise
        ctx.prove('M03: an error is raised only for a missing or repeated facet or too many crossings', And(w.g.get('pend'), Or(w.gp.get('err'), w.gp.get('nfind') >= w.MAX)))
        raise PathEnd()
    finish(ctx, w)


TR = ['storage operations by the contract proved for SegmentedArrayPair_C (property S01)', 'facet search by the contract of M04; inside test and mesh tables by the contracts of G01/G02', 'field interpolation by the contract of F01',
      'boundary functions change only position, velocity, weight and the DELETE bit of the particle they are given',
      'NumPy structured arrays: element and slice access, in-place column arithmetic']
AS = ['floating-point numbers are treated as real numbers', 'particle flags: bits 0 and 1 of an integer of unbounded width', 'before the step every stored particle is inside its recorded cell (the property of the previous step)',
      'in and out arrays do not share memory (S01)']
P5 = ['M01', 'M02', 'M03', 'B01', 'T01']
QUICK = os.environ.get('VERIF_TIER_ENGINE', 'quick') != 'thorough'

CONF = [('on', None, False, True), ('off', 'on', False, False), (None, 'on-flag', False, True), ('on-flag', 'off', False, False), (None, None, True, True), ('on', 'on', True, False)]


def charged(coord, confs):
    for cf in confs:
        solved, ext, accel, traj = cf

        @job('advance_charged_species_in_E_field %s solved=%s external=%s accel_only=%s trajectories=%s' % (coord, solved, ext, accel, traj), P5,
             functions=[FILE + ':Particle_C.advance_charged_species_in_E_field', FILE + ':Particle_C.__init__', FILE + ':Particle_C.initialize_particle_integration'], trusted=TR, assumptions=AS,
             reach=['a particle is advanced', 'end of the advance'] + ([] if accel else ['a facet search', 'a boundary function is called']))
        def _(ctx, coord=coord, solved=solved, ext=ext, accel=accel, traj=traj):
            e = Env(ctx, coord, names=('el',), traj=traj)
            w = e.worlds[0]
            e.attach_mesh(w)
            e.set_fields(w, solved, ext, accel)
            advance(e, w, 'advance_charged_species_in_E_field', 'el', e.ctrl, neg_E_field=e.fneg, external_E_field=e.fext, accel_only=accel)


charged('cartesian_x', CONF)
charged('cartesian_xy', CONF[:2])
charged('cartesian_xyz', CONF[:2])
charged('spherical_r', CONF[:1])


def neutral(coord, trajs):
    for traj in trajs:
        @job('advance_neutral_species %s trajectories=%s' % (coord, traj), P5, functions=[FILE + ':Particle_C.advance_neutral_species', FILE + ':Particle_C.__init__', FILE + ':Particle_C.initialize_particle_integration'], trusted=TR, assumptions=AS,
             reach=['a particle is advanced', 'end of the advance', 'a facet search', 'a boundary function is called'])
        def _(ctx, coord=coord, traj=traj):
            e = Env(ctx, coord, names=('neu',), traj=traj)
            w = e.worlds[0]
            e.attach_mesh(w)
            w.spec = lambda w, i: dict([('u' + c, w.In('u' + c, i)) for c in w.coords] + [(c, w.In(c, i) + w.In('u' + c, i) * e.dt) for c in w.coords] + [('weight', w.In('weight', i))])
            advance(e, w, 'advance_neutral_species', 'neu', e.ctrl)


neutral('cartesian_x', (True, False))
neutral('cartesian_xy', (True,))
neutral('cartesian_xyz', (True,))
neutral('spherical_r', (True,))


def all_charged(coord, confs, names):
    for cf in confs:
        solved, ext, accel, traj = cf

        @job('move_particles_in_electrostatic_field %s, %d species, solved=%s external=%s accel_only=%s trajectories=%s' % (coord, len(names), solved, ext, accel, traj), P5,
             functions=[FILE + ':Particle_C.move_particles_in_electrostatic_field'], trusted=TR, assumptions=AS, reach=['a particle is advanced', 'end of the advance'] + ([] if accel else ['a facet search', 'a boundary function is called']))
        def _(ctx, coord=coord, solved=solved, ext=ext, accel=accel, traj=traj):
            e = Env(ctx, coord, names=names, traj=traj)
            if len(names) > 1:
                # one species at a time: the others are empty
                k = 0
                while k + 1 < len(names) and not ctx.choose('species %d is populated' % k):
                    k += 1
                for i, o in enumerate(e.worlds):
                    if i != k:
                        ctx.assume(o.N0 == 0)
            else:
                k = 0
            w = e.worlds[k]
            e.attach_mesh(w)
            e.set_fields(w, solved, ext, accel)
            advance(e, w, 'move_particles_in_electrostatic_field', e.ctrl, neg_E_field=e.fneg, external_E_field=e.fext, accel_only=accel)


all_charged('cartesian_x', [('off', 'on', False, True)], ('el', 'ion'))
all_charged('cartesian_x', [('on', None, False, False), (None, 'on-flag', True, False)], ('el',))
all_charged('cartesian_xy', [('on', 'on', False, False)], ('el',))


@job('advance_charged_species_in_uniform_fields cartesian_xyz', ['M01', 'M02'], functions=[FILE + ':Particle_C.advance_charged_species_in_uniform_fields'], trusted=TR[:1] + TR[4:], assumptions=AS[:2] + AS[3:],
     reach=['a particle is advanced', 'end of the advance'])
def _(ctx):
    e = Env(ctx, 'cartesian_xyz', names=('el',))
    w = e.worlds[0]
    w.use_mesh = False
    E0 = {c: ctx.fresh('E0' + c, 'real') for c in w.coords}
    e.ctrl.cells['E0'] = Obj(ctx, None, **E0)

    def spec(w, i):
        k = ctx.div(e.q[w.sn], e.m[w.sn]) * e.dt
        u = {c: w.In('u' + c, i) + k * E0[c] for c in w.coords}
        return dict([('u' + c, u[c]) for c in w.coords] + [(c, w.In(c, i) + u[c] * e.dt) for c in w.coords] + [('weight', w.In('weight', i))])
    w.spec = spec
    advance(e, w, 'advance_charged_species_in_uniform_fields', 'el', e.ctrl)


class SpeciesList(Model):
    """A list of species names, all different: item i is the name of species number i."""

    def __init__(self, ctx, n, kind):
        super().__init__(ctx)
        self.__dict__.update(n=n, kind=kind)

    def len_(self):
        return self.n

    def sym_iter(self, I):
        r = S_Iter(0, self.n, lambda i: SpName(self.kind, i))
        return r


class S_Iter:
    step = 1

    def __init__(self, lo, hi, f):
        self.lo, self.hi, self.f = lo, hi, f

    def item(self, i):
        return self.f(i)


class SpName:
    def __init__(self, kind, i):
        self.kind, self.i = kind, i

    def __str__(self):
        return 'sp'


class ByName:
    def __init__(self, f):
        self.f = f

    def getitem(self, k):
        if not isinstance(k, SpName):
            raise Unsupported('species key')
        return self.f(k)


for _neutral in (False, True):
    for _cpp in (False, True):
        _fn = 'advance_neutral_particles' if _neutral else 'advance_charged_particles_in_E_field'

        @job('%s, C++ integrators %s' % (_fn, _cpp), ['M01', 'M02'], functions=[FILE + ':Particle_C.' + _fn], trusted=['the integrators by the contracts of the movers', 'get_species_particle_count by the contract of H01'],
             assumptions=['species names are distinct'], reach=['advanced'])
        def _(ctx, neutral=_neutral, cpp=_cpp, fn=_fn):
            n, k = ctx.fresh('number_of_species'), ctx.fresh('k')
            ctx.assume(And(k >= 0, k < n))
            ghost = Model(ctx, calls=0)
            contracts = {}
            from contracts import _store as S
            I = Interp(STUBS, contracts, S.inv(lambda: [], lambda env, entry, locs: [c for nm, v in locs if isinstance(v, Num) and v.i for c in (
                ('species up to %s have been advanced' % nm, lambda v=v: ghost.get('calls') == Ite(And(k < v, Not(count(k) == 0)), 1, 0)),
                ('advanced at most once, %s' % nm, lambda v=v: And(ghost.get('calls') <= 1, Implies(Not(ghost.get('calls') == 0), k < v))))]))
            cls = Module.load(FILE, STUBS).lookup('Particle_C')
            mine, other = SpeciesList(ctx, n, 'mine'), SpeciesList(ctx, ctx.fresh('other'), 'other')
            count = lambda i: atom(M.uf('count', M.INT, M.INT)(lift(i).z()))      # noqa
            ctrl = Obj(ctx, None)
            cppf = Opaque('cpp function')
            neg = Obj(ctx, None, function=CppFunction(cppf)) if ctx.choose('solved field given') else None
            ext = Opaque('external field') if ctx.choose('external field given') else None
            acc = BoolV(z3.Bool('accel_only'))

            def integrator(sp):
                def call(*a, **kw):
                    a = list(a)
                    if cpp:
                        ctx.prove('M01: C++ integrators get the particle object', bool(a) and a.pop(0) is obj)
                    want = [('species_name', sp), ('ctrl', ctrl)]
                    got = {}
                    for nm, v in zip(['sn', 'ctrl', 'neg_E_field', 'external_E_field', 'accel_only'], a):
                        got[nm] = v
                    for nm, v in kw.items():
                        if nm in got:
                            raise PyRaise('TypeError')
                        got['sn' if nm == 'species_name' else nm] = v
                    s = got.get('sn')
                    ctx.prove('M01: the integrator of a species advances that species', isinstance(s, SpName) and s.kind == sp.kind == 'mine' and BoolV(zb(lift(s.i) == sp.i)))
                    ctx.prove('M02: the integrator gets the control data', got.get('ctrl') is ctrl)
                    if not neutral:
                        ctx.prove('M02: the integrator gets the solved field', got.get('neg_E_field') is ((cppf if cpp else neg) if neg is not None else None))
                        ctx.prove('M02: the integrator gets the external field', got.get('external_E_field') is ext)
                        v = got.get('accel_only', False)
                        ctx.prove('M02: the integrator gets the acceleration-only flag', v is acc or BoolV(zb(v) == acc.e))
                    ghost.put('calls', ghost.get('calls') + Ite(lift(sp.i) == k, 1, 0))
                    ctx.reach('advanced')
                return Integrator(ctx, call)
            obj = Obj(ctx, cls, charged_species=other if neutral else mine, neutral_species=mine if neutral else other, use_cpp_integrators=cpp, integrators=ByName(integrator))

            def cnt(I, slf, sn, *a, **kw):
                if not isinstance(sn, SpName) or sn.kind != 'mine':
                    raise Unsupported('count of another species')
                ctx.assume(count(sn.i) >= 0)
                return count(sn.i)
            contracts['Particle_C.get_species_particle_count'] = cnt
            r = cls.find(fn)
            I.call_func(Func(r[0].mod, r[1], r[0]), [obj, ctrl], {} if neutral else dict(neg_E_field=neg, external_E_field=ext, accel_only=acc))
            ctx.prove('M01: every populated species is advanced exactly once', Implies(Not(count(k) == 0), ghost.get('calls') == 1))
            ctx.prove('M01: no species is advanced twice', ghost.get('calls') <= 1)


class Integrator(Model):
    def __init__(self, ctx, f):
        super().__init__(ctx)
        self.__dict__['f'] = f

    def call(self, *args, **kw):
        return self.f(*args, **kw)


class CppFunction:
    def __init__(self, r):
        self.r = r

    def cpp_object(self):
        return self.r
