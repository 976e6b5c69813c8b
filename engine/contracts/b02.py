"""B02: the boundary functions shipped in Python: reflection is specular, absorption sets the DELETE bit and nothing else."""
import z3
import val
from val import atom, lift, BoolV, And, Or, Not, Implies, Unsupported, zb, Num
from ctx import PathEnd, PyRaise
from interp import Module, Interp, Obj, Func
from models import Arr
from job import job
from contracts import _mover as M
from contracts.movers_py import Env, RecArr, RecRow, STUBS, COORDS

ABSORB = {'UserParticles_1D.py': ['default_bc', 'default_bc_at_xmin', 'bc_at_xmin_for_neutral_H', 'default_bc_at_rmax', 'bc_at_rmin_for_neutral_H'],
          'UserParticles_2D_e.py': ['default_bc', 'default_bc_at_rmin'],
          'UserParticles_3D.py': ['default_bc_at_xmin', 'default_bc_at_ymin', 'bc_at_xmin_for_neutral_H']}
PASSIVE = {'UserParticles_1D.py': ['default_bc_at_xmax'], 'UserParticles_3D.py': ['default_bc', 'default_bc_at_xmax', 'default_bc_at_ymax']}
REFLECT = {'UserParticles_1D.py': ['default_bc_at_rmin'], 'UserParticles_2D_e.py': ['bc_at_rmin_for_test_electrons']}
AS = ['floating-point numbers are treated as real numbers', 'particle flags: an integer of unbounded width, bits 0 to 3 followed']


def setup(ctx, fname, coord):
    e = Env(ctx, coord, names=('el',))
    flds = e.worlds[0].fields
    rec = RecArr(ctx, 1, flds)
    old = dict(rec.cells)
    p = RecRow(rec, 0)
    mod = Module.load(fname, STUBS)
    cls = mod.lookup('UserParticleBoundaryFunctions_C')
    I = Interp(STUBS, {})
    return e, rec, {f: old[(0, f)] for f in flds}, p, cls, I


def new(rec):
    return {f: rec.get((0, f)) for (_, f) in rec.cells}


def args(ctx, d):
    n = [ctx.fresh('n%d' % i, 'real') for i in range(d)]
    fr = ctx.fresh('fraction', 'real')
    dx = [ctx.fresh('dx%d' % i, 'real') for i in range(d)]
    return n, fr, dx


def call(I, cls, name, obj, *a, **kw):
    r = cls.find(name)
    if r is None:
        raise Unsupported('no function ' + name)
    m = I.member(r[0], r[1], obj)
    return I.call(m, list(a), kw)


def bits_kept(ctx, a, b, skip=()):
    return And(*[BoolV(zb(ctx.bit(a, k)) == zb(ctx.bit(b, k))) for k in range(4) if k not in skip])


def simple(fname, name, absorb):
    for coord in ('cartesian_x', 'cartesian_xyz') if absorb else ('cartesian_xyz',):
        @job('%s %s %s' % (fname, name, coord), ['B02'], functions=['%s:UserParticleBoundaryFunctions_C.%s' % (fname, name)], trusted=['NumPy record access'], assumptions=AS, reach=['returns'])
        def _(ctx, coord=coord):
            e, rec, old, p, cls, I = setup(ctx, fname, coord)
            d = len(COORDS[coord])
            n, fr, dx = args(ctx, d)
            o = Obj(ctx, cls)
            if cls.find('__init__'):
                call(I, cls, '__init__', o, list(COORDS[coord]), Arr(ctx, dx))
            call(I, cls, name, o, p, 'el', ctx.fresh('facet'), dx_fraction=fr, facet_normal=Arr(ctx, n))
            now = new(rec)
            ctx.reach('returns')
            for f in old:
                if f != 'bitflags':
                    ctx.prove('B02: %s leaves everything but the deletion mark alone' % name, now[f] == old[f])
            if absorb:
                ctx.prove('B02: %s marks the particle as deleted' % name, ctx.bit(now['bitflags'], M.DEL))
                ctx.prove('B02: %s leaves the other flags alone' % name, bits_kept(ctx, now['bitflags'], old['bitflags'], (0,)))
            else:
                ctx.prove('B02: %s leaves the flags alone' % name, bits_kept(ctx, now['bitflags'], old['bitflags']))


def reflect(fname, name):
    for coord in ('cartesian_x', 'spherical_r', 'cartesian_xy', 'cartesian_xyz'):
        @job('%s %s %s' % (fname, name, coord), ['B02'], functions=['%s:UserParticleBoundaryFunctions_C.%s' % (fname, name), '%s:UserParticleBoundaryFunctions_C.__init__' % fname, 'Particle_Module.py:Particle_C.__init__'],
             trusted=['NumPy record access, dot of small arrays'], assumptions=AS + ['the normal has unit length (contract of G01)'], reach=['returns'])
        def _(ctx, coord=coord):
            e, rec, old, p, cls, I = setup(ctx, fname, coord)
            cs = COORDS[coord]
            d = len(cs)
            n, fr, dx = args(ctx, d)
            dxa, na = Arr(ctx, list(dx)), Arr(ctx, list(n))
            o = Obj(ctx, cls)
            call(I, cls, '__init__', o, list(cs), dxa)
            call(I, cls, name, o, p, 'el', ctx.fresh('facet'), dx_fraction=fr, facet_normal=na)
            now = new(rec)
            ctx.reach('returns')
            x, u = [old[c] for c in cs], [old['u' + c] for c in cs]
            x2, u2 = [now[c] for c in cs], [now['u' + c] for c in cs]
            dt = lambda a, b: sum((p * q for p, q in zip(a, b)), 0)      # noqa
            nn, nu = dt(n, n), dt(n, u)
            out = [(1 - fr) * q for q in dx]
            no = dt(n, out)
            # identities that hold without |n| = 1; together with |n| = 1 they give the statement
            ctx.prove('B02: the velocity along the normal is reversed', dt(n, u2) + nu - 2 * nu * (1 - nn) == 0)
            ctx.prove('B02: the kinetic energy is kept', dt(u2, u2) - dt(u, u) - 4 * nu * nu * (nn - 1) == 0)
            cr = [x[i] - out[i] for i in range(d)]        # crossing point
            ctx.prove('B02: the end point is mirrored in the facet plane', dt(n, [x2[i] - cr[i] for i in range(d)]) + no - 2 * no * (1 - nn) == 0)
            for i in range(d):
                ctx.prove('B02: the change of velocity is along the normal', u2[i] - u[i] == -2 * nu * n[i])
                ctx.prove('B02: the change of position is along the normal', x2[i] - x[i] == -2 * no * n[i])
            for f in old:
                if f not in cs and f[1:] not in cs:
                    ctx.prove('B02: nothing else changes', now[f] == old[f])
            for c in cs:
                ctx.prove('B02: nothing else changes', now[c + '0'] == old[c + '0'])
            ctx.prove('B02: the arguments are not changed', And(*[And(dxa.getitem(i) == dx[i], na.getitem(i) == n[i]) for i in range(d)]))


for _f, _ns in ABSORB.items():
    for _n in _ns:
        simple(_f, _n, True)
for _f, _ns in PASSIVE.items():
    for _n in _ns:
        simple(_f, _n, False)
for _f, _ns in REFLECT.items():
    for _n in _ns:
        reflect(_f, _n)
