"""Contracts around the particle movers (shared by the Python movers and the translated C++ movers).

The storage is used through the contract proved in s01.py, with ghost state:
  N0 items In(0..N0-1) at entry; cons = items consumed so far; nsurv = survivors committed; one pending output record `rec`
  (its in index pidx, its slot pslot).  A new copy, or the final set_number_of_items, commits the pending record: it survives
  unless its DELETE bit is set.
M01: items are taken in order, each once; an item may be skipped only if its DELETE bit is set (A = number of unflagged items
  before an index); the slot of each copy is the number of survivors so far; the final count is the number of survivors.
M02/M03/B01/T01: conditions PHI on the record at the moment it is committed, and on the arguments of the calls made for it."""
import z3
import val
from val import atom, lift, BoolV, And, Or, Not, Implies, Ite, Unsupported, zb, Num
from ctx import PathEnd, PyRaise
from interp import Model, Obj, Opaque, TypeName
from models import NumpyStub, Arr, mkarr
from fractions import Fraction

INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
INTF = ('bitflags', 'cell_index', 'unique_ID', 'crossings')
DEL, TRJ = 0, 1          # bit numbers


def uf(name, *sorts):
    return z3.Function(name, *sorts)


def zr(x):
    n = lift(x)
    return z3.ToReal(n.z()) if n.i else n.z()


def eqb(a, b):
    return BoolV(zb(a) == zb(b))


class DType:
    def __init__(self, names, formats=None):
        self.names, self.formats = tuple(names), formats

    @property
    def fields(self):
        return {n: None for n in self.names}

    def getitem(self, k):
        return Opaque('dtype')


class World:
    """One species during one advance."""

    def __init__(self, ctx, L, fields, dim, coords, sn='sn', phi=(), tag=''):
        self.ctx, self.L, self.fields, self.dim, self.coords, self.sn, self.tag = ctx, L, list(fields), dim, list(coords), sn, tag
        self.N0 = ctx.fresh('N0' + tag)
        ctx.assume(self.N0 >= 0)
        self.g = Model(ctx, cs_in=0, cs_out=0, cons=0, nsurv=0, pend=False, pidx=0, pslot=0, done=False, started=False)
        self.rec = Model(ctx, **{f: (0 if f in INTF else Fraction(0)) for f in self.fields})
        self.gp = Model(ctx, bc=False, nupd=0, nrem=0, found=False, calls=0, nrec=0, rtraj=False, mf=0, lf=0, frac=Fraction(0), gcell=0, tcur=Fraction(0), trem=Fraction(0), nfind=0, lastf=-1, err=False)
        self.time0 = self.dt = None
        self.phi_extra = phi              # [(name, fn(world))]
        self.use_mesh = True
        self.traj = False                 # a trajectory object exists
        self.allow_pre_deleted = True
        self.NO_CELL = self.NO_FACET = -1
        self.MAX = None
        self.spec = None                  # spec(world, i) -> {field: value} after a step without boundary events
        self.charged = False

    # --- the stored items
    def In(self, f, i):
        F = uf('In_%s%s' % (f, self.tag), INT, INT if f in INTF else REAL)
        return atom(F(lift(i).z()))

    def A(self, i):
        return atom(uf('A' + self.tag, INT, INT)(lift(i).z()))

    def bit(self, w, k):
        return self.ctx.bit(w, k)

    def inst(self, i):
        """Instances of the definition of A at i (prefix count of items without the DELETE bit)."""
        i = lift(i)
        key = ('A', self.tag, tuple(sorted(i.p.items())))
        if key in self.ctx.memo:
            return
        self.ctx.memo[key] = True
        d = self.bit(self.In('bitflags', i), DEL)
        self.ctx.assume(BoolV(zb(self.A(i + 1) == self.A(i) + Ite(d, 0, 1))))

    def inside(self, pos, cell):
        return BoolV(uf('Inside', *([REAL] * self.dim + [INT, BOOL]))(*[zr(p) for p in pos], lift(cell).z()))

    def clo(self, pos, cell):
        return BoolV(uf('Closure', *([REAL] * self.dim + [INT, BOOL]))(*[zr(p) for p in pos], lift(cell).z()))

    def valid(self, cell):
        return BoolV(uf('Cell', INT, BOOL)(lift(cell).z()))

    def nb(self, c, f):
        return atom(uf('nb', INT, INT, INT)(lift(c).z(), lift(f).z()))

    def facet(self, c, f):
        return atom(uf('facet', INT, INT, INT)(lift(c).z(), lift(f).z()))

    def marker(self, mf):
        return atom(uf('marker', INT, INT)(lift(mf).z()))

    def normal(self, c, f, d):
        return atom(uf('normal%d' % d, INT, INT, REAL)(lift(c).z(), lift(f).z()))

    def pos(self, zero=False):
        return [self.rec.get(c + ('0' if zero else '')) for c in self.coords]

    def alive(self):
        return Not(self.bit(self.rec.get('bitflags'), DEL))

    def ns(self):
        """Survivors including the pending record."""
        return self.g.get('nsurv') + Ite(And(self.g.get('pend'), self.alive()), 1, 0)

    # --- conditions on the pending record when it is committed
    def crossing_ok(self):
        gp = self.gp
        due = And(gp.get('found'), self.marker(gp.get('mf')) != 0)
        out = [('B01: each marked crossing calls one boundary function, other facets none', gp.get('calls') == Ite(due, 1, 0))]
        if self.traj:
            out.append(('T01: a boundary crossing of a followed particle is recorded once, others are not', gp.get('nrec') == Ite(And(due, gp.get('rtraj')), 1, 0)))
        return out

    def phi(self):
        g, gp, rec = self.g, self.gp, self.rec
        i = g.get('pidx')
        out = []
        if self.spec is not None:
            for f, v in self.spec(self, i).items():
                out.append(('M02: %s after a step without boundary events' % f, Or(gp.get('bc'), rec.get(f) == v)))
        if self.use_mesh:
            out.append(('M03: a surviving particle is inside its recorded cell', Or(Not(self.alive()), self.inside(self.pos(), rec.get('cell_index')))))
            out += self.crossing_ok()
        out.append(('M02: the identity never changes', rec.get('unique_ID') == self.In('unique_ID', i)))
        if self.traj:
            tr = self.bit(self.In('bitflags', i), TRJ)
            al = self.alive()
            out += [('T01: a followed survivor whose index changed is updated', Or(Not(al), Not(tr), i == g.get('pslot'), gp.get('nupd') == 1)),
                    ('T01: index updates happen once and only for followed survivors', Or(gp.get('nupd') == 0, And(gp.get('nupd') == 1, al, tr))),
                    ('T01: a followed particle that is deleted is removed once, others are not', gp.get('nrem') == Ite(And(tr, Not(al)), 1, 0))]
        for n, f in self.phi_extra:
            out.append((n, f(self)))
        return out

    def commit(self):
        ctx, g = self.ctx, self.g
        p = g.get('pend')
        if p is not False:
            for n, c in self.phi():
                ctx.prove(n, Implies(p, c))
            g.put('nsurv', self.ns())
            g.put('pend', False)

    def copy(self, seg, v, ipos):
        """out[seg][v] = In(ipos)"""
        ctx, g, gp = self.ctx, self.g, self.gp
        self.commit()
        ctx.prove('M01: particles are taken in order and none is skipped unless flagged for deletion', And(ipos >= g.get('cons'), self.A(ipos) == self.A(g.get('cons'))))
        ctx.prove('M01: a survivor is stored right behind the previous one', seg * self.L + v == g.get('nsurv'))
        g.put('cons', ipos + 1)
        self.inst(ipos)
        g.put('pend', True)
        g.put('pidx', ipos)
        g.put('pslot', seg * self.L + v)
        for f in self.fields:
            self.rec.put(f, self.In(f, ipos))
        for k, x in dict(bc=False, nupd=0, nrem=0, found=False, calls=0, nrec=0, rtraj=False, nfind=0, err=False).items():
            gp.put(k, x)
        c = self.In('cell_index', ipos)
        gp.put('gcell', c)
        gp.put('lastf', self.NO_FACET)
        if self.dt is not None:
            gp.put('tcur', self.time0 - self.dt)
            gp.put('trem', self.dt)
        if self.use_mesh:
            p = [self.In(q, ipos) for q in self.coords]
            ctx.assume(And(self.valid(c), self.inside(p, c)))
            ctx.assume(self.clo(p, c))
        ctx.reach('a particle is advanced')

    def at_pending(self, seg, v):
        self.ctx.prove('M01: only the record of the current particle is touched', And(self.g.get('pend'), seg * self.L + v == self.g.get('pslot')))

    # --- loop invariant candidates
    def cands(self, env, entry, locs):
        """[(name, thunk)]"""
        g, gp, rec, L, N0 = self.g, self.gp, self.rec, self.L, self.N0
        if g.get('started') is False:
            return []
        out = []
        add = lambda n, f: out.append((n, f))      # noqa
        ci, co, cons, nsv = g.get('cs_in'), g.get('cs_out'), g.get('cons'), g.get('nsurv')
        ns = self.ns
        ints = [(n, v) for n, v in locs if isinstance(v, Num) and v.i]
        reals = [(n, v) for n, v in locs if isinstance(v, Num) and not v.i]
        bools = [(n, v) for n, v in locs if isinstance(v, (BoolV, bool))]
        base = lambda: Ite(ci * L < N0, ci * L, N0)      # noqa
        seglen = lambda: Ite(N0 - ci * L < L, N0 - ci * L, L)      # noqa
        add('consumed within range', lambda: And(cons >= 0, cons <= N0))
        add('survivors within range', lambda: And(nsv >= 0, ns() <= cons))
        add('positions not negative', lambda: And(ci >= 0, co >= 0))
        add('consumed up to the current segment', lambda: cons == base())
        add('unflagged items up to the current segment consumed', lambda: self.A(cons) == self.A(base()))
        add('survivors fit', lambda: ns() <= co * L + L)
        add('consumed <= in position', lambda: cons <= base())
        add('pending: in index', lambda: Implies(g.get('pend'), And(g.get('pidx') + 1 == cons, g.get('pslot') == nsv)))
        add('pending', lambda: g.get('pend') if g.get('pend') is not False else False)
        add('nothing pending', lambda: Not(g.get('pend')))
        for n, c in self.phi():
            add('pending: ' + n, lambda c=c: Implies(g.get('pend'), c))
        for n, v in ints:
            add('cons == in + %s' % n, lambda v=v: cons == ci * L + v)
            add('A(cons) == A(in + %s)' % n, lambda v=v: self.A(cons) == self.A(ci * L + v))
            add('cons <= in + %s' % n, lambda v=v: cons <= ci * L + v)
            add('out + %s == survivors' % n, lambda v=v: co * L + v == ns())
            add('cons == in + %s + 1' % n, lambda v=v: cons == ci * L + v + 1)
            add('A(cons) == A(in + %s + 1)' % n, lambda v=v: self.A(cons) == self.A(ci * L + v + 1))
            add('cons <= in + %s + 1' % n, lambda v=v: cons <= ci * L + v + 1)
            add('%s below the length of the in segment' % n, lambda v=v: Implies(ci * L < N0, v < seglen()))
            add('%s <= L' % n, lambda v=v: v <= L)
            add('%s < L' % n, lambda v=v: v < L)
            add('out + %s == committed' % n, lambda v=v: co * L + v == nsv)
            add('%s == survivors' % n, lambda v=v: v == ns())
            add('%s == out start' % n, lambda v=v: v == co * L)
            add('%s == consumed' % n, lambda v=v: v == cons)
            add('%s == consumed - 1' % n, lambda v=v: v == cons - 1)
            add('%s is the length of the in segment' % n, lambda v=v: Implies(ci * L < N0, v == seglen()))
            add('%s == crossings' % n, lambda v=v: v == gp.get('nfind'))
            add('%s == cell' % n, lambda v=v: v == gp.get('gcell'))
            add('%s == recorded cell' % n, lambda v=v: v == rec.get('cell_index'))
            add('%s == last facet' % n, lambda v=v: v == gp.get('lastf'))
            add('%s == deleted' % n, lambda v=v: v == cons - ns())
            for m, w in ints:
                if m != n and not m.startswith('%') and not n.startswith('%'):
                    add('%s == full segments by %s' % (n, m), lambda v=v, w=w: v == co * L + Ite(w == L, L, 0))
                    add('%s - %s == full segments' % (n, m), lambda v=v, w=w: v + w == ns())
        for n, v in reals:
            add('%s == time' % n, lambda v=v: v == gp.get('tcur'))
            add('%s == remaining time' % n, lambda v=v: v == gp.get('trem'))
        for n, v in bools:
            add('not %s: nothing deleted' % n, lambda v=v: Or(v, ns() == cons))
            add('%s: nothing deleted' % n, lambda v=v: Or(Not(v), ns() == cons))
        if self.use_mesh:
            add('recorded cell is the current cell', lambda: rec.get('cell_index') == gp.get('gcell'))
            add('current cell exists', lambda: self.valid(gp.get('gcell')))
            add('path starts in the current cell', lambda: self.clo(self.pos(True), gp.get('gcell')))
            add('position in the current cell', lambda: self.inside(self.pos(), gp.get('gcell')))
            add('no error due', lambda: Not(gp.get('err')))
            if self.MAX is not None:
                add('crossings within the limit', lambda: gp.get('nfind') <= self.MAX)
            for n, c in self.crossing_ok():
                add('crossing: ' + n, lambda c=c: c)
            add('trajectory flag kept', lambda: BoolV(zb(self.bit(rec.get('bitflags'), TRJ)) == zb(self.bit(self.In('bitflags', g.get('pidx')), TRJ))))
        for n, v in locs:
            if isinstance(v, OutSeg) and v.w is self:
                add('%s is the current out segment' % n, lambda v=v: v.seg == co)
                add('%s exists' % n, lambda v=v: v.valid)
                add('%s exists if there are items' % n, lambda v=v: Or(v.valid, N0 == 0))
            elif isinstance(v, InSeg) and v.w is self:
                add('%s is the current in segment' % n, lambda v=v: v.seg == ci)
                add('%s exists while items remain' % n, lambda v=v: eqb(v.valid, ci * L < N0))
                add('%s length' % n, lambda v=v: Implies(v.valid, v.n == seglen()))
        return out


class Handle(Model):
    def isinstance_(self, t):
        if getattr(t, 'name', '') == 'ndarray':
            return self.valid
        return False

    def is_(self, o):
        if o is None:
            return Not(self.valid)
        if isinstance(o, Handle):
            raise Unsupported('identity of segments')
        return False

    def truth(self):
        return self.valid

    def len_(self):
        return self.n

    def type_(self):
        raise Unsupported('type() of a segment')


class InSeg(Handle):
    def __init__(self, ctx, w, valid, seg, n, start=0):
        super().__init__(ctx)
        self.__dict__.update(w=w, valid=valid, seg=seg, n=n, start=start)

    def havoc(self, ctx, name):
        return InSeg(ctx, self.w, ctx.fresh(name + '.valid', 'bool'), ctx.fresh(name + '.seg'), ctx.fresh(name + '.n'))

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    def getitem(self, k):
        ctx = self.ctx
        ctx.prove('M01: an in segment is used only where there is one', self.valid)
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported('slice step')
            a, b = (0 if k.start is None else k.start), (self.n if k.stop is None else k.stop)
            ctx.prove('M01: slices of the in segment cover stored items only', And(a >= 0, a <= b, b <= self.n))
            return InSeg(ctx, self.w, self.valid, self.seg, b - a, self.start + a)
        ctx.prove('M01: reads of the in segment stay within the stored items', And(k >= 0, k < self.n))
        return InRef(ctx, self.w, self.seg * self.w.L + self.start + k)

    def setitem(self, k, v):
        raise Unsupported('the in segment is written')


class InRef(Model):
    def __init__(self, ctx, w, ipos):
        super().__init__(ctx)
        self.__dict__.update(w=w, ipos=ipos)
        w.inst(ipos)

    def fld(self, k):
        if isinstance(k, int):
            return self.w.fields[k]
        if k in self.w.fields:
            return k
        raise PyRaise('ValueError', 'no field %r' % (k,))

    def getitem(self, k):
        return self.w.In(self.fld(k), self.ipos)

    def setitem(self, k, v):
        raise Unsupported('the in segment is written')


class OutSeg(Handle):
    def __init__(self, ctx, w, valid, seg):
        super().__init__(ctx)
        self.__dict__.update(w=w, valid=valid, seg=seg, n=w.L)

    def havoc(self, ctx, name):
        return OutSeg(ctx, self.w, ctx.fresh(name + '.valid', 'bool'), ctx.fresh(name + '.seg'))

    def bounds(self, k):
        self.ctx.prove('M01: an out segment is used only where there is one', self.valid)
        self.ctx.prove('M01: accesses to the out segment stay inside it', And(k >= 0, k < self.w.L))

    def getitem(self, k):
        if isinstance(k, slice):
            raise Unsupported('slice of the out segment')
        self.bounds(k)
        return OutRef(self.ctx, self.w, self.seg, k)

    def setitem(self, k, v):
        if isinstance(k, slice):
            raise Unsupported('slice of the out segment')
        self.bounds(k)
        if isinstance(v, InRef):
            self.w.copy(self.seg, k, v.ipos)
        elif isinstance(v, OutRef):
            v.touch()
            self.w.at_pending(self.seg, k)
        else:
            raise Unsupported('the out segment is written with something else than a stored particle')


class OutRef(Model):
    def __init__(self, ctx, w, seg, v):
        super().__init__(ctx)
        self.__dict__.update(w=w, seg=seg, v=v)

    def touch(self):
        self.w.at_pending(self.seg, self.v)

    def fld(self, k):
        if isinstance(k, int):
            return self.w.fields[k]
        if k in self.w.fields:
            return k
        raise PyRaise('ValueError', 'no field %r' % (k,))

    def getitem(self, k):
        self.touch()
        if isinstance(k, (slice, Num)):
            raise Unsupported('record index')
        return self.w.rec.get(self.fld(k))

    def setitem(self, k, v):
        self.touch()
        f = self.fld(k)
        if f in INTF and not (isinstance(lift(v), Num) and lift(v).i):
            raise Unsupported('real stored in an integer field')
        self.w.rec.put(f, v if not isinstance(v, (int, BoolV)) or f in INTF else lift(v))

    def values(self):
        self.touch()
        return {f: self.w.rec.get(f) for f in self.w.fields}


class Sap(Model):
    """Contract of the segmented storage during an advance (proved for the Python class in s01.py)."""

    def __init__(self, ctx, w):
        super().__init__(ctx)
        self.__dict__['w'] = w

    def get_number_of_items(self):
        if self.w.g.get('started') is False:
            return self.w.N0
        raise Unsupported('count during a pass')

    def init_inout_loop(self):
        w, g = self.w, self.w.g
        self.ctx.prove('M01: one pass per advance', Not(g.get('started')))
        g.put('started', True)
        v = BoolV(zb(w.N0 > 0))
        self.ctx.assume(w.A(0) == 0)
        n = Ite(w.N0 < w.L, w.N0, w.L)
        return (n, InSeg(self.ctx, w, v, 0, n), OutSeg(self.ctx, w, v, 0))

    def get_next_segment(self, io):
        w, g = self.w, self.w.g
        if io != 'in':
            raise Unsupported('traversal of the out array during a pass')
        c = g.get('cs_in') + 1
        g.put('cs_in', c)
        v = BoolV(zb(c * w.L < w.N0))
        n = Ite(v, Ite(w.N0 - c * w.L < w.L, w.N0 - c * w.L, w.L), 0)
        return (n, InSeg(self.ctx, w, v, c, n))

    def get_next_out_segment(self):
        w, g = self.w, self.w.g
        self.ctx.prove('M01: out segments are taken during a pass only', And(g.get('started'), w.N0 > 0))
        c = g.get('cs_out') + 1
        g.put('cs_out', c)
        return OutSeg(self.ctx, w, True, c)

    def get_current_out_segment(self):
        return OutSeg(self.ctx, self.w, True, self.w.g.get('cs_out'))

    def get_full_index(self, i, io):
        g = self.w.g
        if io not in ('in', 'out'):
            raise Unsupported('get_full_index(%r)' % (io,))
        return g.get('cs_in' if io == 'in' else 'cs_out') * self.w.L + i

    def get_full_indices(self, i, j):
        return (self.get_full_index(i, 'in'), self.get_full_index(j, 'out'))

    def set_number_of_items(self, io, n):
        w, g, ctx = self.w, self.w.g, self.ctx
        ctx.prove('M01: the count of the updated storage is set once', And(io == 'out', g.get('started'), Not(g.get('done'))))
        w.commit()
        ctx.prove('M01: every stored particle has been considered', And(g.get('cons') <= w.N0, w.A(g.get('cons')) == w.A(w.N0)))
        ctx.prove('M01: the reported count is the number of survivors', n == g.get('nsurv'))
        ctx.prove('M01: the count fits the storage', And(n >= 0, n <= (g.get('cs_out') + 1) * w.L))
        g.put('done', True)


class SymMap:
    def __init__(self, f):
        self.f = f

    def getitem(self, k):
        return self.f(k)


class Mesh(Model):
    """Contract of the particle mesh: inside test (G02), facet search (M04), tables (G01)."""

    def __init__(self, ctx, w):
        super().__init__(ctx)
        self.__dict__['w'] = w
        self.__dict__['cell_entity_indices_dict'] = {'facet': SymMap(lambda c: self.row(c, w.facet))}
        self.__dict__['cell_neighbors_dict'] = SymMap(lambda c: self.row(c, w.nb))
        self.__dict__['particle_boundary_marker'] = SymMap(lambda mf: w.marker(mf))

    def row(self, c, f):
        self.ctx.prove('M03: tables are read for existing cells only', self.w.valid(c))

        def get(k):
            self.ctx.prove('M03: tables are read for existing facets only', And(k >= 0, k < self.w.dim + 1))
            return f(c, k)
        return SymMap(get)

    def is_inside_cell(self, p, cell):
        w, ctx = self.w, self.ctx
        if not isinstance(p, OutRef):
            raise Unsupported('inside test of something else than the current particle')
        p.touch()
        self.checkpoint()
        ctx.prove('M03: the cell tested is the one the particle has entered', And(w.valid(cell), cell == w.gp.get('gcell')))
        return w.inside(w.pos(), cell)

    def checkpoint(self):
        w = self.w
        for n, c in w.crossing_ok():
            self.ctx.prove(n, c)
        for k, v in dict(found=False, calls=0, nrec=0, rtraj=False).items():
            w.gp.put(k, v)

    def find_facet(self, r0, dr, cell):
        w, ctx, gp = self.w, self.ctx, self.w.gp
        r0 = [r0.getitem(i) for i in range(w.dim)]
        dr = [dr.getitem(i) for i in range(w.dim)]
        self.checkpoint()
        ctx.prove('M03: the facet search gets the path of the current particle in its current cell',
                  And(cell == gp.get('gcell'), *[And(r0[i] == w.pos(True)[i], dr[i] == w.pos()[i] - w.pos(True)[i]) for i in range(w.dim)]))
        ctx.prove('M03: the path starts in the current cell', w.clo(r0, cell))
        if w.MAX is not None:
            ctx.prove('M03: the limit of facet crossings is enforced', gp.get('nfind') < w.MAX)
        gp.put('nfind', gp.get('nfind') + 1)
        lf = ctx.fresh('cFacet')
        fr = ctx.fresh('dxFraction', 'real')
        ctx.assume(And(fr >= 0, fr <= 1, Or(lf == w.NO_FACET, And(lf >= 0, lf < w.dim + 1))))
        found = BoolV(zb(lf != w.NO_FACET))
        new = [r0[i] + fr * dr[i] for i in range(w.dim)]
        nb = w.nb(cell, lf)
        ctx.assume(Implies(found, And(w.clo(new, cell), Or(nb == w.NO_CELL, And(w.valid(nb), w.clo(new, nb))))))
        ctx.assume(Implies(found, Or(nb != w.NO_CELL, True)))
        mf = w.facet(cell, lf)
        gp.put('err', Or(Not(found), mf == gp.get('lastf')))
        gp.put('lastf', Ite(found, mf, gp.get('lastf')))
        gp.put('found', found)
        gp.put('mf', mf)
        gp.put('lf', lf)
        gp.put('frac', fr)
        gp.put('calls', 0)
        gp.put('nrec', 0)
        gp.put('rtraj', False)
        gp.put('tcur', gp.get('tcur') + fr * gp.get('trem'))
        gp.put('trem', gp.get('trem') - fr * gp.get('trem'))
        self.ctx.memo['ffcell'] = cell
        nrm = Arr(ctx, [w.normal(cell, lf, d) for d in range(w.dim)])
        self.ctx.memo['normal'] = nrm
        gp.put('gcell', Ite(And(found, nb != w.NO_CELL), nb, cell))
        ctx.reach('a facet search')
        return (lf, fr, nrm)


class BCs:
    """bc_function_dict[marker][species](particle, species, facet, dx_fraction=, facet_normal=)."""

    def __init__(self, w):
        self.w = w

    def getitem(self, fv):
        return SymMap(lambda sn: (lambda p, s2, mf, dx_fraction=None, facet_normal=None, **k: self.call(fv, sn, p, s2, mf, dx_fraction, facet_normal)))

    def call(self, fv, sn, p, s2, mf, frac, normal):
        w, ctx, gp = self.w, self.w.ctx, self.w.gp
        ctx.reach('a boundary function is called')
        if not isinstance(p, OutRef):
            raise Unsupported('boundary function called with something else than the current particle')
        p.touch()
        ctx.prove('B01: a boundary function is called for the facet just crossed only', And(gp.get('found'), gp.get('calls') == 0))
        ctx.prove('B01: the function is the one of this boundary and species', And(sn == w.sn, fv == w.marker(gp.get('mf')), fv != 0))
        ctx.prove('B01: the function gets the species and the facet', And(s2 == w.sn, mf == gp.get('mf')))
        nrm = ctx.memo.get('normal')
        if not hasattr(normal, 'getitem') or nrm is None:
            raise Unsupported('facet normal argument')
        ctx.prove('B02: the boundary function gets the crossing fraction and the normal of the facet', And(frac is not None and frac == gp.get('frac'), *[normal.getitem(d) == nrm.getitem(d) for d in range(w.dim)]))
        if w.traj:
            gp.put('rtraj', w.bit(w.rec.get('bitflags'), TRJ))
            ctx.prove('T01: the crossing is recorded before the boundary function changes the particle', gp.get('nrec') == Ite(gp.get('rtraj'), 1, 0))
        gp.put('calls', gp.get('calls') + 1)
        self.effect()

    def effect(self):
        """A boundary function may change position, velocity, weight and the DELETE bit."""
        w, ctx = self.w, self.w.ctx
        w.gp.put('bc', True)
        for f in w.fields:
            if f in w.coords or f.startswith('u') and f not in INTF or f == 'weight':
                w.rec.put(f, ctx.fresh('bc_' + f, 'real'))
        b = ctx.fresh('bc_flags')
        ctx.assume(eqb(w.bit(b, TRJ), w.bit(w.rec.get('bitflags'), TRJ)))
        w.rec.put('bitflags', b)


class FieldArr(Model):
    """Structured (or 2-D) array with one row per particle of a segment: each component is a function of the row."""

    def __init__(self, ctx, names, n, gen, cells=None, view=None):
        super().__init__(ctx)
        self.__dict__.update(names=list(names), n=n, view=view, dtype=DType(names))
        if view is None:
            for c in names:
                self.cells[c] = gen(c)

    def base(self):
        return self.view or self

    def col(self, c):
        return self.base().cells[c]

    def comp(self, c):
        if isinstance(c, int):
            return self.names[c]
        if c in self.names:
            return c
        raise PyRaise('ValueError', 'no field %r' % (c,))

    @property
    def shape(self):
        return (self.n,)

    def getitem(self, k):
        if isinstance(k, str):
            return Col(self, self.comp(k))
        if isinstance(k, slice):
            if k.step is not None or k.start not in (None, 0):
                raise Unsupported('slice of a field array')
            n = self.n if k.stop is None else k.stop
            self.ctx.prove('M02: slices of the field arrays stay inside them', And(n >= 0, n <= self.n))
            return FieldArr(self.ctx, self.names, n, None, view=self.base())
        self.ctx.prove('M02: the field of a particle is read inside the filled part', And(k >= 0, k < self.n))
        return Row(self, k)

    def setitem(self, k, v):
        if isinstance(k, str):
            c = self.comp(k)
            if isinstance(v, Col):
                if v.arr.base() is self.base() and v.c == c:
                    return            # result of an in-place operation
                self.put_col(c, self.n, v.arr.col(v.c))
            elif lift(v) is not None:
                self.put_col(c, self.n, Fn(lambda i: lift(v)))
            else:
                raise Unsupported('field column value')
            return
        if isinstance(k, slice):
            dst = self.getitem(k)
            if isinstance(v, FieldArr):
                self.ctx.prove('M02: field arrays of equal length are copied', v.n == dst.n)
                for a, b in zip(dst.names, v.names):
                    dst.put_col(a, dst.n, v.col(b))
            elif lift(v) is not None:
                for a in dst.names:
                    dst.put_col(a, dst.n, Fn(lambda i: lift(v)))
            else:
                raise Unsupported('field array value')
            return
        raise Unsupported('row assignment to a field array')

    def put_col(self, c, n, fn):
        old = self.col(c)
        self.base().put(c, Fn(lambda i: self.ctx.pick(And(i >= 0, i < n), lambda: fn(i), lambda: old(i))))


class Fn:
    """A function of the row (heap value)."""

    def __init__(self, f):
        self.f = f

    def __call__(self, i):
        return self.f(i)

    def havoc(self, ctx, name):
        F = uf('%s%%%d' % (name, ctx.oid()), INT, REAL)
        return Fn(lambda i: atom(F(lift(i).z())))


class Col(Model):
    def __init__(self, arr, c):
        super().__init__(arr.ctx)
        self.__dict__.update(arr=arr, c=c)

    def iop(self, op, v):
        a = self.arr
        old = a.col(self.c)
        if isinstance(v, Col):
            self.ctx.prove('M02: field arrays of equal length are combined', v.arr.n == a.n)
            o = v.arr.col(v.c)
        elif lift(v) is not None:
            o = lambda i: lift(v)      # noqa
        else:
            raise Unsupported('field column operand')
        f = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mult': lambda x, y: x * y}.get(op)
        if f is None:
            raise Unsupported('in-place ' + op)
        a.put_col(self.c, a.n, Fn(lambda i: f(old(i), o(i))))
        return self

    def getitem(self, i):
        self.ctx.prove('M02: the field of a particle is read inside the filled part', And(i >= 0, i < self.arr.n))
        return self.arr.col(self.c)(i)


class Row(Model):
    def __init__(self, arr, i):
        super().__init__(arr.ctx)
        self.__dict__.update(arr=arr, i=i)

    def getitem(self, c):
        return self.arr.col(self.arr.comp(c))(self.i)

    def items_(self):
        return [self.getitem(c) for c in self.arr.names]

    def setitem(self, c, v):
        raise Unsupported('element assignment to a field array')


class Field(Model):
    """Contract of Field_C interpolation (F01): value of the field at each point."""

    def __init__(self, ctx, w, name):
        super().__init__(ctx)
        self.__dict__.update(w=w, name=name)

    def at(self, i, c):
        w = self.w
        F = uf('%s_%s' % (self.name, c), *([REAL] * w.dim + [REAL]))
        return atom(F(*[w.In(q, i).z() for q in w.coords]))

    def rnd(self, i, c):
        return atom(uf('%s_rnd_%s' % (self.name, c), INT, REAL)(lift(i).z()))

    def fill(self, pts, out, fn):
        if not isinstance(pts, InSeg) or not isinstance(out, FieldArr):
            raise Unsupported('interpolation to something else than the in segment')
        self.ctx.prove('M02: the field is interpolated to an existing segment', pts.valid)
        self.ctx.prove('M02: the field array has room for the segment', pts.n <= out.n)
        b = pts.seg * self.w.L + pts.start
        for c in out.names:
            dst = FieldArr(self.ctx, out.names, pts.n, None, view=out.base())
            dst.put_col(c, pts.n, Fn(lambda i, c=c: fn(b + i, c)))

    def interpolate_field_to_points(self, pts, out):
        self.fill(pts, out, self.at)

    def interpolate_random_field_to_points(self, pts, out):
        self.fill(pts, out, self.rnd)


def inv(worlds):
    """Candidate generator for Interp(inv=...)."""
    def f(I, ctx, lid, env, entry):
        locs = []
        for n, v in env.vars.items():
            if isinstance(v, (Num, BoolV, Handle)):
                locs.append((n, v))
            elif isinstance(v, (int, Fraction)) and not isinstance(v, bool) and n in ctx.sh.loops.get(lid, ()):
                locs.append((n, lift(v)))
            elif isinstance(v, bool) and n in ctx.sh.loops.get(lid, ()):
                locs.append((n, v))
        out = []
        for w in worlds():
            out += w.cands(env, entry, locs)
        return out
    return f
