"""The segmented storage as seen by its users between advances: the contract proved in s01.py, as a sequence of N items.

Sums over items: S_e(k) = sum of e over the items 0..k-1.  The sum of a polynomial over the item index is split into monomials (linearity
of finite sums); each monomial m has one prefix-sum function S_m with S_m(0) = 0 and S_m(i+1) = S_m(i) + m(i) (instantiated at the
items that are read one by one)."""
from fractions import Fraction
import z3
import val
from val import atom, lift, BoolV, And, Or, Not, Implies, Ite, Unsupported, zb, Num
from ctx import PathEnd, PyRaise
from interp import Model, Obj, Opaque
from contracts._mover import Handle, DType, uf, INT, REAL, BOOL, INTF

PH = z3.Int('item_index')
_dep = {}


def depends(e):
    k = e.get_id()
    if k not in _dep:
        _dep[k] = e.eq(PH) or any(depends(c) for c in e.children())
    return _dep[k]


def subst(n, i):
    """The polynomial n with the item index replaced by i."""
    n = lift(n)
    iz = lift(i).z()
    r = 0
    for m, c in n.p.items():
        t = c if not n.i else int(c)
        for k in m:
            e, _ = val._atoms[k]
            t = atom(z3.substitute(e, (PH, iz))) * t if depends(e) else Num({(k,): Fraction(1)}, z3.is_int(e)) * t
        r = r + t
    return r


class Sums:
    """Prefix sums of one job."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.fs, self.idx = {}, []

    def prefix(self, g, k):
        """sum of g(i) for i < k, as a Num."""
        e = lift(g(atom(PH)))
        r = 0
        for m, c in e.p.items():
            dep, out = [], 1
            for q in m:
                a, _ = val._atoms[q]
                if depends(a):
                    dep.append(q)
                else:
                    out = Num({(q,): Fraction(1)}, z3.is_int(a)) * out
            c = c if not e.i else int(c)
            if not dep:
                r = r + out * c * k
                continue
            r = r + out * c * self.S(tuple(dep), e.i, k)
        return r

    def S(self, mono, isint, k):
        key = '*'.join(sorted(val._atoms[q][0].sexpr() for q in mono))
        F = uf('Sum[' + key + ']', INT, INT if isint else REAL)
        if key not in self.fs:
            self.fs[key] = (F, Num({mono: Fraction(1)}, isint))
            self.ctx.assume(atom(F(0)) == 0)
            for i in self.idx:
                self.unfold(key, i)
        return atom(F(lift(k).z()))

    def unfold(self, key, i):
        F, m = self.fs[key]
        self.ctx.assume(atom(F(lift(i + 1).z())) == atom(F(lift(i).z())) + subst(m, i))

    def at(self, i):
        i = lift(i)
        if any(i.p == j.p for j in self.idx):
            return
        self.idx.append(i)
        for key in self.fs:
            self.unfold(key, i)


def sums(ctx):
    if 'sums' not in ctx.memo:
        ctx.memo['sums'] = Sums(ctx)
    return ctx.memo['sums']


class Vec(Model):
    """Array of symbolic length: element i is g(off + i)."""

    def __init__(self, ctx, off, n, g):
        super().__init__(ctx)
        self.__dict__.update(off=off, n=n, g=g)

    @property
    def size(self):
        return self.n

    @property
    def shape(self):
        return (self.n,)

    def len_(self):
        return self.n

    def havoc(self, ctx, name):
        raise Unsupported('array of symbolic length changed in a loop')

    def _bin(self, o, f):
        if hasattr(o, 'vec'):
            o = o.vec()
        if isinstance(o, Vec):
            if not (self.off is o.off or lift(self.off).p == lift(o.off).p):
                raise Unsupported('arrays over different items')
            if lift(self.n).p != lift(o.n).p:
                self.ctx.prove('arrays combined have the same length', self.n == o.n)
            return Vec(self.ctx, self.off, self.n, lambda i: f(self.g(i), o.g(i)))
        if lift(o) is None:
            raise Unsupported('array operation with %s' % type(o).__name__)
        return Vec(self.ctx, self.off, self.n, lambda i: f(self.g(i), o))

    def __add__(self, o): return self._bin(o, lambda x, y: x + y)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda x, y: x - y)
    def __rsub__(self, o): return self._bin(o, lambda x, y: y - x)
    def __mul__(self, o): return self._bin(o, lambda x, y: x * y)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, lambda x, y: self.ctx.div(x, y))
    def __neg__(self): return Vec(self.ctx, self.off, self.n, lambda i: -self.g(i))

    def __pow__(self, k):
        if k != 2:
            raise Unsupported('power of an array')
        return Vec(self.ctx, self.off, self.n, lambda i: self.g(i) * self.g(i))

    def getitem(self, k):
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported('slice step')
            a, b = (0 if k.start is None else k.start), (self.n if k.stop is None else k.stop)
            if isinstance(b, int) and b < 0 or isinstance(a, int) and a < 0:
                raise Unsupported('negative slice bound')
            self.ctx.prove('slices stay within the stored items', And(a >= 0, a <= b, b <= self.n))
            return Vec(self.ctx, self.off + a, b - a, self.g)
        self.ctx.prove('reads stay within the stored items', And(k >= 0, k < self.n))
        sums(self.ctx).at(self.off + k)
        return self.g(self.off + k)

    def sum_(self):
        s = sums(self.ctx)
        return s.prefix(self.g, self.off + self.n) - s.prefix(self.g, self.off)
    sum = sum_

    def copy(self):
        return self

    def dot(self, o):
        return (self * o).sum_()

    def matmul(self, o):
        return self.dot(o)

    def sym_iter(self, I):
        return Iter(0, self.n, self.getitem)


class Iter:
    step = 1

    def __init__(self, lo, hi, f):
        self.lo, self.hi, self.f = lo, hi, f

    def item(self, i):
        return self.f(i)


class Store(Model):
    """N items; fields in `mutable` may be written (one arbitrary item, number `watch`, is followed)."""

    def __init__(self, ctx, fields, L, tag='', mutable=(), N=None, watch=None, extra=()):
        super().__init__(ctx)
        d = self.__dict__
        d.update(fields=list(fields), L=L, tag=tag, mutable=tuple(mutable), extra=tuple(extra))
        self.cells['N'] = ctx.fresh('N' + tag) if N is None else N
        d['N0'] = self.cells['N']
        ctx.assume(self.N0 >= 0)
        self.cells['cur'] = 0
        self.cells['started'] = False
        d['watch'] = ctx.fresh('watched' + tag) if watch is None and mutable else watch
        d['overlay'] = {}
        if self.watch is not None:
            for f in self.mutable:
                self.cells['w_' + f] = self.In(f, self.watch)
        d['accs'] = []          # [(name, k -> Num)]: values of accumulators after the items before k

    @property
    def N(self):
        return self.cells['N']

    def In(self, f, i):
        return atom(uf('In_%s%s' % (f, self.tag), *([INT] * (1 + len(self.extra)) + [INT if f in INTF else REAL]))(*[lift(x).z() for x in self.extra], lift(i).z()))

    def epoch(self):
        return sum(self.ctx.visits.values())

    def okey(self, f, i):
        return (f, self.epoch(), frozenset(lift(i).p.items()))

    def read(self, f, i):
        if f not in self.mutable:
            return self.In(f, i)
        if bool(BoolV(zb(lift(i) == self.watch))):
            return self.get('w_' + f)
        k = self.okey(f, i)
        if k not in self.overlay:
            self.overlay[k] = self.ctx.fresh('other_' + f, 'int' if f in INTF else 'real')
        return self.overlay[k]

    def write(self, f, i, v):
        if f not in self.mutable:
            self.ctx.prove('%s of the stored particles is not changed' % f, False)
            return
        if bool(BoolV(zb(lift(i) == self.watch))):
            self.put('w_' + f, v)
            return
        for k in [k for k in self.overlay if k[0] == f]:
            del self.overlay[k]
        self.overlay[self.okey(f, i)] = v

    # contract
    def get_number_of_items(self):
        return self.N

    def init_out_loop(self):
        self.put('cur', 0)
        self.put('started', True)
        n = Ite(self.N < self.L, self.N, self.L)
        return (n, Seg(self.ctx, self, BoolV(zb(self.N > 0)), 0, n))

    def get_next_segment(self, io):
        if io != 'out':
            raise Unsupported('traversal of the in array outside of an advance')
        c = self.get('cur') + 1
        self.put('cur', c)
        v = BoolV(zb(c * self.L < self.N))
        n = Ite(v, Ite(self.N - c * self.L < self.L, self.N - c * self.L, self.L), 0)
        return (n, Seg(self.ctx, self, v, c, n))

    def get_segment_and_offset(self, i):
        self.ctx.prove('only stored items are addressed', And(i >= 0, i < self.N))
        q, r = self.ctx.divmod(i, self.L)
        return (Seg(self.ctx, self, True, q, self.L, whole=True), r)

    def get_item(self, i):
        self.ctx.prove('only stored items are addressed', And(i >= 0, i < self.N))
        return Ref(self, i)

    def getitem(self, i):
        return self.get_item(i)

    def get_full_index(self, i, io):
        if io != 'out':
            raise Unsupported('get_full_index in')
        return self.get('cur') * self.L + i

    # invariants
    def base(self):
        c = self.get('cur')
        return Ite(c * self.L < self.N, c * self.L, self.N)

    def cands(self, env, entry, locs, cells):
        out = []
        add = lambda n, f: out.append((n + self.tag, f))      # noqa
        if self.get('started') is not True:
            return out
        L, N, c = self.L, self.N, self.get('cur')
        ints = [(n, v) for n, v in locs if isinstance(v, Num) and v.i]
        seglen = lambda: Ite(N - c * L < L, N - c * L, L)      # noqa
        for n, v in ints:
            add('%s is the length of the segment' % n, lambda v=v: Implies(c * L < N, v == seglen()))
        for n, v in locs:
            if isinstance(v, Seg) and v.st is self:
                add('%s is the current segment' % n, lambda v=v: v.seg == c)
                add('%s exists while items remain' % n, lambda v=v: BoolV(zb(v.valid) == zb(c * L < N)))
                add('%s length' % n, lambda v=v: Implies(v.valid, v.n == seglen()))
        # accumulators
        vals = [(n, v) for n, v in locs if isinstance(v, (Num, Fraction, int)) and not isinstance(v, bool)] + cells
        for an, a in self.accs:
            for n, v in vals:
                add('%s == %s of the full segments' % (n, an), lambda v=v, a=a: v == a(self.base()))
                for m, w in ints:
                    if m != n:
                        add('%s == %s of the items before %s' % (n, an, m), lambda v=v, a=a, w=w: v == a(c * L + w))
                        add('%s == %s of the items up to %s' % (n, an, m), lambda v=v, a=a, w=w: v == a(w))
        for nm, f in self.facts(ints):
            add(nm, f)
        return out

    def facts(self, ints):
        """Facts about the watched item once it has been passed: watch_facts() -> [(name, BoolV)]."""
        if self.watch is None or self.__dict__.get('wfacts') is None:
            return []
        out = []
        for nm, f in self.wfacts():
            for cond, cn in [(lambda: self.watch < self.base(), 'full segments')] + [((lambda w=w: self.watch < self.get('cur') * self.L + w), m) for m, w in ints]:
                out.append(('watched item before %s: %s' % (cn, nm), lambda f=f, cond=cond: Implies(cond(), f())))
            out.append(('watched item: ' + nm, lambda f=f: f()))
        return out


def map_comp(self, I, e, env):
    """[elt for x in self]: one generator, no condition."""
    from interp import Env
    g = e.generators[0]
    if g.ifs:
        raise Unsupported('filtered comprehension over stored items')
    base = self.off if isinstance(self, Vec) else self.seg * self.st.L + self.start

    def at(i):
        en = Env(env.mod, {}, env, env.fn)
        I.assign(g.target, self.g(i) if isinstance(self, Vec) else Ref(self.st, i), en)
        return I.eval(e.elt, en)
    return Vec(self.ctx, base, self.n, at)


Vec.map_comp = map_comp


class Seg(Handle):
    def __init__(self, ctx, st, valid, seg, n, start=0, whole=False):
        super().__init__(ctx)
        self.__dict__.update(st=st, valid=valid, seg=seg, n=n, start=start, whole=whole)

    def havoc(self, ctx, name):
        return Seg(ctx, self.st, ctx.fresh(name + '.valid', 'bool'), ctx.fresh(name + '.seg'), ctx.fresh(name + '.n'))

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    @property
    def dtype(self):
        return DType(self.st.fields)

    def getitem(self, k):
        ctx = self.ctx
        ctx.prove('a segment is used only where there is one', self.valid)
        if isinstance(k, str):
            if k not in self.st.fields:
                raise PyRaise('ValueError')
            if k in self.st.mutable:
                raise Unsupported('column of a field that is written')
            return Vec(ctx, self.seg * self.st.L + self.start, self.n, lambda i: self.st.In(k, i))
        if isinstance(k, slice):
            if k.step is not None:
                raise Unsupported('slice step')
            a, b = (0 if k.start is None else k.start), (self.n if k.stop is None else k.stop)
            ctx.prove('slices stay within the stored items', And(a >= 0, a <= b, b <= self.n))
            return Seg(ctx, self.st, self.valid, self.seg, b - a, self.start + a)
        ctx.prove('reads stay within the stored items', And(k >= 0, k < self.n))
        return Ref(self.st, self.seg * self.st.L + self.start + k)

    def setitem(self, k, v):
        raise Unsupported('a stored particle is replaced')

    def sym_iter(self, I):
        return Iter(0, self.n, self.getitem)

    def reshape(self, *a):
        raise Unsupported('reshape of a segment')

    map_comp = map_comp


class Ref(Model):
    """A view of item i."""

    def __init__(self, st, i):
        super().__init__(st.ctx)
        self.__dict__.update(st=st, i=i)
        sums(st.ctx).at(i)

    @property
    def dtype(self):
        return DType(self.st.fields)

    def fld(self, k):
        if isinstance(k, int):
            return self.st.fields[k]
        if k in self.st.fields:
            return k
        raise PyRaise('ValueError', 'no field %r' % (k,))

    def getitem(self, k):
        return self.st.read(self.fld(k), self.i)

    def fields_(self, names):
        return {f: self.st.read(g, self.i) for f, g in zip(names, self.st.fields)}

    def setitem(self, k, v):
        self.st.write(self.fld(k), self.i, v)

    def havoc(self, ctx, name):
        from ctx import Poison
        return Poison(name)


def inv(stores, more=None):
    """Invariant generator for Interp: stores() -> [Store]; more(env, entry, locs, ctx, lid) -> [(name, thunk)]."""
    def f(I, ctx, lid, env, entry):
        locs = []
        own = ctx.sh.loops.get(lid, ())
        for n, v in env.vars.items():
            if isinstance(v, (Num, BoolV, Handle)):
                locs.append((n, v))
            elif isinstance(v, (int, Fraction)) and not isinstance(v, bool) and n in own:
                locs.append((n, lift(v)))
        out = []
        for s in stores():
            out += s.cands(env, entry, locs, s.acc_cells() if s.__dict__.get('acc_cells') else [])
        if more:
            out += more(env, entry, locs)
        return out
    return f
