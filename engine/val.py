"""Symbolic numbers and booleans.

Num: a polynomial (monomial -> rational coefficient) over atoms (z3 constants / uninterpreted applications).  Products of atoms
become applications of the uninterpreted functions mulI/mulR (congruence + instantiated lemmas, see Solver); a second attempt
replaces them by the true product.  Floating point numbers are treated as mathematical reals."""
import operator
from fractions import Fraction
import z3

MULI = z3.Function('mulI', z3.IntSort(), z3.IntSort(), z3.IntSort())
MULR = z3.Function('mulR', z3.RealSort(), z3.RealSort(), z3.RealSort())


class Unsupported(Exception):
    pass


_atoms = {}      # id -> (z3 expr, is_int)
_ord = {}        # id -> sort key: applications of the same function take the same place in a product (congruence)


def atom(e):
    k = e.get_id()
    if k not in _atoms:
        _atoms[k] = (e, z3.is_int(e))
        _ord[k] = (e.decl().name().split('!')[0] if z3.is_app(e) else '', k)
    return Num({(k,): Fraction(1)}, z3.is_int(e))


def const(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, int):
        return Num({(): Fraction(c)} if c else {}, True)
    f = Fraction(c)
    return Num({(): f} if f else {}, False)


def lift(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, BoolV):
        return atom(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(x, (int, float, Fraction)):
        return const(x)
    return None


_zc, _cc, _nc = {}, {}, {}      # caches: polynomial -> term, comparison -> formula, numeral -> term


def numeral(c, isint):
    k = (c, isint)
    if k not in _nc:
        _nc[k] = z3.IntVal(int(c)) if isint else z3.RealVal(str(c))
    return _nc[k]


class Num:
    __slots__ = ('p', 'i', '_z')

    def __init__(self, p, i):
        self.p, self.i, self._z = p, i, None

    def conc(self):
        """Concrete Python number or None."""
        if not self.p:
            return 0 if self.i else Fraction(0)
        if len(self.p) == 1 and () in self.p:
            c = self.p[()]
            return int(c) if self.i else c
        return None

    def norm(self):
        c = self.conc()
        return self if c is None else c

    def z(self):
        if self._z is None:
            key = (self.i, frozenset(self.p.items()))
            self._z = _zc.get(key)
        if self._z is None:
            def at(k):
                e, i = _atoms[k]
                return e if self.i == i else z3.ToReal(e)
            terms = []
            for m, c in sorted(self.p.items()):
                cv = numeral(c, self.i)
                if not m:
                    terms.append(cv)
                    continue
                t = at(m[0])
                for k in m[1:]:
                    t = (MULI if self.i else MULR)(t, at(k))
                terms.append(t if c == 1 else cv * t)
            if not terms:
                self._z = z3.IntVal(0) if self.i else z3.RealVal(0)
            else:
                self._z = terms[0] if len(terms) == 1 else z3.Sum(terms)
            _zc[key] = self._z
        return self._z

    def _add(self, o, s):
        p = dict(self.p)
        for m, c in o.p.items():
            v = p.get(m, 0) + s * c
            if v:
                p[m] = v
            else:
                p.pop(m, None)
        return Num(p, self.i and o.i).norm()

    def __add__(self, o):
        o = lift(o)
        return NotImplemented if o is None else self._add(o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else self._add(o, -1)

    def __rsub__(self, o):
        o = lift(o)
        return NotImplemented if o is None else o._add(self, -1)

    def __mul__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        p = {}
        for a, ca in self.p.items():
            for b, cb in o.p.items():
                m = tuple(sorted(a + b, key=_ord.__getitem__)) if a and b else a + b
                v = p.get(m, 0) + ca * cb
                if v:
                    p[m] = v
                else:
                    p.pop(m, None)
        return Num(p, self.i and o.i).norm()
    __rmul__ = __mul__

    def __neg__(self):
        return Num({m: -c for m, c in self.p.items()}, self.i).norm()

    def __pos__(self):
        return self

    def __pow__(self, n):
        if isinstance(n, Fraction) and n.denominator == 1:
            n = int(n)
        if isinstance(n, float) and n == int(n):
            n = int(n)
        if not isinstance(n, int) or n < 0 or n > 6:
            raise Unsupported('power %r' % (n,))
        r = 1
        for _ in range(n):
            r = self * r
        return r

    def __truediv__(self, o):
        return CTX[0].div(self, o)

    def __rtruediv__(self, o):
        return CTX[0].div(o, self)

    def __floordiv__(self, o):
        return CTX[0].divmod(self, o)[0]

    def __mod__(self, o):
        return CTX[0].divmod(self, o)[1]

    def __rfloordiv__(self, o):
        return CTX[0].divmod(o, self)[0]

    def __rmod__(self, o):
        return CTX[0].divmod(o, self)[1]

    def __divmod__(self, o):
        return CTX[0].divmod(self, o)

    def _cmp(self, o, f):
        o = lift(o)
        if o is None:
            return NotImplemented
        d = self._add(o, -1)
        if not isinstance(d, Num):
            return f(d, 0)
        k = (f, d.i, frozenset(d.p.items()))
        r = _cc.get(k)
        if r is None:
            r = _cc[k] = f(d.z(), numeral(0, d.i))
        return BoolV(r)

    def __lt__(self, o): return self._cmp(o, operator.lt)
    def __le__(self, o): return self._cmp(o, operator.le)
    def __gt__(self, o): return self._cmp(o, operator.gt)
    def __ge__(self, o): return self._cmp(o, operator.ge)

    def __eq__(self, o):
        r = self._cmp(o, operator.eq)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, operator.ne)
        return True if r is NotImplemented else r

    __hash__ = None

    def __bool__(self):
        return bool(self != 0)

    def __abs__(self):
        return -self if bool(self < 0) else self

    def __index__(self):
        raise Unsupported('symbolic number used as a concrete index')
    __int__ = __float__ = __index__

    # bit operations on flag words: bit k of word w is an uninterpreted predicate
    def __and__(self, o):
        return CTX[0].bitand(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return CTX[0].bitor(self, o)
    __ror__ = __or__

    def __repr__(self):
        return 'Num(%s)' % self.z()


class BoolV:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e if isinstance(e, z3.ExprRef) else z3.BoolVal(bool(e))

    def __bool__(self):
        return CTX[0].branch(self)

    def __eq__(self, o):
        if isinstance(o, (bool, BoolV)):
            return BoolV(self.e == zb(o))
        if isinstance(o, (int, Num)):
            return lift(self) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return not r if isinstance(r, bool) else BoolV(z3.Not(r.e))
    __hash__ = None

    def __add__(self, o): return lift(self) + o
    __radd__ = __add__
    def __sub__(self, o): return lift(self) - o
    def __rsub__(self, o): return lift(o) - lift(self)
    def __mul__(self, o): return lift(self) * o
    __rmul__ = __mul__

    def __and__(self, o):
        return And(self, o)

    def __or__(self, o):
        return Or(self, o)

    def __repr__(self):
        return 'BoolV(%s)' % self.e


def zb(x):
    if isinstance(x, BoolV):
        return x.e
    if isinstance(x, Num):
        return zb(x != 0)
    return z3.BoolVal(bool(x))


def mkb(e):
    e2 = z3.simplify(e) if False else e
    if z3.is_true(e2):
        return True
    if z3.is_false(e2):
        return False
    return BoolV(e2)


def And(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    return BoolV(z3.And([zb(x) for x in xs]))


def Or(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    return BoolV(z3.Or([zb(x) for x in xs]))


def Not(x):
    if isinstance(x, bool):
        return not x
    return BoolV(z3.Not(zb(x)))


def Implies(a, b):
    return Or(Not(a), b)


def Ite(c, a, b):
    """Numeric if-then-else as a single atom."""
    if isinstance(c, bool):
        return a if c else b
    a, b = lift(a), lift(b)
    d = a - b
    if not isinstance(d, Num) and d == 0:
        return a.norm()
    isint = a.i and b.i
    za, zb_ = a.z(), b.z()
    if not isint:
        za = z3.ToReal(za) if a.i else za
        zb_ = z3.ToReal(zb_) if b.i else zb_
    return atom(z3.If(zb(c), za, zb_))


def znum(x, want_int=None):
    """z3 term of a number."""
    n = lift(x)
    e = n.z()
    if want_int is False and n.i:
        e = z3.ToReal(e)
    return e


CTX = [None]     # the current execution context


# The bindings ask for an error code after every call; an error still shows as a null result.
def _fast(self, ctx):
    return None


try:
    z3.z3core.Elementaries.Check = _fast
except AttributeError:
    pass
