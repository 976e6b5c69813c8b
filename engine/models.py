"""Models of the libraries the code uses (numpy on small arrays, sys, math): trusted, listed in the evidence."""
from fractions import Fraction
import z3
import val
from val import Num, BoolV, Unsupported, atom, lift, zb, And, Or, Not
from ctx import PathEnd, PyRaise
from interp import Model, Opaque, TypeName


class Buf(Model):
    def put(self, k, v):
        Model.put(self, k, v)
        m = self.__dict__.get('mirror')
        if m is not None and k in m[1]:
            i = m[1].index(k)
            m[0].put(i, val.Ite(m[2], v, m[0].get(i)))


class Arr(Model):
    """numpy array of concrete shape; views share the buffer."""

    def __init__(self, ctx, vals=None, shape=None, buf=None, idx=None, dtype='float'):
        super().__init__(ctx)
        if buf is None:
            buf = Buf(ctx, **{})
            for i, v in enumerate(vals):
                buf.cells[i] = v
            idx = list(range(len(vals)))
            shape = shape or (len(vals),)
        self.__dict__.update(buf=buf, idx=idx, shape=tuple(shape), dtype=dtype)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return len(self.idx)

    def vals(self):
        return [self.buf.cells[i] for i in self.idx]

    def new(self, vals, shape=None):
        return Arr(self.ctx, vals, self.shape if shape is None else shape)

    def sub(self, idx, shape):
        return Arr(self.ctx, buf=self.buf, idx=idx, shape=shape)

    def rows(self):
        n = self.shape[0]
        w = len(self.idx) // n if n else 0
        return [self.idx[i * w:(i + 1) * w] for i in range(n)]

    def select(self, k):
        """(index list, shape); shape None: a single element."""
        if isinstance(k, tuple):
            if len(k) == 1:
                return self.select(k[0])
            ids, sh = self.select(k[0])
            if isinstance(k[0], slice):
                sub = Arr(self.ctx, buf=self.buf, idx=ids, shape=sh)
                out, shp = [], None
                for r in sub.rows():
                    i2, s2 = Arr(self.ctx, buf=self.buf, idx=r, shape=sh[1:]).select(k[1:] if len(k) > 2 else k[1])
                    out += i2
                    shp = s2
                return out, (sh[0],) + (shp or ())
            return Arr(self.ctx, buf=self.buf, idx=ids, shape=sh).select(k[1:] if len(k) > 2 else k[1])
        if isinstance(k, Num):
            for i in range(self.shape[0]):
                if bool(Or(k == i, k == i - self.shape[0])):
                    return self.select(i)
            raise PyRaise('IndexError')
        if isinstance(k, slice):
            for x in (k.start, k.stop, k.step):
                if isinstance(x, Num):
                    raise Unsupported('symbolic slice of an array')
            rs = self.rows()[k]
            return [i for r in rs for i in r], (len(rs),) + self.shape[1:]
        if isinstance(k, int):
            if not -self.shape[0] <= k < self.shape[0]:
                raise PyRaise('IndexError')
            r = self.rows()[k]
            return r, (self.shape[1:] or None)
        if isinstance(k, (Arr, list)):
            ks = k.vals() if isinstance(k, Arr) else k
            out = []
            for q in ks:
                i, s = self.select(q)
                out += i
            return out, (len(ks),) + self.shape[1:]
        raise Unsupported('array index %r' % (k,))

    def getitem(self, k):
        if k is Ellipsis:
            return self
        ids, sh = self.select(k)
        if sh is None:
            return self.buf.cells[ids[0]]
        return self.sub(ids, sh)

    def setitem(self, k, v):
        if k is Ellipsis:
            k = slice(None)
        ids, sh = self.select(k)
        if sh is None:
            if isinstance(v, Arr):
                if v.size != 1:
                    raise PyRaise('ValueError', 'setting an array element with a sequence')
                v = v.vals()[0]
            self.buf.put(ids[0], v)
            return
        if isinstance(v, (list, tuple)):
            v = mkarr(self.ctx, v)
        if isinstance(v, Arr):
            vs = v.vals()
            if len(vs) == 1:
                vs = vs * len(ids)
            elif len(vs) != len(ids):
                raise PyRaise('ValueError', 'could not broadcast %d into %d' % (len(vs), len(ids)))
        else:
            vs = [v] * len(ids)
        for i, x in zip(ids, vs):
            self.buf.put(i, x)

    def items_(self):
        return [self.getitem(i) for i in range(self.shape[0])]

    def len_(self):
        return self.shape[0]

    def _bin(self, o, f):
        if isinstance(o, (list, tuple)):
            o = mkarr(self.ctx, o)
        if isinstance(o, Arr):
            a, b = self.vals(), o.vals()
            if self.shape == o.shape:
                return self.new([f(x, y) for x, y in zip(a, b)])
            if len(b) == 1:
                return self.new([f(x, b[0]) for x in a])
            if len(a) == 1:
                return o.new([f(a[0], y) for y in b])
            if len(self.shape) == 2 and len(o.shape) == 1 and self.shape[1] == o.shape[0]:
                return self.new([f(x, b[i % len(b)]) for i, x in enumerate(a)])
            raise PyRaise('ValueError', 'operands could not be broadcast together')
        if lift(o) is None:
            raise Unsupported('array operation with %s' % type(o).__name__)
        return self.new([f(x, o) for x in self.vals()])

    def __add__(self, o): return self._bin(o, lambda x, y: x + y)
    __radd__ = __add__
    def __sub__(self, o): return self._bin(o, lambda x, y: x - y)
    def __rsub__(self, o): return self._bin(o, lambda x, y: y - x)
    def __mul__(self, o): return self._bin(o, lambda x, y: x * y)
    __rmul__ = __mul__
    def __truediv__(self, o): return self._bin(o, lambda x, y: self.ctx.div(x, y))
    def __rtruediv__(self, o): return self._bin(o, lambda x, y: self.ctx.div(y, x))
    def __neg__(self): return self.new([-x for x in self.vals()])
    def __pow__(self, n): return self.new([x ** n for x in self.vals()])
    def __abs__(self): return self.new([abs(x) for x in self.vals()])

    def iop(self, op, v):
        f = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y, 'Mult': lambda x, y: x * y, 'Div': lambda x, y: self.ctx.div(x, y)}.get(op)
        if f is None:
            raise Unsupported('in-place ' + op)
        self.setitem(slice(None), self._bin(v, f))
        return self

    def cmp(self, op, o):
        f = {'Eq': lambda x, y: x == y, 'NotEq': lambda x, y: x != y, 'Lt': lambda x, y: x < y, 'LtE': lambda x, y: x <= y, 'Gt': lambda x, y: x > y, 'GtE': lambda x, y: x >= y}[op]
        return self._bin(o, f)

    def truth(self):
        if self.size != 1:
            raise PyRaise('ValueError', 'truth value of an array')
        v = self.vals()[0]
        return v if isinstance(v, (bool, BoolV)) else v != 0

    def isinstance_(self, t):
        nm = getattr(t, 'name', getattr(t, '__name__', ''))
        return nm == 'ndarray'

    def type_(self):
        return TypeName('ndarray')

    def matmul(self, o):
        return dot(self, o)

    def reshape(self, *sh):
        sh = sh[0] if len(sh) == 1 and isinstance(sh[0], tuple) else sh
        n, unk, p = self.size, None, 1
        for i, d in enumerate(sh):
            if d == -1:
                unk = i
            else:
                p *= d
        sh = tuple(n // p if i == unk else d for i, d in enumerate(sh))
        return self.sub(list(self.idx), sh)

    def copy(self):
        return self.new(self.vals())

    def tolist(self):
        if len(self.shape) == 1:
            return self.vals()
        return [self.getitem(i).tolist() for i in range(self.shape[0])]

    def fill(self, v):
        self.setitem(slice(None), v)

    def ravel(self):
        return self.sub(list(self.idx), (self.size,))
    flatten = ravel

    def sum_(self):
        r = 0
        for v in self.vals():
            r = r + v
        return r
    sum = sum_

    def dot(self, o):
        return dot(self, o)

    def any(self):
        return Or(*[v if isinstance(v, (bool, BoolV)) else v != 0 for v in self.vals()])

    def all(self):
        return And(*[v if isinstance(v, (bool, BoolV)) else v != 0 for v in self.vals()])

    def astype(self, t, **k):
        return self.copy()

    def is_(self, o):
        return self is o

    def havoc(self, ctx, name):
        return self.new([ctx.fresh('%s.%d' % (name, i), 'real') for i in range(self.size)])


def mkarr(ctx, v):
    if isinstance(v, Arr):
        return v.copy()
    v = list(v)
    if v and isinstance(v[0], (list, tuple, Arr)):
        rows = [mkarr(ctx, r) for r in v]
        return Arr(ctx, [x for r in rows for x in r.vals()], (len(rows),) + rows[0].shape)
    return Arr(ctx, v)


def dot(a, b):
    ctx = val.CTX[0]
    a = mkarr(ctx, a) if isinstance(a, (list, tuple)) else a
    b = mkarr(ctx, b) if isinstance(b, (list, tuple)) else b
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        return a * b
    if len(a.shape) == 1 and len(b.shape) == 1:
        if a.size != b.size:
            raise PyRaise('ValueError', 'shapes not aligned')
        r = 0
        for x, y in zip(a.vals(), b.vals()):
            r = r + x * y
        return r
    if len(a.shape) == 2 and len(b.shape) == 1:
        return Arr(ctx, [dot(a.getitem(i), b) for i in range(a.shape[0])])
    raise Unsupported('dot of shapes %s %s' % (a.shape, b.shape))


class Rand:
    def __getattr__(self, k):
        def f(*a, **kw):
            ctx = val.CTX[0]
            n = a[2] if len(a) > 2 else kw.get('size')
            if n is None:
                return ctx.fresh('random', 'real')
            if isinstance(n, Num):
                raise Unsupported('random array of symbolic length')
            return Arr(ctx, [ctx.fresh('random', 'real') for _ in range(n)])
        return f


class NumpyStub:
    float64 = TypeName('float64')
    float32 = TypeName('float32')
    int32 = TypeName('int32')
    int64 = TypeName('int64')
    intc = TypeName('intc')
    ndarray = TypeName('ndarray')
    floating = TypeName('floating')
    integer = TypeName('integer')
    random = Rand()
    inf = None

    @property
    def pi(self):
        return atom(z3.Real('pi'))

    def dot(self, a, b): return dot(a, b)
    inner = vdot = dot
    def subtract(self, a, b): return a - b
    def add(self, a, b): return a + b
    def multiply(self, a, b): return a * b
    def divide(self, a, b): return val.CTX[0].div(a, b) if not isinstance(a, Arr) else a / b
    def negative(self, a): return -a
    def abs(self, a): return abs(a)
    def sum(self, a, **k): return a.sum_() if hasattr(a, 'sum_') else mkarr(val.CTX[0], a).sum_()
    def array(self, a, **k): return a.np_array() if hasattr(a, 'np_array') else mkarr(val.CTX[0], a)
    def asarray(self, a, **k): return a if isinstance(a, Arr) else self.array(a)
    def copy(self, a): return a.copy()
    def reshape(self, a, sh): return a.reshape(sh)
    def square(self, a): return a ** 2

    def sqrt(self, a):
        ctx = val.CTX[0]
        r = ctx.fresh('sqrt', 'real')
        ctx.assume(r >= 0)
        ctx.assume(r * r == a)
        return r

    def _mk(self, shape, v):
        ctx = val.CTX[0]
        if isinstance(shape, int):
            shape = (shape,)
        if any(isinstance(d, Num) for d in shape):
            raise Unsupported('array of symbolic length')
        n = 1
        for d in shape:
            n *= d
        return Arr(ctx, [v() for _ in range(n)], tuple(shape))

    def empty(self, shape=None, dtype=None, **k):
        return self._mk(shape, lambda: val.CTX[0].fresh('uninitialised', 'real'))

    def zeros(self, shape=None, dtype=None, **k):
        return self._mk(shape, lambda: 0)

    def ones(self, shape=None, dtype=None, **k):
        return self._mk(shape, lambda: 1)

    def zeros_like(self, a, **k): return a.new([0] * a.size)
    def empty_like(self, a, **k): return a.new([val.CTX[0].fresh('uninitialised', 'real') for _ in range(a.size)])

    def issubdtype(self, a, b):
        n = getattr(a, 'name', str(a))
        return (b.name == 'floating' and 'float' in n) or (b.name == 'integer' and 'int' in n)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('numpy.%s is not modelled' % k)


class SysStub:
    def _getframe(self, *a):
        return Opaque('frame')

    def exit(self, *a):
        raise PyRaise('SystemExit', a[0] if a else None)
    stdout = Opaque('stdout')
    stderr = Opaque('stderr')

    def intern(self, s):
        return s


class MathStub:
    @property
    def pi(self):
        return atom(z3.Real('pi'))

    def sqrt(self, a):
        return NumpyStub().sqrt(a)

    def fabs(self, a):
        return abs(a)

    def __getattr__(self, k):
        raise Unsupported('math.%s is not modelled' % k)


def base_stubs():
    return {'numpy': NumpyStub(), 'sys': SysStub(), 'math': MathStub(), 'os': Opaque('os')}
