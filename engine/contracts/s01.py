"""S01, Python storage: SegmentedArrayPair_C.

Abstract view: the sequence Q of the out array, Q(i) = item at segment i div L, offset i mod L, for 0 <= i < N, N = fnf*L + fao.
Representation invariant (per array): nseg >= 1, one list element per segment, 0 <= fnf < nseg, 0 <= fao <= L,
fao = 0 only when fnf = 0 (strong form; inside an update pass the out array has only 0 <= fao <= L), npmax = nseg*L."""
import z3
import val
from val import atom, lift, BoolV, And, Or, Not, Implies, Ite, Unsupported
from ctx import PathEnd, PyRaise
from interp import Module, Interp, Obj, Model, Func, Bound
from models import NumpyStub, base_stubs, Arr
from job import job

FILE = 'SegmentedArrayPair_Module.py'
C = 'SegmentedArrayPair_C'
ROW = z3.ArraySort(z3.IntSort(), z3.IntSort())
TAB = z3.ArraySort(z3.IntSort(), ROW)


class NewSeg(Model):
    def __init__(self, ctx, n, dtype):
        super().__init__(ctx)
        self.__dict__.update(n=n, dtype_=dtype)


class SegList(Model):
    """Python list of the segments of one array (list semantics trusted)."""

    def __init__(self, ctx, st, name, n, tab):
        super().__init__(ctx, n=n, c=tab)
        self.__dict__.update(st=st, name=name)

    def getitem(self, k):
        ctx = self.ctx
        if not bool(And(k >= 0, k < self.get('n'))):
            raise PyRaise('IndexError')
        return Seg(ctx, self, k, self.st['L'], 0)

    def append(self, x):
        if not isinstance(x, NewSeg):
            raise Unsupported('append of something that is not a new segment')
        self.ctx.prove('a new segment has the segment length and the item type', And(x.n == self.st['L'], x.dtype_ is self.st['dtype']))
        self.put('n', self.get('n') + 1)

    def len_(self):
        return self.get('n')


class Seg(Model):
    """A segment, or a slice of its head."""

    def __init__(self, ctx, lst, k, n, start):
        super().__init__(ctx)
        self.__dict__.update(lst=lst, k=lift(k), n=n, start=start)

    def loc(self, o):
        if not bool(And(o >= 0, o < self.n)):
            raise PyRaise('IndexError')
        return lift(o + self.start)

    def getitem(self, o):
        if isinstance(o, slice):
            if o.step is not None:
                raise Unsupported('slice with a step')
            a, b = (0 if o.start is None else o.start), (self.n if o.stop is None else o.stop)
            self.ctx.prove('slices stay inside the segment', And(a >= 0, a <= b, b <= self.n))
            return Seg(self.ctx, self.lst, self.k, b - a, self.start + a)
        p = self.loc(o)
        return atom(z3.Select(z3.Select(self.lst.get('c'), self.k.z()), p.z()))

    def setitem(self, o, v):
        p = self.loc(o)
        t = self.lst.get('c')
        self.lst.put('c', z3.Store(t, self.k.z(), z3.Store(z3.Select(t, self.k.z()), p.z(), lift(v).z())))

    def isinstance_(self, t):
        return getattr(t, 'name', '') == 'ndarray'

    @property
    def nbytes(self):
        return self.n * self.lst.st['itemsize']

    def len_(self):
        return self.n


class Np(NumpyStub):
    def empty(self, shape=None, dtype=None, **k):
        return NewSeg(val.CTX[0], shape, dtype)

    def zeros(self, shape=None, dtype=None, **k):
        return NewSeg(val.CTX[0], shape, dtype)


def interp():
    st = dict(base_stubs(), numpy=Np())
    return Interp(st, {}), Module.load(FILE, STUBS)


STUBS = dict(base_stubs(), numpy=Np())
DT = object()


class S:
    """Symbolic storage in an arbitrary state satisfying the invariant."""

    def __init__(self, ctx, strong=True, init=True):
        self.ctx = ctx
        self.I = Interp(STUBS, {})
        self.mod = Module.load(FILE, STUBS)
        self.cls = self.mod.lookup(C)
        self.L = ctx.fresh('L')
        ctx.assume(self.L >= 1)
        self.st = dict(L=self.L, dtype=DT, itemsize=ctx.fresh('itemsize'))
        if not init:
            return
        self.out = 0 if ctx.choose('out is array 0') else 1
        self.obj = Obj(ctx, self.cls)
        o = self.obj.cells
        self.lists = []
        f, a, c, ns, mx = [], [], [], [], []
        for s in (0, 1):
            n = ctx.fresh('nseg%d' % s)
            self.lists.append(SegList(ctx, self.st, s, n, z3.Const('tab%d' % s, TAB)))
            f.append(ctx.fresh('fnf%d' % s))
            a.append(ctx.fresh('fao%d' % s))
            c.append(ctx.fresh('cs%d' % s))
            ns.append(n)
            mx.append(n * self.L)
        o.update(segment_length=self.L, item_dtype=DT, seg_list_pair=[self.lists[0], self.lists[1]], first_not_full_segment=f, first_available_offset=a, current_segment=c, nseg=ns, npmax=mx,
                 in_segmented_array=1 - self.out, out_segmented_array=self.out)
        for s in (0, 1):
            for _, x in self.inv(s, strong or s != self.out):
                ctx.assume(x)
        self.snap()

    def inv(self, s, strong):
        o = self.obj.cells
        f, a, n, c = o['first_not_full_segment'][s], o['first_available_offset'][s], o['nseg'][s], o['current_segment'][s]
        L = self.L
        lst = o['seg_list_pair'][s]
        out = [('at least one segment', n >= 1), ('as many segments as counted', n == lst.get('n')), ('last used segment exists', And(f >= 0, f < n)), ('used length of the last segment', And(a >= 0, a <= L)),
               ('capacity field', o['npmax'][s] == n * L), ('current segment not negative', c >= 0)]
        if strong:
            out.append(('the last used segment is empty only if the array is', Implies(a == 0, f == 0)))
        return out

    def N(self, s=None):
        o = self.obj.cells
        s = self.o() if s is None else s
        return o['first_not_full_segment'][s] * self.L + o['first_available_offset'][s]

    def o(self):
        v = lift(self.obj.cells['out_segmented_array']).conc()
        if v is None:
            raise Unsupported('symbolic out array number')
        return v

    def i(self):
        return lift(self.obj.cells['in_segmented_array']).conc()

    def snap(self):
        o = self.obj.cells
        self.old = {k: list(o[k]) for k in ('first_not_full_segment', 'first_available_offset', 'current_segment', 'nseg', 'npmax')}
        self.old['tab'] = [l.get('c') for l in self.lists]
        self.old['N'] = [self.N(0), self.N(1)]
        self.old['out'] = self.o()

    def call(self, name, *args, **kw):
        r = self.cls.find(name)
        if r is None:
            raise Unsupported('no method ' + name)
        return self.I.call_func(Func(r[0].mod, r[1], r[0]), [self.obj] + list(args), kw)

    def tab(self, s):
        return self.obj.cells['seg_list_pair'][s].get('c')

    def item(self, s, seg, off, old=False):
        t = self.old['tab'][s] if old else self.tab(s)
        return atom(z3.Select(z3.Select(t, lift(seg).z()), lift(off).z()))

    def check_inv(self, strong=(True, True)):
        for s in (0, 1):
            for n, c in self.inv(s, strong[s]):
                self.ctx.prove('invariant: ' + n, c)
        self.ctx.prove('in and out arrays are distinct', And(Or(self.i() == 0, self.i() == 1), self.o() == 1 - self.i()))

    def same_contents(self, s, upto=None, what='the items'):
        """Items of array s at arbitrary position < upto (all positions when None) are unchanged."""
        g, o = self.ctx.fresh('anyseg'), self.ctx.fresh('anyoff')
        cond = And(g >= 0, o >= 0, o < self.L)
        if upto is not None:
            cond = And(cond, g * self.L + o < upto)
        self.ctx.prove(what + ' are unchanged', Implies(cond, self.item(s, g, o) == self.item(s, g, o, True)))

    def same_counts(self, s, what):
        o = self.obj.cells
        self.ctx.prove(what, And(*[o[k][s] == self.old[k][s] for k in ('first_not_full_segment', 'first_available_offset', 'nseg')]))

    def is_view(self, v, s, seg, n, what):
        """v is the head of segment seg of array s, n items long."""
        if not isinstance(v, Seg):
            self.ctx.prove(what, False)
            return
        self.ctx.prove(what, And(v.lst is self.obj.cells['seg_list_pair'][s], v.k == seg, v.start == 0, v.n == n))


def F(*names):
    return ['%s:%s.%s' % (FILE, C, n) for n in names]


TR = ['Python list of segments: indexing, append and len as documented', 'NumPy 1-D arrays: element read and write, slice views share storage, empty(n) has length n']
AS = ['segment length and counters are mathematical integers (Python integers)', 'the storage is used from one thread']


@job('SegmentedArrayPair_C.__init__', ['S01'], functions=F('__init__'), trusted=TR, assumptions=AS)
def _(ctx):
    s = S(ctx, init=False)
    I = s.I
    orig = I.e_List

    def e_list(e, env):
        r = orig(e, env)
        return r
    # seg_list_pair is built by [list(), list()]: represent each inner list of segments symbolically
    o = Obj(ctx, s.cls)
    s.obj = o
    r = s.cls.find('__init__')
    I.call_func(Func(r[0].mod, r[1], r[0]), [o, s.L, DT], {})
    lp = o.cells['seg_list_pair']
    s.lists = []
    for k in (0, 1):
        if isinstance(lp[k], list):
            for x in lp[k]:
                ctx.prove('a new segment has the segment length and the item type', isinstance(x, NewSeg) and And(x.n == s.L, x.dtype_ is DT))
            lp[k] = SegList(ctx, s.st, k, len(lp[k]), z3.Const('tab%d' % k, TAB))
        s.lists.append(lp[k])
    s.check_inv()
    ctx.prove('new storage is empty', s.N() == 0)
    ctx.prove('the segment length is the one requested', o.cells['segment_length'] == s.L)


@job('SegmentedArrayPair_C.push_back', ['S01', 'C01'], functions=F('push_back', 'add_segment'), trusted=TR, assumptions=AS, reach=['appended', 'appended in a new segment', 'appended in an old free segment'])
def _(ctx):
    s = S(ctx)
    it = ctx.fresh('item')
    arg = Arr(ctx, [it]) if ctx.choose('item given as an array of one') else it
    r = s.call('push_back', arg)
    ctx.reach('appended')
    u = s.o()
    ctx.prove('push_back does not swap the arrays', u == s.old['out'])
    N0, N1 = s.old['N'][u], s.N()
    ctx.prove('the number of items grows by one', N1 == N0 + 1)
    ctx.prove('the returned full index is the old number of items', isinstance(r, tuple) and len(r) == 2 and r[1] == N0)
    fo = s.obj.cells
    seg = fo['first_not_full_segment'][u]
    ctx.prove('the returned index in the segment is the position of the item', And(r[0] == fo['first_available_offset'][u] - 1, seg * s.L + r[0] == N0, r[0] >= 0, r[0] < s.L))
    ctx.prove('the new item is stored at that index', s.item(u, seg, r[0]) == it)
    ctx.prove('the current segment is the one of the new item', fo['current_segment'][u] == seg)
    s.same_contents(u, N0, 'earlier items')
    s.same_contents(1 - u, None, 'items of the other array')
    s.same_counts(1 - u, 'the other array keeps its counts')
    s.check_inv()
    if fo['nseg'][u] is not s.old['nseg'][u] and isinstance(lift(fo['nseg'][u] - s.old['nseg'][u]).conc(), int) and lift(fo['nseg'][u] - s.old['nseg'][u]).conc() == 1:
        ctx.reach('appended in a new segment')
        ctx.prove('a segment is added only when all are full', N0 == s.old['nseg'][u] * s.L)
    else:
        ctx.prove('no segment is added while there is room', fo['nseg'][u] == s.old['nseg'][u])
        if lift(seg - s.old['first_not_full_segment'][u]).conc() == 1:
            ctx.reach('appended in an old free segment')


def _read(name):
    @job('SegmentedArrayPair_C.' + name, ['S01'], functions=F(name), trusted=TR, assumptions=AS, reach=['read'])
    def _(ctx):
        s = S(ctx)
        g, o = ctx.fresh('seg'), ctx.fresh('off')
        u = s.o()
        ctx.assume(And(g >= 0, o >= 0, o < s.L, g * s.L + o < s.N()))
        r = s.call(name, g * s.L + o)
        ctx.reach('read')
        if name == 'get_segment_and_offset':
            ctx.prove('the segment and offset locate item i', isinstance(r, tuple) and And(r[0].k == g, r[0].lst is s.obj.cells['seg_list_pair'][u], r[0].n == s.L, r[0].start == 0, r[1] == o))
        else:
            ctx.prove('item i is returned', r == s.item(u, g, o))
        s.same_contents(0)
        s.same_contents(1)
        s.same_counts(0, 'reading changes no count')
        s.same_counts(1, 'reading changes no count')
        s.check_inv()


for _n in ('get_segment_and_offset', 'get_item', '__getitem__'):
    _read(_n)


@job('SegmentedArrayPair_C.__setitem__', ['S01'], functions=F('__setitem__'), trusted=TR, assumptions=AS, reach=['written'])
def _(ctx):
    s = S(ctx)
    g, o, v = ctx.fresh('seg'), ctx.fresh('off'), ctx.fresh('item')
    u = s.o()
    ctx.assume(And(g >= 0, o >= 0, o < s.L, g * s.L + o < s.N()))
    s.call('__setitem__', g * s.L + o, v)
    ctx.reach('written')
    ctx.prove('item i has the new value', s.item(u, g, o) == v)
    g2, o2 = ctx.fresh('seg2'), ctx.fresh('off2')
    ctx.prove('the other items keep their values', Implies(And(g2 >= 0, o2 >= 0, o2 < s.L, Or(g2 != g, o2 != o)), s.item(u, g2, o2) == s.item(u, g2, o2, True)))
    s.same_contents(1 - u, None, 'items of the other array')
    s.same_counts(0, 'writing an item changes no count')
    s.same_counts(1, 'writing an item changes no count')
    s.check_inv()


def _const(s):
    s.same_contents(0)
    s.same_contents(1)
    s.same_counts(0, 'traversal changes no count')
    s.same_counts(1, 'traversal changes no count')


@job('SegmentedArrayPair_C.init_out_loop', ['S01'], functions=F('init_out_loop'), trusted=TR, assumptions=AS, reach=['empty', 'first segment'])
def _(ctx):
    s = S(ctx)
    u, N = s.o(), s.N()
    r = s.call('init_out_loop')
    ctx.prove('traversal does not swap the arrays', s.o() == u)
    if not (isinstance(r, tuple) and len(r) == 2):
        ctx.prove('a count and a segment are returned', False)
        return
    if bool(N == 0):
        ctx.reach('empty')
        ctx.prove('an empty storage yields no segment', And(r[0] == 0, r[1] is None))
    else:
        ctx.reach('first segment')
        n = Ite(N < s.L, N, s.L)
        ctx.prove('the first count is min(N, L)', r[0] == n)
        s.is_view(r[1], u, 0, n, 'the first segment of the traversal is segment 0')
    ctx.prove('the traversal starts at segment 0', s.obj.cells['current_segment'][u] == 0)
    _const(s)
    s.check_inv()


@job('SegmentedArrayPair_C.get_next_segment', ['S01'], functions=F('get_next_segment'), trusted=TR, assumptions=AS, reach=['end', 'next segment'])
def _(ctx):
    s = S(ctx, strong=bool(ctx.choose('strong')))
    inout = 'in' if ctx.choose('in array') else 'out'
    a = s.i() if inout == 'in' else s.o()
    if inout == 'out':
        for _, c in s.inv(a, True):
            ctx.assume(c)
    N = s.N(a)
    k = s.obj.cells['current_segment'][a]
    u = s.o()
    r = s.call('get_next_segment', inout)
    ctx.prove('traversal does not swap the arrays', s.o() == u)
    k1 = s.obj.cells['current_segment'][a]
    ctx.prove('the traversal moves to the next segment', k1 == k + 1)
    if not (isinstance(r, tuple) and len(r) == 2):
        ctx.prove('a count and a segment are returned', False)
        return
    if bool((k + 1) * s.L < N):
        ctx.reach('next segment')
        n = Ite(N - (k + 1) * s.L < s.L, N - (k + 1) * s.L, s.L)
        ctx.prove('the count is min(N - start, L)', r[0] == n)
        s.is_view(r[1], a, k + 1, n, 'the next segment of the traversal follows the current one')
    else:
        ctx.reach('end')
        ctx.prove('the traversal ends behind the last item', And(r[0] == 0, r[1] is None))
    ctx.prove('the position in the other array is kept', s.obj.cells['current_segment'][1 - a] == s.old['current_segment'][1 - a])
    _const(s)


@job('SegmentedArrayPair_C.init_inout_loop', ['S01', 'M01'], functions=F('init_inout_loop'), trusted=TR, assumptions=AS, reach=['empty', 'first segment'])
def _(ctx):
    s = S(ctx)
    u, N = s.o(), s.N()
    r = s.call('init_inout_loop')
    if not (isinstance(r, tuple) and len(r) == 3):
        ctx.prove('a count and two segments are returned', False)
        return
    if bool(N == 0):
        ctx.reach('empty')
        ctx.prove('an empty storage yields no segment', And(r[0] == 0, r[1] is None, r[2] is None))
        ctx.prove('an empty storage stays empty', s.N() == 0)
    else:
        ctx.reach('first segment')
        ctx.prove('the stored array becomes the in array', And(s.i() == u, s.o() == 1 - u))
        n = Ite(N < s.L, N, s.L)
        ctx.prove('the first count is min(N, L)', r[0] == n)
        s.is_view(r[1], u, 0, n, 'the first in segment is segment 0 of the stored array')
        s.is_view(r[2], 1 - u, 0, s.L, 'the first out segment is the whole segment 0 of the other array')
        ctx.prove('the in array keeps its items', s.N(u) == N)
        ctx.prove('the out array starts empty', s.N(1 - u) == 0)
        ctx.prove('both traversals start at segment 0', And(s.obj.cells['current_segment'][0] == 0, s.obj.cells['current_segment'][1] == 0))
    s.same_contents(0)
    s.same_contents(1)
    s.check_inv()


@job('SegmentedArrayPair_C.get_next_out_segment', ['S01', 'M01'], functions=F('get_next_out_segment', 'add_segment'), trusted=TR, assumptions=AS, reach=['added', 'reused'])
def _(ctx):
    s = S(ctx, strong=False)
    u = s.o()
    o = s.obj.cells
    # inside an update pass: the out position is the last segment handed out, no item counted yet
    ctx.assume(And(o['current_segment'][u] == o['first_not_full_segment'][u], o['first_available_offset'][u] == 0))
    k = o['current_segment'][u]
    r = s.call('get_next_out_segment')
    ctx.prove('the pass does not swap the arrays', s.o() == u)
    s.is_view(r, u, k + 1, s.L, 'the whole next out segment is handed out')
    ctx.prove('the out position advances by one segment', And(o['current_segment'][u] == k + 1, o['first_not_full_segment'][u] == k + 1, o['first_available_offset'][u] == 0))
    if lift(o['nseg'][u] - s.old['nseg'][u]).conc() == 1:
        ctx.reach('added')
    else:
        ctx.reach('reused')
    s.same_contents(0)
    s.same_contents(1)
    s.same_counts(1 - u, 'the in array keeps its counts')
    ctx.prove('the in position is kept', o['current_segment'][1 - u] == s.old['current_segment'][1 - u])
    s.check_inv(strong=(u != 0, u != 1))


@job('SegmentedArrayPair_C.set_number_of_items', ['S01', 'M01'], functions=F('set_number_of_items'), trusted=TR, assumptions=AS, reach=['set to none', 'set to some'])
def _(ctx):
    s = S(ctx, strong=False)
    inout = 'in' if ctx.choose('in array') else 'out'
    a = s.i() if inout == 'in' else s.o()
    n = ctx.fresh('n')
    ctx.assume(And(n >= 0, n <= s.obj.cells['nseg'][a] * s.L))
    u = s.o()
    s.call('set_number_of_items', inout, n)
    ctx.prove('the arrays are not swapped', s.o() == u)
    ctx.prove('the number of items is the one set', s.N(a) == n)
    ctx.reach('set to none' if bool(n == 0) else 'set to some')
    s.same_contents(0)
    s.same_contents(1)
    s.same_counts(1 - a, 'the other array keeps its counts')
    ctx.prove('no segment is added or lost', And(*[s.obj.cells['nseg'][k] == s.old['nseg'][k] for k in (0, 1)]))
    s.check_inv(strong=(a == 0 or u != 0, a == 1 or u != 1))


@job('SegmentedArrayPair_C counts', ['S01', 'H01'], functions=F('get_number_of_items', 'get_number_of_segments', 'get_capacity', 'get_number_of_mbytes', 'get_full_index', 'get_full_indices', 'get_current_out_segment'), trusted=TR, assumptions=AS, reach=['end'])
def _(ctx):
    s = S(ctx)
    u, v = s.o(), s.i()
    o = s.obj.cells
    ctx.prove('get_number_of_items is the length of the sequence', s.call('get_number_of_items') == s.N(u))
    r = s.call('get_number_of_segments')
    ctx.prove('get_number_of_segments', And(r[0] == o['nseg'][v], r[1] == o['nseg'][u]))
    r = s.call('get_capacity')
    ctx.prove('get_capacity is segments times segment length', And(r[0] == o['nseg'][v] * s.L, r[1] == o['nseg'][u] * s.L))
    ctx.prove('the items fit in the capacity', And(s.N(u) <= r[1], s.N(v) <= r[0]))
    r = s.call('get_number_of_mbytes')
    ctx.prove('get_number_of_mbytes is the capacity in bytes / 1e6', And(r[0] * 1000000 == o['nseg'][v] * s.L * s.st['itemsize'], r[1] * 1000000 == o['nseg'][u] * s.L * s.st['itemsize']))
    i, j = ctx.fresh('i'), ctx.fresh('j')
    ctx.prove('get_full_index', And(s.call('get_full_index', i, 'in') == o['current_segment'][v] * s.L + i, s.call('get_full_index', i, 'out') == o['current_segment'][u] * s.L + i))
    r = s.call('get_full_indices', i, j)
    ctx.prove('get_full_indices', And(r[0] == o['current_segment'][v] * s.L + i, r[1] == o['current_segment'][u] * s.L + j))
    ctx.assume(o['current_segment'][u] < o['nseg'][u])
    s.is_view(s.call('get_current_out_segment'), u, o['current_segment'][u], s.L, 'get_current_out_segment is the current segment')
    ctx.reach('end')
    _const(s)
    s.check_inv()
