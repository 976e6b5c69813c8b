"""Path exploration, obligations, loop cutting with inferred invariants (Houdini over template candidates)."""
import time
from fractions import Fraction
import z3
import val
from val import Num, BoolV, Unsupported, atom, lift, zb, And, Not, Implies
import solve


class PathEnd(Exception):
    pass


class PyRaise(Exception):
    """An exception raised by the code under verification."""

    def __init__(self, kind, value=None):
        super().__init__(kind)
        self.kind, self.value = kind, value


class Poison:
    """Value of a local that may be unbound or stale at a loop head."""

    def __init__(self, name):
        self.name = name

    def _no(self, *a, **k):
        raise Unsupported('use of %s, whose value at the loop head is not tracked' % self.name)
    __bool__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __getitem__ = __call__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __truediv__ = __iter__ = __len__ = _no
    __hash__ = object.__hash__


class Shared:
    """State shared by all paths of one verification job."""

    def __init__(self):
        self.dropped = set()
        self.mods = {}          # loop -> set of heap cells
        self.types = {}         # (loop, cell) -> 'int'|'real'|'bool'
        self.changed = False
        self.res = {}           # obligation -> dict
        self.order = []
        self.reached = set()
        self.loops = {}
        self.npaths = 0
        self.only = None        # obligations to be checked (None: all)


class Ctx:
    def __init__(self, shared, prefix, mode, opts):
        self.sh, self.prefix, self.mode, self.opts = shared, prefix, mode, opts
        self.decisions = []
        self.pending = []       # alternatives discovered on this path
        self.pc = []            # path condition (z3)
        self.nfresh = {}
        self.active = []        # active cut loops (ids)
        self.serial = 0
        self.invs = {}
        self.memo = {}
        self.notes = []
        self.unrolls = {}
        self.visits = {}
        self.inc = solve.Inc()
        self.hints = []         # lists of equations: instances tried first when looking for a counterexample
        self.defs = []          # definitions of names, used only when a goal does not follow without them

    # --- symbols
    def fresh(self, name, sort='int'):
        k = self.nfresh.get(name, 0)
        self.nfresh[name] = k + 1
        nm = '%s!%d' % (name, k) if k else name
        if sort == 'int':
            return atom(z3.Int(nm))
        if sort == 'real':
            return atom(z3.Real(nm))
        if sort == 'bool':
            return BoolV(z3.Bool(nm))
        raise ValueError(sort)

    def oid(self):
        self.serial += 1
        return self.serial

    # --- path condition
    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathEnd()
        self.pc.append(zb(c))

    def assume_checked(self, c):
        """Assume, and end the path if it becomes infeasible."""
        self.assume(c)
        if not self.replaying() and self.infeasible():
            raise PathEnd()

    def replaying(self):
        return len(self.decisions) < len(self.prefix)

    def infeasible(self, extra=None):
        r, _, _ = self.inc.query(self.pc, [extra] if extra is not None else [], self.opts.get('feas_timeout', 1500))
        return r == 'unsat'

    def quick(self, goal, timeout):
        """Is goal implied (products abstracted)?  -> (proved, model)"""
        r, m, _ = self.inc.query(self.pc, [z3.Not(goal)], timeout)
        return r == 'unsat', m

    def pick(self, c, a, b):
        """If-then-else whose condition is usually decided by the path (a, b: thunks)."""
        if isinstance(c, bool):
            return a() if c else b()
        if self.quick(zb(c), 1500)[0]:
            return a()
        if self.quick(z3.Not(zb(c)), 1500)[0]:
            return b()
        return val.Ite(c, a(), b())

    def branch(self, c):
        e = z3.simplify(zb(c))
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        e = zb(c)
        k = len(self.decisions)
        if k < len(self.prefix):
            v = self.prefix[k]
            self.decisions.append(v)
            self.pc.append(e if v else z3.Not(e))
            return v
        if self.opts.get('deadline') and time.time() > self.opts['deadline']:
            raise Unsupported('time budget exhausted')
        t = not self.infeasible(e)
        f = not self.infeasible(z3.Not(e))
        if t and f:
            self.pending.append(self.decisions + [False])
            v = True
        elif t or f:
            v = t
        else:
            raise PathEnd()
        self.decisions.append(v)
        self.pc.append(e if v else z3.Not(e))
        return v

    def choose(self, name):
        """Nondeterministic boolean (a configuration choice)."""
        return self.branch(self.fresh(name, 'bool'))

    # --- arithmetic
    def div(self, a, b):
        bl = lift(b)
        c = bl.conc()
        if c is not None:
            if c == 0:
                self.prove('no division by zero', False)
                raise PathEnd()
            r = lift(a) * (Fraction(1) / Fraction(c))
            if isinstance(r, int):
                r = Fraction(r)
            if isinstance(r, Num) and r.i:
                r = Num(r.p, False)
            return r
        key = ('inv', tuple(sorted(bl.p.items())))
        if key not in self.memo:
            self.prove('no division by zero', bl != 0)
            self.memo[key] = self.fresh('inv', 'real')
            self.assume(self.memo[key] * Num(bl.p, False) == 1)
        al = lift(a)
        e = exact(al, bl)
        if e is not None:
            return e
        if al.conc() is not None:
            return al * self.memo[key]
        # a quotient q with q * b == a (and q == a * inverse, used when needed)
        kq = ('quot', frozenset(al.p.items()), key)
        if kq not in self.memo:
            q = self.memo[kq] = self.fresh('quot', 'real')
            self.assume(q * Num(bl.p, False) == al)
            self.defs.append(zb(q == al * self.memo[key]))
        return self.memo[kq]

    def divmod(self, a, b):
        a, b = lift(a), lift(b)
        ca, cb = a.conc(), b.conc()
        if ca is not None and cb is not None:
            return divmod(ca, cb)
        if not (a.i and b.i):
            raise Unsupported('divmod of reals')
        key = ('dm', tuple(sorted(a.p.items())), tuple(sorted(b.p.items())))
        if key not in self.memo:
            self.prove('positive divisor', b > 0)
            q, r = self.fresh('q'), self.fresh('r')
            self.assume(a == q * b + r)
            self.assume(r >= 0)
            self.assume(r < b)
            self.memo[key] = (q, r)
        return self.memo[key]

    NBITS = 4

    def bit(self, w, k):
        c = lift(w).conc()
        if c is not None:
            return BoolV(z3.BoolVal(bool(int(c) >> k & 1)))
        f = z3.Function('bit%d' % k, z3.IntSort(), z3.BoolSort())
        return BoolV(f(lift(w).z()))

    def bitand(self, a, b):
        a, b = lift(a), lift(b)
        if a.conc() is not None:
            a, b = b, a
        c = b.conc()
        if c is None or c < 0:
            raise Unsupported('bit operation on two symbolic words')
        r = 0
        for k in range(int(c).bit_length()):
            if c >> k & 1:
                r = r + val.Ite(self.bit(a, k), 1 << k, 0)
        return r

    def bitor(self, a, b):
        a, b = lift(a), lift(b)
        if a.conc() is not None and b.conc() is not None:
            return int(a.conc()) | int(b.conc())
        if a.conc() is not None:
            a, b = b, a
        c = b.conc()
        if c is None or c < 0:
            raise Unsupported('bit operation on two symbolic words')
        r = self.fresh('word')
        for k in range(max(self.NBITS, int(c).bit_length())):
            self.assume(BoolV(self.bit(r, k).e == (z3.BoolVal(True) if c >> k & 1 else self.bit(a, k).e)))
        return r

    # --- obligations
    def prove(self, name, c, assume=True):
        """Obligation: the path condition implies c."""
        if self.mode == 'prove' and not self.replaying() and (self.sh.only is None or name in self.sh.only):
            r = self.sh.res.get(name)
            if r is None:
                r = self.sh.res[name] = dict(vcs=0, bad=[], unk=[], backends={}, time=0.0)
                self.sh.order.append(name)
            t0 = time.time()
            r['vcs'] += 1
            if len(r['bad']) >= 2:
                be, st, m = 'skipped', 'refuted', None
            elif c is True:
                be, st, m = 'constant', 'proved', None
            else:
                g = zb(c)
                to = self.opts.get('timeout', 5000)
                q, m, prods = self.inc.query(self.pc, [z3.Not(g)], to)
                if q == 'unsat':
                    st, m, be = 'proved', None, 'z3'
                elif q == 'sat' and not prods and not self.defs:
                    st, be = 'refuted', 'z3'
                else:
                    for h in self.hints:
                        m = solve.find_model(self.pc + self.defs + [z3.Not(g)] + h, 2000)
                        if m is not None:
                            st, be = 'refuted', 'z3 (instance)'
                            break
                    else:
                        st, m, be = solve.check(self.pc + self.defs, g, timeout=to)
            r['time'] += time.time() - t0
            r['backends'][be] = r['backends'].get(be, 0) + 1
            if be == 'skipped':
                pass
            elif st == 'refuted':
                # is the path itself feasible?
                r['bad'].append(dict(model=self.show(m), path=''.join('T' if d else 'F' for d in self.decisions), goal=str(c)[:600], notes=list(self.notes[-12:])))
            elif st == 'unknown':
                r['unk'].append(str(c)[:300])
        if assume:
            self.assume(c)

    def show(self, m):
        if m is None:
            return None
        try:
            return {str(d): str(m[d])[:60] for d in list(m.decls())[:60] if '!' not in str(d) or True}
        except Exception:      # noqa
            return str(m)[:1000]

    def reach(self, name):
        """Vacuity guard: this point must be reached by a feasible path (checked at the end of the job)."""
        if name in self.sh.reached or self.mode != 'prove':
            return
        st, _, _ = solve.check(self.pc + self.defs, None, timeout=3000, use_cvc=False)
        if st == 'refuted' or st == 'unknown':
            self.sh.reached.add(name if st == 'refuted' else name + ' (unknown)')
            if st == 'unknown':
                self.sh.reached.add(name)

    def note(self, t):
        self.notes.append(t)

    # --- heap cells changed inside cut loops
    def wrote(self, cell, value):
        for lid, key, born in self.active:
            if cell[0] > born:
                continue           # made inside this loop's body: not visible at its head
            s = self.sh.mods.setdefault(key, {})
            k = kind_of(value)
            if cell not in s:
                s[cell] = k
                self.sh.changed = True
            elif s[cell] != k:
                j = join('obj' if s[cell] == 'none' else s[cell], k) if s[cell] != 'none' else k
                if j != s[cell]:
                    s[cell] = j
                    self.sh.changed = True


def exact(a, b):
    """a / b when b is a single monomial that divides every monomial of a (b != 0 is proved by the caller)."""
    if len(b.p) != 1:
        return None
    (mb, cb), = b.p.items()
    out = {}
    for m, c in a.p.items():
        rest = list(m)
        for k in mb:
            if k not in rest:
                return None
            rest.remove(k)
        out[tuple(rest)] = Fraction(c) / Fraction(cb)
    return Num(out, False).norm()


def kind_of(v):
    if isinstance(v, (bool, BoolV)):
        return 'bool'
    if isinstance(v, Num):
        return 'int' if v.i else 'real'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, (Fraction, float)):
        return 'real'
    if v is None:
        return 'none'
    return 'obj'


def join(a, b):
    if a == b:
        return a
    if {a, b} <= {'int', 'real'}:
        return 'real'
    if {a, b} <= {'int', 'bool'}:
        return 'int'
    return 'obj'


def explore(run, shared, mode, opts):
    """Runs run(ctx) over all feasible paths."""
    stack = [[]]
    n = 0
    while stack:
        pre = stack.pop()
        ctx = Ctx(shared, pre, mode, opts)
        val.CTX[0] = ctx
        n += 1
        if n > opts.get('max_paths', 6000):
            raise Unsupported('more than %d paths' % opts.get('max_paths', 6000))
        if opts.get('deadline') and time.time() > opts['deadline']:
            raise Unsupported('time budget exhausted')
        try:
            run(ctx)
        except PathEnd:
            pass
        stack.extend(ctx.pending)
    shared.npaths = n
    return n


def verify(run, opts=None):
    """Infers loop invariants to a fixpoint, then discharges every obligation.  Returns Shared."""
    opts = dict(opts or {})
    sh = Shared()
    rounds = 0
    u0 = solve.STATS['unknown']
    while True:
        sh.changed = False
        explore(run, sh, 'infer', opts)
        rounds += 1
        if not sh.changed:
            break
        if rounds > 40:
            raise Unsupported('invariant inference does not converge')
    sh.rounds = rounds
    sh.unknown = solve.STATS['unknown'] - u0
    try:
        explore(run, sh, 'prove', opts)
    except Unsupported as e:
        e.sh = sh
        raise
    if sh.changed:
        raise Unsupported('invariants changed in the proving round')
    return sh
