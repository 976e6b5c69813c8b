"""Discharging of verification conditions: z3 with products abstracted (plus instantiated lemmas), then with true products,
then cvc5."""
import time, itertools
import z3
from val import MULI, MULR

STATS = dict(z3=0.0, cvc5=0.0, queries=0, unknown=0)


_muls = {}       # expression id -> (expression, tuple of product terms)
_lem1, _lem2 = {}, {}


def muls_of(e):
    """Product terms inside e (cached; the cache keeps the expressions alive, so ids stay unique)."""
    k = e.get_id()
    r = _muls.get(k)
    if r is not None:
        return r[1]
    out = {}
    if z3.is_app(e):
        for c in e.children():
            for m in muls_of(c):
                out[m.get_id()] = m
        d = e.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() == 2 and (d.eq(MULI) or d.eq(MULR)):
            out[k] = e
    r = tuple(out.values())
    _muls[k] = (e, r)
    return r


def collect_mul(es):
    out = {}
    for e in es:
        for m in muls_of(e):
            out[m.get_id()] = m
    return list(out.values())


def lemma1(m):
    k = m.get_id()
    if k not in _lem1:
        a, b = m.arg(0), m.arg(1)
        isint = m.decl().eq(MULI)
        L = [z3.Implies(a == 0, m == 0), z3.Implies(b == 0, m == 0), z3.Implies(a == 1, m == b), z3.Implies(b == 1, m == a),
             z3.Implies(z3.And(a > 0, b > 0), m > 0), z3.Implies(z3.And(a < 0, b > 0), m < 0), z3.Implies(z3.And(a > 0, b < 0), m < 0), z3.Implies(z3.And(a < 0, b < 0), m > 0)]
        if a.eq(b):
            L.append(m >= 0)
        if isint:
            L += [z3.Implies(z3.And(a >= 1, b >= 1), z3.And(m >= a, m >= b))]
        else:
            for x, y in ((a, b), (b, a)):
                L += [z3.Implies(z3.And(x > 0, y < 1), m < x), z3.Implies(z3.And(x > 0, y > 1), m > x), z3.Implies(z3.And(x < 0, y < 1), m > x), z3.Implies(z3.And(x < 0, y > 1), m < x)]
        _lem1[k] = z3.And(L)
    return _lem1[k]


def lemma2(m, n):
    k = (m.get_id(), n.get_id())
    if k in _lem2:
        return _lem2[k]
    L = []
    for i in (0, 1):
        for j in (0, 1):
            if m.arg(i).eq(n.arg(j)):
                c, x, y = m.arg(i), m.arg(1 - i), n.arg(1 - j)
                if m.decl().eq(MULI):
                    L += [z3.Implies(z3.And(c > 0, x < y), m + c <= n), z3.Implies(z3.And(c > 0, y < x), n + c <= m), z3.Implies(x + 1 == y, m + c == n), z3.Implies(y + 1 == x, n + c == m),
                          z3.Implies(x == y, m == n)]
                else:
                    L += [z3.Implies(z3.And(c > 0, x < y), m < n), z3.Implies(z3.And(c > 0, y < x), n < m), z3.Implies(z3.And(c < 0, x < y), m > n), z3.Implies(z3.And(c < 0, y < x), n > m), z3.Implies(x == y, m == n)]
    _lem2[k] = z3.And(L) if L else None
    return _lem2[k]


class MulSet:
    """Product terms seen so far; add() returns the lemmas the new ones need."""

    def __init__(self, parent=None):
        self.parent = parent
        self.ids = set()
        self.by = {}

    def has(self, k):
        return k in self.ids or (self.parent is not None and self.parent.has(k))

    def near(self, key):
        r = self.by.get(key, [])
        return r + self.parent.near(key) if self.parent is not None else r

    def any(self):
        return bool(self.ids) or (self.parent is not None and self.parent.any())

    def add(self, es):
        L = []
        for e in es:
            for m in muls_of(e):
                k = m.get_id()
                if self.has(k):
                    continue
                L.append(lemma1(m))
                done = set()
                for a in {m.arg(0).get_id(), m.arg(1).get_id()}:
                    for n in self.near(a):
                        if n.get_id() in done or not n.decl().eq(m.decl()):
                            continue
                        done.add(n.get_id())
                        l = lemma2(m, n)
                        if l is not None:
                            L.append(l)
                self.ids.add(k)
                for a in {m.arg(0).get_id(), m.arg(1).get_id()}:
                    self.by.setdefault(a, []).append(m)
        return L


def lemmas(es):
    return MulSet().add(es)


RPM = 1500      # z3 resource units per millisecond (limits are resource limits, so that results do not depend on the load)


def limit(s, ms):
    s.set('rlimit', int(ms * RPM))
    s.set('timeout', int(ms * 12))


class Inc:
    """Incremental solver of one path: products abstracted, lemmas instantiated."""

    def __init__(self):
        self.s = z3.SimpleSolver()
        self.n = 0
        self.ms = MulSet()
        self.to = None

    def sync(self, pc):
        new = pc[self.n:]
        if new:
            self.s.add(new)
            L = self.ms.add(new)
            if L:
                self.s.add(L)
            self.n = len(pc)

    def query(self, pc, extra, timeout):
        """-> 'unsat' | 'sat' | 'unknown', model, whether products are abstracted"""
        STATS['queries'] += 1
        t0 = time.time()
        try:
            self.sync(pc)
            s = self.s
            if self.to != timeout:
                limit(s, timeout)
                self.to = timeout
            s.push()
            ms = MulSet(self.ms)
            s.add(extra)
            L = ms.add(extra)
            if L:
                s.add(L)
            r = s.check()
            if r == z3.unknown:
                STATS['unknown'] += 1
            m = s.model() if r == z3.sat else None
            s.pop()
            return str(r), m, ms.any()
        finally:
            STATS['z3'] += time.time() - t0


_xi, _yi = z3.Var(0, z3.IntSort()), z3.Var(1, z3.IntSort())
_xr, _yr = z3.Var(0, z3.RealSort()), z3.Var(1, z3.RealSort())


def true_products(e):
    # nested applications: rewrite repeatedly
    for _ in range(6):
        e2 = z3.substitute_funs(e, (MULI, _xi * _yi), (MULR, _xr * _yr))
        if e2.eq(e):
            break
        e = e2
    return e


def find_model(es, timeout):
    """A model of es with true products, or None."""
    STATS['queries'] += 1
    t0 = time.time()
    s = z3.Solver()
    limit(s, timeout)
    s.add([true_products(e) for e in es])
    r = s.check()
    STATS['z3'] += time.time() - t0
    return s.model() if r == z3.sat else None


def check(assumptions, goal=None, timeout=4000, light=False, use_cvc=True):
    """Is assumptions => goal valid?  Returns (status, model text, backend); status 'proved' | 'refuted' | 'unknown'.
    goal None: satisfiability of the assumptions ('proved' = unsatisfiable)."""
    STATS['queries'] += 1
    es = list(assumptions) + ([z3.Not(goal)] if goal is not None else [])
    t0 = time.time()
    try:
        s = z3.Solver()
        limit(s, timeout)
        s.add(es)
        ms = collect_mul(es)
        if ms:
            s.add(lemmas(es))
        r = s.check()
        if r == z3.unsat:
            return 'proved', None, 'z3'
        if not ms:
            if r == z3.sat:
                return 'refuted', s.model(), 'z3'
            if light:
                return 'unknown', None, 'z3'
        elif light:
            return ('refuted' if r == z3.sat else 'unknown'), (s.model() if r == z3.sat else None), 'z3'
        # true products
        es2 = [true_products(e) for e in es]
        s = z3.Solver()
        limit(s, timeout * 2)
        s.add(es2)
        r = s.check()
        if r == z3.unsat:
            return 'proved', None, 'z3-nl'
        if r == z3.sat:
            return 'refuted', s.model(), 'z3-nl'
    finally:
        STATS['z3'] += time.time() - t0
    return cvc(es2, timeout * 2) if use_cvc else ("unknown", None, "z3-nl")


def cvc(es, timeout):
    import cvc5
    t0 = time.time()
    try:
        s = z3.Solver()
        s.add(es)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        slv = cvc5.Solver(tm) if tm else cvc5.Solver()
        slv.setOption('tlimit-per', str(timeout))
        slv.setOption('nl-cov', 'true') if False else None
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
        sm = p.getSymbolManager()
        res = ''
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            res += c.invoke(slv, sm)
        if 'unsat' in res:
            return 'proved', None, 'cvc5'
        if res.strip() == 'sat':
            return 'refuted', None, 'cvc5'
        return 'unknown', None, 'cvc5'
    except Exception as e:     # noqa
        return 'unknown', None, 'cvc5 failed: %s' % str(e)[:200]
    finally:
        STATS['cvc5'] += time.time() - t0
