"""Interpreter for the Python source of /repo over symbolic values.  Functions are taken from /repo's current AST on every run;
calls are inlined unless the callee is under a contract (a stub registered by the job)."""
import ast, os, builtins, operator
from fractions import Fraction
import z3
import val
from val import Num, BoolV, Unsupported, lift, zb, And, Or, Not
from ctx import PathEnd, PyRaise, Poison, kind_of

REPO = os.environ.get('VERIF_REPO', '/repo')


FT = type(lambda: 0)      # candidates may be thunks


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class Model:
    """Base of the contract stubs: cells hold ghost state that loops may change."""

    def __init__(self, ctx, **cells):
        self.__dict__['ctx'] = ctx
        self.__dict__['oid'] = ctx.oid()
        self.__dict__['cells'] = {}
        ctx.memo.setdefault('heap', {})[self.oid] = self
        for k, v in cells.items():
            self.cells[k] = v

    def get(self, k):
        return self.cells[k]

    def put(self, k, v):
        self.cells[k] = v
        self.ctx.wrote((self.oid, k), v)

    def __bool__(self):
        return True

    __hash__ = object.__hash__


class Obj(Model):
    """Instance of a class of /repo (or a plain record): attributes are cells."""

    def __init__(self, ctx, cls=None, **attrs):
        super().__init__(ctx, **attrs)
        self.__dict__['cls'] = cls


class RepoClass:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.body = {}
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                self.body[n.name] = n
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.body[n.targets[0].id] = n.value
        self.consts = {}

    def bases(self):
        for b in self.node.bases:
            try:
                v = self.mod.lookup(b.id) if isinstance(b, ast.Name) else None
            except (Unsupported, KeyError):
                v = None
            if isinstance(v, RepoClass):
                yield v

    def find(self, name):
        if name in self.body:
            return self, self.body[name]
        for b in self.bases():
            r = b.find(name)
            if r:
                return r
        return None


class Func:
    def __init__(self, mod, node, cls=None, closure=None, static=False):
        self.mod, self.node, self.cls, self.closure, self.static = mod, node, cls, closure, static
        self.name = getattr(node, 'name', '<lambda>')

    def qual(self):
        return (self.cls.name + '.' if self.cls else '') + self.name


class Bound:
    def __init__(self, obj, fn):
        self.obj, self.fn = obj, fn


class Module:
    cache = {}

    def __init__(self, path, stubs, srctext=None):
        self.path = path
        self.name = os.path.basename(path)[:-3]
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(srctext if srctext is not None else open(path).read(), path)
        self.stubs = stubs
        self.defs = {}
        self.vals = {}
        for n in self.tree.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.defs[n.name] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.defs[a.asname or a.name.split('.')[0]] = ('import', a.name)
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.defs[a.asname or a.name] = ('from', n.module, a.name)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.defs[n.targets[0].id] = n.value

    @classmethod
    def load(cls, fname, stubs):
        key = (fname, id(stubs))
        if key not in cls.cache:
            cls.cache[key] = cls(os.path.join(REPO, fname), stubs)
        return cls.cache[key]

    def lookup(self, name):
        if name in self.vals:
            return self.vals[name]
        if name not in self.defs:
            raise KeyError(name)
        d = self.defs[name]
        if isinstance(d, ast.ClassDef):
            v = RepoClass(self, d)
        elif isinstance(d, ast.FunctionDef):
            v = Func(self, d)
        elif isinstance(d, tuple) and d[0] == 'import':
            if d[1] in self.stubs:
                v = self.stubs[d[1]]
            elif os.path.exists(os.path.join(REPO, d[1] + '.py')):
                v = Module.load(d[1] + '.py', self.stubs)
            else:
                v = Missing(d[1])
        elif isinstance(d, tuple):
            if d[1] in self.stubs:
                v = getattr(self.stubs[d[1]], d[2])
            elif os.path.exists(os.path.join(REPO, d[1] + '.py')):
                v = Module.load(d[1] + '.py', self.stubs).lookup(d[2])
            else:
                v = Missing(d[1] + '.' + d[2])
        else:
            v = Interp(self.stubs, {}).eval(d, Env(self, {}))
        self.vals[name] = v
        return v


class Missing:
    def __init__(self, name):
        self.name = name

    def __getattr__(self, k):
        raise Unsupported('%s.%s is not modelled' % (self.name, k))

    def __call__(self, *a, **k):
        raise Unsupported('%s() is not modelled' % self.name)


class Env:
    def __init__(self, mod, vars, closure=None, fn=None):
        self.mod, self.vars, self.closure, self.fn = mod, vars, closure, fn
        self.globals = set()


_asg = {}


def assigned_names(nodes):
    k = tuple(id(n) for n in nodes)
    if k not in _asg:
        _asg[k] = (nodes, assigned_names_(nodes))
    return list(_asg[k][1])


def assigned_names_(nodes):
    out = []

    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in out:
                out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)
    for n in nodes:
        for m in ast.walk(n):
            if isinstance(m, ast.Assign):
                for t in m.targets:
                    tgt(t)
            elif isinstance(m, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
                tgt(m.target)
            elif isinstance(m, ast.For):
                tgt(m.target)
            elif isinstance(m, ast.With):
                for i in m.items:
                    if i.optional_vars is not None:
                        tgt(i.optional_vars)
    return out


class SymRange:
    """range() with a symbolic bound."""

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


HOOKS = ('is_', 'truth', 'iop', 'cmp', 'contains', 'getitem', 'setitem', 'items_', 'sym_iter', 'map_comp', 'len_', 'isinstance_', 'hasattr_', 'sum_', 'type_', 'set_attr', 'havoc', 'same', 'matmul', 'kind', 'call', 'missing', 'attr', 'fields_', 'item', 'list_', 'dict_', 'map_dict')


class Opaque:
    """A value the code only formats or prints."""

    def __init__(self, t='<opaque>'):
        self.t = t

    def __add__(self, o): return self
    __radd__ = __mod__ = __rmod__ = __add__
    def __str__(self): return self.t

    def __eq__(self, o):
        if self is o:
            return True
        if o is None:
            return False
        raise Unsupported('comparison with an untracked value (%s)' % self.t)

    def __ne__(self, o):
        return not self == o
    __hash__ = object.__hash__
    def __getattr__(self, k):
        if k.startswith('__') or k in HOOKS:
            raise AttributeError(k)
        return Opaque(self.t + '.' + k)
    def __call__(self, *a, **k): return Opaque(self.t + '()')
    def __getitem__(self, k): return Opaque(self.t + '[]')


class SStr:
    """Text with symbolic numbers in it."""

    def __init__(self, parts):
        self.parts = []
        for p in parts:
            for q in (p.parts if isinstance(p, SStr) else [p]):
                if isinstance(q, int) and not isinstance(q, bool):
                    q = str(q)
                if isinstance(q, str) and self.parts and isinstance(self.parts[-1], str):
                    self.parts[-1] += q
                elif q != '' or not isinstance(q, str):
                    self.parts.append(q)

    def __add__(self, o): return SStr([self, o]) if isinstance(o, (str, SStr)) else Opaque('text')
    def __radd__(self, o): return SStr([o, self]) if isinstance(o, (str, SStr)) else Opaque('text')

    def __eq__(self, o):
        raise Unsupported('comparison of symbolic text')
    __hash__ = object.__hash__


def text(parts):
    """str, SStr or Opaque"""
    if all(isinstance(p, (str, int)) and not isinstance(p, bool) for p in parts):
        return ''.join(str(p) for p in parts)
    if all(isinstance(p, (str, int, SStr)) or isinstance(p, Num) and p.i for p in parts):
        return SStr(parts)
    return Opaque('text')


def percent(f, a):
    a = list(a) if isinstance(a, tuple) else [a]
    import re
    parts = re.split(r'(%[ds%])', f)
    out = []
    for p in parts:
        if p == '%%':
            out.append('%')
        elif p in ('%d', '%s'):
            if not a:
                return Opaque('text')
            out.append(a.pop(0))
        elif '%' in p:
            return Opaque('text')
        else:
            out.append(p)
    if a or any(not isinstance(x, (str, int, SStr, Num)) for x in out):
        return Opaque('text')
    return text(out)


BINOP = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: None, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
         ast.Pow: operator.pow, ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.MatMult: operator.matmul}


def div(a, b):
    if isinstance(a, (int, Fraction, Num, BoolV)) and isinstance(b, (int, Fraction, Num, BoolV)):
        return val.CTX[0].div(a, b)
    return a / b


class Interp:
    def __init__(self, stubs, contracts, inv=None):
        self.stubs, self.contracts = stubs, contracts
        self.inv = inv            # candidate generator: inv(interp, ctx, loopid, env, entry) -> [(name, BoolV)]
        self.loop_ids = {}
        self.depth = 0
        self.trace = []
        self.statics = None       # Model: class attributes that change, keys 'Class.attr'

    @property
    def ctx(self):
        return val.CTX[0]

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Bound):
            return self.call_func(f.fn, [f.obj] + list(args), kw)
        if isinstance(f, Func):
            return self.call_func(f, list(args), kw)
        if isinstance(f, RepoClass):
            return self.construct(f, args, kw)
        if isinstance(f, Model) and hasattr(f, 'call'):
            return f.call(*args, **kw)
        if callable(f):
            slf = getattr(f, '__self__', None)
            if isinstance(slf, (list, dict, set)) and getattr(f, '__name__', '') in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'setdefault', 'add', 'sort', 'reverse', 'popitem', 'discard'):
                self.may_change(slf)
            try:
                return f(*args, **kw)
            except (IndexError, KeyError, ZeroDivisionError) as ex:
                raise PyRaise(type(ex).__name__, str(ex))
            except ValueError as ex:
                if isinstance(slf, (list, tuple, str)):
                    raise PyRaise('ValueError', str(ex))
                raise
        raise Unsupported('call of %r' % (f,))

    def construct(self, cls, args, kw):
        key = cls.name
        if key in self.contracts:
            return self.contracts[key](self, *args, **kw)
        o = Obj(self.ctx, cls)
        r = cls.find('__init__')
        if r:
            self.call_func(Func(r[0].mod, r[1], r[0]), [o] + list(args), kw)
        o.__dict__['complete'] = True
        return o

    def call_func(self, fn, args, kw):
        q = fn.qual()
        c = self.contracts.get(q)
        if c is not None:
            return c(self, *args, **kw)
        return self.run_func(fn, args, kw)

    def run_func(self, fn, args, kw):
        """Executes the real body."""
        self.depth += 1
        if self.depth > 40:
            raise Unsupported('recursion')
        try:
            a = fn.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            vars = {}
            if len(args) > len(names) and not a.vararg:
                raise PyRaise('TypeError', 'too many arguments to ' + fn.name)
            for n, v in zip(names, args):
                vars[n] = v
            if a.vararg:
                vars[a.vararg.arg] = tuple(args[len(names):])
            kwonly = [x.arg for x in a.kwonlyargs]
            extra = {}
            for k, v in kw.items():
                if k in names or k in kwonly:
                    if k in vars:
                        raise PyRaise('TypeError', 'argument given twice')
                    vars[k] = v
                elif a.kwarg:
                    extra[k] = v
                else:
                    raise PyRaise('TypeError', 'unexpected keyword ' + k)
            if a.kwarg:
                vars[a.kwarg.arg] = extra
            env = Env(fn.mod, vars, fn.closure, fn)
            for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
                if n not in vars:
                    vars[n] = self.eval(d, Env(fn.mod, {}, fn.closure, fn))
            for n, d in zip(kwonly, a.kw_defaults):
                if n not in vars and d is not None:
                    vars[n] = self.eval(d, Env(fn.mod, {}, fn.closure, fn))
            for n in names:
                if n not in vars:
                    raise PyRaise('TypeError', 'missing argument %s of %s' % (n, fn.name))
            if isinstance(fn.node, ast.Lambda):
                return self.eval(fn.node.body, env)
            try:
                self.block(fn.node.body, env)
            except ReturnX as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    # ------------------------------------------------------------------ statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        m(s, env)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Global(self, s, env):
        env.globals |= set(s.names)

    def s_Nonlocal(self, s, env):
        raise Unsupported('nonlocal')

    def s_Import(self, s, env):
        for a in s.names:
            env.vars[a.asname or a.name.split('.')[0]] = self.stubs.get(a.name) or Missing(a.name)

    def s_ImportFrom(self, s, env):
        for a in s.names:
            if s.module in self.stubs:
                env.vars[a.asname or a.name] = getattr(self.stubs[s.module], a.name)
            elif os.path.exists(os.path.join(REPO, s.module + '.py')):
                env.vars[a.asname or a.name] = Module.load(s.module + '.py', self.stubs).lookup(a.name)
            else:
                env.vars[a.asname or a.name] = Missing(a.name)

    def s_Return(self, s, env):
        raise ReturnX(self.eval(s.value, env) if s.value is not None else None)

    def s_Break(self, s, env):
        raise BreakX()

    def s_Continue(self, s, env):
        raise ContinueX()

    def s_FunctionDef(self, s, env):
        env.vars[s.name] = Func(env.mod, s, None, env)

    def s_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), env)
            v = self.eval(s.value, env)
            if hasattr(old, 'iop'):
                env.vars[t.id] = old.iop(type(s.op).__name__, v)
            elif isinstance(old, list) and isinstance(s.op, ast.Add):
                old.extend(self.iterate(v))
            else:
                self.assign(t, self.binop(s.op, old, v), env)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.index(t.slice, env)
            old = self.getitem(o, k)
            v = self.eval(s.value, env)
            if hasattr(old, 'iop'):
                r = old.iop(type(s.op).__name__, v)
                self.setitem(o, k, r)
            else:
                self.setitem(o, k, self.binop(s.op, old, v))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.getattr(o, t.attr)
            v = self.eval(s.value, env)
            if hasattr(old, 'iop'):
                self.setattr(o, t.attr, old.iop(type(s.op).__name__, v))
            else:
                self.setattr(o, t.attr, self.binop(s.op, old, v))
        else:
            raise Unsupported('augmented assignment target')

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in env.globals:
                raise Unsupported('assignment to a global')
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iterate(v))
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported('starred assignment')
            if len(vs) != len(t.elts):
                raise PyRaise('ValueError', 'unpack %d into %d' % (len(vs), len(t.elts)))
            for e, x in zip(t.elts, vs):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.index(t.slice, env), v)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            else:
                raise Unsupported('del')

    def s_If(self, s, env):
        if self.truth(self.eval(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def s_Assert(self, s, env):
        c = self.eval(s.test, env)
        self.assert_hook(c, s, env)

    def assert_hook(self, c, s, env):
        self.ctx.prove('assertions of the code hold', c if isinstance(c, (bool, BoolV)) else self.truth(c))

    def s_Raise(self, s, env):
        if s.exc is None:
            raise PyRaise('reraise')
        v = self.eval(s.exc, env)
        raise PyRaise(getattr(v, 'kind', None) or getattr(v, '__name__', None) or type(v).__name__, v)

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    names = []
                    if h.type is None:
                        names = None
                    else:
                        for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                            names.append(x.id if isinstance(x, ast.Name) else x.attr)
                    if names is None or e.kind in names or 'Exception' in names:
                        if h.name:
                            env.vars[h.name] = e.value
                        self.block(h.body, env)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            if s.finalbody:
                self.block(s.finalbody, env)

    def s_With(self, s, env):
        for i in s.items:
            v = self.eval(i.context_expr, env)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, env)
        self.block(s.body, env)

    # ------------------------------------------------------------------ loops
    def loop_id(self, s, env):
        if id(s) not in self.loop_ids:
            fn = env.fn.qual() if env.fn else '?'
            k = 0
            if env.fn is not None:
                for n in ast.walk(env.fn.node):
                    if isinstance(n, (ast.While, ast.For)):
                        if n is s:
                            break
                        k += 1
            self.loop_ids[id(s)] = '%s#%d' % (fn, k)
        return self.loop_ids[id(s)]

    def s_While(self, s, env):
        lid = self.loop_id(s, env)
        const_true = isinstance(s.test, ast.Constant) and bool(s.test.value)
        n = 0
        while True:
            c = True if const_true else self.eval(s.test, env)
            symbolic = isinstance(c, (BoolV, Num)) and not self.concrete(c)
            if (symbolic or const_true) and not self.bounded(lid):
                return self.cut(s, env, lid, lambda: True if const_true else self.eval(s.test, env), None)
            n += 1
            if n > self.limit(lid):
                raise PathEnd() if self.bounded(lid) else Unsupported('loop %s: more than %d concrete iterations' % (lid, n))
            if not self.truth(c):
                self.block(s.orelse, env)
                return
            try:
                self.block(s.body, env)
            except ContinueX:
                pass
            except BreakX:
                return

    def bounded(self, lid):
        return self.ctx.opts.get('unroll')

    def limit(self, lid):
        return self.ctx.opts.get('unroll') or 400

    def concrete(self, c):
        e = z3.simplify(zb(c))
        return z3.is_true(e) or z3.is_false(e)

    def s_For(self, s, env):
        it = self.eval(s.iter, env)
        lid = self.loop_id(s, env)
        if isinstance(it, SymRange) or hasattr(it, 'sym_iter'):
            rng = it if isinstance(it, SymRange) else it.sym_iter(self)
            if self.bounded(lid):
                return self.unrolled_range(s, env, rng, lid)
            return self.cut_range(s, env, lid, rng)
        for v in list(self.iterate(it)):
            self.assign(s.target, v, env)
            try:
                self.block(s.body, env)
            except ContinueX:
                continue
            except BreakX:
                return
        self.block(s.orelse, env)

    def unrolled_range(self, s, env, rng, lid):
        i = rng.lo
        for _ in range(self.limit(lid)):
            if not self.truth(i < rng.hi):
                self.block(s.orelse, env)
                return
            self.assign(s.target, rng.item(i) if hasattr(rng, 'item') else i, env)
            try:
                self.block(s.body, env)
            except ContinueX:
                pass
            except BreakX:
                return
            i = i + rng.step
        raise PathEnd()

    def cut_range(self, s, env, lid, rng):
        """for v in range(lo, hi): a hidden counter."""
        if rng.step != 1:
            raise Unsupported('range step')
        hid = '%' + lid
        env.vars[hid] = rng.lo
        hi = rng.hi

        def cond():
            return env.vars[hid] < hi

        def pre():
            i = env.vars[hid]
            self.assign(s.target, rng.item(i) if hasattr(rng, 'item') else i, env)
            env.vars[hid] = i + 1
        lo = rng.lo
        if not self.truth(lo < hi):
            self.block(s.orelse, env)
            env.vars.pop(hid, None)
            return
        extra = lambda: [('counter in range', And(env.vars[hid] >= lo, env.vars[hid] <= hi))]      # noqa
        self.cut(s, env, lid, cond, pre, hidden=[hid], extra=extra)
        env.vars.pop(hid, None)

    def heap_cells(self, env):
        """oid -> Model/Arr reachable (all created objects are registered)."""
        return self.ctx.memo.setdefault('heap', {})

    def cut(self, s, env, lid, cond, pre, hidden=(), extra=None):
        ctx = self.ctx
        sh = ctx.sh
        names = [n for n in assigned_names(s.body) if True] + list(hidden)
        if isinstance(s, ast.For):
            for n in assigned_names([s]):
                if n not in names:
                    names.append(n)
        for n in assigned_names([s.test]) if isinstance(s, ast.While) else []:
            if n not in names:
                names.append(n)
        sh.loops[lid] = names
        entry = dict(env.vars)
        ctx.visits[lid] = ctx.visits.get(lid, 0) + 1
        if ctx.visits[lid] > 6:
            raise Unsupported('loop %s entered too often on one path' % lid)
        vid = lid if ctx.visits[lid] == 1 else '%s (entry %d)' % (lid, ctx.visits[lid])
        heap = ctx.memo.get('heap', {})
        key = (lid, tuple(ctx.decisions))
        mods = dict(sh.mods.get(key, {}))
        born = ctx.serial
        entry_heap = {}
        for (oid, k), kind in mods.items():
            entry_heap[(oid, k)] = heap[oid].cells.get(k)

        def cands():
            out = list(extra()) if extra else []
            for n in names:
                v, e = env.vars.get(n), entry.get(n)
                if isinstance(v, (Num, int, Fraction)) and not isinstance(v, bool) and isinstance(e, (Num, int, Fraction)) and not isinstance(e, bool):
                    out.append(('%s unchanged' % n, v == e))
                    out.append(('%s >= 0' % n, v >= 0))
                elif isinstance(v, (bool, BoolV)) and isinstance(e, (bool, BoolV)):
                    out.append(('%s unchanged' % n, BoolV(zb(v) == zb(e))))
                elif isinstance(v, Model) and hasattr(v, 'same'):
                    out.append(('%s same object' % n, v.same(e)))
            for (oid, k) in mods:
                if True:
                    v, e = heap[oid].cells.get(k), entry_heap[(oid, k)]
                    if isinstance(v, (Num, int, Fraction)) and isinstance(e, (Num, int, Fraction)) and not isinstance(v, bool):
                        out.append(('cell %s.%s unchanged' % (oid, k), v == e))
                        out.append(('cell %s.%s >= 0' % (oid, k), v >= 0))
            if isinstance(s, ast.While):
                # counters against the other integers in scope
                loc = [(n, v) for n, v in env.vars.items() if not n.startswith('%') and isinstance(v, (Num, int)) and not isinstance(v, bool) and lift(v).i]
                for n in names:
                    v, e = env.vars.get(n), entry.get(n)
                    if not (isinstance(v, (Num, int)) and not isinstance(v, bool) and lift(v).i and isinstance(e, (Num, int))):
                        continue
                    out.append(('%s >= -1' % n, v >= -1))
                    for m, w in loc:
                        if m not in names and isinstance(w, Num):
                            out.append(('%s <= %s' % (n, m), v <= w))
                            out.append(('%s < %s' % (n, m), v < w))
            if self.inv is not None:
                out += self.inv(self, ctx, lid, env, entry)
            return [(n, c() if type(c) is FT else c) for n, c in out if (vid, n) not in sh.dropped]

        known = set()

        def check_cands(when):
            cs = cands()
            if when == 'holds on entry':
                known.update(n for n, _ in cs)
            else:
                have = {n for n, _ in cs}
                for n in known:
                    if n not in have and (vid, n) not in sh.dropped:
                        sh.dropped.add((vid, n))
                        sh.changed = True
                cs = [(n, c) for n, c in cs if n in known]
            if ctx.replaying():
                return
            cs = [(n, c) for n, c in cs if c is not True]
            if ctx.mode == 'infer':
                while cs:
                    allc = And(*[c for _, c in cs])
                    if allc is False:
                        st, m = 'refuted', None
                    else:
                        ok, m = ctx.quick(zb(allc), ctx.opts.get('inv_timeout', 4000))
                        st = 'proved' if ok else 'refuted'
                    if st == 'proved':
                        return
                    bad = [n for n, c in cs if c is False]
                    if not bad and m is not None:
                        bad = [n for n, c in cs if z3.is_false(m.eval(zb(c), model_completion=True))]
                    if not bad:
                        for n, c in cs:
                            if not ctx.quick(zb(c), ctx.opts.get('inv_timeout', 4000))[0]:
                                bad.append(n)
                        for n in bad:
                            sh.dropped.add((vid, n))
                            sh.changed = True
                        return
                    for n in bad:
                        sh.dropped.add((vid, n))
                        sh.changed = True
                    bad = set(bad)
                    cs = [(n, c) for n, c in cs if n not in bad]
            else:
                for n, c in cs:
                    ctx.prove('loop invariant %s: %s (%s)' % (lid, n, when), c, assume=False)
        check_cands('holds on entry')
        # havoc
        for n in names:
            e = entry.get(n, None) if n in entry else None
            kinds = sh.types.get((lid, n))
            k0 = kind_of(e) if n in entry else 'none'
            k = kinds or k0
            if n not in entry or isinstance(e, Poison) or (e is None and k != 'none'):
                env.vars[n] = Poison(n)
                continue
            if e is None:
                continue
            env.vars[n] = self.havoc_value('%s@%s' % (n.strip('%'), lid), k, e)
        for (oid, k), kind in mods.items():
            o = heap[oid]
            v = self.havoc_value('h%d.%s@%s' % (oid, k, lid), join_kind(kind, kind_of(entry_heap[(oid, k)])), entry_heap[(oid, k)])
            o.put(k, v)
        for n, c in cands():
            if n in known:
                ctx.assume(c)
        if not ctx.replaying() and ctx.infeasible():
            if ctx.mode == 'prove':
                ctx.prove('loop invariant %s is satisfiable' % lid, False)
            raise PathEnd()
        me = (lid, key, born)
        ctx.active.append(me)
        c = cond()
        if self.truth(c):
            if pre:
                pre()
            ctx.sh.reached.add('body of loop ' + lid)
            try:
                try:
                    self.block(s.body, env)
                except ContinueX:
                    pass
            except BreakX:
                ctx.active.remove(me)
                return
            # types of the locals at the end of the body
            for n in names:
                if n in env.vars:
                    k1 = kind_of(env.vars[n])
                    k0 = sh.types.get((lid, n)) or (kind_of(entry[n]) if n in entry else 'none')
                    j = join_kind(k0, k1)
                    if j != k0 or (lid, n) not in sh.types:
                        if sh.types.get((lid, n)) != j:
                            sh.types[(lid, n)] = j
                            if j != (kind_of(entry[n]) if n in entry else 'none'):
                                sh.changed = True
            check_cands('is kept')
            raise PathEnd()
        ctx.active.remove(me)
        ctx.sh.reached.add('exit of loop ' + lid)
        self.block(s.orelse, env)

    def havoc_value(self, name, kind, entry):
        if kind in ('int', 'real', 'bool'):
            return self.ctx.fresh(name, kind)
        if hasattr(entry, 'havoc'):
            return entry.havoc(self.ctx, name)
        return Poison(name)

    # ------------------------------------------------------------------ expressions
    def truth(self, v):
        if isinstance(v, (bool, BoolV)):
            return bool(v)
        if isinstance(v, Num):
            return bool(v != 0)
        if isinstance(v, (Func, Bound, RepoClass)):
            return True
        if hasattr(v, 'truth'):
            return bool(v.truth())
        return bool(v)

    def eval(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        if isinstance(e.value, float):
            return Fraction(repr(e.value)) if 'e' not in repr(e.value) and 'inf' not in repr(e.value) else Fraction(e.value)
        return e.value

    def e_Name(self, e, env):
        n = e.id
        x = env
        while x is not None:
            if n in x.vars:
                v = x.vars[n]
                return v
            x = x.closure
        try:
            return env.mod.lookup(n)
        except KeyError:
            pass
        if n == '__file__':
            return 'file'
        if n == '__name__':
            return env.mod.name
        if n in self.BUILTINS:
            b = self.BUILTINS[n]
            return b.__get__(self) if hasattr(b, '__get__') else b
        if n in ('RuntimeError', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'AssertionError', 'Exception', 'NotImplementedError', 'SystemExit', 'AttributeError'):
            return ExcType(n)
        raise PyRaise('NameError', n)

    def e_Tuple(self, e, env):
        return tuple(self.eval(x, env) for x in e.elts)

    def born(self, c):
        """Registers a container made by the code; a cut loop may only change containers made in its own body."""
        self.ctx.memo.setdefault('born', {})[id(c)] = (c, self.ctx.oid())
        return c

    def may_change(self, c):
        if not self.ctx.active:
            return
        b = self.ctx.memo.get('born', {}).get(id(c))
        if b is None or b[1] <= self.ctx.active[-1][2]:
            raise Unsupported('a list or dictionary from outside a cut loop is changed inside it')

    empty_list = None       # model of lists that start empty (set by a contract module)

    def e_List(self, e, env):
        if not e.elts and self.empty_list is not None:
            return self.empty_list()
        return self.born([self.eval(x, env) for x in e.elts])

    def e_Set(self, e, env):
        return set(self.eval(x, env) for x in e.elts)

    empty_dict = None       # model of dictionaries that start empty (set by a contract module)

    def e_Dict(self, e, env):
        if not e.keys and self.empty_dict is not None:
            return self.empty_dict()
        return self.born({self.eval(k, env): self.eval(v, env) for k, v in zip(e.keys, e.values)})

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            elif v.format_spec is not None or v.conversion not in (-1, 115):
                return Opaque('fstring')
            else:
                x = self.eval(v.value, env)
                parts.append(self.b_str(x) if not isinstance(x, Opaque) else x)
        return text(parts)

    def e_Lambda(self, e, env):
        return Func(env.mod, e, None, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_BoolOp(self, e, env):
        v = None
        for x in e.values:
            v = self.eval(x, env)
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not isinstance(v, BoolV) else False
            if isinstance(e.op, ast.Or) and t:
                return v if not isinstance(v, BoolV) else True
        return v if not isinstance(v, BoolV) else self.truth(v)

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, BoolV):
                return Not(v)
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return +v
        if isinstance(e.op, ast.Invert):
            return ~v
        raise Unsupported('unary')

    def binop(self, op, a, b):
        for x in (a, b):
            if isinstance(x, Poison):
                raise Unsupported('use of %s' % x.name)
        if isinstance(op, ast.Div):
            return div(a, b)
        if isinstance(op, ast.Mod) and isinstance(a, (str, Opaque, SStr)):
            return percent(a, b) if isinstance(a, str) else Opaque('text')
        if isinstance(op, ast.Add) and (isinstance(a, Opaque) or isinstance(b, Opaque)):
            return Opaque('text')
        if isinstance(op, ast.MatMult) and hasattr(a, 'matmul'):
            return a.matmul(b)
        if isinstance(a, float):
            a = Fraction(a)
        if isinstance(b, float):
            b = Fraction(b)
        try:
            return BINOP[type(op)](a, b)
        except TypeError as ex:
            if isinstance(a, (Num, BoolV)) or isinstance(b, (Num, BoolV)) or isinstance(a, Model) or isinstance(b, Model):
                raise Unsupported('operator %s: %s' % (type(op).__name__, ex))
            raise PyRaise('TypeError', str(ex))

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.eval(e.left, env), self.eval(e.right, env))

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            c = self.compare(op, left, right)
            if len(e.ops) == 1:
                return c
            if not self.truth(c):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        for x in (a, b):
            if isinstance(x, Poison):
                raise Unsupported('use of %s' % x.name)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_same(a, b)
            if isinstance(op, ast.IsNot):
                r = Not(r)
            return r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return Not(r) if isinstance(op, ast.NotIn) else r
        f = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and type(a) is type(b) and isinstance(op, (ast.Eq, ast.NotEq)):
            r = len(a) == len(b) and And(*[self.compare(ast.Eq(), x, y) for x, y in zip(a, b)])
            return Not(r) if isinstance(op, ast.NotEq) else r
        if hasattr(a, 'cmp'):
            return a.cmp(type(op).__name__, b)
        try:
            return f(a, b)
        except TypeError as ex:
            raise PyRaise('TypeError', str(ex))

    def is_same(self, a, b):
        if hasattr(a, 'is_'):
            return a.is_(b)
        if hasattr(b, 'is_'):
            return b.is_(a)
        if isinstance(a, BoolV) and isinstance(b, bool):
            return a if b else Not(a)
        if isinstance(b, BoolV) and isinstance(a, bool):
            return b if a else Not(b)
        if isinstance(a, BoolV) or isinstance(b, BoolV):
            return False if (a is None or b is None) else Opaque
        if isinstance(a, (int, str, Fraction)) and isinstance(b, (int, str, Fraction)):
            return type(a) is type(b) and a == b
        return a is b

    def contains(self, c, x):
        if hasattr(c, 'contains'):
            return c.contains(x)
        if isinstance(c, dict):
            if isinstance(x, Num):
                return Or(*[x == k for k in c.keys()])
            return x in c
        if isinstance(c, str):
            return x in c
        r = False
        for y in self.iterate(c):
            q = self.compare(ast.Eq(), x, y)
            r = Or(r, q) if not (isinstance(r, bool) and isinstance(q, bool)) else (r or q)
        return r

    def e_IfExp(self, e, env):
        return self.eval(e.body, env) if self.truth(self.eval(e.test, env)) else self.eval(e.orelse, env)

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def getattr(self, o, k):
        if isinstance(o, Poison):
            raise Unsupported('use of ' + o.name)
        if isinstance(o, SuperObj):
            return o.find(k)
        if isinstance(o, Obj):
            if k in o.cells:
                return o.cells[k]
            if k == '__class__':
                return o.cls if o.cls is not None else Opaque('class')
            if o.cls is not None:
                r = o.cls.find(k)
                if r:
                    return self.class_member(r, k, o)
            d = getattr(o, 'missing', None)
            if d is not None:
                return d(k)
            if not o.__dict__.get('complete'):
                raise Unsupported('attribute %s of a partly described object' % k)
            raise PyRaise('AttributeError', k)
        if isinstance(o, RepoClass):
            if k == '__name__':
                return o.name
            r = o.find(k)
            if r:
                return self.class_member(r, k, None)
            raise PyRaise('AttributeError', '%s.%s' % (o.name, k))
        if isinstance(o, Module):
            return o.lookup(k)
        if isinstance(o, Model):
            if hasattr(o, 'attr'):
                return o.attr(k)
            if k in o.cells:
                return o.cells[k]
            try:
                return getattr(o, k)
            except AttributeError:
                raise Unsupported('%s.%s is not modelled' % (type(o).__name__, k))
        if isinstance(o, (Num, BoolV)):
            raise Unsupported('attribute %s of a number' % k)
        if k in ('cells', 'oid', 'ctx') and not getattr(type(o), 'stub', False):
            raise PyRaise('AttributeError', k)
        if isinstance(o, (Func, Bound)):
            if k == '__name__':
                return (o.fn if isinstance(o, Bound) else o).name
            raise Unsupported('function attribute')
        try:
            return getattr(o, k)
        except AttributeError:
            if o is None:
                raise PyRaise('AttributeError', 'None.' + k)
            raise Unsupported('attribute %s of %s' % (k, type(o).__name__))

    def class_member(self, r, k, obj):
        key = '%s.%s' % (r[0].name, k)
        if self.statics is not None and key in self.statics.cells:
            return self.statics.get(key)
        return self.member(r[0], r[1], obj)

    def member(self, cls, node, obj):
        if isinstance(node, ast.FunctionDef):
            static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in node.decorator_list)
            clsm = any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in node.decorator_list)
            if any(isinstance(d, ast.Name) and d.id == 'property' for d in node.decorator_list):
                return self.call_func(Func(cls.mod, node, cls), [obj], {})
            fn = Func(cls.mod, node, cls, None, static)
            if static or obj is None:
                return fn
            if clsm:
                return Bound(cls, fn)
            return Bound(obj, fn)
        k = id(node)
        if k not in cls.consts:
            cls.consts[k] = self.eval(node, ClsEnv(self, cls))
        return cls.consts[k]

    def setattr(self, o, k, v):
        if isinstance(o, Obj):
            o.put(k, v)
        elif isinstance(o, Model) and hasattr(o, 'set_attr'):
            o.set_attr(k, v)
        elif isinstance(o, RepoClass):
            if not self.class_attr_hook(o, k, v):
                raise Unsupported('assignment to a class attribute %s' % k)
        elif hasattr(o, 'set_attr'):
            o.set_attr(k, v)
        else:
            raise Unsupported('assignment to attribute %s of %s' % (k, type(o).__name__))

    def class_attr_hook(self, c, k, v):
        key = '%s.%s' % (c.name, k)
        if self.statics is None or key not in self.statics.cells:
            return False
        self.statics.put(key, v)
        return True

    def index(self, sl, env):
        if isinstance(sl, ast.Slice):
            return slice(*(self.eval(x, env) if x is not None else None for x in (sl.lower, sl.upper, sl.step)))
        if isinstance(sl, ast.Tuple):
            return tuple(self.index(x, env) for x in sl.elts)
        return self.eval(sl, env)

    def e_Subscript(self, e, env):
        return self.getitem(self.eval(e.value, env), self.index(e.slice, env))

    def getitem(self, o, k):
        if isinstance(o, Poison):
            raise Unsupported('use of ' + o.name)
        if hasattr(o, 'getitem'):
            return o.getitem(k)
        if isinstance(o, Obj) and o.cls is not None and o.cls.find('__getitem__'):
            r = o.cls.find('__getitem__')
            return self.call_func(Func(r[0].mod, r[1], r[0]), [o, k], {})
        if isinstance(o, (list, tuple, str)):
            if isinstance(k, Num):
                return self.sym_list_get(o, k)
            if isinstance(k, Fraction):
                raise PyRaise('TypeError', 'list index')
            try:
                return o[k]
            except IndexError:
                raise PyRaise('IndexError')
        if isinstance(o, dict):
            if isinstance(k, Num):
                for kk in o:
                    if self.truth(k == kk):
                        return o[kk]
                raise PyRaise('KeyError')
            if k not in o:
                raise PyRaise('KeyError', k)
            return o[k]
        raise Unsupported('subscript of %s' % type(o).__name__)

    def sym_list_get(self, o, k):
        for i in range(len(o)):
            if self.truth(Or(k == i, k == i - len(o))):
                return o[i]
        raise PyRaise('IndexError')

    def setitem(self, o, k, v):
        if isinstance(o, Poison):
            raise Unsupported('use of ' + o.name)
        if hasattr(o, 'setitem'):
            o.setitem(k, v)
        elif isinstance(o, Obj) and o.cls is not None and o.cls.find('__setitem__'):
            r = o.cls.find('__setitem__')
            self.call_func(Func(r[0].mod, r[1], r[0]), [o, k, v], {})
        elif isinstance(o, list):
            self.may_change(o)
            if isinstance(k, Num):
                for i in range(len(o)):
                    if self.truth(k == i):
                        o[i] = v
                        return
                raise PyRaise('IndexError')
            try:
                o[k] = v
            except IndexError:
                raise PyRaise('IndexError')
        elif isinstance(o, dict):
            self.may_change(o)
            if isinstance(k, Num):
                raise Unsupported('symbolic dictionary key')
            o[k] = v
        else:
            raise Unsupported('item assignment to %s' % type(o).__name__)

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and env.fn is not None and 'super' not in env.vars:
            return SuperObj(self, env)
        if isinstance(e.func, ast.Name) and e.func.id == 'locals':
            raise Unsupported('locals()')
        f = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.eval(k.value, env))
            else:
                kw[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kw)

    def iterate(self, v):
        if isinstance(v, (list, tuple, str, range, set, frozenset)) or type(v).__name__ in ('dict_keys', 'dict_values', 'dict_items', 'zip', 'enumerate', 'generator', 'list_iterator', 'map', 'filter', 'list_reverseiterator', 'reversed'):
            return v
        if isinstance(v, dict):
            return list(v.keys())
        if hasattr(v, 'items_'):
            return v.items_()
        if isinstance(v, (SymRange,)) or hasattr(v, 'sym_iter'):
            raise Unsupported('iteration of symbolic length outside a for statement')
        raise Unsupported('iteration over %s' % type(v).__name__)

    def comp(self, gens, env, emit):
        def go(i, env):
            if i == len(gens):
                emit(env)
                return
            g = gens[i]
            it = self.eval(g.iter, env)
            for v in list(self.iterate(it)):
                self.assign(g.target, v, env)
                if all(self.truth(self.eval(c, env)) for c in g.ifs):
                    go(i + 1, env)
        go(0, Env(env.mod, {}, env, env.fn))

    def e_ListComp(self, e, env):
        if len(e.generators) == 1:
            it = self.eval(e.generators[0].iter, env)
            if hasattr(it, 'map_comp'):
                return it.map_comp(self, e, env)
        out = []
        self.comp(e.generators, env, lambda en: out.append(self.eval(e.elt, en)))
        return self.born(out)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        return set(self.e_ListComp(e, env))

    def e_DictComp(self, e, env):
        if len(e.generators) == 1:
            it = self.eval(e.generators[0].iter, env)
            if hasattr(it, 'map_dict'):
                return it.map_dict(self, e, env)
        out = {}
        self.comp(e.generators, env, lambda en: out.__setitem__(self.eval(e.key, en), self.eval(e.value, en)))
        return out

    def e_Starred(self, e, env):
        raise Unsupported('starred')

    # ------------------------------------------------------------------ builtins
    def b_len(self, x):
        if hasattr(x, 'len_'):
            return x.len_()
        if isinstance(x, (list, tuple, str, dict, set)):
            return len(x)
        raise Unsupported('len of %s' % type(x).__name__)

    def b_range(self, *a):
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        vs = [lift(x) for x in (lo, hi, st)]
        if any(x is None for x in vs):
            raise PyRaise('TypeError')
        cs = [x.conc() for x in vs]
        if all(c is not None for c in cs):
            if any(isinstance(c, Fraction) for c in cs):
                raise PyRaise('TypeError', 'range of float')
            return range(*cs)
        return SymRange(lo, hi, st)

    def b_isinstance(self, x, t):
        if isinstance(t, tuple):
            return Or(*[self.b_isinstance(x, y) for y in t])
        if hasattr(x, 'isinstance_'):
            return x.isinstance_(t)
        if isinstance(t, RepoClass):
            return isinstance(x, Obj) and x.cls is not None and (x.cls is t or t in list(x.cls.bases()))
        nm = getattr(t, 'name', None) or getattr(t, '__name__', str(t))
        m = {'int': lambda: isinstance(x, int) or (isinstance(x, Num) and x.i), 'float': lambda: isinstance(x, (Fraction, float)) or (isinstance(x, Num) and not x.i), 'str': lambda: isinstance(x, str),
             'tuple': lambda: isinstance(x, tuple), 'list': lambda: isinstance(x, list), 'dict': lambda: isinstance(x, dict), 'bool': lambda: isinstance(x, (bool, BoolV))}
        if nm in m:
            return m[nm]()
        if nm == 'ndarray':
            return False
        raise Unsupported('isinstance of %s' % nm)

    def b_hasattr(self, o, k):
        if hasattr(o, 'hasattr_'):
            return o.hasattr_(k)
        try:
            self.getattr(o, k)
            return True
        except PyRaise:
            return False

    def b_getattr(self, o, k, *d):
        try:
            return self.getattr(o, k)
        except PyRaise:
            if d:
                return d[0]
            raise

    def b_setattr(self, o, k, v):
        self.setattr(o, k, v)

    def b_print(self, *a, **k):
        return None

    def b_str(self, *a):
        if a and isinstance(a[0], (str, SStr)):
            return a[0]
        if a and (isinstance(a[0], int) or isinstance(a[0], Num) and a[0].i):
            return text([a[0]]) if not isinstance(a[0], bool) else str(a[0])
        return Opaque('str')

    def b_int(self, x=0):
        n = lift(x)
        if n is None:
            raise Unsupported('int()')
        if n.i:
            return x
        c = n.conc()
        if c is not None:
            return int(c)
        if self.ctx.opts.get('int_nonneg', True):
            key = ('int', frozenset(n.p.items()))
            if key not in self.ctx.memo:
                k = self.ctx.fresh('trunc')
                self.ctx.assume(And(Or(Not(n >= 0), And(k <= n, n < k + 1)), Or(n >= 0, And(k >= n, n > k - 1))))
                self.ctx.memo[key] = k
            return self.ctx.memo[key]
        raise Unsupported('int() of a symbolic real')

    def b_float(self, x=0):
        n = lift(x)
        if n is None:
            raise Unsupported('float()')
        c = n.conc()
        return Fraction(c) if c is not None else Num(n.p, False)

    def b_bool(self, x=False):
        return x if isinstance(x, (bool, BoolV)) else self.truth(x)

    def b_abs(self, x):
        return abs(x)

    def b_max(self, *a, **k):
        a = list(self.iterate(a[0])) if len(a) == 1 else list(a)
        r = a[0]
        for x in a[1:]:
            if self.truth(x > r):
                r = x
        return r

    def b_min(self, *a, **k):
        a = list(self.iterate(a[0])) if len(a) == 1 else list(a)
        r = a[0]
        for x in a[1:]:
            if self.truth(x < r):
                r = x
        return r

    def b_sum(self, x, start=0):
        if hasattr(x, 'sum_'):
            return x.sum_() + start
        r = start
        for v in self.iterate(x):
            r = r + v
        return r

    def b_divmod(self, a, b):
        return self.ctx.divmod(a, b)

    def b_any(self, x):
        return Or(*[v if isinstance(v, (bool, BoolV)) else self.truth(v) for v in self.iterate(x)])

    def b_all(self, x):
        return And(*[v if isinstance(v, (bool, BoolV)) else self.truth(v) for v in self.iterate(x)])

    def b_type(self, x):
        if hasattr(x, 'type_'):
            return x.type_()
        if isinstance(x, Obj):
            return x.cls
        return TypeName({Num: 'int' if isinstance(x, Num) and x.i else 'float', Fraction: 'float'}.get(type(x), type(x).__name__))

    def b_list(self, x=()):
        if hasattr(x, 'list_'):
            return x.list_()
        return self.born(list(self.iterate(x)))

    def b_tuple(self, x=()):
        return tuple(self.iterate(x))

    def b_dict(self, *a, **k):
        d = {}
        if not a and not k and self.empty_dict is not None:
            return self.empty_dict()
        if a and not k and hasattr(a[0], 'dict_'):
            return a[0].dict_(self)
        if a:
            for kk, v in (a[0].items() if isinstance(a[0], dict) else self.iterate(a[0])):
                d[kk] = v
        d.update(k)
        return self.born(d)

    def b_set(self, x=()):
        return set(self.iterate(x))

    def b_enumerate(self, x, start=0):
        if hasattr(x, 'sym_iter') or isinstance(x, SymRange):
            rng = x if isinstance(x, SymRange) else x.sym_iter(self)
            r = SymRange(rng.lo, rng.hi, rng.step)
            r.item = lambda i: (i + start, rng.item(i) if hasattr(rng, 'item') else i)
            return r
        return list(enumerate(self.iterate(x), start))

    def b_zip(self, *xs):
        return list(zip(*[self.iterate(x) for x in xs]))

    def b_sorted(self, x, key=None, reverse=False):
        xs = list(self.iterate(x))
        if any(isinstance(v, (Num, BoolV)) for v in xs):
            raise Unsupported('sorted of symbolic values')
        return sorted(xs, key=None if key is None else (lambda v: self.call(key, [v])), reverse=reverse)

    def b_reversed(self, x):
        return list(self.iterate(x))[::-1]

    def b_map(self, f, *xs):
        return [self.call(f, list(t)) for t in zip(*[self.iterate(x) for x in xs])]

    def b_id(self, x):
        return id(x)

    def b_round(self, x, *a):
        raise Unsupported('round')

    def b_repr(self, x):
        return Opaque('repr')

    def b_open(self, *a, **k):
        raise Unsupported('open()')


class TypeName:
    def __init__(self, name):
        self.name = self.__name__ = name

    def is_(self, o):
        return (getattr(o, 'name', None) or getattr(o, '__name__', None)) == self.name


class ExcType:
    def __init__(self, name):
        self.name = self.__name__ = name

    def __call__(self, *a, **k):
        return ExcVal(self.name, a)


class ExcVal:
    def __init__(self, kind, args):
        self.kind, self.args = kind, args


class ClsEnv(Env):
    def __init__(self, interp, cls):
        super().__init__(cls.mod, {})
        for k, n in cls.body.items():
            if not isinstance(n, ast.FunctionDef):
                try:
                    self.vars[k] = interp.eval(n, Env(cls.mod, dict(self.vars)))
                except (Unsupported, PyRaise):
                    pass


class SuperObj:
    def __init__(self, it, env):
        self.it, self.env = it, env

    def find(self, k):
        env = self.env
        names = [a.arg for a in env.fn.node.args.args]
        obj = env.vars[names[0]]
        for b in env.fn.cls.bases():
            r = b.find(k)
            if r:
                return Bound(obj, Func(r[0].mod, r[1], r[0]))
        if k == '__init__':
            return lambda *a, **kw: None
        raise PyRaise('AttributeError', k)


def join_kind(a, b):
    from ctx import join
    if a == 'none':
        return b
    if b == 'none':
        return a
    return join(a, b)


Interp.BUILTINS = {k[2:]: getattr(Interp, k) for k in dir(Interp) if k.startswith('b_')}
