"""Abstract interpreter for the Python subset used by pymiediff.

The AST of /repo's current source is executed with symbolic tensors / integers.  Branches fork the
path (re-execution with a decision list); loops with a symbolic trip count are summarised (loops.py)."""
import ast, os, sys, hashlib, contextlib
from core import *
import core
from tensor import *
import tensor
from smt import Ctx

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "pymiediff")


class BreakX(Exception): pass
class ContinueX(Exception): pass
class ReturnX(Exception):
    def __init__(self, v): self.v = v


class Mod:
    def __init__(self, name, d=None): self.name, self.d = name, d if d is not None else {}
    def __repr__(self): return "<module %s>" % self.name


class Func:
    def __init__(self, node, env, mod, name, defaults, kwdefaults, cls=None):
        self.node, self.env, self.mod, self.name, self.defaults, self.kwdefaults = node, env, mod, name, defaults, kwdefaults
        self.qual = "%s.%s" % (mod.name, (cls + "." if cls else "") + name)
    def __repr__(self): return "<func %s>" % self.qual


class Cls:
    def __init__(self, name, bases, d, mod=None): self.name, self.bases, self.d, self.mod = name, bases, d, mod
    def lookup(self, k):
        if k in self.d: return self.d[k]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.lookup(k)
                if r is not None: return r
        return None
    def sub(self, o): return self is o or any(isinstance(b, Cls) and b.sub(o) for b in self.bases)
    def __repr__(self): return "<class %s>" % self.name


class Inst:
    def __init__(self, cls, **kw): self.cls, self.attrs = cls, dict(kw)
    def __repr__(self): return "<%s instance>" % self.cls.name


class Bound:
    def __init__(self, f, self_): self.f, self.self_ = f, self_


class StaticM:
    def __init__(self, f): self.f = f


class ClassM:
    def __init__(self, f): self.f = f


class Prop:
    def __init__(self, f): self.f = f


class TypeTag:
    def __init__(self, name): self.name = name
    def __repr__(self): return "<type %s>" % self.name


TENSOR, NDARRAY = TypeTag("Tensor"), TypeTag("ndarray")


class ExcT:
    H = {"ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception", "IndexError": "LookupError", "KeyError": "LookupError",
         "LookupError": "Exception", "NotImplementedError": "RuntimeError", "RuntimeError": "Exception", "ValueError": "Exception",
         "TypeError": "Exception", "AssertionError": "Exception", "AttributeError": "Exception", "ImportError": "Exception",
         "ModuleNotFoundError": "ImportError", "Exception": "BaseException", "NameError": "Exception", "UnboundLocalError": "NameError",
         "StopIteration": "Exception", "UserWarning": "Exception", "FileNotFoundError": "OSError", "OSError": "Exception", "OverflowError": "ArithmeticError", "DeprecationWarning": "Exception", "RuntimeWarning": "Exception", "FutureWarning": "Exception", "Warning": "Exception"}
    def __init__(self, name): self.name = name
    def __call__(self, *a, **k): return ExcI(self, a)
    def matches(self, n):
        while n:
            if n == self.name: return True
            n = self.H.get(n)
        return False


class ExcI:
    def __init__(self, t, args): self.t, self.args = t, args


class Sym:
    """opaque attribute-ful value that may be passed around but not inspected"""
    def __init__(self, name): self.name = name
    def __repr__(self): return "<%s>" % self.name


class Range:
    def __init__(self, a, b, s): self.a, self.b, self.s = ie(a), ie(b), s
    def count(self):
        d = isub(self.b, self.a) if self.s > 0 else isub(self.a, self.b)
        k = abs(self.s)
        if k == 1: return d
        return iop("fdiv", iadd(d, k - 1), ie(k))
    def item(self, t): return iadd(self.a, iscale(t, self.s))


def unie(x):
    """IE -> python int if constant"""
    if isinstance(x, IE) and x.is_const(): return x.c
    return x


def deint(x):
    if isinstance(x, bool): return ie(int(x))
    if isinstance(x, (int, IE)): return nz(x)
    if isinstance(x, T) and x.ndim == 0:
        return as_int(x)
    raise Unsup("integer expected: %r" % (x,))


def as_int(x):
    """int(x)"""
    if isinstance(x, (bool, int)): return int(x)
    if isinstance(x, IE): return unie(x)
    if isinstance(x, float): return int(x)
    n = x.at(*([0] * x.ndim)) if isinstance(x, T) else x.node
    v = int_of(core.strip_detach(n)) if n.op == "detach" else int_of(n)
    if v is not None: return unie(v)
    n = core.strip_detach(n)
    if n.op == "ite": 
        a, b = as_int(SNum(n.a[1])), as_int(SNum(n.a[2]))
        if cur[0].branch(n.a[0]): return a
        return b
    return IE(((("trunc", n), 1),), 0)


class L:
    """python list; concrete items or a family (length, get)"""
    _n = 0
    def __init__(self, items=None, length=None, get=None, frozen=False):
        self.items = list(items) if items is not None else None
        self.length, self.getf = length, get
        self.loop = None
        self.id = None
        self.nst = 0            # stores so far, for loops that rewrite the list
        R = cur[0]
        if R is not None:
            self.id = R.newid()
            R.objs[self.id] = self

    def concrete(self): return self.items is not None and self.loop is None
    def len(self):
        if self.loop is not None: return self.loop.curlen()
        return len(self.items) if self.items is not None else unie(nz(self.length))

    def get(self, j):
        j = ie(j)
        if self.loop is not None: return self.loop.read(j)
        if self.items is not None:
            if not j.is_const():
                return pick(self.items, j)
            n = len(self.items)
            if not -n <= j.c < n: raise PyExc("IndexError", "list index out of range")
            return self.items[j.c]
        R = cur[0]
        n = nz(self.length)
        if j.is_const() and j.c < 0: j = iadd(n, j)
        j = nz(j)
        ok = R.ctx.decide(band(icmp("<=", 0, j), icmp("<", j, n)))
        if ok is None:
            if R.branch(icmp("<", j, 0)): j = iadd(j, n)
            if not R.branch(band(icmp("<=", 0, j), icmp("<", j, n))): raise PyExc("IndexError", "list index out of range")
        elif ok is False:
            if R.branch(icmp("<", j, 0)):
                j = iadd(j, n)
                if R.branch(icmp("<=", 0, j)): return self.getf(j)
            raise PyExc("IndexError", "list index out of range")
        return self.getf(j)

    def seq(self):
        """python list of items (concrete) or None"""
        if self.loop is not None: return None
        return self.items


def pick(items, j):
    """items[j] for symbolic j over a concrete python list"""
    R = cur[0]
    j = nz(j)
    if j.is_const(): return items[j.c]
    n = len(items)
    for q in range(n - 1):
        if R.branch(icmp("==", j, q)): return items[q]
    for q in range(1, n + 1):
        if R.branch(icmp("==", j, -q)): return items[-q]
    if R.branch(icmp("==", j, n - 1)): return items[n - 1]
    raise PyExc("IndexError", "list index out of range")


# ------------------------------------------------------------------ Run / exploration
class LoopCfg:
    def __init__(self):
        self.splits, self.lists, self.stores, self.ind, self.temp, self.sample, self.dtypes = [], set(), set(), {}, set(), {}, {}
        self.tries = 0


class Run:
    def __init__(self, decisions, cfgs, opts):
        self.dec, self.cfgs, self.opts = list(decisions), cfgs, opts
        self.pos = 0
        self.alts = []
        self.ctx = Ctx()
        self.events, self.notes = [], set()
        self.ids = 0
        self.objs = {}
        self.loops = []            # active symbolic loops
        self.loopcount = {}
        self.sol, self.seqdef = {}, {}
        self.allocs = []
        self.families = list(opts.get("families", ()))
        self.contracts = opts.get("contracts", {})
        self.lemmas = []           # (name, ok) obligations discharged while running
        self.depth = 0
        self.calls = set()
        self.callstack = []
        self.nograd = 0
        self.brlog = []            # decisions of this path
        self.local = None          # local decision enumeration (merge)
        core._fresh[0] = 0

    def newid(self):
        self.ids += 1
        return self.ids

    def event(self, kind, *a):
        self.events.append((kind,) + a + (self.callstack[-1] if self.callstack else "?",))

    def note(self, s): self.notes.add(s)

    def mutated(self, st):
        if self.loops:
            lp = self.loops[-1]
            lp.store_mutated(st)

    def branch(self, c):
        """truth of a boolean Node on this path; forks when open"""
        if c is TRUE: return True
        if c is FALSE: return False
        if self.ctx.isubst: c = subst(c, self.ctx.isubst)
        c = self.norm(c)
        if c is TRUE: return True
        if c is FALSE: return False
        d = self.tiny(c)
        if d is not None: return d
        d = self.ctx.decide(c)
        if d is not None: return d
        if self.local is not None:
            return self.local.branch(self, c)
        if self.loops:
            fs = freesyms(c)
            for lp in self.loops[::-1]:
                if lp.tname in fs: lp.open_cond(c)      # raises Restart
        if self.pos < len(self.dec): v = self.dec[self.pos]
        else:
            v = True
            self.alts.append(self.dec[:self.pos] + [False])
            self.dec.append(True)
        self.pos += 1
        self.ctx.assume(c if v else bnot(c))
        self.brlog.append(c if v else bnot(c))
        if len(self.dec) > self.opts.get("max_dec", 60): raise Unsup("too many decisions")
        return v

    @contextlib.contextmanager
    def scope(self, syms, *facts):
        """facts valid only inside; facts learnt inside that do not mention syms survive"""
        self.ctx.push()
        n0 = len(self.ctx.facts)
        for f in facts: self.ctx.assume(f)
        n1 = len(self.ctx.facts)
        try: yield
        finally:
            new = [f for f in self.ctx.facts[n1:] if not (set(syms) & freesyms(f))]
            self.ctx.pop()
            for f in new: self.ctx.assume(f)

    @contextlib.contextmanager
    def under(self, c):
        """c assumed inside; of the facts learnt inside only the decisions of the path survive"""
        n = len(self.brlog)
        self.ctx.push()
        self.ctx.assume(c)
        try: yield
        finally:
            self.ctx.pop()
            for f in self.brlog[n:]: self.ctx.assume(f)

    def tiny(self, c):
        f = self.opts.get("tiny")
        return f(self, c) if f else None

    def norm(self, t):
        """replace solved loop sequences by their closed forms"""
        if not self.sol: return t
        hit = False
        for x in walk(t):
            if x.op == "leaf" and x.a[0] in self.sol: hit = True; break
        if not hit: return t
        def f(x):
            if x.op == "leaf" and x.a[0] in self.sol:
                return self.norm(self.sol[x.a[0]](x.a[1]))
            return None
        return rewrite(t, f)


class Path:
    def __init__(self, run, kind, value): self.run, self.kind, self.value = run, kind, value


def explore(fn, opts=None, max_paths=400):
    """all paths of fn(run); yields Path(kind in ok/exc/unsup)"""
    opts = opts or {}
    stack, cfgs, out = [[]], {}, []
    n = 0
    while stack:
        dec = stack.pop()
        restarts = 0
        while True:
            R = Run(dec, cfgs, opts)
            cur[0] = R
            try:
                v = fn(R)
                p = Path(R, "ok", v)
            except PyExc as e: p = Path(R, "exc", e)
            except Restart:
                restarts += 1
                if restarts > 400: p = Path(R, "unsup", "loop summary does not stabilise")
                else: continue
            except Unsup as e: p = Path(R, "unsup", str(e))
            except RecursionError: p = Path(R, "unsup", "recursion depth")
            break
        stack.extend(R.alts)
        out.append(p)
        n += 1
        if n > max_paths:
            out.append(Path(R, "unsup", "more than %d paths" % max_paths)); break
    return out


# ------------------------------------------------------------------ environments
class Env:
    __slots__ = ("d", "up", "glob", "nonl", "gl")
    def __init__(self, up, glob, d=None): self.d, self.up, self.glob, self.nonl, self.gl = d if d is not None else {}, up, glob, (), ()
    def get(self, k):
        e = self
        while e is not None:
            if k in e.d: return e.d[k]
            e = e.up
        if k in self.glob.d: return self.glob.d[k]
        b = BUILTINS.get(k, BUILTINS)
        if b is not BUILTINS: return b
        raise PyExc("NameError", "name '%s' is not defined" % k)
    def set(self, k, v):
        if k in self.gl: self.glob.d[k] = v; return
        if k in self.nonl:
            e = self.up
            while e is not None:
                if k in e.d: e.d[k] = v; return
                e = e.up
        self.d[k] = v


BUILTINS = {}
_srccache, _modcache = {}, {}


def source_of(path):
    p = os.path.join(SRC, path)
    if p not in _srccache:
        txt = open(p, encoding="utf8").read()
        _srccache[p] = (txt, ast.parse(txt))
    return _srccache[p]


MODFILES = {"pymiediff.special": "special.py", "pymiediff.multishell": "multishell.py", "pymiediff.main": "main.py",
            "pymiediff.coreshell": "coreshell.py", "pymiediff.helper": "helper/__init__.py", "pymiediff.helper.helper": "helper/helper.py",
            "pymiediff.helper.tg": "helper/tg.py", "pymiediff.materials": "materials/__init__.py", "pymiediff.materials.mat": "materials/mat.py",
            "pymiediff": "__init__.py"}


class Loader:
    """modules of /repo, executed by the interpreter; native modules from torchmod.MODULES"""
    def __init__(self, natives): self.natives, self.mods, self.skipped = natives, {}, []

    def load(self, name):
        if name in self.mods: return self.mods[name]
        if name in self.natives: return self.natives[name]
        top = name.split(".")[0]
        if top == "pymiediff":
            fn = MODFILES.get(name)
            if fn is None:
                cand = name.split(".")[1:]
                for f in ("/".join(cand) + ".py", "/".join(cand) + "/__init__.py"):
                    if os.path.exists(os.path.join(SRC, f)): fn = f
            if fn is None or not os.path.exists(os.path.join(SRC, fn)): raise PyExc("ModuleNotFoundError", name)
            if "." in name:
                par = self.load(name.rsplit(".", 1)[0])       # parent packages first, as in Python
                if name in self.mods: return self.mods[name]
            m = Mod(name, {"__name__": name, "__file__": fn})
            self.mods[name] = m
            if name == "pymiediff": return m          # package namespace: submodules resolved on demand
            if "." in name: par.d[name.rsplit(".", 1)[1]] = m
            txt, tree = source_of(fn)
            old = cur[0]
            cur[0] = Run([], {}, {"loading": True})
            try:
                ip, env = Interp(self, m), Env(None, m, m.d)
                for st in tree.body:
                    try: ip.stmt(st, env)
                    except Unsup as e: self.skipped.append((name, st.lineno, str(e)))
            finally: cur[0] = old
            return m
        if "." in name:
            base = self.load(name.rsplit(".", 1)[0])
            if isinstance(base, Mod) and name.rsplit(".", 1)[1] in base.d: return base.d[name.rsplit(".", 1)[1]]
        return Mod(name, {"__opaque__": True})

    def func(self, mod, name): return self.load(mod).d[name]


class Interp:
    def __init__(self, loader, mod): self.ld, self.mod = loader, mod

    # ---------------- statements
    def exec_body(self, body, env):
        for s in body: self.stmt(s, env)

    def stmt(self, s, env):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None: raise Unsup("statement %s" % type(s).__name__)
        return m(s, env)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant): return
        self.ev(s.value, env)

    def s_Pass(self, s, env): pass
    def s_Break(self, s, env): raise BreakX()
    def s_Continue(self, s, env): raise ContinueX()
    def s_Return(self, s, env): raise ReturnX(self.ev(s.value, env) if s.value else None)
    def s_Global(self, s, env): env.gl = tuple(env.gl) + tuple(s.names)
    def s_Nonlocal(self, s, env): env.nonl = tuple(env.nonl) + tuple(s.names)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets: self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None: self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        from torchmod import binop, inplace, advanced
        t = s.target
        if isinstance(t, ast.Name): old = env.get(t.id)
        elif isinstance(t, ast.Attribute): obj = self.ev(t.value, env); old = self.getattr(obj, t.attr)
        else:
            obj = self.ev(t.value, env); key = self.index(t.slice, env)
            old = self.getitem(obj, key)
        v = self.ev(s.value, env)
        if isinstance(old, T) and not getattr(old, "masked", None):
            new = inplace(type(s.op).__name__, old, v)
        elif isinstance(old, L) and isinstance(s.op, ast.Add):
            self.list_extend(old, v); new = old
        else: new = binop(type(s.op).__name__, old, v, self)
        if isinstance(t, ast.Name): env.set(t.id, new)
        elif isinstance(t, ast.Attribute): self.setattr(obj, t.attr, new)
        elif isinstance(old, T) and new is old and isinstance(obj, T) and not advanced(obj, key):
            pass       # in-place on a view already wrote through; an advanced index made a copy, stored back below
        elif isinstance(old, T) and new is old and not isinstance(obj, (dict, L, T)): pass
        else: self.setitem(obj, key, new)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name): env.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.iterate(v)
            if vs is None: raise Unsup("unpacking a symbolic sequence")
            st = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                k = st[0]; n = len(t.elts) - 1
                for x, y in zip(t.elts[:k], vs[:k]): self.assign(x, y, env)
                self.assign(t.elts[k].value, L(vs[k:len(vs) - (n - k)]), env)
                for x, y in zip(t.elts[k + 1:], vs[len(vs) - (n - k):]): self.assign(x, y, env)
                return
            if len(vs) != len(t.elts): raise PyExc("ValueError", "unpack mismatch")
            for x, y in zip(t.elts, vs): self.assign(x, y, env)
        elif isinstance(t, ast.Attribute): self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript): self.setitem(self.ev(t.value, env), self.index(t.slice, env), v)
        else: raise Unsup("assignment target")

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name): env.d.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                if isinstance(o, dict): o.pop(self.index(t.slice, env), None)
                else: raise Unsup("del")
            else: raise Unsup("del")

    def s_If(self, s, env):
        if self.truth(self.ev(s.test, env)): self.exec_body(s.body, env)
        else: self.exec_body(s.orelse, env)

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)): raise PyExc("AssertionError", ast.unparse(s.test))

    def s_Raise(self, s, env):
        if s.exc is None: raise PyExc("RuntimeError", "re-raise")
        v = self.ev(s.exc, env)
        if isinstance(v, ExcT): v = v()
        if isinstance(v, ExcI): raise PyExc(v.t.name, " ".join(str(a) for a in v.args), v)
        raise PyExc("Exception", str(v))

    def s_Try(self, s, env):
        try:
            try: self.exec_body(s.body, env)
            except PyExc as e:
                for h in s.handlers:
                    ts = [ExcT("BaseException")] if h.type is None else self.ev(h.type, env)
                    if isinstance(ts, tuple): ts = list(ts)
                    elif not isinstance(ts, list): ts = [ts]
                    if any(isinstance(x, ExcT) and x.matches(e.cls) for x in ts):
                        if h.name: env.set(h.name, e.value or ExcI(ExcT(e.cls), (e.msg,)))
                        self.exec_body(h.body, env)
                        break
                else: raise
            else: self.exec_body(s.orelse, env)
        finally:
            if s.finalbody: self.exec_body(s.finalbody, env)

    def s_With(self, s, env):
        R = cur[0]
        ng = 0
        for it in s.items:
            v = self.ev(it.context_expr, env)
            if isinstance(v, Sym) and v.name == "no_grad": ng += 1
            elif isinstance(v, Sym) and v.name == "enable_grad": ng -= 1
            if it.optional_vars is not None: self.assign(it.optional_vars, getattr(v, "entered", v), env)
        R.nograd += ng
        try: self.exec_body(s.body, env)
        finally: R.nograd -= ng

    def s_Import(self, s, env):
        for a in s.names:
            m = self.ld.load(a.name)
            if a.asname: env.set(a.asname, m)
            else: env.set(a.name.split(".")[0], self.ld.load(a.name.split(".")[0]))

    def s_ImportFrom(self, s, env):
        name = s.module or ""
        if s.level:
            base = self.mod.name.split(".")
            ispkg = self.mod.d.get("__file__", "").endswith("__init__.py")
            if not ispkg: base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            name = ".".join(base + ([name] if name else []))
        m = self.ld.load(name)
        for a in s.names:
            if a.name == "*":
                for k, v in list(m.d.items()):
                    if not k.startswith("_"): env.set(k, v)
                continue
            env.set(a.asname or a.name, self.modattr(m, a.name, name))

    def modattr(self, m, k, name=None):
        if isinstance(m, Mod):
            if k in m.d: return m.d[k]
            sub_ = m.name + "." + k
            if sub_ in self.ld.natives: return self.ld.natives[sub_]
            if m.name == "pymiediff" and sub_ not in MODFILES:
                # the package namespace: the import statement of __init__.py that binds the name
                for st in source_of(m.d["__file__"])[1].body:
                    if isinstance(st, ast.ImportFrom) and any((a.asname or a.name) == k for a in st.names):
                        old = self.mod
                        try:
                            self.mod = m
                            self.stmt(st, Env(None, m, m.d))
                        finally: self.mod = old
                        if k in m.d: return m.d[k]
            if m.name.startswith("pymiediff"):
                return self.ld.load(sub_)
            if m.d.get("__opaque__"): return Sym(sub_)
            raise PyExc("AttributeError", "module %s has no attribute %s (not modelled)" % (m.name, k)) if m.d.get("__complete__") else Unsup("%s.%s is not modelled" % (m.name, k))
        return getattr(m, k)

    def s_FunctionDef(self, s, env):
        env.set(s.name, self.decorate(s, self.mkfunc(s, env), env))

    def mkfunc(self, s, env, name=None, cls=None):
        dfl = [self.ev(d, env) for d in s.args.defaults]
        kwd = {a.arg: self.ev(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        e = env if env.d is not self.mod.d else None
        return Func(s, e, self.mod, name or getattr(s, "name", "<lambda>"), dfl, kwd, cls)

    def decorate(self, s, f, env):
        for d in reversed(s.decorator_list):
            dv = self.ev(d, env)
            if dv is StaticM or dv is ClassM or dv is Prop: f = dv(f)
            else: f = self.call(dv, [f], {})
        return f

    def s_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        cenv = Env(env if env.d is not self.mod.d else None, self.mod)
        c = Cls(s.name, bases, cenv.d, self.mod)
        for b in s.body:
            if isinstance(b, ast.FunctionDef):
                cenv.d[b.name] = self.decorate(b, self.mkfunc(b, Env(env if env.d is not self.mod.d else None, self.mod), cls=s.name), cenv)
            else: self.stmt(b, cenv)
        cenv.d.setdefault("__name__", s.name)
        env.set(s.name, c)

    # ---------------- loops
    def s_For(self, s, env):
        import loops
        it = self.ev(s.iter, env)
        return loops.exec_for(self, s, env, it)

    def s_While(self, s, env):
        import loops
        return loops.exec_while(self, s, env)

    # ---------------- expressions
    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None: raise Unsup("expression %s" % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env): return Ellipsis if e.value is ... else e.value
    def e_Name(self, e, env): return env.get(e.id)
    def e_Tuple(self, e, env): return tuple(self.elts(e.elts, env))
    def e_List(self, e, env): return L(self.elts(e.elts, env))
    def e_Set(self, e, env): return set(self.elts(e.elts, env))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.iterate(self.ev(x.value, env))
                if v is None: raise Unsup("starred symbolic sequence")
                out.extend(v)
            else: out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None: d.update(self.ev(v, env))
            else: d[self.ev(k, env)] = self.ev(v, env)
        return d

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant): out.append(str(v.value))
            else:
                x = self.ev(v.value, env)
                out.append(str(x) if isinstance(x, (str, int, float)) and v.format_spec is None else "<%s>" % type(x).__name__)
        return "".join(out)

    def e_Lambda(self, e, env):
        return self.mkfunc(e, env, "<lambda>")

    def e_IfExp(self, e, env):
        return self.ev(e.body, env) if self.truth(self.ev(e.test, env)) else self.ev(e.orelse, env)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values[:-1]:
            v = self.ev(x, env)
            t = self.truth(v)
            if isand and not t: return v if not isinstance(v, SBool) else False
            if not isand and t: return v if not isinstance(v, SBool) else True
        return self.ev(e.values[-1], env)

    def e_UnaryOp(self, e, env):
        from torchmod import unop
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool): return SBool(bnot(v.node))
            return not self.truth(v)
        return unop(type(e.op).__name__, v)

    def e_BinOp(self, e, env):
        from torchmod import binop
        return binop(type(e.op).__name__, self.ev(e.left, env), self.ev(e.right, env), self)

    def e_Compare(self, e, env):
        from torchmod import compare
        l = self.ev(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            r = self.ev(r, env)
            v = compare(type(op).__name__, l, r, self)
            if len(e.ops) == 1: return v
            if not self.truth(v): return False
            res = v
            l = r
        return True

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        env.set(e.target.id, v)
        return v

    def e_Starred(self, e, env): raise Unsup("starred")

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def index(self, e, env):
        if isinstance(e, ast.Slice):
            return slice(*[self.ev(x, env) if x is not None else None for x in (e.lower, e.upper, e.step)])
        if isinstance(e, ast.Tuple): 
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred): out.extend(self.iterate(self.ev(x.value, env)))
                else: out.append(self.index(x, env))
            return tuple(out)
        return self.ev(e, env)

    def e_Subscript(self, e, env):
        return self.getitem(self.ev(e.value, env), self.index(e.slice, env))

    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args = self.elts(e.args, env)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                for a, b in d.items():
                    if a in kw: raise PyExc("TypeError", "multiple values for keyword " + a)
                    kw[a] = b
            else: kw[k.arg] = self.ev(k.value, env)
        if f is BUILTINS["super"] and not args: 
            c = env.get("__class__"); s = env.get("self")
            return SuperO(c, s)
        if f is BUILTINS["locals"]: return dict(env.d)
        return self.call(f, args, kw)

    def comp(self, e, env, leafn):
        gens = e.generators
        def rec(k, en):
            if k == len(gens):
                out.append(leafn(en)); return
            g = gens[k]
            it = self.ev(g.iter, en)
            seq = self.iterate(it)
            if seq is None: raise SymIter(it)
            for x in seq:
                e2 = Env(en, env.glob)
                self.assign(g.target, x, e2)
                if all(self.truth(self.ev(c, e2)) for c in g.ifs): rec(k + 1, e2)
        out = []
        rec(0, Env(env, env.glob))
        return out

    def e_ListComp(self, e, env):
        try: return L(self.comp(e, env, lambda en: self.ev(e.elt, en)))
        except SymIter as s:
            import loops
            return loops.sym_comp(self, e, env, s.it)

    def e_GeneratorExp(self, e, env): return self.e_ListComp(e, env)
    def e_SetComp(self, e, env): return set(self.comp(e, env, lambda en: self.ev(e.elt, en)))
    def e_DictComp(self, e, env):
        try: return dict(self.comp(e, env, lambda en: (self.ev(e.key, en), self.ev(e.value, en))))
        except SymIter: raise Unsup("dict comprehension over symbolic sequence")

    # ---------------- helpers
    def truth(self, v):
        R = cur[0]
        if isinstance(v, (bool, int, float, complex, str, bytes)) or v is None: return bool(v)
        if isinstance(v, SBool): return R.branch(v.node)
        if isinstance(v, IE): return R.branch(bnot(icmp("==", v, 0)))
        if isinstance(v, SNum): return R.branch(bnot(fcmp("==", v.node, ZERO)))
        if isinstance(v, L): 
            n = v.len()
            return n > 0 if isinstance(n, int) else R.branch(icmp("<", 0, n))
        if isinstance(v, (tuple, dict, set, list)): return len(v) > 0
        if isinstance(v, T):
            for d in v.shape:
                if iconst(nz(d)) != 1 and not R.branch(icmp("==", d, 1)):
                    raise PyExc("RuntimeError", "Boolean value of Tensor with more than one value is ambiguous")
            return R.branch(n2b(v.at(*([0] * v.ndim))))
        return True

    def iterate(self, v):
        """python list of items, or None when the length is symbolic"""
        import torchmod
        if isinstance(v, L): return list(v.items) if v.concrete() else (None if v.seq() is None else list(v.seq()))
        if isinstance(v, (tuple, list, set, str)): return list(v)
        if isinstance(v, dict): return list(v.keys())
        if isinstance(v, Range):
            n = nz(v.count())
            if n.is_const(): return [unie(v.item(ie(t))) for t in range(max(n.c, 0))]
            return None
        if isinstance(v, T):
            if v.ndim == 0: raise PyExc("TypeError", "iteration over a 0-d tensor")
            n = iconst(nz(v.shape[0]))
            if n is None: return None
            return [torchmod.getitem(v, q) for q in range(n)]
        if isinstance(v, (ZipO, EnumO)): return v.concrete(self)
        if hasattr(v, "__next__") or isinstance(v, (range, type({}.keys()), type({}.values()), type({}.items()), map, filter)): return list(v)
        if isinstance(v, Sym): raise Unsup("iteration over %s" % v.name)
        try: return list(v)
        except TypeError: raise Unsup("iteration over %r" % (v,))

    def getattr(self, o, k):
        import torchmod
        if isinstance(o, T): return torchmod.tattr(o, k)
        if isinstance(o, Mod): return self.modattr(o, k)
        if isinstance(o, Inst):
            if k in o.attrs: return o.attrs[k]
            if k == "__class__": return o.cls
            v = o.cls.lookup(k)
            if v is None:
                if k == "__dict__": return o.attrs
                raise PyExc("AttributeError", "%s has no attribute %s" % (o.cls.name, k))
            return self.bind(v, o)
        if isinstance(o, SuperO):
            for b in o.cls.bases:
                if isinstance(b, Cls):
                    v = b.lookup(k)
                    if v is not None: return self.bind(v, o.self_)
            for b in o.cls.bases:
                h = cur[0].opts.get("symcalls", {}).get(getattr(b, "name", "") + "." + k) if isinstance(b, Sym) else None
                if h: return lambda *a, **kw: h(self, o.self_, *a, **kw)
            if k == "__init__": return lambda *a, **kw: None
            raise PyExc("AttributeError", k)
        if isinstance(o, Cls):
            v = o.lookup(k)
            if v is not None:
                if isinstance(v, StaticM): return v.f
                if isinstance(v, ClassM): return Bound(v.f, o)
                return v
            if k == "apply" and any(isinstance(b, Sym) and b.name.endswith("autograd.Function") for b in o.bases):
                return lambda *a: torchmod.autograd_apply(self, o, a)
            if k == "__name__": return o.name
            raise PyExc("AttributeError", "class %s has no attribute %s" % (o.name, k))
        if isinstance(o, L): return listattr(self, o, k)
        if isinstance(o, dict): return dictattr(self, o, k)
        if isinstance(o, (SNum, IE)) or (isinstance(o, (int, float, complex)) and not isinstance(o, bool)): return torchmod.numattr(o, k)
        if isinstance(o, Func):
            if k == "__name__": return o.name
            raise Unsup("function attribute " + k)
        if isinstance(o, str):
            return strattr(o, k)
        if isinstance(o, torchmod.NATIVE): return getattr(o, k)
        if isinstance(o, Sym):
            return Sym(o.name + "." + k)
        if isinstance(o, tuple): return getattr(o, k)
        if isinstance(o, ExcI) and k == "args": return o.args
        if o is None: raise PyExc("AttributeError", "'NoneType' object has no attribute '%s'" % k)
        if hasattr(o, "vattr"): return o.vattr(k)
        return getattr(o, k)

    def bind(self, v, o):
        if isinstance(v, StaticM): return v.f
        if isinstance(v, ClassM): return Bound(v.f, o.cls)
        if isinstance(v, Prop): return self.call(v.f, [o], {})
        if isinstance(v, Func): return Bound(v, o)
        return v

    def setattr(self, o, k, v):
        R = cur[0]
        if isinstance(o, Inst):
            if getattr(o, "owner", None): R.event("setattr", o.owner, k)
            if R is not None and R.loops: R.loops[-1].attr_set(o, k)
            o.attrs[k] = v
        elif isinstance(o, Mod): 
            if R is not None: R.event("setattr", "module " + o.name, k)
            o.d[k] = v
        elif isinstance(o, T):
            if k == "requires_grad": return
            if k in ("data", "grad"): R.event("setattr", "tensor", k); return
            raise Unsup("tensor attribute set " + k)
        elif isinstance(o, Cls): o.d[k] = v
        elif isinstance(o, Func): pass
        else: setattr(o, k, v)

    def getitem(self, o, key):
        import torchmod
        if isinstance(o, T): return torchmod.getitem(o, key)
        if isinstance(o, L): return list_getitem(self, o, key)
        if isinstance(o, tuple):
            if isinstance(key, slice):
                sl = [None if x is None else unie(deint(x)) for x in (key.start, key.stop, key.step)]
                if any(isinstance(x, IE) for x in sl): raise Unsup("symbolic tuple slice")
                return o[slice(*sl)]
            k = unie(deint(key))
            if isinstance(k, IE): return pick(list(o), k)
            if not -len(o) <= k < len(o): raise PyExc("IndexError", "tuple index out of range")
            return o[k]
        if isinstance(o, dict):
            try:
                if key not in o: raise PyExc("KeyError", str(key))
                return o[key]
            except TypeError: raise Unsup("dict key %r" % (key,))
        if isinstance(o, str):
            if isinstance(key, slice): return o[key]
            return o[key]
        if hasattr(o, "vget"): return o.vget(key)
        if isinstance(o, Sym): return Sym(o.name + "[]")
        if isinstance(o, Cls) or isinstance(o, TypeTag): return o
        if o is None: raise PyExc("TypeError", "'NoneType' object is not subscriptable")
        if isinstance(o, (list, bytes)): return o[key]
        raise Unsup("subscript of %r" % (o,))

    def setitem(self, o, key, v):
        import torchmod
        R = cur[0]
        if isinstance(o, T): return torchmod.setitem(o, key, v)
        if isinstance(o, L):
            if isinstance(key, slice): raise Unsup("list slice assignment")
            if o.loop is not None: return o.loop.store(deint(key), v)
            if R.loops: R.loops[-1].list_mutated(o)
            j = unie(deint(key))
            if o.items is None or isinstance(j, IE): return self.list_store(o, ie(j), v)
            if isinstance(j, IE): raise Unsup("symbolic index store")
            if not -len(o.items) <= j < len(o.items): raise PyExc("IndexError", "list assignment index out of range")
            if getattr(o, "owner", None): R.event("write", o.owner)
            o.items[j] = v
            return
        if isinstance(o, dict):
            if getattr(o, "owner", None): R.event("write", o.owner)
            try: o[key] = v
            except TypeError: raise Unsup("dict key %r" % (key,))
            return
        if hasattr(o, "vset"): return o.vset(key, v)
        raise Unsup("item store on %r" % (o,))

    def list_store(self, o, j, v):
        """l[j] = v with a symbolic position or length"""
        R = cur[0]
        n = nz(o.length) if o.items is None else ie(len(o.items))
        j = nz(j)
        if not R.branch(band(icmp("<=", 0, j), icmp("<", j, n))):
            if R.branch(band(icmp("<=", ineg(n), j), icmp("<", j, 0))): j = nz(iadd(j, n))
            else: raise PyExc("IndexError", "list assignment index out of range")
        if getattr(o, "owner", None): R.event("write", o.owner)
        o.nst, o.lastst = o.nst + 1, v
        items, g = o.items, o.getf
        get = (lambda q: pick(items, q)) if items is not None else g
        if items is not None: items = list(items)

        def new(q):
            c = icmp("==", q, j)
            d = cur[0].ctx.decide(c) if c not in (TRUE, FALSE) else (c is TRUE)
            if d is True: return v
            if d is False: return get(q)
            with cur[0].under(bnot(c)):             # an entry below is read only where this store is not
                if not cur[0].ctx.feasible(): return v
                old = get(q)
            if old is None or v is None: return v if cur[0].branch(c) else old
            return merge_vals(c, v, old)
        o.items, o.length, o.getf = None, n, new

    def list_append(self, l, v):
        R = cur[0]
        if l.loop is not None: return l.loop.append(v)
        if R is not None and R.loops: R.loops[-1].list_mutated(l)
        if getattr(l, "owner", None): R.event("write", l.owner)
        if l.items is None:
            n, g = l.length, l.getf
            l.length = iadd(n, 1)
            l.getf = lambda j, n=n, g=g, v=v: merge_at(j, n, v, g)
            return
        l.items.append(v)

    def list_extend(self, l, v):
        seq = self.iterate(v)
        if seq is None:
            c = list_concat(l, v)
            l.items, l.length, l.getf = c.items, c.length, c.getf
            return
        for x in seq: self.list_append(l, x)

    # ---------------- calls
    def call(self, f, args, kw):
        R = cur[0]
        if isinstance(f, Bound): return self.call(f.f, [f.self_] + list(args), kw)
        if isinstance(f, StaticM): return self.call(f.f, args, kw)
        if isinstance(f, Func): return self.call_func(f, args, kw)
        if isinstance(f, Cls):
            o = Inst(f)
            init = f.lookup("__init__")
            if init is not None: self.call(init, [o] + list(args), kw)
            elif args and not any(isinstance(b, Cls) for b in f.bases): raise PyExc("TypeError", "%s() takes no arguments" % f.name)
            return o
        if isinstance(f, Inst):
            c = f.cls.lookup("__call__")
            if c is None: raise PyExc("TypeError", "not callable")
            return self.call(c, [f] + list(args), kw)
        if isinstance(f, ExcT): return f(*args, **kw)
        if isinstance(f, Sym): return self.call_sym(f, args, kw)
        if isinstance(f, TypeTag) and f.name in ("Tensor", "torch.Tensor") and len(args) == 1 and not kw and isinstance(args[0], (L, tuple)):
            import torchmod
            return torchmod.TORCH.d["tensor"](args[0], dtype=torchmod.DType("f32"))
        if isinstance(f, TypeTag): raise Unsup("construction of %s" % f.name)
        if f is None: raise PyExc("TypeError", "'NoneType' object is not callable")
        if f in (StaticM, ClassM, Prop): return f(args[0])
        if callable(f):
            if getattr(f, "wants_interp", False): return f(self, *args, **kw)
            try: return f(*args, **kw)
            except TypeError as e:
                if "unexpected keyword" in str(e) or "positional argument" in str(e): raise Unsup("call of %s: %s" % (getattr(f, "__name__", f), e))
                raise
        raise PyExc("TypeError", "%r is not callable" % (f,))

    def call_sym(self, f, args, kw):
        h = cur[0].opts.get("symcalls", {}).get(f.name)
        if h: return h(self, *args, **kw)
        n = f.name
        if n.startswith(("warnings.", "tqdm")) or n == "print": return None
        if cur[0].opts.get("loading"): return Sym(n + "()")
        raise Unsup("call of unmodelled %s" % n)

    def bindargs(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        args = list(args)
        for n, v in zip(names, args): d[n] = v
        if len(args) > len(names):
            if a.vararg is None: raise PyExc("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, len(names), len(args)))
            d[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None: d[a.vararg.arg] = ()
        kwn = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in d and k in names: raise PyExc("TypeError", "%s() got multiple values for argument '%s'" % (f.name, k))
            if k in names or k in kwn: d[k] = v
            else: extra[k] = v
        if a.kwarg is not None: d[a.kwarg.arg] = extra
        elif extra: raise PyExc("TypeError", "%s() got an unexpected keyword argument '%s'" % (f.name, list(extra)[0]))
        nd = len(f.defaults)
        for n, v in zip(names[len(names) - nd:], f.defaults):
            if n not in d: d[n] = v
        for k in kwn:
            if k not in d:
                if k in f.kwdefaults: d[k] = f.kwdefaults[k]
                else: raise PyExc("TypeError", "missing keyword-only argument " + k)
        for n in names:
            if n not in d: raise PyExc("TypeError", "%s() missing required argument '%s'" % (f.name, n))
        return d

    def call_func(self, f, args, kw):
        R = cur[0]
        d = self.bindargs(f, args, kw)
        if R is not None:
            R.calls.add(f.qual)
            c = R.contracts.get(f.qual)
            if c is not None:
                self.curf = f
                v = c(self, d)
                if v is not NotImplemented: return v
        ip = Interp(self.ld, f.mod)
        env = Env(f.env, f.mod, d)
        if "__class__" not in d and "." in f.qual[len(f.mod.name) + 1:]:
            cn = f.qual[len(f.mod.name) + 1:].split(".")[0]
            if cn in f.mod.d: env.d["__class__"] = f.mod.d[cn]
        if R is not None:
            R.depth += 1
            R.callstack.append(f.qual)
            if R.depth > 60: raise Unsup("call depth")
        try:
            if isinstance(f.node, ast.Lambda): return ip.ev(f.node.body, env)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(f.node)): raise Unsup("generator " + f.name)
            ip.exec_body(f.node.body, env)
        except ReturnX as r: return r.v
        finally:
            if R is not None: R.depth -= 1; R.callstack.pop()
        return None


def walk_own(fn):
    st = list(fn.body)
    while st:
        x = st.pop()
        yield x
        for c in ast.iter_child_nodes(x):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): st.append(c)


class SymIter(Exception):
    def __init__(self, it): self.it = it


class SuperO:
    def __init__(self, c, s): self.cls, self.self_ = c, s


class ZipO:
    def __init__(self, its): self.its = its
    def concrete(self, ip):
        ls = [ip.iterate(x) for x in self.its]
        if all(l is None for l in ls): return None
        if any(l is None for l in ls):
            k = min(len(l) for l in ls if l is not None)
            for q, (l, x) in enumerate(zip(ls, self.its)):
                if l is not None: continue
                if not isinstance(x, L) or x.loop is not None or cur[0].ctx.decide(icmp("<=", ie(k), ie(x.len()))) is not True: raise Unsup("zip of symbolic and concrete sequences")
                ls[q] = [x.get(ie(j)) for j in range(k)]
        return [tuple(x) for x in zip(*ls)]


class EnumO:
    def __init__(self, it, start=0): self.it, self.start = it, start
    def concrete(self, ip):
        l = ip.iterate(self.it)
        if l is None: return None
        return [(unie(iadd(self.start, k)), x) for k, x in enumerate(l)]


# ------------------------------------------------------------------ lists
def merge_vals(c, a, b):
    """ite over program values"""
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    R = cur[0]
    if isinstance(a, T) and isinstance(b, T) and a.ndim == b.ndim and all(same(x, y) for x, y in zip(a.shape, b.shape)):
        ra, rb = a.reader(), b.reader()
        def f(i):
            if R.ctx is cur[0].ctx:
                d = cur[0].ctx.decide(c)
                if d is True: return ra(i)
                if d is False: return rb(i)
            return ite(c, ra(i), rb(i))
        return T(a.shape, f, a.dtype if a.dtype == b.dtype else join(a.dtype, b.dtype), lib=a.lib)
    if R.branch(c): return a
    return b


def merge_at(j, n, v, g):
    R = cur[0]
    d = R.ctx.decide(icmp("==", j, n))
    if d is True: return v
    if d is False: return g(j)
    return merge_vals(icmp("==", j, n), v, g(j))


def list_concat(a, b):
    def asl(x):
        if isinstance(x, L): return x
        return L(cur_iter(x))
    a, b = asl(a), asl(b)
    if a.concrete() and b.concrete(): return L(a.items + b.items)
    # the value is that of the two lists now, whatever is done to them later
    a, b = [x if x.loop is not None else L(x.items, x.length, x.getf) for x in (a, b)]
    la, lb = ie(a.len()), ie(b.len())
    def g(j):
        R = cur[0]
        c = icmp("<", j, la)
        d = R.ctx.decide(c)
        if d is True: return a.get(j)
        if d is False: return b.get(isub(j, la))
        if a.items is not None and a.loop is None:
            v = None
            for k, it in enumerate(a.items):
                pass
            res = lazy_b(b, isub(j, la))
            for k in range(len(a.items) - 1, -1, -1): res = merge_vals(icmp("==", j, k), a.items[k], res)
            return res
        if b.items is not None and b.loop is None:
            res = a.getf(j)
            for k in range(len(b.items)): res = merge_vals(icmp("==", j, iadd(la, k)), b.items[k], res)
            return res
        return merge_vals(c, a.getf(j), b.getf(isub(j, la)))
    return L(None, iadd(la, lb), g)


def lazy_b(b, j): return b.getf(j) if b.items is None else pick(b.items, j)


def cur_iter(x):
    v = INTERP[0].iterate(x)
    if v is None: raise Unsup("list of symbolic sequence")
    return v


INTERP = [None]


def list_getitem(ip, l, key):
    R = cur[0]
    if isinstance(key, slice):
        st, sp, step = [None if x is None else deint(x) for x in (key.start, key.stop, key.step)]
        step = 1 if step is None else iconst(step)
        if l.concrete() and all(x is None or x.is_const() for x in (st, sp)):
            return L(l.items[slice(None if st is None else st.c, None if sp is None else sp.c, step)])
        n = ie(l.len())
        if step == -1 and st is None and sp is None:
            if l.loop is not None: raise Unsup("reversal inside the building loop")
            return L(None, n, lambda j: l.get(isub(isub(n, 1), j)))
        if step < 1: raise Unsup("list slice step")
        lo = clampidx(st, n, 0)
        hi = clampidx(sp, n, n)
        ln = isub(hi, lo)
        if step != 1: ln = iop("fdiv", iadd(ln, step - 1), ie(step))
        if not R.branch(icmp("<=", 0, ln)): ln = ie(0)
        if ln.is_const() and l.loop is None: return L([l.get(iadd(lo, q * step)) for q in range(ln.c)])
        if l.loop is not None: raise Unsup("slice of a list under construction")
        return L(None, ln, lambda j: l.get(iadd(lo, iscale(j, step))))
    return l.get(deint(key))


def clampidx(i, n, default):
    """python slice bound -> IE in [0, n]"""
    R = cur[0]
    if i is None: return ie(default)
    i = nz(i)
    if i.is_const():
        if i.c >= 0:
            if R.branch(icmp("<=", i, n)): return i
            return ie(n)
        v = iadd(n, i)
        if R.branch(icmp("<=", 0, v)): return v
        return ie(0)
    if R.branch(icmp("<", i, 0)):
        i = iadd(i, n)
        if R.branch(icmp("<", i, 0)): return ie(0)
    if R.branch(icmp("<=", i, n)): return i
    return ie(n)


def listattr(ip, l, k):
    R = cur[0]
    if k == "append": return lambda v: ip.list_append(l, v)
    if k == "extend": return lambda v: ip.list_extend(l, v)
    if k == "copy": return lambda: L(l.items) if l.concrete() else L(None, l.length, l.getf)
    if k == "reverse":
        def rev():
            if l.loop is not None: raise Unsup("reverse inside loop")
            if R.loops: R.loops[-1].list_mutated(l)
            if l.items is not None: l.items.reverse()
            else:
                n, g = l.length, l.getf
                l.getf = lambda j: g(isub(isub(n, 1), j))
        return rev
    if k == "pop":
        def pop(i=-1):
            if l.loop is not None: raise Unsup("pop in loop")
            if R.loops: R.loops[-1].list_mutated(l)
            if l.items is None: raise Unsup("pop of symbolic list")
            return l.items.pop(i)
        return pop
    if k == "appendleft": return lambda v: listattr(ip, l, "insert")(0, v)
    if k == "popleft": return lambda: listattr(ip, l, "pop")(0)
    if k == "insert":
        def ins(i, v):
            if l.loop is not None: return l.loop.insert(deint(i), v)
            if R.loops: R.loops[-1].list_mutated(l)
            if l.items is None: raise Unsup("insert into symbolic list")
            l.items.insert(iconst(deint(i)), v)
        return ins
    if k == "index": return lambda v: l.items.index(v)
    if k == "sort": raise Unsup("list.sort")
    raise PyExc("AttributeError", "list has no attribute " + k)


def dictattr(ip, d, k):
    if k == "items": return lambda: L([(a, b) for a, b in d.items()])
    if k == "keys": return lambda: L(list(d.keys()))
    if k == "values": return lambda: L(list(d.values()))
    if k == "get": return lambda key, default=None: d.get(key, default)
    if k == "update":
        def upd(o=None, **kw):
            if o: d.update(o)
            d.update(kw)
        return upd
    if k == "copy": return lambda: dict(d)
    if k == "pop": return lambda key, *dflt: d.pop(key, *dflt)
    if k == "setdefault": return lambda key, v=None: d.setdefault(key, v)
    if k == "clear": return lambda: d.clear()
    raise PyExc("AttributeError", "dict has no attribute " + k)


def strattr(s, k):
    if k == "format": return lambda *a, **kw: s
    f = getattr(s, k)
    def g(*a, **kw):
        a = [list(x.items) if isinstance(x, L) else x for x in a]
        r = f(*a, **kw)
        return L(r) if isinstance(r, list) else r
    return g


def pyexpr(src, mod="pymiediff.multishell", **names):
    """value of a Python expression in the namespace of a module (used to state facts in the language of the code)"""
    ip = INTERP[0]
    m = ip.ld.load(mod)
    ip2 = Interp(ip.ld, m)
    return ip2.ev(ast.parse(src, mode="eval").body, Env(None, m, dict(names)))
