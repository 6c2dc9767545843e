"""Obligations: run a function of /repo under its precondition on symbolic arguments and
discharge its postcondition on every path."""
import time, sys, os
sys.setrecursionlimit(20000)
from core import *
import core
from tensor import *
from interp import *
import interp, torchmod, loops, families, prove
from prove import prove_all
from smt import Ctx


def tens(name, shape, dtype="c128", owner=None, grad=False):
    """fresh symbolic tensor argument"""
    nm = name
    t = T(shape, lambda idx: leaf(nm, cat(dtype) != 3, idx), dtype, owner=owner or "argument " + name)
    return t


def postens(name, shape, dtype="f64", owner=None):
    """fresh tensor of positive reals"""
    nm = name + "++"
    return T(shape, lambda idx: leaf(nm, True, idx), dtype, owner=owner or "argument " + name)


def spec(shape, f, dtype="c128"):
    """tensor given by a formula"""
    return T(shape, lambda idx: f(*idx), dtype, owner=None)


def tiny_hook(R, c):
    """branch conditions that are singular-point guards"""
    neg_ = c.op == "not"
    t = torchmod.is_tiny(c.a[0] if neg_ else c)
    if t is None or R.opts.get("notiny"): return None
    R.note("generic-point assumption: comparisons of a magnitude with a negligible constant (1e-20; 1e-7 or exact zero for dimensionless arguments) take their generic value")
    return t[0] != neg_


def severed(t):
    """a sub-term that depends on an input but through which no gradient flows, or None"""
    if not has_detach(t): return None
    seen = set()
    for x in value_walk(t, seen):
        if x.op == "detach" and any(l for l in leaves(x)): return x
    return None


def value_walk(t, seen):
    """sub-terms in value position (conditions and bounds are not differentiated)"""
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        yield x
        if x.op == "detach": continue
        if x.op == "ite": st += [x.a[1], x.a[2]]
        elif x.op in ("b2n",): continue
        else: st += [c for c in children(x) if isinstance(c, Node)]


def func_name(o): return o.get("_func", "")


class Fail(Exception):
    def __init__(self, what, info=None): self.what, self.info = what, info or {}


class Obl:
    """one verified function / lemma: a list of named obligations with status"""
    def __init__(self, name): self.name, self.items = name, []


class Session:
    def __init__(self): 
        self.results = []     # (unit, obligation, status, detail)
        self.units = {}
        self.assumptions = set()
        self.t0 = time.time()

    def add(self, unit, ob, ok, detail=""):
        self.results.append((unit, ob, bool(ok), detail))


S = Session()


class U:
    """checker handed to a contract: collects obligations on one path"""
    def __init__(self, R, unit, path): self.R, self.unit, self.path, self.fails = R, unit, path, []
    def ob(self, name, ok, detail=""):
        S.add(self.unit, "%s [path %s]" % (name, self.path), ok, detail)

    def shape(self, name, t, shape):
        if not isinstance(t, T): self.ob(name + ": is a tensor", False, "got %r" % (t,)); return False
        ok = len(t.shape) == len(shape) and all(same(a, b) is True for a, b in zip(t.shape, shape))
        self.ob(name + ": shape", ok, "got %s expected %s" % ([str(nz(x)) for x in t.shape], [str(nz(x)) for x in shape] if not ok else ""))
        return ok

    def eq(self, name, t, shape, f, lo=None, given=(), grad=True):
        """t has the shape and t[idx] == f(*idx) for all in-range idx"""
        R = self.R
        if not self.shape(name, t, shape): return False
        idx = []
        facts = []
        syms = []
        for k, d in enumerate(shape):
            c = iconst(nz(d))
            if c == 1: idx.append(ie(0)); continue
            s = fresh("i")
            syms.append(s)
            idx.append(isym(s))
            facts += [icmp("<=", (lo or {}).get(k, 0), isym(s)), icmp("<", isym(s), d)]
        info = {}
        try:
            with R.scope(tuple(syms), *facts, *given):
                a, b = t.at(*idx), f(*idx)
                cut = severed(R.norm(a)) if grad and R.opts.get("grad", True) else None
                if grad: self.ob("gradient path: " + name, cut is None, "cut at " + show(cut)[:300] if cut is not None else "")
                r = prove_all(R, [(core.strip_detach(a), core.strip_detach(b))], info=info)
        except (Unsup, PyExc) as e:
            r = None; info["reason"] = "%s: %s" % (type(e).__name__, e)
        self.ob(name + ": value", r is True, info)
        return r is True

    def frame(self, name="arguments unchanged"):
        """no write to storage owned by the caller, no write to module state"""
        w = [e for e in self.R.events if e[0] in ("write", "setattr") and str(e[1]).split(" ")[0] in ("argument", "module", "material", "particle")]
        self.ob("frame: " + name, not w, "; ".join(map(str, w))[:400])

    def term(self, name, a, b, grad=False):
        info = {}
        if grad:
            cut = severed(self.R.norm(a))
            self.ob("gradient path: " + name, cut is None, "cut at " + show(cut)[:300] if cut is not None else "")
            a, b = core.strip_detach(a), core.strip_detach(b)
        r = prove_all(self.R, [(a, b)], info=info)
        self.ob(name, r is True, info)
        return r is True

    def fact(self, name, c):
        d = c if isinstance(c, bool) else self.R.ctx.decide(self.R.norm(c))
        self.ob(name, d is True, "" if d is True else show(c) if isinstance(c, Node) else "")
        return d is True


def unit(name, fn, opts=None, expect_exc=False, max_paths=200):
    """fn(R, U) performs calls and checks; every path must end without error unless expect_exc"""
    o = {"families": families.STD, "tiny": tiny_hook}
    o.update(opts or {})
    S.units.setdefault(name, 0)
    t0 = time.time()
    n = [0]

    def go(R):
        n[0] += 1
        u = U(R, name, n[0])
        r = fn(R, u)
        if func_name(o) != "lemma": u.frame()
        return r
    seen = [len(S.results)]

    def wrapped(R):
        # a Restart re-runs the path: forget obligations of the aborted run
        k = len(S.results)
        try: return go(R)
        except Restart:
            del S.results[k:]
            raise
    paths = explore(wrapped, o, max_paths)
    for i, p in enumerate(paths):
        if p.kind == "exc" and p.run.ctx.feasible():
            S.add(name, "no exception [path]", False, "%s: %s" % (p.value.cls, p.value.msg))
        elif p.kind == "unsup" and p.run.ctx.feasible():
            S.add(name, "within the verified subset [path]", False, p.value)
        for l in p.run.lemmas: S.add(name, l[0], True, "")
        S.assumptions |= p.run.notes
    S.units[name] += time.time() - t0
    return paths


def report(verbose=True):
    bad = [r for r in S.results if not r[2]]
    for u in S.units:
        rs = [r for r in S.results if r[0] == u]
        print("%-40s %4d/%4d  %.1fs" % (u, sum(r[2] for r in rs), len(rs), S.units[u]))
    if verbose:
        for r in bad:
            print("FAILED", r[0], "|", r[1], "|", r[3] if not isinstance(r[3], dict) else "")
            if isinstance(r[3], dict):
                for k, v in r[3].items():
                    if k != "terms": print("      ", k, ":", v)
    return bad
