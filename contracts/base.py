"""shared pieces of the contract files"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from verify import *
import families as F
import prove, torchmod, interp

REG = {}          # unit name -> (function under contract, fn, opts)
OWN = {}          # property -> contracts whose every obligation belongs to it
PROPS = {}        # property -> [unit names]
SP, MS, HP, MT, MN, TG = ("pymiediff.special", "pymiediff.multishell", "pymiediff.helper.helper", "pymiediff.materials.mat", "pymiediff.main", "pymiediff.helper.tg")


def contract(name, func, props, **opts):
    """register a contract: fn(R, u) runs `func` on symbolic arguments and states its obligations"""
    if func.startswith(SP + "."): opts.setdefault("generic", True)   # special functions: dimensionless arguments, guards up to 1e-7 are singular points
    def deco(fn):
        REG[name] = (func, fn, dict(opts, _func=func))
        for p in props.split(): PROPS.setdefault(p, []).append(name); OWN.setdefault(p, set()).add(name)
        return fn
    return deco


RESTS = []        # (property, contract names it rests on besides its own)


def rests(prop, *names): RESTS.extend((prop, n) for n in names)


def resolve_rests():
    import fnmatch
    for p, pat in RESTS:
        ns = [n for n in REG if n == pat] or [n for n in REG if fnmatch.fnmatchcase(n, pat)]
        if not ns: raise KeyError("no contract " + pat)
        for n in ns:
            if n not in PROPS.setdefault(p, []): PROPS[p].append(n)


LD = None
def loader():
    global LD
    if LD is None: LD = torchmod.new_loader()
    return LD


def call(mod, name, *a, **k):
    f = loader().func(mod, name)
    return interp.INTERP[0].call(f, list(a), k)


def dims(R, *names, lo=1):
    out = []
    for n in names:
        s = isym(n)
        R.ctx.assume(icmp("<=", lo, s))
        out.append(s)
    return out


def order(R, lo=0):
    n = isym("n")
    R.ctx.assume(icmp("<=", lo, n))
    return n


def seq(f, n, *z):
    """(n+1, ...) tensor of a function of the order at the elements of the given tensors"""
    sh = z[0].shape
    return spec((iadd(n, 1),) + tuple(sh), lambda k, *i: f(k, *[t.at(*i) for t in z]))


def pye(src, **names):
    loader().load(MS)
    return interp.pyexpr(src, **names)


def cond_of(v):
    """truth condition of an interpreted value"""
    if isinstance(v, bool): return TRUE if v else FALSE
    if isinstance(v, SBool): return v.node
    if isinstance(v, T): return n2b(v.at())
    raise Unsup("condition of %r" % (v,))


def assume(R, src, **names): R.ctx.assume(cond_of(pye(src, **names)))
