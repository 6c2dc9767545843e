"""contracts on the core-shell backends: _miecoef (torch, scipy) and mie_coefficients through them"""
from base import *
import callee, layouts, c_mie
from core import *
from tensor import *
from layouts import In
from miespec import Sphere, next_T

I = num(0, 1)


def chi(n, z): return mul(I, sub(F.zeta(n, z), F.psi(n, z)))        # zeta = psi - i chi
def dchi(n, z): return mul(I, sub(F.dzeta(n, z), F.dpsi(n, z)))


def outer2(kind, n, x, y, m1, m2):
    """scattering coefficient of the boundary-value problem with two regions"""
    T1 = next_T(kind, ZERO, n, mul(m1, x), mul(m2, x), m1, m2)
    return next_T(kind, T1, n, mul(m2, y), y, m2, ONE)


def continuity(u, get, sh, x, y, m1, m2):
    """B&H (8.1): the eight conditions on internal and external coefficients; get(name, i, p, w)"""
    def cond(name, f):
        u.eq(name, T(sh, lambda i: f(iadd(i[0], 1), lambda nm: get(nm, *i), x(*i[1:]), y(*i[1:]), m1(*i[1:]), m2(*i[1:])), "c128"), sh, lambda *i: ZERO, grad=False)
    P, dP, X, dX, Z, dZ = F.psi, F.dpsi, chi, dchi, F.zeta, F.dzeta
    cond("core, magnetic type, E", lambda n, g, x, y, m1, m2: sub(mul(m2, g("c_n"), P(n, mul(m1, x))), mul(m1, sub(mul(g("f_n"), P(n, mul(m2, x))), mul(g("v_n"), X(n, mul(m2, x)))))))
    cond("core, magnetic type, H", lambda n, g, x, y, m1, m2: sub(mul(g("c_n"), dP(n, mul(m1, x))), sub(mul(g("f_n"), dP(n, mul(m2, x))), mul(g("v_n"), dX(n, mul(m2, x))))))
    cond("core, electric type, H", lambda n, g, x, y, m1, m2: sub(mul(g("d_n"), P(n, mul(m1, x))), sub(mul(g("g_n"), P(n, mul(m2, x))), mul(g("w_n"), X(n, mul(m2, x))))))
    cond("core, electric type, E", lambda n, g, x, y, m1, m2: sub(mul(m2, g("d_n"), dP(n, mul(m1, x))), mul(m1, sub(mul(g("g_n"), dP(n, mul(m2, x))), mul(g("w_n"), dX(n, mul(m2, x)))))))
    cond("surface, magnetic type, E", lambda n, g, x, y, m1, m2: sub(mul(m2, sub(P(n, y), mul(g("b_n"), Z(n, y)))), sub(mul(g("f_n"), P(n, mul(m2, y))), mul(g("v_n"), X(n, mul(m2, y))))))
    cond("surface, magnetic type, H", lambda n, g, x, y, m1, m2: sub(sub(dP(n, y), mul(g("b_n"), dZ(n, y))), sub(mul(g("f_n"), dP(n, mul(m2, y))), mul(g("v_n"), dX(n, mul(m2, y))))))
    cond("surface, electric type, H", lambda n, g, x, y, m1, m2: sub(sub(P(n, y), mul(g("a_n"), Z(n, y))), sub(mul(g("g_n"), P(n, mul(m2, y))), mul(g("w_n"), X(n, mul(m2, y))))))
    cond("surface, electric type, E", lambda n, g, x, y, m1, m2: sub(mul(m2, sub(dP(n, y), mul(g("a_n"), dZ(n, y)))), sub(mul(g("g_n"), dP(n, mul(m2, y))), mul(g("w_n"), dX(n, mul(m2, y))))))


BES = {SP + ".sph_jn_torch": callee.seqc(F.jn), SP + ".sph_jn_torch_via_rec": callee.seqc(F.jn), SP + ".sph_yn_torch": callee.seqc(F.yn),
       SP + ".sph_jn": callee.seqc(F.jn), SP + ".sph_yn": callee.seqc(F.yn)}
MODES = {"torch/recurrence": dict(backend="torch", which_jn="recurrence"), "torch/ratios": dict(backend="torch", which_jn="ratios"), "scipy": dict(backend="scipy", which_jn="recurrence"), "torch/single": dict(backend="torch", which_jn="recurrence", precision="single")}


def mk(tag, opt):
    @contract("_miecoef/" + tag, MS + "._miecoef", "C02", contracts=BES)
    def f(R, u):
        P, W, n = dims(R, "P", "W", "n")
        x, y, m1, m2 = [tens(q, (P, W)) for q in ("x", "y", "m1", "m2")]
        d = call(MS, "_miecoef", x, y, unie(n), m1, m2, return_internal=True, **opt)
        e = call(MS, "_miecoef", x, y, unie(n), m1, m2, **opt)
        u.ob("only external coefficients unless requested", sorted(map(str, e.keys() if isinstance(e, dict) else e.d.keys())) == ["a_n", "b_n"])
        sh = (n, P, W)
        for nm, kind in (("a_n", "A"), ("b_n", "B")):
            for t, q in ((d, ""), (e, " (external only)")):
                u.eq(nm + q, t[nm], sh, lambda i, p, w: outer2(kind, iadd(i, 1), x.at(p, w), y.at(p, w), m1.at(p, w), m2.at(p, w)))
        for nm in ("c_n", "d_n", "f_n", "g_n", "v_n", "w_n"): u.shape(nm, d[nm], sh)
        continuity(u, lambda nm, i, p, w: d[nm].at(i, p, w), sh, x.at, y.at, m1.at, m2.at)
for _t, _o in MODES.items(): mk(_t, _o)


def c_miecoef(sph, box):
    """_miecoef seen by mie_coefficients: coefficients of the two-region problem when the arguments describe it"""
    @callee.guard0
    def c(d):
        n = callee.asorder(d["n"])
        ok = n is not None and cur[0].ctx.decide(icmp("<=", 1, n)) is True and isinstance(d["return_internal"], bool)
        for k in ("backend", "precision", "which_jn"): ok = ok and d[k] == box["opt"][k]
        if not ok: return None
        sh = tuple(d["x"].shape)
        a = box["a"]
        last = isub(a.L, 1)
        if len(sh) != 2 or not (callee.same(sh[0], a.P) and callee.same(sh[1], a.W)): return None
        for nm, f in (("x", lambda p, w: a.x(ie(0), p, w)), ("y", lambda p, w: a.x(last, p, w)), ("m1", lambda p, w: a.m(ie(0), p, w)), ("m2", lambda p, w: a.m(last, p, w))):
            if not callee.holds(d[nm], sh, f): return None
        mk_ = lambda nm: T((n,) + sh, lambda i: callee.cleaf(nm, *i), "c128")
        return {nm: mk_(nm) for nm in (callee.NAMES8 if d["return_internal"] else callee.NAMES8[:2])}
    return c


def mk_public(layer, k0, env, mode, opt, internal):
    """mie_coefficients forwards size parameters, relative indices and every option, and returns all coefficients"""
    box = {}
    o = dict(contracts={MS + "._miecoef": c_miecoef(None, box)}, squares=layouts.SQ)

    @contract("mie_coefficients/%s/%s/%s/%s%s" % (mode, layer, k0, env, "/internal" if internal else ""), MS + ".mie_coefficients", "C02 C07" if layer not in ("full",) else "C02 C06 C07", **o)
    def f(R, u):
        (n,) = dims(R, "n")
        a = In(R, layer, k0, env)
        full = dict(backend="torch", precision="double", which_jn="recurrence"); full.update(opt)
        box.update(a=a, opt=full)
        d = call(MS, "mie_coefficients", n_max=unie(n), return_internal=internal, **a.kw, **opt)
        for nm in (callee.NAMES8 if internal else callee.NAMES8[:2]):
            u.eq(nm, d[nm], (n, a.P, a.W), lambda i, p, w: callee.cleaf(nm, i, p, w))
        c_mie.check_meta(u, a, d, n)


for _t, _o in MODES.items():
    for _l in ("h-batch", "c-batch", "c-numbers", "h-spectrum", "c-spectrum", "c-batch-const"):
        mk_public(_l, "number" if _l == "c-numbers" else "vec", "one", _t, _o, True)
    mk_public("c-batch", "vec", "vec", _t, _o, False)


def mk_meta(mode, opt):
    box = {}

    @contract("mie_coefficients, orders and wavenumbers/%s" % mode, MS + ".mie_coefficients", "C03 C04 C05", contracts={MS + "._miecoef": c_miecoef(None, box)}, squares=layouts.SQ)
    def f(R, u):
        (n,) = dims(R, "n")
        a = In(R, "c-batch", "vec", "vec")
        full = dict(backend="torch", precision="double", which_jn="recurrence"); full.update(opt)
        box.update(a=a, opt=full)
        d = call(MS, "mie_coefficients", n_max=unie(n), **a.kw, **opt)
        for key in ("a_n", "b_n"): u.shape(key, d[key], (n, a.P, a.W))
        c_mie.check_meta(u, a, d, n)


for _t, _o in MODES.items(): mk_meta(_t, _o)


# multilayer arrays with one or two layers through the alternative backends; more layers are rejected
def mk_layers(mode, opt):
    box = {}

    @contract("mie_coefficients/%s/layers" % mode, MS + ".mie_coefficients", "C02 C07", contracts={MS + "._miecoef": c_miecoef(None, box)}, squares=layouts.SQ)
    def f(R, u):
        (n,) = dims(R, "n")
        a = In(R, "full", "vec", "vec")
        full = dict(backend="torch", precision="double", which_jn="recurrence"); full.update(opt)
        box.update(a=a, opt=full)
        two = R.branch(icmp("<=", a.L, 2)) if hasattr(R, "branch") else None
        try: d = call(MS, "mie_coefficients", n_max=unie(n), return_internal=True, **a.kw, **opt)
        except PyExc as e:
            u.ob("rejected only when there are more than two layers", R.ctx.decide(icmp("<=", 3, a.L)) is True, "%s: %s" % (e.cls, e.msg))
            return
        u.ob("more than two layers are rejected", R.ctx.decide(icmp("<=", a.L, 2)) is True)
        for nm in callee.NAMES8: u.eq(nm, d[nm], (n, a.P, a.W), lambda i, p, w: callee.cleaf(nm, i, p, w))
        c_mie.check_meta(u, a, d, n)
for _t, _o in MODES.items(): mk_layers(_t, _o)
