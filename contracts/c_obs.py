"""contracts on the observables: cross_sections, angular_scattering"""
from base import *
import core, layouts, callee
from core import *
from tensor import *
from layouts import In
from callee import cleaf


def pickk(t, x, y):
    c = iconst(nz(t))
    return (x, y)[c] if c is not None else ite(icmp("==", t, 0), x, y)


def setup(R, box, layer="full", k0="vec", env="vec", n_given=True, **opt):
    (n,) = dims(R, "n")
    a = In(R, layer, k0, env)
    o = dict(backend="pena", precision="double", which_jn="recurrence"); o.update(opt)
    box.update(a=a, n=n, opt=o, n_given=n_given or None)
    kw = dict(a.kw); kw.update(opt)
    if n_given: kw["n_max"] = unie(n)
    return a, n, kw


def obs_opts(box, **kw):
    o = dict(contracts=dict(callee.SPECIAL, **{MS + ".mie_coefficients": callee.c_mie(box)}), squares=layouts.SQ)
    o["contracts"][SP + ".pi_tau"] = callee.c_pi_tau
    o.update(kw)
    return o


def A(i, p, w): return cleaf("a_n", i, p, w)
def B(i, p, w): return cleaf("b_n", i, p, w)


def sumn(n, f):
    v = fresh("s")
    return ssum(v, 0, n, f(isym(v)))


def tot(n, f): return sumn(n, lambda i: add(f(ie(0), i), f(ie(1), i)))


def cs_contract(tag, layer, k0, env, n_given=True, props="C03 C06", **opt):
    box = {}

    @contract("cross_sections/" + tag, MS + ".cross_sections", props, **obs_opts(box))
    def f(R, u):
        a, n, kw = setup(R, box, layer, k0, env, n_given, **opt)
        d = call(MS, "cross_sections", **kw)
        P, W, last = a.P, a.W, isub(a.L, 1)
        # definitions: multipole type t (0 electric, 1 magnetic), order i + 1
        pre = lambda i, w: re(div(mul(num(2), core.PI, fint(iadd(iscale(ie(i), 2), 3))), mul(a.k(w), a.k(w))))
        ext = lambda t, i, p, w: mul(pre(i, w), re(pickk(t, A(i, p, w), B(i, p, w))))
        sca = lambda t, i, p, w: mul(pre(i, w), abs2(pickk(t, A(i, p, w), B(i, p, w))))
        ab = lambda t, i, p, w: sub(ext(t, i, p, w), sca(t, i, p, w))
        geo = lambda p, w: mul(core.PI, mkpow(a.r(p, last), Fr(2)))
        for nm, g in (("ext", ext), ("sca", sca), ("abs", ab)):
            u.eq("cs_%s_multipoles by definition" % nm, d["cs_%s_multipoles" % nm], (2, n, P, W), g)
            u.eq("q_%s_multipoles = cs / geometric" % nm, d["q_%s_multipoles" % nm], (2, n, P, W), lambda t, i, p, w: div(g(t, i, p, w), geo(p, w)))
            u.eq("cs_%s = sum of multipoles" % nm, d["cs_" + nm], (P, W), lambda p, w: tot(n, lambda t, i: g(t, i, p, w)))
            u.eq("q_%s = cs / geometric" % nm, d["q_" + nm], (P, W), lambda p, w: div(tot(n, lambda t, i: g(t, i, p, w)), geo(p, w)))
        u.eq("cs_geo", d["cs_geo"], (1, P, W), lambda z, p, w: geo(p, w))
        one = iconst(nz(W)) == 1
        u.eq("wavelength = 2 pi / k0", d["wavelength"], () if one else (W,), lambda *w: div(mul(num(2), core.PI), a.k0(*w or (ie(0),))))
        u.eq("k0", d["k0"], () if one else (W,), lambda *w: a.k0(*w or (ie(0),)))
        # energy conservation: extinction = scattering + absorption, totals and multipoles
        cx, cs, ca = d["cs_ext"], d["cs_sca"], d["cs_abs"]
        u.eq("C_ext = C_sca + C_abs", cx, (P, W), lambda p, w: add(cs.at(p, w), ca.at(p, w)))
        mx, ms, ma = d["cs_ext_multipoles"], d["cs_sca_multipoles"], d["cs_abs_multipoles"]
        u.eq("ext = sca + abs per multipole", mx, (2, n, P, W), lambda *i: add(ms.at(*i), ma.at(*i)))


cs_contract("full", "full", "vec", "vec")
cs_contract("full/one", "full", "vec", "one")
cs_contract("legacy", "c-batch", "vec", "one", backend="torch")
cs_contract("legacy/scipy", "h-batch", "vec", "one", backend="scipy", which_jn="ratios")
cs_contract("number", "c-numbers", "number", "real", props="C03")
cs_contract("auto order", "full", "vec", "vec", n_given=False)
cs_contract("single", "full", "vec", "vec", precision="single")


# ------------------------------------------------------------------ far field
def ang_contract(tag, layer, k0, env, n_given=True, props="C05 C06", **opt):
    box = {}

    @contract("angular_scattering/" + tag, MS + ".angular_scattering", props, **obs_opts(box))
    def f(R, u):
        a, n, kw = setup(R, box, layer, k0, env, n_given, **opt)
        (N,) = dims(R, "N")
        th = tens("theta", (N,), "f64")
        d = call(MS, "angular_scattering", theta=th, **kw)
        P, W = a.P, a.W
        mu = lambda q: fn1("cos", th.at(q))
        E = lambda i: div(fint(iadd(iscale(ie(i), 2), 3)), mul(fint(iadd(i, 1)), fint(iadd(i, 2))))
        pi_, tau = (lambda i, q: F.pin(iadd(i, 1), mu(q))), (lambda i, q: F.taun(iadd(i, 1), mu(q)))
        S1 = lambda p, w, q: sumn(n, lambda i: mul(E(i), add(mul(A(i, p, w), pi_(i, q)), mul(B(i, p, w), tau(i, q)))))
        S2 = lambda p, w, q: sumn(n, lambda i: mul(E(i), add(mul(A(i, p, w), tau(i, q)), mul(B(i, p, w), pi_(i, q)))))
        sh = (P, W, N)
        u.eq("S1 = sum (2n+1)/(n(n+1)) (a_n pi_n + b_n tau_n)", d["S1"], sh, S1)
        u.eq("S2 = sum (2n+1)/(n(n+1)) (a_n tau_n + b_n pi_n)", d["S2"], sh, S2)
        s1, s2 = d["S1"], d["S2"]
        per, par = (lambda *i: abs2(s1.at(*i))), (lambda *i: abs2(s2.at(*i)))
        u.eq("i_per = |S1|^2", d["i_per"], sh, per)
        u.eq("i_par = |S2|^2", d["i_par"], sh, par)
        u.eq("i_unpol = mean", d["i_unpol"], sh, lambda *i: div(add(per(*i), par(*i)), num(2)))
        u.eq("degree of polarisation", d["pol_degree"], sh, lambda *i: div(sub(per(*i), par(*i)), add(per(*i), par(*i))))
        one = iconst(nz(W)) == 1
        u.eq("wavelength = 2 pi / k0", d["wavelength"], () if one else (W,), lambda *w: div(mul(num(2), core.PI), a.k0(*w or (ie(0),))))
        u.eq("k0", d["k0"], () if one else (W,), lambda *w: a.k0(*w or (ie(0),)))
        one = iconst(nz(N)) == 1
        u.eq("theta", d["theta"], () if one else (N,), lambda *q: th.at(*q or (ie(0),)))


ang_contract("full", "full", "vec", "vec")
ang_contract("full/one", "full", "vec", "one")
ang_contract("legacy", "c-batch", "vec", "one", backend="torch")
ang_contract("legacy/scipy", "h-batch", "vec", "one", backend="scipy", which_jn="ratios")
ang_contract("number", "c-numbers", "number", "real", props="C05")
ang_contract("auto order", "full", "vec", "vec", n_given=False)
ang_contract("single", "full", "vec", "vec", precision="single")


@contract("plane_wave_expansion", HP + ".plane_wave_expansion", "C11")
def f(R, u):
    n = order(R, 1)
    d = call(HP, "plane_wave_expansion", unie(n))
    u.eq("plane-wave coefficients", d["a_pw_n"], (n,), lambda q: div(mul(powt(core.I, fint(iadd(q, 1))), add(mul(num(2), fint(q)), num(3))), mul(fint(iadd(q, 1)), fint(iadd(q, 2)))))
