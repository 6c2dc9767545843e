"""contracts on pymiediff.special"""
from base import *

RANKS = {1: ("N",), 2: ("N", "M"), 3: ("N", "M", "K"), 4: ("N", "M", "K", "J")}


def zarg(R, rank, name="z", dtype="c128"):
    return tens(name, tuple(dims(R, *RANKS[rank])), dtype)


def nshape(n, z): return (iadd(n, 1),) + tuple(z.shape)


for _rk in (1, 2, 3, 4):
    def _mk(rk):
        tag = "" if rk == 1 else "/rank%d" % rk
        pr = "C17" if rk == 3 else "C17 C10" if rk == 4 else "C17 C01 C10"

        @contract("pena_D1_n" + tag, SP + ".pena_D1_n", pr)
        def d1(R, u):
            n, z = order(R), zarg(R, rk)
            u.eq("D1_n = psi_n'/psi_n", call(SP, "pena_D1_n", n, z), nshape(n, z), lambda k, *i: F.D1(k, z.at(*i)))

        @contract("pena_D3_n" + tag, SP + ".pena_D3_n", pr)
        def d3(R, u):
            n, z = order(R), zarg(R, rk)
            u.eq("D3_n = zeta_n'/zeta_n", call(SP, "pena_D3_n", n, z, seq(F.D1, n, z)), nshape(n, z), lambda k, *i: F.D3(k, z.at(*i)))

        @contract("pena_D3_n/default" + tag, SP + ".pena_D3_n", "C17")
        def d3b(R, u):
            n, z = order(R), zarg(R, rk)
            u.eq("D3_n", call(SP, "pena_D3_n", n, z), nshape(n, z), lambda k, *i: F.D3(k, z.at(*i)))

        @contract("D1n_torch" + tag, SP + ".D1n_torch", "C17")
        def d1t(R, u):
            n, z = order(R), zarg(R, rk)
            u.eq("D1_n = psi_n'/psi_n", call(SP, "D1n_torch", n, z), nshape(n, z), lambda k, *i: F.D1(k, z.at(*i)))

        @contract("D3n_torch" + tag, SP + ".D3n_torch", "C17")
        def d3t(R, u):
            n, z = order(R), zarg(R, rk)
            a, b = call(SP, "D3n_torch", n, z, seq(F.D1, n, z))
            u.eq("D3_n = zeta_n'/zeta_n", a, nshape(n, z), lambda k, *i: F.D3(k, z.at(*i)))
            u.eq("psi_n zeta_n", b, nshape(n, z), lambda k, *i: mul(F.psi(k, z.at(*i)), F.zeta(k, z.at(*i))))

        @contract("pena_psi_zeta_n" + tag, SP + ".pena_psi_zeta_n", pr)
        def pz(R, u):
            n, z = order(R), zarg(R, rk)
            p, q = call(SP, "pena_psi_zeta_n", n, z, seq(F.D1, n, z), seq(F.D3, n, z))
            u.eq("psi_n", p, nshape(n, z), lambda k, *i: F.psi(k, z.at(*i)))
            u.eq("zeta_n", q, nshape(n, z), lambda k, *i: F.zeta(k, z.at(*i)))

        @contract("pena_Q_n" + tag, SP + ".pena_Q_n", "C17 C01 C08" if rk < 3 else "C17")
        def qn(R, u):
            n, z1, z2 = order(R), zarg(R, rk, "z1"), zarg(R, rk, "z2")
            x1 = zarg(R, rk, "x1")
            x2 = T(z1.shape, lambda i: div(mul(x1.at(*i), z2.at(*i)), z1.at(*i)), "c128")
            r = call(SP, "pena_Q_n", n, z1, z2, x1, x2, seq(F.D1, n, z1), seq(F.D1, n, z2), seq(F.D3, n, z1), seq(F.D3, n, z2))
            u.eq("Q_n = psi_n(z1) zeta_n(z2) / (zeta_n(z1) psi_n(z2))", r, nshape(n, z1), lambda k, *i: F.Q(k, z1.at(*i), z2.at(*i)))

        @contract("sph_jn_torch" + tag, SP + ".sph_jn_torch", "C17 C02")
        def sj(R, u):
            n, z = order(R), zarg(R, rk)
            u.eq("j_n", call(SP, "sph_jn_torch", n, z), nshape(n, z), lambda k, *i: F.jn(k, z.at(*i)))

        @contract("sph_jn_torch_via_rec" + tag, SP + ".sph_jn_torch_via_rec", "C17 C02")
        def sjr(R, u):
            n, z = order(R), zarg(R, rk)
            u.eq("j_n", call(SP, "sph_jn_torch_via_rec", n, z), nshape(n, z), lambda k, *i: F.jn(k, z.at(*i)))

        @contract("sph_yn_torch" + tag, SP + ".sph_yn_torch", "C17 C02")
        def syn(R, u):
            n, z = order(R), zarg(R, rk)
            u.eq("y_n", call(SP, "sph_yn_torch", n, z), nshape(n, z), lambda k, *i: F.yn(k, z.at(*i)))

        @contract("sph_h1n_torch" + tag, SP + ".sph_h1n_torch", "C17 C02")
        def shn(R, u):
            n, z = order(R), zarg(R, rk)
            u.eq("h_n", call(SP, "sph_h1n_torch", n, z), nshape(n, z), lambda k, *i: F.hn(k, z.at(*i)))

        for f, g, dg, sg in (("jn", F.jn, F.djn, 1), ("yn", F.yn, F.dyn, 1)):
            def mk(f, g, dg):
                @contract("f_der/%s" % f + tag, SP + ".f_der", "C17 C02")
                def fd(R, u):
                    n, z = order(R, 1), zarg(R, rk)
                    r = call(SP, "f_der", n, z, seq(g, n, z))
                    u.eq("derivative of %s" % f, r, nshape(n, z), lambda k, *i: ite(icmp("==", k, 0), neg(g(1, z.at(*i))), dg(k, z.at(*i))))
            mk(f, g, dg)

        for f, g, dg in (("psi", F.psi, F.dpsi), ("xi", F.zeta, F.dzeta)):
            def mk2(f, g, dg):
                @contract(f + "_torch" + tag, SP + "." + f + "_torch", "C17 C10" if rk == 4 else "C17")
                def ps(R, u):
                    n, z = order(R, 1), zarg(R, rk)
                    a, b = call(SP, f + "_torch", n, z)
                    u.eq(f + "_n", a, nshape(n, z), lambda k, *i: g(k, z.at(*i)))
                    u.eq(f + "_n'", b, nshape(n, z), lambda k, *i: dg(k, z.at(*i)))
            mk2(f, g, dg)

        @contract("chi_torch" + tag, SP + ".chi_torch", "C17 C10" if rk == 4 else "C17")
        def ch(R, u):
            n, z = order(R, 1), zarg(R, rk)
            a, b = call(SP, "chi_torch", n, z)
            u.eq("chi_n = -z y_n", a, nshape(n, z), lambda k, *i: neg(mul(z.at(*i), F.yn(k, z.at(*i)))))
            u.eq("chi_n'", b, nshape(n, z), lambda k, *i: neg(add(F.yn(k, z.at(*i)), mul(z.at(*i), F.dyn(k, z.at(*i))))))

        @contract("pi_tau" + tag, SP + ".pi_tau", "C17 C05 C10" if rk != 3 else "C17")
        def pt(R, u):
            n, mu = order(R, 1), zarg(R, rk, "mu", "f64")
            p, q = call(SP, "pi_tau", n, mu)
            u.eq("pi_n", p, nshape(n, mu), lambda k, *i: F.pin(k, mu.at(*i)))
            u.eq("tau_n", q, nshape(n, mu), lambda k, *i: ite(icmp("==", k, 0), ZERO, F.taun(k, mu.at(*i))))
    _mk(_rk)


# ------------------------------------------------------------------ scipy-backed functions with hand-written derivatives
from core import *
from tensor import *
ID = lambda z: z


def d2(f, df):
    """second derivative from the spherical Bessel equation z^2 f'' + 2 z f' + (z^2 - k(k+1)) f = 0"""
    return lambda k, z: neg(add(div(mul(num(2), df(k, z)), z), mul(sub(ONE, div(mul(fint(k), fint(iadd(k, 1))), mkpow(z, Fr(2)))), f(k, z))))


def hn_(k, z): return F.hn(k, z)
def dhn(k, z): return sub(F.hn(isub(k, 1), z), mul(fint(iadd(k, 1)), F.hn(k, z), mkpow(z, Fr(-1))))


def backward(R, u, name, z, n, df):
    """gradient rule of the autograd function used last: grad * conj(df/dz), element by element, none for the order"""
    cls, ctx, args, res = R.lastctx
    g = tens("grad", tuple(res.shape), "c128")
    bw = cls.lookup("backward")
    r = interp.INTERP[0].call(getattr(bw, "f", bw), [ctx, g], {})
    u.ob("backward returns one gradient per input", isinstance(r, tuple) and len(r) == 2)
    u.ob("no gradient for the integer order", r[0] is None)
    u.eq("%s: gradient = grad * conj(derivative)" % name, r[1], nshape(n, z), lambda k, *i: mul(g.at(k, *i), conj(df(k, z.at(*i)))), grad=False)


for _rk in (1, 2, 3):
    def _mk2(rk):
        tag = "" if rk == 1 else "/rank%d" % rk
        pr = "C17 C02" if rk < 3 else "C17"
        for nm, f, df in (("sph_jn", F.jn, F.djn), ("sph_yn", F.yn, F.dyn)):
            def a(nm, f, df):
                @contract(nm + tag, SP + "." + nm, pr + " C13")
                def c(R, u):
                    n, z = order(R), zarg(R, rk)
                    u.eq(nm, call(SP, nm, n, z), nshape(n, z), lambda k, *i: f(k, z.at(*i)))
                    backward(R, u, nm, z, n, df)

                @contract(nm + "_der" + tag, SP + "." + nm + "_der", "C17 C13")
                def d(R, u):
                    n, z = order(R), zarg(R, rk)
                    u.eq(nm + "'", call(SP, nm + "_der", n, z), nshape(n, z), lambda k, *i: df(k, z.at(*i)))
                    backward(R, u, nm + "_der", z, n, d2(f, df))
            a(nm, f, df)

        @contract("sph_h1n" + tag, SP + ".sph_h1n", "C17")
        def h1(R, u):
            n, z = order(R), zarg(R, rk)
            u.eq("h_n", call(SP, "sph_h1n", n, z), nshape(n, z), lambda k, *i: F.hn(k, z.at(*i)))

        @contract("sph_h1n_der" + tag, SP + ".sph_h1n_der", "C17")
        def h1d(R, u):
            n, z = order(R), zarg(R, rk)
            u.eq("h_n'", call(SP, "sph_h1n_der", n, z), nshape(n, z), lambda k, *i: dhn(k, z.at(*i)))

        for f, g, dg in (("psi", F.psi, F.dpsi), ("xi", F.zeta, F.dzeta)):
            def b(f, g, dg):
                @contract(f + tag, SP + "." + f, "C17")
                def ps(R, u):
                    n, z = order(R, 1), zarg(R, rk)
                    a, b = call(SP, f, n, z)
                    u.eq(f + "_n", a, nshape(n, z), lambda k, *i: g(k, z.at(*i)))
                    u.eq(f + "_n'", b, nshape(n, z), lambda k, *i: dg(k, z.at(*i)))
            b(f, g, dg)

        @contract("chi" + tag, SP + ".chi", "C17")
        def ch(R, u):
            n, z = order(R, 1), zarg(R, rk)
            a, b = call(SP, "chi", n, z)
            u.eq("chi_n = -z y_n", a, nshape(n, z), lambda k, *i: neg(mul(z.at(*i), F.yn(k, z.at(*i)))))
            u.eq("chi_n'", b, nshape(n, z), lambda k, *i: neg(add(F.yn(k, z.at(*i)), mul(z.at(*i), F.dyn(k, z.at(*i))))))
    _mk2(_rk)


for _f, _g in (("pena_D1_n", F.D1),):
    for _rk in (1, 2, 3):
        def _mk3(rk):
            @contract("pena_D1_n/single" + ("" if rk == 1 else "/rank%d" % rk), SP + ".pena_D1_n", "C17")
            def c(R, u):
                n, z = order(R), zarg(R, rk)
                u.eq("D1_n", call(SP, "pena_D1_n", n, z, precision="single"), nshape(n, z), lambda k, *i: F.D1(k, z.at(*i)))
        _mk3(_rk)


@contract("pena_*/single", SP + ".pena_D3_n", "C17")
def _single(R, u):
    n, z, y = order(R), zarg(R, 2), None
    y = tens("y", z.shape, "c128")
    a, b, c, d = seq(F.D1, n, z), seq(F.D3, n, z), seq(F.D1, n, y), seq(F.D3, n, y)
    u.eq("D3_n", call(SP, "pena_D3_n", n, z, a, precision="single"), nshape(n, z), lambda k, *i: F.D3(k, z.at(*i)))
    p, q = call(SP, "pena_psi_zeta_n", n, z, a, b, precision="single")
    u.eq("psi_n", p, nshape(n, z), lambda k, *i: F.psi(k, z.at(*i)))
    u.eq("zeta_n", q, nshape(n, z), lambda k, *i: F.zeta(k, z.at(*i)))
    x1 = tens("x1", z.shape, "c128")
    x2 = T(z.shape, lambda i: div(mul(x1.at(*i), y.at(*i)), z.at(*i)), "c128")
    r = call(SP, "pena_Q_n", n, z, y, x1, x2, a, c, b, d, precision="single")
    u.eq("Q_n", r, nshape(n, z), lambda k, *i: F.Q(k, z.at(*i), y.at(*i)))


for _nm, _g in (("sph_jn_torch", F.jn), ("sph_jn_torch_via_rec", F.jn), ("sph_yn_torch", F.yn), ("sph_h1n_torch", F.hn)):
    for _rk in (1, 2):
        def _mk4(nm, g, rk):
            @contract("%s/single%s" % (nm, "" if rk == 1 else "/rank2"), SP + "." + nm, "C17 C02")
            def c(R, u):
                n, z = order(R), zarg(R, rk)
                u.eq(nm, call(SP, nm, n, z, precision="single"), nshape(n, z), lambda k, *i: g(k, z.at(*i)))
        _mk4(_nm, _g, _rk)


@contract("order argument forms", SP + ".sph_jn_torch_via_rec", "C17")
def _forms(R, u):
    """the order may be an int, a zero-dimensional tensor or a one-element tensor"""
    n, z = order(R), zarg(R, 1)
    for nm, g in (("sph_jn_torch_via_rec", F.jn), ("sph_jn_torch", F.jn), ("sph_yn_torch", F.yn), ("sph_jn", F.jn), ("sph_yn", F.yn), ("pena_D1_n", F.D1)):
        t = pye("torch.as_tensor(n)", n=unie(n))
        u.eq(nm + " with a tensor order", call(SP, nm, t, z), nshape(n, z), lambda k, *i: g(k, z.at(*i)))
        if not nm.startswith("pena"):
            u.eq(nm + " with a one-element order", call(SP, nm, pye("t.reshape(1)", t=t), z), nshape(n, z), lambda k, *i: g(k, z.at(*i)))
