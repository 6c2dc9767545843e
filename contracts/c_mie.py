"""contracts on multishell.py: scattering coefficients"""
from base import *
import callee
from miespec import Sphere, next_T


def mie_opts(sph):
    return dict(contracts=callee.SPECIAL, squares=("eps_layers", "eps_env"), world_setup=sph.setup,
                ghosts=[("H_l (TM)", 3, lambda o, q: sph.H("A", o, *q)), ("H_l (TE)", 3, lambda o, q: sph.H("B", o, *q))])


def pena_sphere(k, r, eps, nenv, one):
    """region data from the arguments of _miecoef_pena (k, n_env with a leading singleton axis)"""
    z = ie(0)
    return Sphere(lambda l, p, w: div(mkpow(eps.at(p, l, w), Fr(1, 2)), nenv.at(z, w)),
                  lambda l, p, w: mul(k.at(z, w), r.at(p, l)))


def mk(prec):
    sph = Sphere(None, None)

    @contract("_miecoef_pena/" + prec, MS + "._miecoef_pena", "C01", **mie_opts(sph))
    def f(R, u):
        P, L, W, n = dims(R, "P", "L", "W", "n")
        k, r, eps, nenv = tens("k", (1, W)), postens("r_layers", (P, L)), tens("eps_layers", (P, L, W)), tens("n_env", (1, W))
        s = pena_sphere(k, r, eps, nenv, None)
        sph.m, sph.x = s.m, s.x
        d = call(MS, "_miecoef_pena", k, r, eps, nenv, n, precision=prec)
        for key, kind in (("a_n", "A"), ("b_n", "B")):
            u.eq(key + " solves the boundary-value problem", d[key], (n, P, W), lambda i, p, w: sph.outer(kind, L, iadd(i, 1), p, w))
mk("double"); mk("single")


# ------------------------------------------------------------------ input layouts (C07)
import layouts
from layouts import In


def layer_contract(layer, k0, env):
    @contract("layers/%s/%s/%s" % (layer, k0, env), MS + "._broadcast_mie_layers", "C07 C06 C01", squares=layouts.SQ)
    def f(R, u):
        a = In(R, layer, k0, env)
        kw = a.kw
        rl, el = call(MS, "_as_layer_inputs", kw.get("r_c"), kw.get("r_s"), kw.get("eps_c"), kw.get("eps_s"), kw.get("r_layers"), kw.get("eps_layers"))
        k, r, e, ee, nl, ne = call(MS, "_broadcast_mie_layers", kw["k0"], rl, el, kw["eps_env"])
        P, L, W = a.P, a.L, a.W
        u.eq("k0", k, (1, W), lambda i, w: a.k0(w))
        u.eq("r_layers", r, (P, L), a.r)
        u.eq("eps_layers", e, (P, L, W), a.eps)
        u.eq("eps_env", ee, (1, W), lambda i, w: a.env(w))
        u.eq("n_layers", nl, (P, L, W), a.index)
        u.eq("n_env", ne, (1, W), lambda i, w: a.nenv(w))


for _l in layouts.MULTI + layouts.LEGACY: layer_contract(_l, "vec", "vec")
for _k in layouts.SPECT[1:]: layer_contract("full", _k, "one"); layer_contract("c-batch", _k, "one")
for _e in layouts.HOST[1:]: layer_contract("full", "vec", _e)


def sphere_opts(sph, **kw):
    o = mie_opts(sph)
    o["squares"] = layouts.SQ
    o["contracts"] = dict(callee.SPECIAL, **{MS + "._miecoef_pena": callee.c_miecoef_pena(sph)})
    o.update(kw)
    return o


def use(sph, a):
    """the sphere described by the inputs"""
    sph.m, sph.x = a.m, a.x


def check_meta(u, a, d, n):
    P, L, W = a.P, a.L, a.W
    u.eq("k", d["k"], (1, W), lambda i, w: a.k(w))
    u.eq("k0", d["k0"], (1, W), lambda i, w: a.k0(w))
    u.eq("n", d["n"], (n,), lambda i: fint(iadd(i, 1)))
    u.eq("n_max", d["n_max"], (), lambda: fint(n))
    u.eq("r_layers", d["r_layers"], (P, L), a.r)
    u.eq("eps_layers", d["eps_layers"], (P, L, W), a.eps)
    u.eq("eps_env", d["eps_env"], (1, W), lambda i, w: a.env(w))
    u.eq("n_env", d["n_env"], (1, W), lambda i, w: a.nenv(w))
    u.eq("m_layers", d["m_layers"], (P, L, W), lambda p, l, w: a.m(l, p, w))
    last = isub(L, 1)
    u.eq("r_c", d["r_c"], (P, W), lambda p, w: a.r(p, ie(0)))
    u.eq("r_s", d["r_s"], (P, W), lambda p, w: a.r(p, last))
    u.eq("eps_c", d["eps_c"], (P, W), lambda p, w: a.eps(p, ie(0), w))
    u.eq("eps_s", d["eps_s"], (P, W), lambda p, w: a.eps(p, last, w))
    u.eq("n_c", d["n_c"], (P, W), lambda p, w: a.index(p, ie(0), w))
    u.eq("n_s", d["n_s"], (P, W), lambda p, w: a.index(p, last, w))
    u.eq("L", d["L"], (), lambda: fint(L))


def check_ab(u, a, d, sph, n):
    for key, kind in (("a_n", "A"), ("b_n", "B")):
        u.eq(key, d[key], (n, a.P, a.W), lambda i, p, w: sph.outer(kind, a.L, iadd(i, 1), p, w))


def mc_contract(layer, k0, env, props):
    sph = Sphere(None, None)

    @contract("mie_coefficients/%s/%s/%s" % (layer, k0, env), MS + ".mie_coefficients", props, **sphere_opts(sph))
    def f(R, u):
        (n,) = dims(R, "n")
        a = In(R, layer, k0, env)
        use(sph, a)
        d = call(MS, "mie_coefficients", n_max=unie(n), **a.kw)
        check_ab(u, a, d, sph, n)
        check_meta(u, a, d, n)


from tensor import *
for _l in layouts.MULTI + layouts.LEGACY: mc_contract(_l, "vec", "vec", "C01 C06 C07" if _l == "full" else "C07 C01" if _l in ("spectra", "c-batch", "single-full") else "C07")
for _k in layouts.SPECT[1:]: mc_contract("full", _k, "one", "C07"); mc_contract("c-batch", _k, "one", "C07")
for _e in layouts.HOST[1:]: mc_contract("full", "vec", _e, "C07")


def meta_contract(layer):
    """what the observables are built from besides the coefficients: orders, wavenumbers, radii; shape of the coefficients"""
    sph = Sphere(None, None)

    @contract("mie_coefficients, orders and wavenumbers/%s" % layer, MS + ".mie_coefficients", "C03 C04 C05", **sphere_opts(sph))
    def f(R, u):
        (n,) = dims(R, "n")
        a = In(R, layer, "vec", "vec")
        use(sph, a)
        d = call(MS, "mie_coefficients", n_max=unie(n), **a.kw)
        for key in ("a_n", "b_n"): u.shape(key, d[key], (n, a.P, a.W))
        check_meta(u, a, d, n)


for _l in ("full", "c-batch"): meta_contract(_l)


def whole_contract(layer, env):
    """radii and permittivities given as integer tensors mean the same numbers"""
    sph = Sphere(None, None)

    @contract("mie_coefficients, whole numbers/%s" % layer, MS + ".mie_coefficients", "C07", **sphere_opts(sph))
    def f(R, u):
        (n,) = dims(R, "n")
        a = In(R, layer, "vec", env, whole=True)
        use(sph, a)
        d = call(MS, "mie_coefficients", n_max=unie(n), **a.kw)
        check_ab(u, a, d, sph, n)
        check_meta(u, a, d, n)


for _l in ("full", "c-batch", "h-batch"): whole_contract(_l, "real")
