"""lemmas over the contracts: relations between calls and consequences of the boundary-value problem"""
from base import *
import core, layouts, callee
from core import *
from tensor import *
from layouts import In
import c_obs, c_mie
from c_obs import setup, obs_opts, sumn, A, B
from miespec import Sphere, next_T, hlog


def lf(name, real=False): return leaf(name, real, (), ())


def lemma(name, props, **opts): return contract("lemma/" + name, "lemma", props, **opts)


# ------------------------------------------------------------------ C04
@lemma("pi_n(1) = n(n+1)/2, pi_n(-1) = (-1)^(n+1) n(n+1)/2", "C04")
def pi_forward(R, u):
    (n,) = dims(R, "n")
    c = lambda k: div(mul(fint(k), fint(iadd(k, 1))), num(2))
    for sgn, nm in ((1, "+1"), (-1, "-1")):
        s = lambda k: ONE if sgn == 1 else core.powt(num(-1), fint(iadd(k, 1)))
        u.term("base 0 at " + nm, mul(s(ie(0)), c(ie(0))), ZERO)
        u.term("base 1 at " + nm, mul(s(ie(1)), c(ie(1))), ONE)
        # definition: pi_{n+1} = ((2n+1) mu pi_n - (n+1) pi_{n-1}) / n
        nx = div(sub(mul(fint(iadd(iscale(n, 2), 1)), num(sgn), s(n), c(n)), mul(fint(iadd(n, 1)), s(isub(n, 1)), c(isub(n, 1)))), fint(n))
        u.term("step at " + nm, nx, mul(s(iadd(n, 1)), c(iadd(n, 1))))


def optical(tag, layer, k0, env, n_given=True, **opt):
    box = {}

    @contract("optical theorem/" + tag, MS + ".angular_scattering, " + MS + ".cross_sections", "C04", **obs_opts(box))
    def f(R, u):
        a, n, kw = setup(R, box, layer, k0, env, n_given, **opt)
        d = call(MS, "cross_sections", **kw)
        e = call(MS, "angular_scattering", theta=pye("torch.tensor([0.0, torch.pi])"), **kw)
        P, W = a.P, a.W
        s1, s2, cx = e["S1"], e["S2"], d["cs_ext"]
        u.eq("S1(0) = S2(0)", T((P, W), lambda i: s1.at(i[0], i[1], ie(0)), "c128"), (P, W), lambda p, w: s2.at(p, w, ie(0)))
        u.eq("S1(pi) = -S2(pi)", T((P, W), lambda i: s1.at(i[0], i[1], ie(1)), "c128"), (P, W), lambda p, w: neg(s2.at(p, w, ie(1))))
        if env in ("real",):
            u.eq("C_ext = 4 pi/k^2 Re S(0)", cx, (P, W), lambda p, w: mul(div(mul(num(4), core.PI), mkpow(a.k(w), Fr(2))), re(s1.at(p, w, ie(0)))))
        else:
            # absorbing hosts allowed: the prefactor is 1/k^2 with complex k, the value its real part
            u.eq("C_ext = Re(4 pi/k^2 * Re S(0))", cx, (P, W), lambda p, w: re(mul(div(mul(num(4), core.PI), mkpow(a.k(w), Fr(2))), re(s1.at(p, w, ie(0))))))
        # per order and parity: S1 = S2 at 0 and the sign rule at pi hold term by term because they hold for arbitrary coefficients
optical("full", "full", "vec", "vec")
optical("full/real host", "full", "vec", "real")
optical("legacy", "c-batch", "vec", "one", backend="torch")
optical("auto order", "full", "vec", "vec", n_given=False)
optical("single", "full", "vec", "one", precision="single")
optical("number", "h-numbers", "number", "real")
optical("scipy", "h-spectrum", "vec", "one", backend="scipy", which_jn="ratios")


# ------------------------------------------------------------------ C03: lossless spheres
@lemma("lossless layers keep |T|^2 = Re T", "C03")
def lossless(R, u):
    n = order(R, 1)
    m0, m1, x, t = lf("m0", True), lf("m1", True), lf("x", True), lf("t", True)
    for kind in "AB":
        # all complex numbers with |T|^2 = Re T: T = 0 and T = 1/(1 + i t), t real
        for nm, T_ in (("T = 0", ZERO), ("T = 1/(1+it)", div(ONE, add(ONE, mul(num(0, 1), t))))):
            v = next_T(kind, T_, n, mul(m0, x), mul(m1, x), m0, m1)
            u.term("|T'|^2 = Re T' (%s, %s)" % (kind, nm), mul(v, conj(v)), core.mul(HALF, add(v, conj(v))))


def lossless_cs(tag, layer, k0, env, **opt):
    box = {}
    q = lambda nm: (lambda i, p, w: div(ONE, add(ONE, mul(num(0, 1), leaf("t" + nm, True, (ie(i), ie(p), ie(w)), ())))))
    box["coef"] = {"a_n": q("a"), "b_n": q("b")}

    @contract("lossless cross sections/" + tag, MS + ".cross_sections", "C03", **obs_opts(box))
    def f(R, u):
        (n,) = dims(R, "n")
        a = In(R, layer, k0, env)
        o = dict(backend="pena", precision="double", which_jn="recurrence"); o.update(opt)
        te = leaf("env++", True, (), ())
        # real positive host
        a.kw["eps_env"] = SNum(te, "float"); a.env = lambda w: te
        box.update(a=a, n=n, opt=o, n_given=True)
        d = call(MS, "cross_sections", n_max=unie(n), **a.kw, **opt)
        P, W = a.P, a.W
        u.eq("absorption of every multipole is zero", d["cs_abs_multipoles"], (2, n, P, W), lambda *i: ZERO)
        u.eq("absorption efficiency of every multipole is zero", d["q_abs_multipoles"], (2, n, P, W), lambda *i: ZERO)
        u.eq("total absorption is zero", d["cs_abs"], (P, W), lambda *i: ZERO)
lossless_cs("full", "full", "vec", "one")
lossless_cs("legacy", "c-batch", "vec", "one", backend="torch")


@contract("scattering is never negative", MS + ".cross_sections", "C03", **obs_opts(_box := {}))
def sca_nonneg(R, u):
    a, n, kw = setup(R, _box, "full", "vec", "one")
    te = leaf("env++", True, (), ())
    a.kw["eps_env"] = kw["eps_env"] = SNum(te, "float"); a.env = lambda w: te
    d = call(MS, "cross_sections", **kw)
    for nm, rk in (("cs_sca_multipoles", 4), ("q_sca_multipoles", 4), ("cs_sca", 2), ("q_sca", 2)):
        t = d[nm]
        idx = [isym(fresh("i")) for _ in range(rk)]
        facts = [f for s, D in zip(idx, t.shape) for f in (icmp("<=", 0, s), icmp("<", s, D))]
        with R.scope(tuple(), *facts):
            v = core.strip_detach(t.at(*idx))
            u.ob("%s is a real number >= 0" % nm, nneg(R, v), show(v))


def nneg(R, t):
    """sum / product / quotient of non-negative terms"""
    t = R.norm(t)
    if core.nonneg(t): return True
    i = int_of(t)
    if i is not None: return R.ctx.decide(icmp("<=", 0, i)) is True
    if t.op in ("rl", "detach"): return nneg(R, t.a[0])
    if t.op == "mul":
        rest = list(t.a)
        for x in list(rest):
            if x not in rest: continue
            if x.op == "conj" and x.a[0] in rest: rest.remove(x); rest.remove(x.a[0])
        return all(nneg(R, x) for x in rest)
    if t.op == "add":
        if all(nneg(R, x) for x in t.a): return True
        # (z + conj z)/2 of a product that is real and non-negative
        return len(t.a) == 2 and conj(t.a[0]) is t.a[1] and nneg(R, t.a[0])
    if t.op == "pow": return nneg(R, t.a[0])
    if t.op == "ite": return nneg(R, t.a[1]) and nneg(R, t.a[2])
    if t.op == "sum":
        v = isym(t.a[0])
        with R.scope((t.a[0],), icmp("<=", t.a[1], v), icmp("<", v, t.a[2])): return nneg(R, t.a[3])
    return False


# ------------------------------------------------------------------ C05: ranges
@lemma("intensities are non-negative and the polarisation degree lies in [-1, 1]", "C05")
def ranges(R, u):
    import z3
    a, b = z3.Reals("i_per i_par")
    s = z3.Solver(); s.add(a >= 0, b >= 0, a + b > 0, z3.Not(z3.And((a - b) / (a + b) <= 1, (a - b) / (a + b) >= -1, (a + b) / 2 >= 0)))
    u.ob("|(i_per - i_par)/(i_per + i_par)| <= 1 for non-negative intensities", s.check() == z3.unsat)
    s1 = leaf("S1", False, (), ())
    u.ob("|S|^2 >= 0", nneg(R, abs2(s1)))


# ------------------------------------------------------------------ C08
@lemma("a boundary between equal materials changes nothing", "C08")
def split(R, u):
    n = order(R, 1)
    T_, m, x = lf("T"), lf("m"), lf("x")
    for kind in "AB":
        u.term("T of the outer half = T of the inner half (%s)" % kind, next_T(kind, T_, n, mul(m, x), mul(m, x), m, m), T_)
        u.term("sphere of host material: coefficient zero (%s)" % kind, next_T(kind, ZERO, n, x, x, ONE, ONE), ZERO)


def void_change(name, L2, change, exc=None):
    """relational: T' sequence of the changed stack against T of the original, by induction over the regions.
    L2: number of regions added; change(s, l) -> index in the original stack"""


@lemma("split stack: T'_l = T_l below the split, T'_{l+1} = T_l above it", "C08")
def split_stack(R, u):
    """regions of the split stack: l <= s as before; region s+1 repeats the material of s (inner surface at the
    new radius); regions above are shifted by one.  Step of the induction over l, for the recursion
    T_{l+1} = next(T_l, m_l, m_{l+1}, x_l) (c_mie: proved to be what the code computes)."""
    n = order(R, 1)
    l, s = isym("l"), isym("s")
    R.ctx.assume(icmp("<=", 0, l)); R.ctx.assume(icmp("<=", 0, s))
    m = lambda i: leaf("m", False, (i,), ())
    x = lambda i: leaf("x", True, (i,), ())
    xs = lf("xs", True)                         # radius of the new boundary
    m2 = lambda i: ite(icmp("<=", i, s), m(i), m(isub(i, 1)))
    x2 = lambda i: ite(icmp("<", i, s), x(i), ite(icmp("==", i, s), xs, x(isub(i, 1))))
    for kind in "AB":
        t = lambda i, kind=kind: leaf("t" + kind, False, (i,), ())         # the original sequence
        nx = lambda i, kind=kind: next_T(kind, t(i), n, mul(m(i), x(i)), mul(m(iadd(i, 1)), x(i)), m(i), m(iadd(i, 1)))
        # hypothesis at l: t2(l) = t(l) for l <= s, t(l-1) for l > s
        t2 = ite(icmp("<=", l, s), t(l), t(isub(l, 1)))
        step = next_T(kind, t2, n, mul(m2(l), x2(l)), mul(m2(iadd(l, 1)), x2(l)), m2(l), m2(iadd(l, 1)))
        want = ite(icmp("<", l, s), nx(l), ite(icmp("==", l, s), t(l), nx(isub(l, 1))))
        u.term("step (%s)" % kind, step, want)


# ------------------------------------------------------------------ C09
def scaled(a, s, c):
    """the inputs with lengths * s, k0 / (s c), permittivities * c^2"""
    kw = {}
    f = {"r": lambda t: mul(s, t), "k": lambda t: div(t, mul(s, c)), "e": lambda t: mul(mkpow(c, Fr(2)), t)}
    for k, v in a.kw.items():
        g = f[k[0]]
        if isinstance(v, T): kw[k] = T(v.shape, (lambda g, v: lambda i: g(v.at(*i)))(g, v), v.dtype, owner="argument " + k)
        else: kw[k] = SNum(g(v.n if hasattr(v, "n") else callee.node_of(v)), v.kind if hasattr(v, "kind") else "float")
    return kw


def assume_sorted(R, a, s):
    q = T((a.P, a.L), lambda i: mul(s, a.r(*i)), "f64")
    assume(R, "torch.all(r[:, 1:] > r[:, :-1])", r=q)
    if iconst(nz(a.L)) == 2:
        x, y = [T((a.P,), (lambda l: lambda i: mul(s, a.r(i[0], ie(l))))(l), "f64") for l in (0, 1)]
        assume(R, "not torch.equal(x, y)", x=x, y=y)


def scaling(tag, layer, k0, env):
    sph = Sphere(None, None)

    @contract("scaling/mie_coefficients/" + tag, MS + ".mie_coefficients", "C09", **c_mie.sphere_opts(sph))
    def f(R, u):
        (n,) = dims(R, "n")
        a = In(R, layer, k0, env)
        c_mie.use(sph, a)                        # the sphere described by the unscaled inputs
        s, c = leaf("s++", True, (), ()), leaf("c++", True, (), ())
        if iconst(nz(a.L)) != 1: assume_sorted(R, a, s)
        d = call(MS, "mie_coefficients", n_max=unie(n), **scaled(a, s, c))
        c_mie.check_ab(u, a, d, sph, n)
        u.eq("m_layers unchanged", d["m_layers"], (a.P, a.L, a.W), lambda p, l, w: a.m(l, p, w))

    box = {}

    @contract("scaling/cross_sections/" + tag, MS + ".cross_sections", "C09", **obs_opts(box))
    def g(R, u):
        a, n, kw = setup(R, box, layer, k0, env)
        s = leaf("s++", True, (), ())
        d1 = call(MS, "cross_sections", **kw)
        kw2 = dict(kw); kw2.update(scaled(a, s, ONE))
        b = In.__new__(In); b.__dict__.update(a.__dict__)
        b.kw = {k: kw2[k] for k in a.kw}
        r0, k00 = a.r, a.k0
        b.r, b.k0 = (lambda p, l: mul(s, r0(p, l))), (lambda w: div(k00(w), s))
        box["a"] = b
        d2 = call(MS, "cross_sections", **kw2)
        P, W = a.P, a.W
        for nm in ("ext", "sca", "abs"):
            x, y = d1["cs_" + nm], d2["cs_" + nm]
            u.eq("cs_%s scales with the factor squared" % nm, y, (P, W), lambda *i: mul(mkpow(s, Fr(2)), x.at(*i)))
            x2, y2 = d1["cs_%s_multipoles" % nm], d2["cs_%s_multipoles" % nm]
            u.eq("cs_%s_multipoles scale" % nm, y2, (2, n, P, W), lambda *i: mul(mkpow(s, Fr(2)), x2.at(*i)))
            q, q2 = d1["q_" + nm], d2["q_" + nm]
            u.eq("q_%s unchanged" % nm, q2, (P, W), lambda *i: q.at(*i))
            z, z2 = d1["q_%s_multipoles" % nm], d2["q_%s_multipoles" % nm]
            u.eq("q_%s_multipoles unchanged" % nm, z2, (2, n, P, W), lambda *i: z.at(*i))


scaling("full", "full", "vec", "vec")
scaling("spectra", "spectra", "vec", "one")
scaling("core-shell", "c-batch", "vec", "one")
scaling("sphere", "h-batch", "vec", "one")


# ------------------------------------------------------------------ contracts the relational properties rest on
SPECIAL_PENA = [f + t for f in ("pena_D1_n", "pena_D3_n", "pena_psi_zeta_n", "pena_Q_n") for t in ("", "/rank2")]
rests("C04", "pi_tau", "cross_sections/full", "angular_scattering/full", "cross_sections/legacy", "angular_scattering/legacy")
rests("C08", "_miecoef_pena/double", "_miecoef_pena/single", "mie_coefficients/full/vec/vec", "mie_coefficients/spectra/vec/vec", "mie_coefficients/c-batch/vec/vec", "mie_coefficients/h-batch/vec/vec", *SPECIAL_PENA)
rests("C09", "_miecoef_pena/double", "_miecoef_pena/single", "mie_coefficients/full/vec/vec", *SPECIAL_PENA)
rests("C03", "lemma/lossless layers keep |T|^2 = Re T", "_miecoef_pena/double")
