"""contracts on the near fields: vsh, vsh_pena, nearfields"""
from base import *
import core, layouts, callee, c_mie, pit
from core import *
from tensor import *
from layouts import In
from miespec import Sphere, next_T
from callee import cleaf

sin_, cos_ = (lambda t: fn1("sin", t)), (lambda t: fn1("cos", t))
CH = lambda n, z: mul(core.I, sub(F.zeta(n, z), F.psi(n, z)))
DCH = lambda n, z: mul(core.I, sub(F.dzeta(n, z), F.dpsi(n, z)))
RAD = {1: (F.psi, F.dpsi), 2: (CH, DCH), 3: (F.zeta, F.dzeta)}        # Riccati functions and their derivatives


# ------------------------------------------------------------------ vector spherical harmonics (B&H 4.17 - 4.20), spherical components
def harm(name, kind, n, rho, th, ph, c):
    """component c (0 radial, 1 polar, 2 azimuthal) of M/N, odd/even, m = 1, order n, radial function of the kind"""
    f, df = RAD[kind]
    mu = cos_(th)
    pi_, tau = F.pin(n, mu), F.taun(n, mu)
    z, dz = div(f(n, rho), rho), div(df(n, rho), rho)
    cp, sp = cos_(ph), sin_(ph)
    rad = mul(fint(imul(n, iadd(n, 1))), sin_(th), pi_, div(z, rho))
    t = {"Mo": (ZERO, mul(cp, pi_, z), neg(mul(sp, tau, z))), "Me": (ZERO, neg(mul(sp, pi_, z)), neg(mul(cp, tau, z))),
         "No": (mul(sp, rad), mul(sp, tau, dz), mul(cp, pi_, dz)), "Ne": (mul(cp, rad), mul(cp, tau, dz), neg(mul(sp, pi_, dz)))}[name]
    k = iconst(nz(c))
    return t[k] if k is not None else ite(icmp("==", c, 0), t[0], ite(icmp("==", c, 1), t[1], t[2]))


NAMES = ("Mo", "Me", "No", "Ne")




def pairc(f, df):
    @callee.guard
    def c(d):
        n, z = callee.asorder(d["n"]), d["z"]
        if n is None or not callee.plain(z) or cur[0].ctx.decide(icmp("<=", 1, n)) is not True: return None
        return (callee.out(n, z, f, d), callee.out(n, z, df, d))
    return c


RICC = dict(callee.SPECIAL, **{SP + ".psi_torch": pairc(F.psi, F.dpsi), SP + ".xi_torch": pairc(F.zeta, F.dzeta), SP + ".chi_torch": pairc(CH, DCH), SP + ".pi_tau": callee.c_pi_tau})


def geometry(R):
    P, W, N = dims(R, "P", "W", "N")
    return P, W, N, [tens(nm, (1, 1, 1, N, 1), "f64") for nm in ("r", "theta", "phi")]


def safeguard(u, func):
    """the documented origin safeguard added to the radial argument: the default of the parameter epsilon, at most 1e-6"""
    f = loader().func(SP, func)
    nm = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
    e = dict(zip(nm[len(nm) - len(f.defaults):], f.defaults))["epsilon"]
    u.ob("origin safeguard is at most 1e-7", isinstance(e, (int, float)) and 0 <= e <= 1e-7, repr(e))
    return ZERO          # constants that small are dropped from sums by the verifier (recorded assumption)


def vsh_contract(func, kind, host, prec=None):
    @contract("%s/kind %d%s%s" % (func, kind, "/host" if host else "", "/" + prec if prec else ""), SP + "." + func, "C10 C11 C06", contracts=RICC)
    def f(R, u):
        P, W, N, (r, th, ph) = geometry(R)
        n = order(R, 1)
        Q = ie(1) if host else P
        k0, m = postens("k0", (1, 1, W, 1, 1)), tens("n_medium", (1, Q, W, 1, 1))
        z = ie(0)
        e = safeguard(u, func)
        kw = dict(precision=prec) if prec else {}
        v = call(SP, func, unie(n), k0, m, r, th, ph, kind=kind, **kw)
        u.ob("four harmonics", isinstance(v, tuple) and len(v) == 4)
        rho = lambda p, w, q: add(mul(k0.at(z, z, w, z, z), m.at(z, p, w, z, z), r.at(z, z, z, q, z)), e)
        for nm, t in zip(NAMES, v):
            if not u.shape(nm, t, (n, Q, W, N, 3)): continue
            for c, cn in enumerate(("radial", "polar", "azimuthal")):
                u.eq("%s %s component" % (nm, cn), T((n, Q, W, N), lambda i: t.at(*i, ie(c)), t.dtype), (n, Q, W, N),
                     lambda i, p, w, q: harm(nm, kind, iadd(i, 1), rho(p, w, q), th.at(z, z, z, q, z), ph.at(z, z, z, q, z), c))


for _k in (1, 2, 3):
    for _h in (False, True): vsh_contract("vsh", _k, _h)
for _k in (1, 3):
    for _h in (False, True): vsh_contract("vsh_pena", _k, _h)
    vsh_contract("vsh_pena", _k, False, "single")


# ------------------------------------------------------------------ nearfields
def at5(t, i, p, w, q, c):
    """element of a rank-5 tensor with singleton axes"""
    ix = [ie(0) if iconst(nz(d)) == 1 else x for d, x in zip(t.shape, (i, p, w, q, c))]
    return t.at(*ix)


def c_vsh(kinds):
    """vsh / vsh_pena seen by nearfields (contracts vsh/*, vsh_pena/*)"""
    @callee.guard
    def c(d):
        d = dict(d)
        n, kd = callee.asorder(d["n_max"]), d["kind"]
        if n is None or kd not in kinds or cur[0].ctx.decide(icmp("<=", 1, n)) is not True: return None
        k0, m, r, th, ph = [d[x] for x in ("k0", "n_medium", "r", "theta", "phi")]
        if not all(isinstance(t, T) and t.ndim == 5 for t in (k0, m, r, th, ph)): return None
        one = lambda x: iconst(nz(x)) == 1
        if not (one(k0.shape[0]) and one(k0.shape[1]) and one(k0.shape[3]) and one(k0.shape[4])): return None
        W, Q, N = k0.shape[2], m.shape[1], r.shape[3]
        if not (one(m.shape[0]) and callee.same(m.shape[2], W) and one(m.shape[3]) and one(m.shape[4])): return None
        for t in (r, th, ph):
            if not (all(one(t.shape[j]) for j in (0, 1, 2, 4)) and callee.same(t.shape[3], N)): return None
        z = ie(0)
        rd = [t.reader() for t in (k0, m, r, th, ph)]

        def el(nm):
            def f(ix):
                i, p, w, q, cc = ix
                rho = mul(rd[0]((z, z, w, z, z)), rd[1]((z, p, w, z, z)), rd[2]((z, z, z, q, z)))
                return harm(nm, kd, iadd(i, 1), rho, rd[3]((z, z, z, q, z)), rd[4]((z, z, z, q, z)), cc)
            return f
        return tuple(T((n, Q, W, N, 3), el(nm), callee.dt(d, None)) for nm in NAMES)
    return c


def c_xyz(box):
    """transform_xyz_to_spherical: spherical coordinates of the probe points (contracts Cartesian to spherical and back/*)"""
    @callee.guard0
    def c(d):
        t = box["probe"]
        N = t.shape[0]
        for j, nm in enumerate("xyz"):
            if not callee.holds(d[nm], (N,), lambda q: t.at(q, j)): return None
        return tuple(T((N,), lambda i, nm=nm: leaf(nm, True, (i[0],), ()), "f64") for nm in ("r_of++", "theta_of", "phi_of"))
    return c


def near_opts(box, sph, **kw):
    return dict(contracts=dict(callee.SPECIAL, **{MS + ".mie_coefficients": callee.c_mie(box), SP + ".vsh": c_vsh((1, 2, 3)), SP + ".vsh_pena": c_vsh((1, 3)), HP + ".transform_xyz_to_spherical": c_xyz(box)}),
                squares=layouts.SQ, world_setup=sph.setup, **kw)


def amps(sph, a, L, kind, i, p, w):
    """(T_l, amplitude of the regular function in region l) for l = 0..L; amplitude 1 in the host, tangential continuity at each interface"""
    n = iadd(i, 1)
    Ts = [sph.T(kind, ie(l), n, p, w) if l else ZERO for l in range(L)] + [sph.outer(kind, ie(L), n, p, w)]
    m = [a.m(ie(l), p, w) for l in range(L)] + [ONE]
    am = [None] * L + [ONE]
    for l in range(L - 1, -1, -1):
        x = a.x(ie(l), p, w)
        y, z = mul(m[l], x), mul(m[l + 1], x)
        u0, u1 = sub(F.psi(n, y), mul(Ts[l], F.zeta(n, y))), sub(F.psi(n, z), mul(Ts[l + 1], F.zeta(n, z)))
        am[l] = mul(am[l + 1], div(u1, u0)) if kind == "A" else mul(am[l + 1], div(mul(u1, m[l]), mul(u0, m[l + 1])))
    return Ts, am


def region_field(which, l, L, Ta, d, Tb, c, nmed, E0, n, rho, th, ph, comp):
    """E or H of order n in region l from the amplitudes; scattered part only in the host"""
    h = lambda nm, k: harm(nm, k, n, rho, th, ph, comp)
    En = mul(powt(core.I, fint(n)), E0, div(fint(iadd(iscale(n, 2), 1)), fint(imul(n, iadd(n, 1)))))
    reg = 0 if l == L else 1
    if which == "E":
        M = sub(h("Mo", 1) if reg else ZERO, mul(Tb, h("Mo", 3)))
        N = sub(h("Ne", 1) if reg else ZERO, mul(Ta, h("Ne", 3)))
        return mul(En, sub(mul(c, M), mul(core.I, d, N)))
    M = sub(h("Me", 1) if reg else ZERO, mul(Ta, h("Me", 3)))
    N = sub(h("No", 1) if reg else ZERO, mul(Tb, h("No", 3)))
    return neg(mul(nmed, En, add(mul(d, M), mul(core.I, c, N))))


def basis(t, p):
    return ((mul(sin_(t), cos_(p)), mul(sin_(t), sin_(p)), cos_(t)), (mul(cos_(t), cos_(p)), mul(cos_(t), sin_(p)), neg(sin_(t))), (neg(sin_(p)), cos_(p), ZERO))


def near_pena(L, prec="double", layer="full", k0="vec", env="vec", given=True):
    box, sph = {}, Sphere(None, None)
    tag = "%d layers" % L + "".join("/" + x for x, on in ((prec, prec != "double"), (layer, layer != "full"), ("automatic order", not given)) if on)

    @contract("nearfields/" + tag, MS + ".nearfields", "C10 C11 C06", **near_opts(box, sph))
    def f(R, u):
        (n,) = dims(R, "n")
        P, N = dims(R, "P", "N")
        a = In(R, layer, k0, env, L=L)
        c_mie.use(sph, a)
        W, P = a.W, a.P
        probe = tens("r_probe", (N, 3), "f64")
        E0 = leaf("E_0", False)
        box.update(a=a, n=n, opt=dict(backend="pena", precision=prec, which_jn="recurrence"), n_given=True if given else None, probe=probe,
                   coef={"a_n": lambda i, p, w: sph.outer("A", ie(L), iadd(i, 1), p, w), "b_n": lambda i, p, w: sph.outer("B", ie(L), iadd(i, 1), p, w)})
        d = call(MS, "nearfields", r_probe=probe, E_0=SNum(E0, "complex"), precision=prec, **dict(a.kw, **(dict(n_max=unie(n)) if given else {})))
        sh = (P, W, N, 3)
        for nm in ("E_i", "H_i", "E_s", "H_s", "E_t", "H_t"): u.shape(nm, d[nm], sh)
        p, w, q = dims(R, "p", "w", "q", lo=0)
        for x, y in ((p, P), (w, W), (q, N)): R.ctx.assume(icmp("<", x, y))
        rr, th, ph = leaf("r_of++", True, (q,)), leaf("theta_of", True, (q,)), leaf("phi_of", True, (q,))
        for l in range(L - 1): R.ctx.assume(fcmp("<", a.r(p, ie(l)), a.r(p, ie(l + 1))))      # instance of the precondition: increasing radii
        incident(u, a, d, E0, p, w, q, rr, th)
        B = basis(th, ph)
        s = fresh("s")
        i = isym(s)
        A_ = amps(sph, a, L, "A", i, p, w), amps(sph, a, L, "B", i, p, w)
        for l in range(L + 1):
            R.ctx.push()
            if l > 0: R.ctx.assume(fcmp("<", a.r(p, ie(l - 1)), rr))
            if l < L: R.ctx.assume(fcmp("<=", rr, a.r(p, ie(l))))
            nmed = a.index(p, ie(l), w) if l < L else a.nenv(w)
            rho = mul(a.k0(w), nmed, rr)
            for which in "EH":
                for c in range(3):
                    body = add(*[mul(region_field(which, l, L, A_[0][0][l], A_[0][1][l], A_[1][0][l], A_[1][1][l], nmed, E0, iadd(i, 1), rho, th, ph, ie(k)), B[k][c]) for k in range(3)])
                    u.term("%s_%s of region %d" % (which, "xyz"[c], l), d[which + "_s"].at(p, w, q, ie(c)), ssum(s, ie(0), n, body), grad=True)
            parts(u, d, p, w, q, l == L)
            R.ctx.pop()


def incident(u, a, d, E0, p, w, q, rr, th):
    """x-polarised plane wave along +z in the host (r cos theta = z: contract of the coordinate transformation)"""
    z = mul(rr, cos_(th))
    ph = fn1("exp", mul(core.I, a.k(w), z))
    for c in range(3):
        u.term("E_i " + "xyz"[c], d["E_i"].at(p, w, q, ie(c)), mul(E0, ph) if c == 0 else ZERO, grad=True)
        u.term("H_i " + "xyz"[c], d["H_i"].at(p, w, q, ie(c)), mul(E0, a.nenv(w), ph) if c == 1 else ZERO, grad=True)


def parts(u, d, p, w, q, outside):
    for F_ in "EH":
        for c in range(3):
            g = lambda x: d[F_ + x].at(p, w, q, ie(c))
            u.term("%s_t %s: %s" % (F_, "xyz"[c], "incident + scattered outside" if outside else "internal field inside"), g("_t"), add(g("_s"), g("_i")) if outside else g("_s"), grad=True)


for _L in (1, 2, 3): near_pena(_L)
near_pena(2, "single")
near_pena(2, given=False)
near_pena(1, layer="h-batch"); near_pena(2, layer="c-batch"); near_pena(1, layer="h-numbers", k0="number", env="real"); near_pena(2, layer="single-full", env="one")


# ------------------------------------------------------------------ any number of layers
def _amp(kind):
    """amplitude of the regular function in region l, up to its value in the host: continuity of the tangential fields, from region to region"""
    def f(w, t, iv, tv):
        sph = w.state["sphere"]
        l, n, p, q = iv
        s = [isym(x) for x in ("@l", "@n", "@p", "@w")]

        def step(m, before):
            old = dict(w.env)
            w.env.update({"@l": m % w.p, "@n": n, "@p": p, "@w": q})
            try: return before * pow(w.ev(ratio(sph, kind, *s)), -1, w.p)
            finally:
                w.env.clear(); w.env.update(old)
        return pit.uprec(w, ("amp" + kind, n, p, q), l, lambda: w.rand(("amp" + kind, n, p, q)), step)
    return f


def ratio(sph, kind, l, n, p, w):
    """amplitude of region l - 1 over amplitude of region l"""
    l0 = isub(l, 1)
    m0, m1, x = sph.m(l0, p, w), sph.m(l, p, w), sph.x(l0, p, w)
    y, z = mul(m0, x), mul(m1, x)
    u0, u1 = sub(F.psi(n, y), mul(sph.T(kind, l0, n, p, w), F.zeta(n, y))), sub(F.psi(n, z), mul(sph.T(kind, l, n, p, w), F.zeta(n, z)))
    return div(u1, u0) if kind == "A" else div(mul(u1, m0), mul(u0, m1))


pit.HANDLERS["ampA"], pit.HANDLERS["ampB"] = _amp("A"), _amp("B")


def near_any(prec="double", layer="full", k0="vec", env="vec", given=True):
    box, sph = {}, Sphere(None, None)
    tag = "any number of layers" + "".join("/" + x for x, on in ((prec, prec != "double"), (layer, layer != "full"), ("automatic order", not given)) if on)
    Lof = lambda: box["a"].L

    def rl(kind, n, p, w):
        """amplitude in the outermost layer (1 in the host)"""
        a = box["a"]
        last = isub(a.L, 1)
        m0, x = a.m(last, p, w), a.x(last, p, w)
        y = mul(m0, x)
        u0 = sub(F.psi(n, y), mul(sph.T(kind, last, n, p, w), F.zeta(n, y)))
        u1 = sub(F.psi(n, x), mul(sph.outer(kind, a.L, n, p, w), F.zeta(n, x)))
        return div(u1, u0) if kind == "A" else div(mul(u1, m0), u0)

    def amp(kind, l, n, p, w):
        g = lambda j: leaf("amp" + kind, False, (ie(j), ie(n), ie(p), ie(w)), ())
        return mul(div(g(l), g(isub(Lof(), 1))), rl(kind, n, p, w))

    def ghost(kind, out):
        def f(o, q):
            n, p, w = q
            host = sph.outer(kind, Lof(), n, p, w) if out else ONE
            v = amp(kind, o, n, p, w)
            return ite(icmp("==", o, Lof()), host, mul(v, sph.T(kind, o, n, p, w)) if out else v)
        return f
    gh = [("%s amplitude of region l (T%s)" % ("outgoing" if o else "regular", "ME"[k == "A"]), 3, ghost(k, o)) for k in "AB" for o in (True, False)]

    @contract("nearfields/" + tag, MS + ".nearfields", "C10 C11 C06", ghosts=gh, ghost_domain=lambda q: icmp("<=", 1, q[0]), fallback=["nearfields/[123] layers*"], **near_opts(box, sph))
    def f(R, u):
        (n,) = dims(R, "n")
        P, N = dims(R, "P", "N")
        a = In(R, layer, k0, env)
        c_mie.use(sph, a)
        W, P, L = a.W, a.P, a.L
        probe = tens("r_probe", (N, 3), "f64")
        E0 = leaf("E_0", False)
        box.update(a=a, n=n, opt=dict(backend="pena", precision=prec, which_jn="recurrence"), n_given=True if given else None, probe=probe,
                   coef={"a_n": lambda i, p, w: sph.outer("A", L, iadd(i, 1), p, w), "b_n": lambda i, p, w: sph.outer("B", L, iadd(i, 1), p, w)})
        d = call(MS, "nearfields", r_probe=probe, E_0=SNum(E0, "complex"), precision=prec, **dict(a.kw, **(dict(n_max=unie(n)) if given else {})))
        sh = (P, W, N, 3)
        for nm in ("E_i", "H_i", "E_s", "H_s", "E_t", "H_t"): u.shape(nm, d[nm], sh)
        p, w, q = dims(R, "p", "w", "q", lo=0)
        for x, y in ((p, P), (w, W), (q, N)): R.ctx.assume(icmp("<", x, y))
        rr, th, ph = leaf("r_of++", True, (q,)), leaf("theta_of", True, (q,)), leaf("phi_of", True, (q,))
        incident(u, a, d, E0, p, w, q, rr, th)
        B = basis(th, ph)
        s = fresh("s")
        i = isym(s)
        nn = iadd(i, 1)
        (l,) = dims(R, "l", lo=0)
        for where in ("core", "layer", "host"):
            R.ctx.push()
            R.ctx.assume({"core": icmp("==", l, 0), "layer": band(icmp("<=", 1, l), icmp("<", l, L)), "host": icmp("==", l, L)}[where])
            if where != "core": R.ctx.assume(fcmp("<", a.r(p, isub(l, 1)), rr))
            if where != "host":
                R.ctx.assume(fcmp("<=", rr, a.r(p, l)))
                R.ctx.assume(fcmp("<=", a.r(p, l), a.r(p, isub(L, 1))))
            # the layer radii increase: instances between region l and a later region
            R.region = (l, lambda s_: [fcmp("<=", a.r(p, l), a.r(p, isub(s_, 1)))] if where != "host" else [])
            nmed = a.index(p, l, w) if where != "host" else a.nenv(w)
            rho = mul(a.k0(w), nmed, rr)
            if where == "host": co = [(sph.outer(k, L, nn, p, w), ONE) for k in "AB"]
            else: co = [(sph.T(k, l, nn, p, w), amp(k, l, nn, p, w)) for k in "AB"]
            for which in "EH":
                for c in range(3):
                    body = add(*[mul(region_field(which, 1 if where == "host" else 0, 1, co[0][0], co[0][1], co[1][0], co[1][1], nmed, E0, nn, rho, th, ph, ie(k)), B[k][c]) for k in range(3)])
                    u.term("%s_%s in the %s" % (which, "xyz"[c], where), d[which + "_s"].at(p, w, q, ie(c)), ssum(s, ie(0), n, body), grad=True)
            parts(u, d, p, w, q, where == "host")
            R.ctx.pop()
        R.region = None


near_any()


# ------------------------------------------------------------------ alternative backends: homogeneous and core-shell spheres
def region_cs(which, reg, g, nmed, E0, n, rho, th, ph, comp):
    """E or H of order n; reg 0 core, 1 shell, 2 host (scattered part); g(name) the coefficients (B&H 4.40, 4.45, 8.0)"""
    h = lambda nm, k: harm(nm, k, n, rho, th, ph, comp)
    En = mul(powt(core.I, fint(n)), E0, div(fint(iadd(iscale(n, 2), 1)), fint(imul(n, iadd(n, 1)))))
    I = core.I
    if which == "E":
        if reg == 0: v = sub(mul(g("c_n"), h("Mo", 1)), mul(I, g("d_n"), h("Ne", 1)))
        elif reg == 1: v = sub(sub(mul(g("f_n"), h("Mo", 1)), mul(I, g("g_n"), h("Ne", 1))), sub(mul(g("v_n"), h("Mo", 2)), mul(I, g("w_n"), h("Ne", 2))))
        else: v = sub(mul(I, g("a_n"), h("Ne", 3)), mul(g("b_n"), h("Mo", 3)))
        return mul(En, v)
    if reg == 0: v = neg(add(mul(g("d_n"), h("Me", 1)), mul(I, g("c_n"), h("No", 1))))
    elif reg == 1: v = sub(add(mul(g("w_n"), h("Me", 2)), mul(I, g("v_n"), h("No", 2))), add(mul(g("g_n"), h("Me", 1)), mul(I, g("f_n"), h("No", 1))))
    else: v = add(mul(I, g("b_n"), h("No", 3)), mul(g("a_n"), h("Me", 3)))
    return mul(nmed, En, v)


def near_cs(mode, opt, layer, L=None, k0="vec", env="vec"):
    box = {}

    @contract("nearfields/%s/%s%s" % (mode, layer, "/%d" % L if L else ""), MS + ".nearfields", "C10 C11 C06", **near_opts(box, Sphere(None, None)))
    def f(R, u):
        (n,) = dims(R, "n")
        (N,) = dims(R, "N")
        a = In(R, layer, k0, env, L=L)
        Lc = iconst(nz(a.L))
        W, P = a.W, a.P
        probe = tens("r_probe", (N, 3), "f64")
        E0 = leaf("E_0", False)
        o = dict(precision="double", which_jn="recurrence"); o.update(opt)
        box.update(a=a, n=n, opt=o, n_given=True, probe=probe)
        d = call(MS, "nearfields", r_probe=probe, E_0=SNum(E0, "complex"), n_max=unie(n), **opt, **a.kw)
        sh = (P, W, N, 3)
        for nm in ("E_i", "H_i", "E_s", "H_s", "E_t", "H_t"): u.shape(nm, d[nm], sh)
        p, w, q = dims(R, "p", "w", "q", lo=0)
        for x, y in ((p, P), (w, W), (q, N)): R.ctx.assume(icmp("<", x, y))
        rr, th, ph = leaf("r_of++", True, (q,)), leaf("theta_of", True, (q,)), leaf("phi_of", True, (q,))
        if Lc == 2: R.ctx.assume(fcmp("<", a.r(p, ie(0)), a.r(p, ie(1))))
        incident(u, a, d, E0, p, w, q, rr, th)
        B = basis(th, ph)
        s = fresh("s")
        i = isym(s)
        for reg in (0, 1, 2) if Lc == 2 else (0, 2):
            l = min(reg, Lc)
            R.ctx.push()
            if reg > 0: R.ctx.assume(fcmp("<", a.r(p, ie(l - 1)), rr))
            if reg < 2: R.ctx.assume(fcmp("<=", rr, a.r(p, ie(l))))
            nmed = a.index(p, ie(l), w) if reg < 2 else a.nenv(w)
            rho = mul(a.k0(w), nmed, rr)
            for which in "EH":
                for c in range(3):
                    body = add(*[mul(region_cs(which, reg, lambda nm: cleaf(nm, i, p, w), nmed, E0, iadd(i, 1), rho, th, ph, ie(k)), B[k][c]) for k in range(3)])
                    u.term("%s_%s of region %d" % (which, "xyz"[c], reg), d[which + "_s"].at(p, w, q, ie(c)), ssum(s, ie(0), n, body), grad=True)
            parts(u, d, p, w, q, reg == 2)
            R.ctx.pop()


_M = {"torch": dict(backend="torch"), "scipy": dict(backend="scipy"), "torch/ratios": dict(backend="torch", which_jn="ratios")}
for _t, _o in _M.items():
    near_cs(_t, _o, "full", 1); near_cs(_t, _o, "full", 2)
    near_cs(_t, _o, "c-batch"); near_cs(_t, _o, "h-batch")


# ------------------------------------------------------------------ lemmas: tangential continuity order by order
def lf(name): return leaf(name, False, (), ())


@contract("lemma/tangential fields are continuous between any two regions", "lemma", "C10")
def cont_regions(R, u):
    """amplitudes as in nearfields/<L> layers (T_l of the boundary-value problem, m = 1 in the host), any interface at size parameter x"""
    n = order(R, 1)
    m0, m1, x, ne, E0, th, ph, amA, amB = [lf(s) for s in ("m0", "m1", "x", "n_env", "E_0", "theta", "phi", "amp_A", "amp_B")]
    y, z = mul(m0, x), mul(m1, x)
    for core_ in (True, False):
        T0 = {k: ZERO if core_ else lf("T" + k + "0") for k in "AB"}
        T1 = {k: next_T(k, T0[k], n, y, z, m0, m1) for k in "AB"}
        v = {}
        for k in "AB":
            u0, u1 = sub(F.psi(n, y), mul(T0[k], F.zeta(n, y))), sub(F.psi(n, z), mul(T1[k], F.zeta(n, z)))
            v[k] = div(u1, u0) if k == "A" else div(mul(u1, m0), mul(u0, m1))
        for which in "EH":
            for c, nm in ((1, "polar"), (2, "azimuthal")):
                inner = region_field(which, 0, 9, T0["A"], mul(amA, v["A"]), T0["B"], mul(amB, v["B"]), mul(m0, ne), E0, n, y, th, ph, ie(c))
                outer = region_field(which, 1, 9, T1["A"], amA, T1["B"], amB, mul(m1, ne), E0, n, z, th, ph, ie(c))
                u.term("%s %s component%s" % (which, nm, ", innermost region regular" if core_ else ""), inner, outer)


@contract("lemma/tangential fields are continuous at core and shell", "lemma", "C10")
def cont_cs(R, u):
    """coefficients related by the eight conditions of the contracts _miecoef/*: solved here for the inner ones, the solution checked against every condition"""
    n = order(R, 1)
    m1, m2, x, y, ne, E0, th, ph = [lf(s) for s in ("m1", "m2", "x", "y", "n_env", "E_0", "theta", "phi")]
    a, b, c, d = [lf(s) for s in ("a", "b", "c", "d")]
    P, dP, X, dX, Z, dZ = F.psi, F.dpsi, CH, DCH, F.zeta, F.dzeta

    def solve(A, Bv, z):
        """f, v with f psi(z) - v chi(z) = A and f psi'(z) - v chi'(z) = B"""
        W = sub(mul(X(n, z), dP(n, z)), mul(P(n, z), dX(n, z)))
        return div(sub(mul(X(n, z), Bv), mul(dX(n, z), A)), W), div(sub(mul(P(n, z), Bv), mul(dP(n, z), A)), W)
    # inner interface: shell coefficients from the core ones
    z1, z2 = mul(m1, x), mul(m2, x)
    f, v = solve(div(mul(m2, c, P(n, z1)), m1), mul(c, dP(n, z1)), z2)
    g, w = solve(mul(d, P(n, z1)), div(mul(m2, d, dP(n, z1)), m1), z2)
    G = dict(c_n=c, d_n=d, f_n=f, g_n=g, v_n=v, w_n=w).__getitem__
    u.term("core magnetic E", mul(m2, c, P(n, z1)), mul(m1, sub(mul(f, P(n, z2)), mul(v, X(n, z2)))))
    u.term("core magnetic H", mul(c, dP(n, z1)), sub(mul(f, dP(n, z2)), mul(v, dX(n, z2))))
    u.term("core electric H", mul(d, P(n, z1)), sub(mul(g, P(n, z2)), mul(w, X(n, z2))))
    u.term("core electric E", mul(m2, d, dP(n, z1)), mul(m1, sub(mul(g, dP(n, z2)), mul(w, dX(n, z2)))))
    for which in "EH":
        for k, nm in ((1, "polar"), (2, "azimuthal")):
            u.term("core surface: %s %s" % (which, nm), region_cs(which, 0, G, mul(m1, ne), E0, n, z1, th, ph, ie(k)), region_cs(which, 1, G, mul(m2, ne), E0, n, z2, th, ph, ie(k)))
    # outer interface: shell coefficients from the external ones
    z2 = mul(m2, y)
    f, v = solve(mul(m2, sub(P(n, y), mul(b, Z(n, y)))), sub(dP(n, y), mul(b, dZ(n, y))), z2)
    g, w = solve(sub(P(n, y), mul(a, Z(n, y))), mul(m2, sub(dP(n, y), mul(a, dZ(n, y)))), z2)
    G = dict(a_n=a, b_n=b, f_n=f, g_n=g, v_n=v, w_n=w).__getitem__
    inc = lambda which, k: region_field(which, 0, 9, ZERO, ONE, ZERO, ONE, ne, E0, n, y, th, ph, k)      # plane-wave expansion, B&H 4.37
    for which in "EH":
        for k, nm in ((1, "polar"), (2, "azimuthal")):
            u.term("outer surface: %s %s" % (which, nm), region_cs(which, 1, G, mul(m2, ne), E0, n, z2, th, ph, ie(k)), add(inc(which, ie(k)), region_cs(which, 2, G, ne, E0, n, y, th, ph, ie(k))))


for _p in ("C10", "C11"):
    rests(_p, "_miecoef/*", "_miecoef_pena/*", "mie_coefficients/full/vec/vec", "mie_coefficients/c-batch/vec/vec", "mie_coefficients/h-batch/vec/vec", "mie_coefficients/*/c-batch/vec/one/internal",
          "mie_coefficients/*/h-batch/vec/one/internal", "mie_coefficients/torch/recurrence/layers", "mie_coefficients/scipy/layers", "field components/*", "Cartesian to spherical and back/*",
          "pena_D1_n*", "pena_D3_n*", "pena_psi_zeta_n*", "sph_jn_torch*", "sph_yn_torch*", "psi_torch*", "xi_torch*", "chi_torch*", "pi_tau*")
