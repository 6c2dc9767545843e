"""Contracts of the verified functions, as seen by their callers.

A call is answered by the callee's postcondition when its precondition is discharged at the call
site; otherwise the body of the callee is executed (never assumed)."""
from base import *
from core import *
import core
from interp import cur


def asorder(n):
    if isinstance(n, T):
        if n.ndim: return None
        return int_of(n.at())
    if isinstance(n, bool) or n is None: return None
    if isinstance(n, (int, IE)): return ie(n)
    return None


def plain(z, ranks=(1, 2, 3, 4)): return isinstance(z, T) and z.ndim in ranks and z.lib == "torch"


def holds(t, shape, f):
    """t is a tensor of that shape equal to f element by element, on this path"""
    R = cur[0]
    if not isinstance(t, T) or t.ndim != len(shape): return False
    for a, b in zip(t.shape, shape):
        if same(a, b) is not True: return False
    idx, facts, syms = [], [], []
    for d in t.shape:
        c = iconst(nz(d))
        if c == 1: idx.append(ie(0)); continue
        s = fresh("i"); syms.append(s); idx.append(isym(s))
        facts += [icmp("<=", 0, isym(s)), icmp("<", isym(s), d)]
    with R.scope(tuple(syms), *facts):
        a, b = core.strip_detach(t.at(*idx)), core.strip_detach(f(*idx))
        if a is b: return True
        return prove.prove_all(R, [(a, b)]) is True


def dt(d, z): return "c64" if str(d.get("precision", "double")).lower() == "single" else "c128"


def extra(d, *names): return any(k not in names for k in d if k not in ("eps", "precision"))


def out(n, z, f, d):
    rd = z.reader()
    return T((iadd(n, 1),) + tuple(z.shape), lambda i: f(i[0], rd(i[1:])), dt(d, z))


import os
DEBUG = bool(os.environ.get("VERIF_DEBUG"))


def guard0(fn): return guard(fn, False)


def guard(fn, defaults=True):
    def g(ip, d):
        # options other than precision must have their default value (the contract is verified for it)
        f = ip.curf
        nm = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        for k, v in zip(nm[len(nm) - len(f.defaults):], f.defaults):
            if defaults and k in d and k not in ("precision", "D1") and d[k] is not v and not (type(d[k]) == type(v) and d[k] == v): return NotImplemented
        try: r = fn(d)
        except (KeyError, AttributeError) as e:
            if DEBUG: print('contract of', f.qual, repr(e))
            return NotImplemented
        if r is None and DEBUG: print('contract of', f.qual, 'not applicable')
        return NotImplemented if r is None else r
    return g


@guard
def c_D1(d):
    n, z = asorder(d.get("n")), d["z"]
    if n is None or not plain(z): return None
    return out(n, z, F.D1, d)


def okD1(n, z, D1): return holds(D1, (iadd(n, 1),) + tuple(z.shape), lambda k, *i: F.D1(k, z.at(*i)))
def okD3(n, z, D3): return holds(D3, (iadd(n, 1),) + tuple(z.shape), lambda k, *i: F.D3(k, z.at(*i)))


@guard
def c_D3(d):
    n, z = asorder(d.get("n")), d["z"]
    if n is None or not plain(z): return None
    if d.get("D1") is not None and not okD1(n, z, d["D1"]): return None
    return out(n, z, F.D3, d)


@guard
def c_pz(d):
    n, z = asorder(d.get("n")), d["z"]
    if n is None or not plain(z) or not okD1(n, z, d["D1"]) or not okD3(n, z, d["D3"]): return None
    return (out(n, z, F.psi, d), out(n, z, F.zeta, d))


@guard
def c_Q(d):
    n, z1, z2 = asorder(d.get("n")), d["z1"], d["z2"]
    if n is None or not plain(z1) or not plain(z2) or z1.ndim != z2.ndim: return None
    if not all(same(a, b) for a, b in zip(z1.shape, z2.shape)): return None
    if not (okD1(n, z1, d["D1_z1"]) and okD1(n, z2, d["D1_z2"]) and okD3(n, z1, d["D3_z1"]) and okD3(n, z2, d["D3_z2"])): return None
    x1, x2 = d["x1"], d["x2"]
    if not holds(T(z1.shape, lambda i: mul(x2.at(*i), z1.at(*i)), "c128"), z1.shape, lambda *i: mul(x1.at(*i), z2.at(*i))): return None
    r1, r2 = z1.reader(), z2.reader()
    return T((iadd(n, 1),) + tuple(z1.shape), lambda i: F.Q(i[0], r1(i[1:]), r2(i[1:])), dt(d, z1))


def seqc(f):
    @guard
    def c(d):
        n, z = asorder(d.get("n", d.get("n_max"))), d["z"]
        if n is None or not plain(z): return None
        return out(n, z, f, d)
    return c


SPECIAL = {
    SP + ".pena_D1_n": c_D1, SP + ".pena_D3_n": c_D3, SP + ".pena_psi_zeta_n": c_pz, SP + ".pena_Q_n": c_Q,
}


def c_miecoef_pena(sph):
    """_miecoef_pena: returns the coefficients of the boundary-value problem of `sph` when the arguments describe it"""
    @guard0
    def c(d):
        k, r, e, ne, n = d["k"], d["r_layers"], d["eps_layers"], d["n_env"], asorder(d["n"])
        if d.get("return_internal") is not False or n is None: return None
        if cur[0].ctx.decide(icmp("<=", 1, n)) is not True: return None
        if not all(isinstance(t, T) for t in (k, r, e, ne)) or k.ndim != 2 or r.ndim != 2 or e.ndim != 3 or ne.ndim != 2: return None
        P, L, W = e.shape
        if not (same(k.shape[0], 1) and same(ne.shape[0], 1) and same(k.shape[1], W) and same(ne.shape[1], W) and same(r.shape[0], P) and same(r.shape[1], L)): return None
        z = ie(0)
        m = T((P, L, W), lambda i: div(mkpow(e.at(*i), Fr(1, 2)), ne.at(z, i[2])), "c128")
        x = T((P, L, W), lambda i: mul(k.at(z, i[2]), r.at(i[0], i[1])), "c128")
        if not holds(m, (P, L, W), lambda p, l, w: sph.m(l, p, w)) or not holds(x, (P, L, W), lambda p, l, w: sph.x(l, p, w)): return None
        dtp = dt(d, None)
        mk_ = lambda kind: T((n, P, W), lambda i: sph.outer(kind, L, iadd(i[0], 1), i[1], i[2]), dtp)
        return {"a_n": mk_("A"), "b_n": mk_("B")}
    return c


ARGS = ("r_layers", "eps_layers", "r_c", "eps_c", "r_s", "eps_s")


def samearg(x, y):
    if x is y: return True
    if isinstance(x, T) and isinstance(y, T): return holds(x, y.shape, lambda *i: y.at(*i))
    if is_scalar(x) and is_scalar(y):
        if isinstance(x, (int, float, complex)) and isinstance(y, (int, float, complex)): return x == y
        return node_of(x) is node_of(y)
    if isinstance(x, T) and x.ndim == 0 and is_scalar(y): return x.at() is node_of(y)
    return type(x) == type(y) and not isinstance(x, T) and x == y


NAMES8 = ("a_n", "b_n", "c_n", "d_n", "f_n", "g_n", "v_n", "w_n")


def cleaf(name, i, p, w): return leaf(name, False, (ie(i), ie(p), ie(w)), ())


def c_mie(box):
    """mie_coefficients: `box` holds the inputs (In), the order and the options the caller must forward"""
    @guard0
    def c(d):
        a, n, opt = box["a"], box["n"], box["opt"]
        if not samearg(d.get("k0"), a.kw["k0"]) or not samearg(d.get("eps_env"), a.kw["eps_env"]): return None
        for k in ARGS:
            if not samearg(d.get(k), a.kw.get(k)): return None
        for k in ("backend", "precision", "which_jn"):
            if d.get(k) != opt[k]: return None
        if box["n_given"] is None:
            if d.get("n_max") is not None: return None
        elif asorder(d.get("n_max")) is None or nz(asorder(d.get("n_max"))) is not nz(n): return None
        P, L, W = a.P, a.L, a.W
        last = isub(L, 1)
        z = ie(0)
        cd = "c64" if opt["precision"] == "single" and opt["backend"] == "pena" else "c128"
        mk_ = lambda sh, f, dtp: T(sh, lambda i: f(*i), dtp)
        kd = dtype_of(a.kw["k0"])
        ed = dtype_of(a.kw.get("eps_layers", a.kw.get("eps_c")))
        hd = dtype_of(a.kw["eps_env"])
        rd = dtype_of(a.kw.get("r_layers", a.kw.get("r_c")))
        kdt = rtype([T((1, 1), None, kd), T((1, 1), None, hd)])
        r = dict(k=mk_((1, W), lambda i, w: a.k(w), kdt), k0=mk_((1, W), lambda i, w: a.k0(w), kd),
                 n=mk_((n,), lambda i: fint(iadd(i, 1)), "i64"), n_max=mk_((), lambda: fint(n), "i64"),
                 r_c=mk_((P, W), lambda p, w: a.r(p, z), rd), r_s=mk_((P, W), lambda p, w: a.r(p, last), rd),
                 eps_c=mk_((P, W), lambda p, w: a.eps(p, z, w), ed), eps_s=mk_((P, W), lambda p, w: a.eps(p, last, w), ed),
                 eps_env=mk_((1, W), lambda i, w: a.env(w), hd),
                 n_c=mk_((P, W), lambda p, w: a.index(p, z, w), ed), n_s=mk_((P, W), lambda p, w: a.index(p, last, w), ed),
                 n_env=mk_((1, W), lambda i, w: a.nenv(w), hd),
                 r_layers=mk_((P, L), a.r, rd), eps_layers=mk_((P, L, W), a.eps, ed),
                 m_layers=mk_((P, L, W), lambda p, l, w: a.m(l, p, w), rtype([T((1,), None, ed), T((1,), None, hd)])),
                 L=mk_((), lambda: fint(L), "i64"))
        names = NAMES8 if d.get("return_internal") is True else NAMES8[:2]
        if d.get("return_internal") is True and opt["backend"] == "pena": return None
        for nm in names:
            f = box.get("coef", {}).get(nm) or (lambda i, p, w, nm=nm: cleaf(nm, i, p, w))
            r[nm] = mk_((n, P, W), f, cd)
        return r
    return c


@guard
def c_pi_tau(d):
    n, mu = asorder(d["n"]), d["mu"]
    if n is None or not plain(mu) or cur[0].ctx.decide(icmp("<=", 1, n)) is not True: return None
    rd = mu.reader()
    sh = (iadd(n, 1),) + tuple(mu.shape)
    dtp = mu.dtype if cat(mu.dtype) >= 2 else "f32"
    return (T(sh, lambda i: F.pin(i[0], rd(i[1:])), dtp), T(sh, lambda i: ite(icmp("==", i[0], 0), ZERO, F.taun(i[0], rd(i[1:]))), dtp))
