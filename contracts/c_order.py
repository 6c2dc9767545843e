"""contracts on the automatic truncation order (helper.helper) and its use by mie_coefficients"""
from base import *
import core, smt, callee, layouts, c_mie, c_core
from core import *
from tensor import *
from layouts import In
from miespec import Sphere


def le(a, b): return fcmp("<=", a, b)
def implies(a, b): return bor(bnot(a), b)


def root_axioms(ctx, t):
    """x -> x^e is increasing on x >= 0 (0 < e < 1), with rational enclosures at the constants in play"""
    if t.op != "pow" or not isinstance(t.a[1], Fr) or not 0 < t.a[1] < 1 or not nonneg(t.a[0]) or t.a[0].op == "num": return []
    x, e = t.a
    out = [implies(le(ONE, x), le(t, x)), implies(le(x, ONE), le(x, t))]
    for y in [y for y in ctx.reals if y is not t and y.op == "pow" and y.a[1] == e and nonneg(y.a[0])]:
        out += [implies(le(x, y.a[0]), le(t, y)), implies(le(y.a[0], x), le(y, t))]
    cs = {Fr(1), Fr(8), Fr(4200)}
    for f in ctx.facts:
        for q in walk(f):
            if q.op in ("f<", "f<="): cs |= {z.a[0] for z in q.a if z.op == "num" and z.a[1] == 0 and z.a[0] > 0}
    for c in cs:
        v = float(c) ** float(e)
        lo, hi = Fr(v * (1 - 1e-12)), Fr(v * (1 + 1e-12))
        out += [implies(le(x, num(c)), le(t, num(hi))), implies(le(num(c), x), le(num(lo), t))]
    return out


smt.REAL_AXIOMS.append(root_axioms)


def witness(R, t, todo=None):
    """facts: every maximum in the term is attained; returns the attaining index symbols"""
    out = []
    for m in [x for x in walk(t) if x.op == "maxr"]:
        if freesyms(m) & {x.a[0] for x in walk(t) if x.op == "maxr" and x is not m and m in set(walk(x))}: continue
        v, lo, hi, body = m.a
        s = isym(fresh("att"))
        R.ctx.assume(icmp("<=", lo, s)); R.ctx.assume(icmp("<", s, hi))
        b = subst(body, {v: s})
        R.ctx.assume(fcmp("==", m, b))
        out.append(s)
        out += witness(R, b)
    return out


def upper(R, t, idx):
    """facts: every maximum in the term is at least its entries at the given indices"""
    out, st, seen = [], [t], set()
    while st:
        y = st.pop()
        for m in [x for x in walk(y) if x.op == "maxr"]:
            if m in seen: continue
            seen.add(m)
            v, lo, hi, body = m.a
            if any(s.startswith("@") for s in freesyms(m)): continue
            for s in idx:
                if R.ctx.decide(band(icmp("<=", lo, s), icmp("<", s, hi))) is not True: continue
                b = subst(body, {v: s})
                R.ctx.assume(le(b, m))
                out.append(b); st.append(b)
    return out


def tie(R, ts, us):
    """facts: terms of us that are equal to one of ts by an algebraic identity"""
    have = set(ts)
    for v in dict.fromkeys(us):
        if v in have: continue
        for t in ts:
            if t is v or t.op == "maxr" or v.op == "maxr": continue
            if prove.prove_all(R, [(t, v)]) is True: R.ctx.assume(fcmp("==", t, v))


def nodeof(n):
    if isinstance(n, T): return n.at()
    return node_of(n)


def margin(x):
    r = mkpow(x, Fr(1, 3))
    return ite(le(x, num(8)), add(ONE, x, mul(num(4), r)), ite(fcmp("<", x, num(4200)), add(num(2), x, mul(num(Fr("4.05")), r)), add(num(2), x, mul(num(4), r))))


def atoms(t): return [x for x in walk(t) if x.op in ("abs", "mul", "pow", "leaf") and x.real and not any(s.startswith("@") for s in freesyms(x))]


def claims(R, u, order_, terms, idx, tgt, items):
    """items: (name, goal) decided with the maxima of `terms` bounded below at idx"""
    R.ctx.push()
    try:
        got = []
        for t in terms: got += upper(R, t, idx)
        tie(R, got, tgt)
        for nm, g in items: u.ob(nm, R.ctx.decide(g) is True, show(g)[:600])
    finally: R.ctx.pop()


ORD = dict(squares=layouts.SQ, notiny=True)


for rank in (1, 2):
    @contract("Wiscombe order/rank %d" % rank, HP + ".get_truncution_criteroin_wiscombe", "C15", **ORD)
    def f(R, u, rank=rank):
        sh = tuple(dims(R, "P", "W")[:rank])
        ka = tens("ka", sh)
        n = call(HP, "get_truncution_criteroin_wiscombe", ka)
        N = nodeof(n)
        u.ob("an integer", int_of(core.strip_detach(N)) is not None, show(N)[:300])
        N = core.strip_detach(N)
        idx = dims(R, *["i%d" % k for k in range(rank)], lo=0)
        for i, d in zip(idx, sh): R.ctx.assume(icmp("<", i, d))
        x = absv(ka.at(*idx))
        claims(R, u, N, list(R.ctx.facts) + [N], idx, [x], [
            ("at least the Wiscombe order of every size parameter of the batch", le(sub(margin(x), num(Fr(1, 2))), N)),
            ("at least one", le(ONE, N))])
        R.ctx.push()
        try:
            ms = {m for t in list(R.ctx.facts) + [N] for m in walk(t) if m.op == "maxr"}
            w = [s for m in ms if not any(q.startswith("@") for q in freesyms(m)) for s in witness(R, m)]
            R.ctx.assume(TRUE)
            got = [absv(ka.at(*p)) for p in __import__("itertools").permutations(w, rank) if all(R.ctx.decide(band(icmp("<=", 0, a), icmp("<", a, d))) is True for a, d in zip(p, sh))]
            u.ob("at most the Wiscombe order of one of them", any(R.ctx.decide(le(N, add(margin(g), num(Fr(1, 2))))) is True for g in got), "%d candidates" % len(got))
        finally: R.ctx.pop()

    @contract("Wiscombe order never shrinks/rank %d" % rank, HP + ".get_truncution_criteroin_wiscombe", "C15", **ORD)
    def f(R, u, rank=rank):
        sh = tuple(dims(R, "P", "W")[:rank])
        ka = tens("ka", sh)
        idx = dims(R, *["i%d" % k for k in range(rank)], lo=0)
        for i, d in zip(idx, sh): R.ctx.assume(icmp("<", i, d))
        one = T((1,) * rank, lambda i: ka.at(*idx), "c128", owner="argument ka")
        a = core.strip_detach(nodeof(call(HP, "get_truncution_criteroin_wiscombe", ka)))
        b = core.strip_detach(nodeof(call(HP, "get_truncution_criteroin_wiscombe", one)))
        x = absv(ka.at(*idx))
        claims(R, u, a, list(R.ctx.facts) + [a], idx, [x] + [y for y in atoms(b) if y.op == "abs"], [("order of a batch >= order of each member", le(b, a))])


def pena_args(R):
    P, L, W = dims(R, "P", "L", "W")
    k0, r, e, env = postens("k0", (1, W)), postens("r_layers", (P, L)), tens("eps_layers", (P, L, W)), tens("eps_env", (1, W))
    p, l, w = dims(R, "p", "l", "w", lo=0)
    for i, d in ((p, P), (l, L), (w, W)): R.ctx.assume(icmp("<", i, d))
    z = ie(0)
    n = lambda t: mkpow(t, Fr(1, 2))
    X = absv(mul(k0.at(z, w), n(env.at(z, w)), r.at(p, isub(L, 1))))
    M = absv(mul(k0.at(z, w), n(e.at(p, l, w)), r.at(p, l)))
    Mp = absv(mul(k0.at(z, w), n(e.at(p, l, w)), r.at(p, isub(l, 1))))
    return P, L, W, k0, r, e, env, p, l, w, X, M, Mp


@contract("default order", HP + ".get_truncution_criteroin_pena2009", "C15", **ORD)
def f(R, u):
    P, L, W, k0, r, e, env, p, l, w, X, M, Mp = pena_args(R)
    N = nodeof(call(HP, "get_truncution_criteroin_pena2009", k0, r, e, env))
    u.ob("an integer", int_of(core.strip_detach(N)) is not None, show(N)[:300])
    N = core.strip_detach(N)
    R.ctx.push()
    if R.ctx.decide(icmp("<=", 1, l)) is None:
        pass
    claims(R, u, N, list(R.ctx.facts) + [N], [p, w, l, ie(0)], [X, M], [
        ("at least the outer size parameter plus the Wiscombe margin plus fifteen", le(add(margin(X), num(14)), N)),
        ("at least the optical size of every layer at its outer radius plus fifteen", le(add(M, num(Fr(29, 2))), N)),
        ("at least one", le(ONE, N))])
    R.ctx.pop()
    R.ctx.push()
    R.ctx.assume(icmp("<=", 1, l))
    claims(R, u, N, list(R.ctx.facts) + [N], [p, w, l, isub(l, 1), ie(0)], [Mp], [
        ("at least the optical size of every layer at its inner radius plus fifteen", le(add(Mp, num(Fr(29, 2))), N))])
    R.ctx.pop()


@contract("default order never shrinks", HP + ".get_truncution_criteroin_pena2009", "C15", **ORD)
def f(R, u):
    P, L, W, k0, r, e, env, p, l, w, X, M, Mp = pena_args(R)
    z = ie(0)
    a = core.strip_detach(nodeof(call(HP, "get_truncution_criteroin_pena2009", k0, r, e, env)))
    b = core.strip_detach(nodeof(call(HP, "get_truncution_criteroin_pena2009", T((1, 1), lambda i: k0.at(z, w), "f64"), T((1, L), lambda i: r.at(p, i[1]), "f64"), T((1, L, 1), lambda i: e.at(p, i[1], w), "c128"), T((1, 1), lambda i: env.at(z, w), "c128"))))
    ms = {m for t in list(R.ctx.facts) + [b] for m in walk(t) if m.op == "maxr" and not any(q.startswith("@") for q in freesyms(m))}
    sub_ = [m for m in ms if {"p", "w"} & freesyms(m)]
    ws = [s for m in sub_ for s in witness(R, m)]
    claims(R, u, a, list(R.ctx.facts) + [a], [p, w, isub(L, 1), z] + ws, [y for t in [b] + list(R.ctx.facts) for y in atoms(t) if y.op in ("mul", "abs")][:40], [("order of a batch >= order of each member", le(b, a))])


# ------------------------------------------------------------------ use of the order by mie_coefficients
def auto(box):
    """contracts of the two criteria as seen by mie_coefficients: some order N >= 1 when given the sphere's own data"""
    N = isym("N_auto")

    @callee.guard0
    def pena(d):
        a = box["a"]
        P, L, W = a.P, a.L, a.W
        ok = callee.holds(d["k0"], (1, W), lambda z, w: a.k0(w)) and callee.holds(d["r_layers"], (P, L), a.r) and callee.holds(d["eps_layers"], (P, L, W), a.eps) and callee.holds(d["eps_env"], (1, W), lambda z, w: a.env(w))
        return unie(N) if ok and box["pena"] else None

    @callee.guard0
    def wiscombe(d):
        a = box["a"]
        last = isub(a.L, 1)
        ok = callee.holds(d["ka"], (a.P, a.W), lambda p, w: a.x(last, p, w))
        return unie(N) if ok and not box["pena"] else None
    return N, {HP + ".get_truncution_criteroin_pena2009": pena, HP + ".get_truncution_criteroin_wiscombe": wiscombe}


def auto_contract(layer, k0, env, **opt):
    box, sph = {}, Sphere(None, None)
    box["pena"] = opt.get("backend", "pena") == "pena"
    N, cs = auto(box)
    o = c_mie.sphere_opts(sph)
    o["contracts"] = dict(o["contracts"], **cs)
    if not box["pena"]: o = dict(contracts=dict(cs, **{MS + "._miecoef": c_core.c_miecoef(None, box)}), squares=layouts.SQ)

    @contract("automatic order/%s/%s/%s/%s" % (opt.get("backend", "default"), layer, k0, env), MS + ".mie_coefficients", "C15", **o)
    def f(R, u):
        R.ctx.assume(icmp("<=", 1, N))
        a = In(R, layer, k0, env)
        full = dict(backend="torch", precision="double", which_jn="recurrence"); full.update(opt)
        box.update(a=a, opt=full)
        if box["pena"]: c_mie.use(sph, a)
        d = call(MS, "mie_coefficients", **a.kw, **opt)
        u.eq("n_max = the criterion at the particle's own data", d["n_max"], (), lambda: fint(N))
        u.eq("orders 1..n_max", d["n"], (N,), lambda i: fint(iadd(i, 1)))
        if box["pena"]: c_mie.check_ab(u, a, d, sph, N)
        else:
            for nm in callee.NAMES8[:2]: u.eq(nm, d[nm], (N, a.P, a.W), lambda i, p, w: callee.cleaf(nm, i, p, w))


for _l in ("full", "spectra", "single-constants"): auto_contract(_l, "vec", "vec")
auto_contract("c-batch", "vec", "one"); auto_contract("h-numbers", "number", "real")
auto_contract("c-batch", "vec", "vec", backend="torch"); auto_contract("h-batch", "vec", "one", backend="torch"); auto_contract("c-batch", "vec", "vec", backend="scipy")

# an explicitly given order is used exactly: contracts mie_coefficients/* (shape of a_n, n, n_max)
rests("C15", "mie_coefficients/full/vec/vec", "mie_coefficients/torch/recurrence/c-batch/vec/*", "mie_coefficients/scipy/c-batch/vec/*")
