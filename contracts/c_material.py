"""contracts on material permittivities: helper.interp1d, materials.mat"""
from base import *
import core, smt, callee
from core import *
from tensor import *
from interp import Inst, L as PyList

# ------------------------------------------------------------------ assumed contracts of argsort / bucketize
# The table is stored in any order: entry k of the given arrays is entry perm(k) of the sorted table xs, ys
# (perm a permutation, distinct nodes).  argsort returns the inverse permutation, bucketize the neighbour index.
NT = isym("N_table")


def xs(i): return leaf("xs", True, (i,), ())
def ys(i): return leaf("ys", False, (i,), ())
def perm(k): return iop("sub", "table", k)


def pv(i): return iop("subinv", "table", i)


def _range(ctx, a):
    k = a[2]
    r = IE(((a, 1),), 0)
    return [bor(bnot(band(icmp("<=", 0, k), icmp("<", k, NT))), band(icmp("<=", 0, r), icmp("<", r, NT)))] if a[1] == "table" else []


smt.INT_AXIOMS["sub"] = smt.INT_AXIOMS["subinv"] = _range


def argsort(t, descending):
    (n,) = t.shape
    i = isym(fresh("q"))
    if descending or same(n, NT) is not True or t.at(i) is not xs(perm(i)): raise Unsup("argsort of something else than the table's nodes")
    return T((NT,), lambda ix: fint(pv(ix[0])), "i64")


def bucket(x, right): return iop("bucket", x, 1 if right else 0)


def _bucket(ctx, a):
    x, right = a[1], a[2].c
    b = IE(((a, 1),), 0)
    lo = lambda i: (fcmp("<=", xs(i), x) if right else fcmp("<", xs(i), x))
    hi = lambda i: (fcmp("<", x, xs(i)) if right else fcmp("<=", x, xs(i)))
    imp = lambda c, d: bor(bnot(c), d)
    return [icmp("<=", 0, b), icmp("<=", b, NT), imp(icmp("<=", 1, b), lo(isub(b, 1))), imp(icmp("<", b, NT), hi(b))]


smt.INT_AXIOMS["bucket"] = _bucket


def bucketize(x, b, right):
    (n,) = b.shape
    i = isym(fresh("q"))
    if same(n, NT) is not True or cur[0].norm(b.at(i)) is not xs(i): raise Unsup("bucketize into something else than the sorted nodes")
    if not isinstance(x, T): raise Unsup("bucketize of a number")
    rd = x.reader()
    return T(x.shape, lambda ix: fint(bucket(core.strip_detach(rd(ix)), right)), "i64")


LIB = dict(argsort=argsort, bucketize=bucketize, notiny=True)


def increasing(R, *ix):
    """the table's nodes are distinct and xs lists them in increasing order (instances for the given entries)"""
    inr = lambda a: band(icmp("<=", 0, a), icmp("<", a, NT))
    for a in ix:
        for b in ix:
            if a is b: continue
            g = bor(bnot(inr(a)), bnot(inr(b)))
            R.ctx.assume(bor(g, bor(bnot(icmp("<", a, b)), fcmp("<", xs(a), xs(b)))))
            R.ctx.assume(bor(g, bor(bnot(icmp("==", a, b)), fcmp("==", xs(a), xs(b)))))


def buckets(t): return {a for x in walk(t) for y in x.a for z in (y if isinstance(y, tuple) else (y,)) if isinstance(z, IE) for a in iatoms(z)}


def iatoms(z):
    out = set()
    for a, k in z.co:
        if isinstance(a, tuple):
            if a[0] == "bucket": out.add(a)
            for y in a[1:]:
                if isinstance(y, IE): out |= iatoms(y)
                elif isinstance(y, Node): out |= buckets(y)
    return out


def replace(t, atom, v, ctx=None):
    """the integer atom replaced by an integer expression it is equal to"""
    memo = {}

    def goI(x):
        r = ie(x.c)
        for a, k in x.co:
            if a == atom: w = v
            elif isinstance(a, str): w = IE(((a, 1),), 0)
            else:
                args = [goI(y) if isinstance(y, IE) else go(y) if isinstance(y, Node) else y for y in a[1:]]
                w = imul(*args) if a[0] == "mul" else iop(a[0], *args)
                if a[0] in ("max", "min") and len(args) == 2 and ctx is not None:
                    for p, q in (args, args[::-1]):
                        if ctx.decide(icmp("<=", p, q)) is True: w = q if a[0] == "max" else p; break
            r = iadd(r, iscale(w, k))
        return r

    def go(x):
        r = memo.get(x)
        if r is None: r = memo[x] = core.rebuild(x, go, goI)
        return r
    return go(t)


def table(n=None):
    xd = T((NT,), lambda i: xs(perm(i[0])), "f64", owner="argument x_dat")
    yd = T((NT,), lambda i: ys(perm(i[0])), "c128", owner="argument y_dat")
    return xd, yd


def lin(x, j):
    """linear interpolation between the entries j and j + 1"""
    a, b = xs(j), xs(iadd(j, 1))
    return add(mul(ys(j), div(sub(b, x), sub(b, a))), mul(ys(iadd(j, 1)), div(sub(x, a), sub(b, a))))


def bucket_is(R, u, t, cands):
    """the neighbour index is determined by the position of x; returns the term with it replaced"""
    for at in sorted(buckets(t), key=repr):
        b = IE(((at, 1),), 0)
        increasing(R, *{x for x in [isub(b, 1), b] + list(cands)})
        v = [c for c in cands if R.ctx.decide(icmp("==", b, c)) is True]
        if not v: return None
        t = replace(t, at, v[0], R.ctx)
    return t


def interp_case(rank, case):
    @contract("interp1d/rank %d/%s" % (rank, case), HP + ".interp1d", "C14", **LIB)
    def f(R, u):
        R.ctx.assume(icmp("<=", 1, NT))
        sh = tuple(dims(R, "Q")[:rank])
        (j,) = dims(R, "j", lo=0)
        q = dims(R, "q", lo=0)[:rank]
        for a, d in zip(q, sh): R.ctx.assume(icmp("<", a, d))
        last = isub(NT, 1)
        if case == "at a node":
            R.ctx.assume(icmp("<", j, NT))
            x = T(sh, lambda i: ite(icmp("==", i[0], q[0]), xs(j), leaf("wl", True, i, ())) if rank else xs(j), "f64", owner="argument x_eval")
        else: x = tens("wl", sh, "f64", owner="argument x_eval")
        v = x.at(*q)
        cands = [ie(0), last, NT]
        if case == "between nodes":
            R.ctx.assume(icmp("<", iadd(j, 1), NT))
            R.ctx.assume(fcmp("<", xs(j), v)); R.ctx.assume(fcmp("<", v, xs(iadd(j, 1))))
            cands += [j, iadd(j, 1), iadd(j, 2)]; want = lin(v, j)
        elif case == "at a node": cands += [j, iadd(j, 1), isub(j, 1)]; want = ys(j)
        elif case == "below the table": R.ctx.assume(fcmp("<", v, xs(ie(0)))); want = ys(ie(0))
        else: R.ctx.assume(fcmp("<", xs(last), v)); want = ys(last)
        cands = [R.norm(fint(c)).a[0] if fint(c).op == "int" else c for c in dict.fromkeys(cands)]
        increasing(R, *cands)
        xd, yd = table()
        r = call(HP, "interp1d", x, xd, yd)
        if not u.shape("value", r, sh): return
        t = R.norm(core.strip_detach(r.at(*q)))
        cut = severed(R.norm(r.at(*q)))
        if case != "at a node": u.ob("gradient path: value", cut is None, "" if cut is None else show(cut)[:300])
        for k in range(3):
            t2 = bucket_is(R, u, t, cands)
            if t2 is None: break
            t = R.norm(t2)
            if not buckets(t): break
        u.ob("neighbour index determined", not buckets(t), show(t)[:500])
        u.term(case, t, want)


for _r in (0, 1):
    for _c in ("between nodes", "at a node", "below the table", "above the table"): interp_case(_r, _c)


# ------------------------------------------------------------------ material classes
WL = lambda *i: leaf("wavelength", True, i, ())
EPS = lambda x: leaf("eps_of", False, (), (x,))          # the value _eval computes at a wavelength (detached history-free)


def inst(cls, **kw):
    loader().load(MT)
    return Inst(loader().load(MT).d[cls], **kw)


def method(o, name, *a, **k): return interp.INTERP[0].call(interp.INTERP[0].getattr(o, name), list(a), k)


COEFF = lambda i: leaf("coeff", True, (ie(i),), ())


def sellmeier(w, n):
    """1 + c0 + sum_k c_{2k+1} w^2 / (w^2 - c_{2k+2}^2), w in micrometres, n terms"""
    w = div(w, num(1000))
    k = fresh("k")
    b = isym(k)
    c1, c2 = COEFF(iadd(iscale(b, 2), 1)), COEFF(iadd(iscale(b, 2), 2))
    w2 = mkpow(w, Fr(2))
    return add(ONE, COEFF(0), ssum(k, ie(0), n, mul(c1, w2, mkpow(sub(w2, mkpow(c2, Fr(2))), Fr(-1)))))


@contract("MatDatabase._eval/sellmeier", MT + ".MatDatabase._eval", "C14", notiny=True)
def f(R, u):
    (n,) = dims(R, "n_terms", lo=0)
    co = PyList(length=iadd(iscale(n, 2), 1), get=lambda j: SNum(COEFF(j), "float"))
    m = inst("MatDatabase", model_type="sellmeier", coeff=co, device="cpu")
    w = T((), lambda i: WL(), "f32", owner="argument wavelength")
    r = method(m, "_eval", w)
    if isinstance(r, SNum): u.term("no terms: value", r.node, sellmeier(WL(), ie(0))); u.fact("no terms", icmp("==", n, 0))
    else: u.eq("Sellmeier value", r, (), lambda: sellmeier(WL(), n))


def interp_leaf(x): return leaf("interp1d", False, (), (x,))


@callee.guard0
def c_interp1d(d):
    """interp1d(x, table) as seen by its callers (contracts interp1d/*): a function of x and the table, element by element"""
    x, xd, yd = d["x_eval"], d["x_dat"], d["y_dat"]
    if not callee.holds(xd, (NT,), lambda k: xs(perm(k))) or not callee.holds(yd, (NT,), lambda k: ys(perm(k))): return None
    if not isinstance(x, T): return None
    rd = x.reader()
    return T(x.shape, lambda i: interp_leaf(rd(i)), "c64")


@contract("MatDatabase._eval/data", MT + ".MatDatabase._eval", "C14", contracts={HP + ".interp1d": c_interp1d}, notiny=True)
def f(R, u):
    xd, yd = table()
    m = inst("MatDatabase", model_type="data", coeff=PyList([]), wl_dat=xd, eps_dat=yd, device="cpu")
    w = T((), lambda i: WL(), "f32", owner="argument wavelength")
    u.eq("interpolated value of the table", method(m, "_eval", w), (), lambda: interp_leaf(WL()))


@contract("MatDatabase._eval/unknown model", MT + ".MatDatabase._eval", "C14", notiny=True)
def f(R, u):
    m = inst("MatDatabase", model_type=SNum(leaf("model", True), "float"), coeff=PyList([]), device="cpu")
    raises(u, lambda: method(m, "_eval", T((), lambda i: WL(), "f32")))


def raises(u, thunk):
    try: r = thunk()
    except PyExc as e: u.ob("rejected", True, ""); return
    u.ob("rejected", False, "returned %r" % (r,))


class Memo:
    """lookup_eps of a material with any history: invariant  memo[k] == value at k, no tensor of an autograd graph"""
    def __init__(self, u): self.u, self.stored = u, []
    def key(self, k):
        if not isinstance(k, SNum): raise Unsup("memo key %r" % (k,))
        return core.strip_detach(k.node)
    def vcontains(self, k): return SBool(mk("bopq", "stored(%s)" % show(self.key(k))))
    def vattr(self, name):
        if name == "get": return lambda k, default=None: self.vget(k) if cur[0].branch(self.vcontains(k).node) else default
        raise Unsup("memo.%s" % name)
    def vget(self, k): return T((), lambda i: core.detach(EPS(self.key(k))), "c64", owner="material memo entry")
    def vset(self, k, v):
        u = self.u
        u.ob("memo invariant: tensor of the declared type", isinstance(v, T) and v.ndim == 0 and v.dtype == "c64", repr(v))
        if not isinstance(v, T): return
        u.term("memo invariant: value", core.strip_detach(v.at()), EPS(self.key(k)))
        g = torchmod.requires_grad(v)
        R = cur[0]
        track = R.opts.get("tracked")
        dec = False if g is False else True if g is True else R.ctx.decide(mk("not", g.node) if False else bnot(g.node))
        u.ob("memo invariant: no gradient-tracked entry", g is False or graph_free(R, v), show(v.at())[:300])


def graph_free(R, v):
    """under the path's facts the entry is not part of an autograd graph"""
    g = torchmod.requires_grad(v)
    if g is False: return True
    gm = mk("bopq", R.opts["gradmode"])
    return R.ctx.decide(bnot(band(gm, g.node if isinstance(g, SBool) else TRUE))) is True


@callee.guard0
def c_eval(d):
    x = d["wavelength"]
    if not isinstance(x, T) or x.ndim: return None
    return T((), lambda i: EPS(x.at()), "c64")


MEMO = dict(contracts={MT + ".MatDatabase._eval": c_eval}, gradmode="gradients are enabled", tracked={"wavelength": "the wavelength requires a gradient"}, notiny=True)


@contract("MatDatabase._get_eps_single_wl", MT + ".MatDatabase._get_eps_single_wl", "C14 C12", **MEMO)
def f(R, u):
    m = inst("MatDatabase", lookup_eps=Memo(u), device="cpu")
    w = T((), lambda i: WL(), "f32", owner="argument wavelength")
    r = method(m, "_get_eps_single_wl", w)
    u.eq("value whatever was looked up before", r, (), lambda: EPS(WL()), grad=False)
    tracked_path(R, u, r)


def tracked_path(R, u, r, *ix):
    g = band(mk("bopq", R.opts["gradmode"]), mk("bopq", R.opts["tracked"]["wavelength"]))
    with R.scope((), g):
        if R.ctx.feasible():
            cut = severed(R.norm(r.at(*ix)))
            u.ob("gradient path: permittivity", cut is None, "" if cut is None else show(cut)[:300])


@contract("MatDatabase.get_epsilon/one wavelength", MT + ".MatDatabase.get_epsilon", "C14 C12", **MEMO)
def f(R, u):
    m = inst("MatDatabase", lookup_eps=Memo(u), device="cpu")
    w = T((), lambda i: WL(), "f32", owner="argument wavelength")
    r = method(m, "get_epsilon", w)
    u.eq("permittivity", r, (), lambda: EPS(WL()), grad=False)
    tracked_path(R, u, r)


@contract("MatDatabase.get_epsilon/spectrum", MT + ".MatDatabase.get_epsilon", "C14 C12", **MEMO)
def f(R, u):
    (W,) = dims(R, "W", lo=2)
    m = inst("MatDatabase", lookup_eps=Memo(u), device="cpu")
    w = T((W,), lambda i: WL(i[0]), "f32", owner="argument wavelength")
    r = method(m, "get_epsilon", w)
    u.eq("permittivity at each wavelength alone", r, (W,), lambda i: EPS(WL(i)), grad=False)


@contract("MatConstant", MT + ".MatConstant.get_epsilon", "C14 C12 C13", notiny=True)
def f(R, u):
    (W,) = dims(R, "W", lo=2)
    m = inst("MatConstant", eps_scalar=T((), lambda i: leaf("eps", False), "c64", owner="material"), device="cpu")
    r = method(m, "get_epsilon", T((), lambda i: WL(), "f32", owner="argument wavelength"))
    u.eq("constant", r, (), lambda: leaf("eps", False))
    r = method(m, "get_epsilon", T((W,), lambda i: WL(i[0]), "f32", owner="argument wavelength"))
    u.eq("constant at every wavelength", r, (W,), lambda i: leaf("eps", False))


# ------------------------------------------------------------------ reading the data files
class Text:
    """a text of N rows with C columns each and a final line break"""
    def __init__(self, N, C): self.N, self.C = N, C
    def vattr(self, k):
        if k != "split": raise Unsup("text." + k)
        return lambda sep=None: PyList(length=iadd(self.N, 1), get=lambda j: Row(j, self.C)) if sep == "\n" else _unsup()


def _unsup(): raise Unsup("text split")


class Row:
    def __init__(self, j, C): self.j, self.C = j, C
    def vsubst(self, m): return Row(isubst(self.j, m), self.C)
    def vattr(self, k):
        if k != "split": raise Unsup("row." + k)
        return lambda: PyList(length=iop("ncol", self.j, self.C), get=lambda c: Tok(self.j, c))


class Tok:
    def __init__(self, j, c): self.j, self.c = j, ie(c)
    def vsubst(self, m): return Tok(isubst(self.j, m), isubst(self.c, m))
    def vfloat(self): return SNum(leaf("token", True, (self.j, ie(self.c))), "float")


NROW = isym("N_rows")


def _ncol(ctx, a):
    j, c = a[1], IE(((a, 1),), 0)
    inr = band(icmp("<=", 0, j), icmp("<", j, NROW))
    return [bor(bnot(inr), icmp("==", c, a[2])), bor(inr, icmp("==", c, 0))]


smt.INT_AXIOMS["ncol"] = _ncol


def tab_contract(C):
    @contract("_load_tabulated/%d columns" % C, MT + "._load_tabulated", "C14", cuts=[NROW], notiny=True)
    def f(R, u):
        R.ctx.assume(icmp("<=", 1, NROW))
        wl, eps = call(MT, "_load_tabulated", {"data": Text(NROW, C)})
        n, k = (lambda j: leaf("token", True, (j, ie(1)))), (lambda j: leaf("token", True, (j, ie(2))))
        (j,) = dims(R, "j", lo=0)
        R.ctx.assume(icmp("<", j, NROW))
        for nm, l in (("wavelengths", wl), ("permittivities", eps)): u.fact(nm + ": one entry per row", icmp("==", ie(l.len()), NROW))
        u.term("wavelength in nanometres", wl.get(j).node, mul(num(1000), leaf("token", True, (j, ie(0)))))
        u.term("permittivity", eps.get(j).node, mkpow(add(n(j), mul(core.I, k(j))) if C == 3 else n(j), Fr(2)))


tab_contract(2); tab_contract(3)


class Words:
    """a text of n words; split() gives them"""
    def __init__(self, tag, n): self.tag, self.n = tag, n
    def vattr(self, k):
        if k != "split": raise Unsup("text." + k)
        return lambda: PyList(length=self.n, get=lambda c: Word(self.tag, c))


class Word:
    def __init__(self, tag, c): self.tag, self.c = tag, ie(c)
    def vsubst(self, m): return Word(self.tag, isubst(self.c, m))
    def vfloat(self): return SNum(leaf(self.tag, True, (self.c,)), "float")


def formula_dat(n, key): return {"type": "formula 1", key: Words("range", ie(2)), "coefficients": Words("coeff", iadd(iscale(n, 2), 1))}


def formula_contract(key):
    @contract("_load_formula/" + key, MT + "._load_formula", "C14", notiny=True)
    def f(R, u):
        (n,) = dims(R, "n_terms", lo=0)
        typ, rng, co = call(MT, "_load_formula", formula_dat(n, key))
        u.ob("model type", typ == 1 and not isinstance(typ, bool), repr(typ))
        (j,) = dims(R, "j", lo=0)
        u.fact("one coefficient per word", icmp("==", ie(co.len()), iadd(iscale(n, 2), 1)))
        R.ctx.assume(icmp("<=", j, iscale(n, 2)))
        u.term("coefficients in order", co.get(j).node, COEFF(j))
        for i in (0, 1): u.term("range in nanometres", rng.get(ie(i)).node, mul(num(1000), leaf("range", True, (ie(i),))))


for _k in ("range", "wavelength_range"): formula_contract(_k)


def file_of(dset):
    """open / yaml.load: the content of the data file is the given structure"""
    class File:
        def vattr(self, k): raise Unsup("file." + k)
    return {"open": lambda ip, *a, **k: Sym("file"), "yaml.load": lambda ip, *a, **k: dset["v"], "pathlib.Path": lambda ip, *a: Sym("path")}


def init_contract(kind):
    box = {}

    @callee.guard0
    def c_tab(d):
        if d["dat_str"] is not box["v"]["DATA"].items[0]: return None
        return (PyList(length=NT, get=lambda k: SNum(xs(perm(ie(k))), "float")), PyList(length=NT, get=lambda k: SNum(ys(perm(ie(k))), "complex")))

    @contract("MatDatabase.__init__/" + kind, MT + ".MatDatabase.__init__", "C14 C12", symcalls=file_of(box), contracts={MT + "._load_tabulated": c_tab}, notiny=True)
    def f(R, u):
        R.ctx.assume(icmp("<=", 1, NT))
        (n,) = dims(R, "n_terms", lo=0)
        dat = {"type": "tabulated nk", "data": Sym("text")} if kind == "tabulated" else formula_dat(n, "wavelength_range") if kind == "formula" else {"type": "something else"}
        box["v"] = {"DATA": PyList([dat])}
        C = loader().load(MT).d["MatDatabase"]
        mk_ = lambda: interp.INTERP[0].call(C, [], dict(name="m", yaml_file="file.yml"))
        if kind == "unknown": raises(u, mk_); return
        m = mk_()
        a = m.attrs
        u.ob("starts with an empty memo", isinstance(a["lookup_eps"], dict) and not a["lookup_eps"], repr(a["lookup_eps"]))
        if kind == "tabulated":
            u.ob("data model", a["model_type"] == "data", repr(a["model_type"]))
            u.eq("wavelengths of the table", a["wl_dat"], (NT,), lambda k: xs(perm(k)), grad=False)
            u.eq("permittivities of the table", a["eps_dat"], (NT,), lambda k: ys(perm(k)), grad=False)
        else:
            u.ob("Sellmeier model", a["model_type"] == "sellmeier", repr(a["model_type"]))
            (j,) = dims(R, "j", lo=0)
            R.ctx.assume(icmp("<=", j, iscale(n, 2)))
            u.fact("one coefficient per word", icmp("==", ie(a["coeff"].len()), iadd(iscale(n, 2), 1)))
            u.term("coefficients in order", a["coeff"].get(j).node, COEFF(j))


for _k in ("tabulated", "formula", "unknown"): init_contract(_k)
