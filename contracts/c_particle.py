"""contracts on the particle object: main.Particle"""
from base import *
import core, callee
from core import *
from tensor import *
from interp import Inst, L as PyList

TWOPI = mul(num(2), core.PI)


def wl(k0): return div(TWOPI, k0)


class Mat:
    """a material object: permittivity at each wavelength by the contract of materials.mat (get_epsilon)"""
    def __init__(self, name, log): self.name, self.log = name, log
    def vattr(self, k):
        if k == "set_device": return lambda d, **kw: self.log.append((self.name, d))
        if k == "get_epsilon": return self.eps
        if k == "__name__": return self.name
        raise Unsup("material." + k)
    def eps(self, wavelength):
        if not isinstance(wavelength, T): raise Unsup("wavelength is no tensor")
        rd = wavelength.reader()
        return T(wavelength.shape, lambda i: self.at(rd(i)), "c64", owner="material memo")
    def at(self, w): return leaf("eps_" + self.name, False, (), (w,))


class MatL(Mat):
    """material number j of a list of any length"""
    def __init__(self, j, log): self.j, self.log, self.name = ie(j), log, "layer"
    def vsubst(self, m): return MatL(isubst(self.j, m), self.log)
    def at(self, w): return leaf("eps_layer", False, (self.j,), (w,))


def field(layer, R, log):
    """(constructor arguments, r(l), eps(l, w, k0(w)), number of layers, whether permittivities are a table)"""
    def number(nm, cplx=True): return SNum(leaf(nm, not cplx), "complex" if cplx else "float")
    def sq(nm, cplx=True):
        x = leaf(nm, not cplx)
        return mul(x, x)
    rl = lambda nm: tens(nm, (), "f64", owner="argument " + nm)
    if layer == "layers, table":
        L, W = dims(R, "L", "W", lo=2)
        e = tens("eps_layers", (L, W), "c128"); r = postens("r_layers", (L,))
        return dict(r_layers=r, eps_layers=e), (lambda l: r.at(l)), (lambda l, w, k: e.at(l, w)), L, (L, W), W
    if layer == "layers, constants":
        L, W = dims(R, "L", "W", lo=2)
        e = tens("eps_layers", (L,), "c128"); r = postens("r_layers", (L,))
        return dict(r_layers=r, eps_layers=e), (lambda l: r.at(l)), (lambda l, w, k: e.at(l)), L, (L,), W
    if layer == "layers, whole numbers":
        L, W = dims(R, "L", "W", lo=2)
        e = tens("eps_layers", (L,), "i64"); r = postens("r_layers", (L,), "i64")
        return dict(r_layers=r, eps_layers=e), (lambda l: r.at(l)), (lambda l, w, k: e.at(l)), L, (L,), W
    (W,) = dims(R, "W", lo=2)
    if layer == "materials":
        (L,) = dims(R, "L")
        r = postens("r_layers", (L,))
        return dict(r_layers=r, mat_layers=PyList(length=L, get=lambda j: MatL(j, log))), (lambda l: r.at(l)), (lambda l, w, k: MatL(l, log).at(wl(k))), L, None, W
    mats = lambda *n: [Mat(x, log) for x in n]
    if layer.startswith("materials"):
        n = int(layer.split()[1])
        ms = mats(*["m%d" % i for i in range(n)])
        r = postens("r_layers", (ie(n),))
        return dict(r_layers=r, mat_layers=PyList(list(ms))), (lambda l: r.at(l)), (lambda l, w, k: pickn(l, [m.at(wl(k)) for m in ms])), ie(n), None, W
    if layer == "indices 2":
        r = postens("r_layers", (ie(2),))
        return dict(r_layers=r, mat_layers=PyList([number("n0"), number("n1", False)])), (lambda l: r.at(l)), (lambda l, w, k: pickn(l, [sq("n0"), sq("n1", False)])), ie(2), None, W
    if layer == "core, material":
        (m,) = mats("m0"); x = leaf("r_core++", True)
        return dict(r_core=SNum(x, "float"), mat_core=m), (lambda l: x), (lambda l, w, k: m.at(wl(k))), ie(1), None, W
    if layer == "core, index":
        x = leaf("r_core++", True)
        return dict(r_core=T((), lambda i: x, "f64", owner="argument r_core"), mat_core=number("n0")), (lambda l: x), (lambda l, w, k: sq("n0")), ie(1), None, W
    if layer == "core, tensor index":
        x = leaf("r_core++", True)
        t = tens("n0", (), "c128")
        return dict(r_core=SNum(x, "float"), mat_core=t), (lambda l: x), (lambda l, w, k: mul(t.at(), t.at())), ie(1), None, W
    if layer in ("core, real tensor index", "core, integer tensor index"):
        x = leaf("r_core++", True)
        t = tens("n0", (), "f64" if layer == "core, real tensor index" else "i64")
        return dict(r_core=SNum(x, "float"), mat_core=t), (lambda l: x), (lambda l, w, k: mul(t.at(), t.at())), ie(1), None, W
    x, y = leaf("r_core++", True), leaf("r_shell++", True)
    R.ctx.assume(fcmp("<", x, y))
    if layer == "core-shell, materials":
        m = mats("m0", "m1"); ms, ev = m, [lambda k: m[0].at(wl(k)), lambda k: m[1].at(wl(k))]
    elif layer == "core-shell, mixed":
        m = mats("m1"); ms, ev = [number("n0"), m[0]], [lambda k: sq("n0"), lambda k: m[0].at(wl(k))]
    else: raise KeyError(layer)
    return (dict(r_core=T((), lambda i: x, "f64", owner="argument r_core"), r_shell=SNum(y, "float"), mat_core=ms[0], mat_shell=ms[1]), (lambda l: pickn(l, [x, y])),
            (lambda l, w, k: pickn(l, [f(k) for f in ev])), ie(2), None, W)


def pickn(l, v):
    c = iconst(nz(l))
    if c is not None: return v[c]
    r = v[-1]
    for i in range(len(v) - 2, -1, -1): r = ite(icmp("==", l, i), v[i], r)
    return r


DEFS = ["layers, table", "layers, constants", "materials", "materials 1", "materials 2", "materials 3", "indices 2", "core, material", "core, index", "core, tensor index", "core, real tensor index", "core, integer tensor index", "layers, whole numbers", "core-shell, materials", "core-shell, mixed"]
HOSTS = {"host number": lambda log: (SNum(leaf("n_host", True), "float"), lambda k: mul(leaf("n_host", True), leaf("n_host", True))),
         "host material": lambda log: (lambda m: (m, lambda k: m.at(wl(k))))(Mat("host", log)),
         "host default": lambda log: (None, lambda k: ONE)}


class Opt:
    """an option the object must hand on unchanged"""
    def __init__(self, name): self.name = name
    def __repr__(self): return "<option %s>" % self.name


METHODS = {"get_mie_coefficients": ("mie_coefficients", ()), "get_cross_sections": ("cross_sections", ()), "get_angular_scattering": ("angular_scattering", ("theta",)), "get_nearfields": ("nearfields", ("r_probe",))}
SUPPLIED = ("k0", "r_layers", "eps_layers", "eps_env", "r_c", "r_s", "eps_c", "eps_s")


def results(W):
    """a result dictionary with tensors of every shape the functional interface returns"""
    n, N, L = isym("n"), isym("N"), isym("Lr")
    mk = lambda nm, *sh: T(tuple(ie(s) for s in sh), lambda i: leaf(nm, False, tuple(i)), "c128")
    return {"a_n": mk("A_N", n, 1, W), "k": mk("K", 1, W), "n": mk("NN", n), "n_max": mk("NMAX"), "r_layers": mk("RL", 1, L), "eps_layers": mk("EL", 1, L, W), "S1": mk("S1", 1, W, N),
            "E_s": mk("ES", 1, W, N, 3), "flag": "text"}, (n, N, L)


SQ = {"a_n": (0, 2), "k": (1,), "n": (0,), "n_max": (), "r_layers": (1,), "eps_layers": (1, 2), "S1": (1, 2), "E_s": (1, 2, 3)}


def aliases(u, part, kw, L, r):
    """the first and last radius and material kept as attributes of the particle (where it has them; the bridge to torchgdm reads them)"""
    A, many = part.attrs, iconst(nz(ie(L)))
    if "r_c" in A: u.eq("attribute r_c", A["r_c"], (), lambda: r(ie(0)))
    if "r_s" in A:
        if many == 1: u.ob("attribute r_s", A["r_s"] is None, "not None for one layer")
        elif many is not None: u.eq("attribute r_s", A["r_s"], (), lambda: r(ie(many - 1)))
    ml = A.get("mat_layers")
    items = ml.items if isinstance(ml, PyList) else ml if isinstance(ml, (list, tuple)) else None
    if items:
        if "mat_c" in A: u.ob("attribute mat_c", A["mat_c"] is items[0], repr(A["mat_c"]))
        if "mat_s" in A: u.ob("attribute mat_s", A["mat_s"] is (items[-1] if len(items) > 1 else None), repr(A["mat_s"]))


def forward(layer, host, meth, k0mode="vec", moved=False):
    log, rec = [], {}

    def recorder(R_):
        def c(ip, d):
            rec["args"] = dict(d)
            rec["out"], rec["dims"] = results(rec["W"])
            return dict(rec["out"])
        return c
    func, extra = METHODS[meth]

    @contract("Particle/%s/%s/%s%s" % (layer, host, meth, ("" if k0mode == "vec" else "/" + k0mode) + ("/moved" if moved else "")), MN + ".Particle." + meth, "C18", contracts={MS + "." + func: recorder(None)}, notiny=True, _axioms=True)
    def f(R, u):
        del log[:]
        rec.clear()
        dev = "some-device"
        kw, r, eps, L, tab, W = field(layer, R, log)
        hv, he = HOSTS[host](log)
        if hv is not None: kw["mat_env"] = hv
        cls = loader().load(MN).d["Particle"]
        part = interp.INTERP[0].call(cls, [], dict(kw, device=dev))
        if moved:
            interp.INTERP[0].call(interp.INTERP[0].getattr(part, "set_device"), [], dict(device="other"))
            u.ob("every material moved again", {x[0] for x in log if x[1] == "other"} == mats_in(kw), repr(log))
            log[:] = [x for x in log if x[1] != "other"]
        aliases(u, part, kw, L, r)
        if k0mode == "one": W = ie(1)
        rec["W"] = W
        if k0mode == "number":
            x = leaf("k0++", True); k0 = SNum(x, "float"); kk = lambda w: x; sh = ()
        elif k0mode == "0d":
            k0 = postens("k0", ()); kk = lambda w: k0.at(); sh = ()
        else:
            k0 = postens("k0", (W,)); kk = lambda w: k0.at(w); sh = (W,)
        for nm in ("n", "N", "Lr"): R.ctx.assume(icmp("<=", 2, isym(nm)))
        fn = loader().func(MS, func)
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        opts = {nm: Opt(nm) for nm in names if nm not in SUPPLIED + extra}
        ex = {}
        if extra == ("theta",): ex["theta"] = tens("theta", (isym("N"),), "f64")
        if extra == ("r_probe",): ex["r_probe"] = tens("r_probe", (isym("N"), 3), "f64")
        before = dict(part.attrs)
        d = interp.INTERP[0].call(interp.INTERP[0].getattr(part, meth), [], dict(k0=k0, **ex, **opts))
        u.ob("frame: particle definition unchanged", before.keys() == part.attrs.keys() and all(part.attrs[k] is v for k, v in before.items()), "attribute of the particle replaced")
        got = rec.get("args")
        if not u.ob("functional interface called", got is not None) and got is None: return
        # a single wavenumber may be handed on as a number or as a spectrum of one
        one = lambda v, n: isinstance(v, T) and len(v.shape) == n and iconst(nz(v.shape[-1])) == 1
        k1, e1 = not sh and one(got["k0"], 1), not sh and one(got["eps_env"], 1)
        l1 = not sh and not tab and one(got["eps_layers"], 2)
        u.eq("k0", got["k0"], (ie(1),) if k1 else sh, (lambda w: kk(w)) if sh or k1 else (lambda: kk(None)))
        u.eq("r_layers", got["r_layers"], (L,), r)
        if tab: u.eq("eps_layers", got["eps_layers"], tab, (lambda l, w: eps(l, w, None)) if len(tab) == 2 else (lambda l: eps(l, None, None)))
        else: u.eq("eps_layers at 2 pi/k0", got["eps_layers"], (L, ie(1)) if l1 else (L,) + sh, (lambda l, w: eps(l, w, kk(w))) if sh or l1 else (lambda l: eps(l, None, kk(None))))
        u.eq("eps_env at 2 pi/k0", got["eps_env"], (ie(1),) if e1 else sh, (lambda w: he(kk(w))) if sh or e1 else (lambda: he(kk(None))))
        for nm in ("r_c", "r_s", "eps_c", "eps_s"):
            if nm in got: u.ob("no legacy argument " + nm, got[nm] is None)
        for nm, o in opts.items(): u.ob("option %s handed on" % nm, got.get(nm) is o, repr(got.get(nm)))
        for nm, t in ex.items(): u.eq(nm, got[nm], t.shape, lambda *i: t.at(*i))
        keys = sorted(rec["out"])
        res = d if isinstance(d, dict) else getattr(d, "d", {})
        u.ob("all results returned", sorted(map(str, res.keys())) == keys, repr(list(res.keys())))
        for nm, keep in SQ.items():
            o = rec["out"][nm]
            keep = tuple(j for j in keep if iconst(nz(o.shape[j])) != 1)
            full = lambda i, o=o, keep=keep: [i[keep.index(j)] if j in keep else ie(0) for j in range(o.ndim)]
            if nm in res: u.eq("result %s without singleton axes" % nm, res[nm], tuple(o.shape[j] for j in keep), lambda *i: o.at(*full(i)))
        u.ob("other results unchanged", res.get("flag") == "text")
        u.ob("materials moved to the particle's device", all(x[1] == dev for x in log) and {x[0] for x in log} == mats_in(kw), repr(log))


def mats_in(kw):
    out = set()
    for v in kw.values():
        if isinstance(v, PyList) and v.items is None: out.add("layer"); continue
        for m in (v.items if isinstance(v, PyList) and hasattr(v, "items") else [v]):
            if isinstance(m, Mat): out.add(m.name)
    return out


for _l in DEFS:
    for _m in METHODS: forward(_l, "host number", _m)
for _m in METHODS:
    forward("materials 2", "host material", _m); forward("materials 2", "host material", _m, moved=True); forward("layers, table", "host number", _m, moved=True); forward("materials 2", "host default", _m); forward("materials 2", "host material", _m, "one"); forward("core, index", "host number", _m, "number")
    for _l in ("materials 2", "layers, constants", "core, index"): forward(_l, "host material", _m, "0d")


# ------------------------------------------------------------------ definitions that must be rejected
NEW = ("r_layers", "eps_layers", "mat_layers")
OLD = ("r_core", "mat_core", "r_shell", "mat_shell")


def make(**kw):
    cls = loader().load(MN).d["Particle"]
    return interp.INTERP[0].call(cls, [], kw)


def rejected(u, name, **kw):
    try: make(**kw)
    except PyExc as e: return u.ob(name + " is rejected", True)
    u.ob(name + " is rejected", False, "accepted: " + ", ".join(kw))


@contract("Particle/complete and consistent definitions only", MN + ".Particle.__init__", "C18", notiny=True)
def combos(R, u):
    """every one of the 128 combinations of given and missing arguments"""
    log = []
    (L,) = dims(R, "L")
    x, y = leaf("r_core++", True), leaf("r_shell++", True)
    R.ctx.assume(fcmp("<", x, y))
    for b in range(128):
        r = postens("r_layers", (ie(2),))
        vals = dict(r_layers=r, eps_layers=tens("eps_layers", (ie(2),), "c128"), mat_layers=PyList([Mat("m0", log), Mat("m1", log)]), r_core=SNum(x, "float"), mat_core=Mat("c", log), r_shell=SNum(y, "float"), mat_shell=Mat("s", log))
        kw = {k: vals[k] for j, k in enumerate(NEW + OLD) if b >> j & 1}
        ok = "r_layers" in kw and ("eps_layers" in kw) != ("mat_layers" in kw) and not any(k in kw for k in OLD) \
            or not any(k in kw for k in NEW) and "r_core" in kw and "mat_core" in kw and ("r_shell" in kw) == ("mat_shell" in kw)
        if not ok: rejected(u, "definition by (%s)" % ", ".join(kw), **kw)
        else:
            try: make(**kw); u.ob("definition by (%s) is accepted" % ", ".join(kw), True)
            except PyExc as e: u.ob("definition by (%s) is accepted" % ", ".join(kw), False, str(e.msg))


for _n in (1, 2, 3):
    @contract("Particle/number of materials/%d" % _n, MN + ".Particle.__init__", "C18", notiny=True)
    def count(R, u, _n=_n):
        log = []
        (L,) = dims(R, "L")
        R.ctx.assume(bnot(icmp("==", L, _n)))
        rejected(u, "%d materials for another number of radii" % _n, r_layers=postens("r_layers", (L,)), mat_layers=PyList([Mat("m%d" % i, log) for i in range(_n)]))


@contract("Particle/number of materials", MN + ".Particle.__init__", "C18", notiny=True)
def counts(R, u):
    log = []
    L, K = dims(R, "L", "K", lo=0)
    R.ctx.assume(bnot(icmp("==", L, K)))
    rejected(u, "materials for another number of radii", r_layers=postens("r_layers", (L,)), mat_layers=PyList(length=K, get=lambda j: MatL(j, log)))


@contract("Particle/radii", MN + ".Particle.__init__", "C18", notiny=True)
def radii(R, u):
    log = []
    L, P = dims(R, "L", "P")
    rejected(u, "table of radii", r_layers=postens("r_layers", (P, L)), eps_layers=tens("eps_layers", (L,), "c128"))
    rejected(u, "single number as layer radii", r_layers=postens("r0", ()), eps_layers=tens("eps_layers", (1,), "c128"))
    rejected(u, "no radius at all", r_layers=T((0,), lambda i: leaf("none", True), "f64"), eps_layers=tens("eps_layers", (L,), "c128"))
    x, y = leaf("r_core++", True), leaf("r_shell++", True)
    R.ctx.assume(fcmp("<=", y, x))
    rejected(u, "shell radius not larger than the core radius", r_core=SNum(x, "float"), mat_core=Mat("c", log), r_shell=SNum(y, "float"), mat_shell=Mat("s", log))
    rejected(u, "spectrum of core radii", r_core=postens("r_cores", (L,)), mat_core=Mat("c", log))
