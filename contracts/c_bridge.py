"""contracts on the coupled-dipole bridge: helper.tg"""
from base import *
import core, callee
from core import *
from tensor import *
from interp import Inst, L as PyList
from c_particle import Mat

TWOPI = mul(num(2), core.PI)


class Host(Mat):
    """non-dispersive host: one permittivity at every wavelength"""
    def at(self, w): return self.eps_
    def __init__(self, eps): self.eps_, self.name, self.log = eps, "host", []


class Env:
    """torchgdm's homogeneous environment (external, opaque)"""
    def __init__(self, kw): self.kw = kw
    def vattr(self, k):
        if k == "set_device": return lambda *a, **kw: None
        raise Unsup("environment." + k)


def particle(R, Lr):
    """particle of Lr layers in a lossless host of index n_host"""
    n = leaf("n_host++", True)
    r = postens("r_layers", (Lr,))
    cls = loader().load(MN).d["Particle"]
    return Inst(cls, device="cpu", _use_layers=True, r_layers=r, eps_layers=None, mat_layers=None, mat_env=Host(mul(n, n)), r_c=None, r_s=None, mat_c=None, mat_s=None), n, r


def coeffs(box):
    """Particle.get_mie_coefficients (contract Particle/*): coefficients without singleton axes"""
    def c(ip, d):
        R = cur[0]
        n = callee.asorder(d["kwargs"].get("n_max") if "kwargs" in d else d.get("n_max"))
        kw = d.get("kwargs", d)
        box["calls"].append(dict(k0=d["k0"], n_max=n, backend=kw.get("backend"), extra=sorted(set(kw) - {"n_max", "backend"}), internal=d.get("return_internal")))
        if n is None: raise Unsup("order of the export")
        W = box["W"]
        keep = [j for j, s in enumerate((n, W)) if not R.branch(icmp("==", s, 1))]
        sh = tuple((n, W)[j] for j in keep)
        full = lambda i: [i[keep.index(j)] if j in keep else ie(0) for j in (0, 1)]
        mk = lambda nm: T(sh, lambda i: leaf(nm, False, tuple(full(i))), "c64")
        return {"a_n": mk("a_of"), "b_n": mk("b_of"), "n_max": T((), lambda i: fint(n), "i64")}
    return c


def mie_ab(given_env, as_dict, backend, tag, n_default=False):
    box = {"calls": []}

    @contract("mie_ab_sphere_3d_AD/" + tag, TG + ".mie_ab_sphere_3d_AD", "C19", contracts={MN + ".Particle.get_mie_coefficients": coeffs(box)}, notiny=True,
              symcalls={"torchgdm.env.EnvHomogeneous3D": lambda ip, **k: Env(k)})
    def f(R, u):
        del box["calls"][:]
        W, n, Lr = dims(R, "W", "n", "L")
        box["W"] = W
        p, nh, r = particle(R, Lr)
        lam = postens("wavelengths", (W,))
        kw = {} if n_default else dict(n_max=unie(n))
        if given_env: kw["n_env"] = SNum(nh, "float")
        if as_dict: kw["as_dict"] = True
        if backend: kw["backend"] = backend
        d = call(TG, "mie_ab_sphere_3d_AD", p, lam, **kw)
        if n_default: n = ie(2)
        cs = box["calls"]
        if not cs: return u.ob("the particle's own coefficients are used", False)
        c = cs[-1]
        u.eq("k0 is 2 pi / wavelength", c["k0"], (W,), lambda w: div(TWOPI, lam.at(w)))
        u.fact("requested order", icmp("==", c["n_max"], n))
        if backend: u.ob("requested backend", c["backend"] == backend, repr(c["backend"]))
        else: u.ob("a backend that solves the particle", c["backend"] == "pena" or (c["backend"] in ("torch", "scipy") and R.ctx.decide(icmp("<=", Lr, 2)) is True), repr(c["backend"]))
        u.ob("no other option changed", c["extra"] == [] and c["internal"] in (False, None, True), repr(c))
        g = (lambda k: d[k]) if as_dict else (lambda k: d[0 if k == "a_n" else 1])
        u.eq("a_n: wavelength first, order last", g("a_n"), (W, n), lambda w, i: leaf("a_of", False, (i, w)))
        u.eq("b_n: wavelength first, order last", g("b_n"), (W, n), lambda w, i: leaf("b_of", False, (i, w)))
        if as_dict:
            u.eq("host index", d["n_env"], (W,), lambda w: nh)
            u.eq("wavelengths", d["wavelengths"], (W,), lambda w: lam.at(w))
            u.eq("enclosing radius", d["r_enclosing"], (), lambda: r.at(isub(Lr, 1)))


mie_ab(False, False, None, "tuple"); mie_ab(True, False, None, "host index given"); mie_ab(False, True, None, "dictionary"); mie_ab(True, True, "scipy", "dictionary/host index given/scipy")
mie_ab(False, False, "pena", "tuple/pena"); mie_ab(False, False, "torch", "tuple/torch"); mie_ab(False, False, None, "default order", True)


# ------------------------------------------------------------------ exported dipole polarisabilities
def c_ab(box):
    def c(ip, d):
        box["calls"].append(dict(d))
        W, n = box["W"], callee.asorder(d["n_max"])
        lam, p = d["wavelengths"], d["mie_particle"]
        if p is not box["p"] or n is None or not callee.holds(lam, (W,), lambda w: box["lam"].at(w)): return NotImplemented
        mk = lambda nm: T((W, n), lambda i: leaf(nm, False, (i[1], i[0])), "c64")
        a, b = mk("a_of"), mk("b_of")
        if d.get("as_dict") is not True: return (a, b)
        nh = box["nh"]
        return dict(a_n=a, b_n=b, environment=Env({}), n_env=T((W,), lambda i: nh, "c64"), device="cpu", r_enclosing=T((), lambda i: box["r"].at(ie(0)), "f64"), wavelengths=lam)
    return c


def pola(given_env, backend, tag, given_pos=False):
    box = {"calls": []}

    @contract("StructAutodiffMieEffPola3D/" + tag, TG + ".StructAutodiffMieEffPola3D.__init__", "C19", contracts={TG + ".mie_ab_sphere_3d_AD": c_ab(box)}, notiny=True,
              symcalls={"torchgdm.tools.misc.to_np": lambda ip, t: t, "torchgdm.struct.StructEffPola3D.__init__": lambda ip, s, *a, **kw: box.__setitem__("super", kw)})
    def f(R, u):
        del box["calls"][:]
        (W,) = dims(R, "W")
        p, nh, r = particle(R, ie(1))
        lam = postens("wavelengths", (W,))
        box.update(W=W, p=p, nh=nh, r=r, lam=lam)
        kw = dict(verbose=False)
        pos = tens("r0", (3,), "f64") if given_pos else None
        if given_pos: kw["r0"] = pos
        if given_env: kw["n_env"] = SNum(nh, "float")
        if backend: kw["backend"] = backend
        cls = loader().load(TG).d["StructAutodiffMieEffPola3D"]
        o = Inst(cls)
        interp.INTERP[0].call(interp.INTERP[0].getattr(o, "__init__"), [p, lam], kw)
        got = box.pop("super", None)
        if got is None: return u.ob("torchgdm's point-dipole structure is built", False)
        ab = box["calls"][-1]
        u.ob("requested host index and backend are handed on", (ab["n_env"] is kw.get("n_env")) and ab["backend"] == kw.get("backend"), repr((ab["n_env"], ab["backend"])))
        ds = got.get("alpha_dicts")
        ds = ds.items if isinstance(ds, PyList) else ds
        u.ob("one polarisability table", len(ds) == 1)
        d = ds[0]
        k0 = lambda w: div(TWOPI, lam.at(w))
        pre = lambda nm, w, e: mul(num(Fr(3, 2)), core.I, leaf(nm, False, (0, w)), mkpow(k0(w), Fr(-3)), mkpow(nh, Fr(-e)))
        val = lambda w, i, j: ite(icmp("==", i, j), ite(icmp("<=", i, 2), pre("a_of", w, 1), pre("b_of", w, 3)), ZERO)
        u.eq("polarisabilities", d["alpha_6x6"], (W, 6, 6), val)
        u.eq("wavelengths", d["wavelengths"], (W,), lambda w: lam.at(w))
        u.eq("wavenumbers", d["k0_spectrum"], (W,), k0)
        u.eq("enclosing radius", d["enclosing_radius"], (), lambda: r.at(ie(0)))
        for nm in ("r0", "r0_MD", "r0_ED"): u.eq("position " + nm, d[nm], (3,), lambda i: pos.at(i) if pos is not None else ZERO)
        u.eq("position", got["positions"], (3,), lambda i: pos.at(i) if pos is not None else ZERO)


pola(False, None, "host of the particle"); pola(True, None, "host index given"); pola(False, "pena", "pena"); pola(True, "torch", "torch, position given", True)
