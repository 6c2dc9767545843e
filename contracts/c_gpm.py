"""contracts on the field sampling of the GPM export: helper.tg"""
from base import *
import core, callee
from core import *
from tensor import *
from interp import Inst, L as PyList
from c_bridge import TWOPI, Host, Env, particle


class Part:
    """a particle seen through the contract of Particle.get_nearfields: fields at the points handed in"""
    def __init__(self, log): self.log = log
    def vattr(self, k):
        if k == "device": return "cpu"
        if k == "_use_layers": return True
        if k == "r_layers": return postens("r_layers", (isym("L"),))
        if k == "get_nearfields": return self.near
        raise Unsup("particle." + k)
    def near(self, k0, r_probe, **kw):
        j = len(self.log)
        self.log.append((k0, r_probe, dict(kw)))
        sh = r_probe.shape
        mk = lambda nm: T(sh, lambda i: leaf("%s_%d" % (nm, j), False, tuple(i)), "c64")
        return {k: mk(k) for k in ("E_s", "H_s", "E_t", "H_t", "E_i", "H_i")}


def eval_mie(backend, n_max, shape, tag):
    rec = {}

    def rot(ip, d):
        rec["asked"] = dict(d)
        return T((3, 3), lambda i: leaf("frame", True, tuple(i)), "f64")

    @contract("_eval_mie/" + tag, TG + "._eval_mie", "C16", contracts={TG + "._plane_wave_rotation": rot}, notiny=True)
    def f(R, u):
        rec.clear()
        log = []
        p = Part(log)
        N, G, L = dims(R, "N", "G", "L")
        rp = tens("r_probe", (N, 3), "f64"); rg = tens("r_gpm", (G, 3), "f64")
        ang = T((), lambda i: leaf("angle", True), "f64", owner="argument angle")
        k0 = tens("k0", (), "f64")
        kw = {}
        if backend: kw["backend"] = backend
        if n_max: kw["n_max"] = 7
        out = call(TG, "_eval_mie", p, dict(angle=ang, inc_plane="some plane", polarization="some polarisation"), k0, rp, rg, **kw)
        a = rec.get("asked", {})
        u.ob("frame of the requested illumination", a.get("inc_plane") == "some plane" and a.get("polarization") == "some polarisation")
        u.eq("frame of the requested angle", a.get("inc_angle"), (), lambda: leaf("angle", True))
        fr = lambda i, j: leaf("frame", True, (ie(i), ie(j)) if not isinstance(i, IE) else (i, ie(j)))
        local = lambda t: (lambda i, c: add(*[mul(t.at(i, ie(j)), leaf("frame", True, (ie(j), c))) for j in range(3)]))
        for q, (k, r, opts) in enumerate(log):
            u.eq("vacuum wavenumber %d" % q, k, (), lambda: k0.at())
            u.ob("order handed on %d" % q, opts.get("n_max") == (7 if n_max else None), repr(opts.get("n_max")))
            b = opts.get("backend")
            u.ob("backend %d" % q, b == backend if backend else (b == "pena" or (b in ("torch", "scipy") and R.ctx.decide(icmp("<=", L, 2)) is True)), repr(b))
            u.ob("no other option %d" % q, set(opts) <= {"n_max", "backend"}, repr(opts))
        srcs = {}
        for nm, t, M in (("scattered", rp, N), ("incident", rg, G)):
            # the evaluation whose points are this set of points in the frame of the wave
            src = [q for q, (k, r, o) in enumerate(log) if callee.holds(r, (M, 3), local(t))]
            u.ob("%s fields: evaluated at the points seen in the frame of the wave" % nm, len(src) >= 1)
            if not src: return
            srcs[nm] = src[0]
        for j, (nm, fld, M) in enumerate((("scattered", "E_s", N), ("scattered", "H_s", N), ("incident", "E_i", G), ("incident", "H_i", G))):
            q = srcs[nm]
            u.eq("%s field %s turned back" % (nm, fld), out[j], (M, 3), lambda i, c, q=q, fld=fld: add(*[mul(leaf("%s_%d" % (fld, q), False, (i, ie(k))), leaf("frame", True, (c, ie(k)))) for k in range(3)]))


eval_mie(None, False, None, "defaults"); eval_mie("pena", True, None, "pena, order"); eval_mie("scipy", True, None, "scipy, order")


for n in (1, 2, 3, 4, 5, 12):
    for planes in (None, ["xz"], ["xz", "yz", "xy"]):
        @contract("setup_plane_waves_configs/%d/%s" % (n, "default" if planes is None else ",".join(planes)), TG + ".setup_plane_waves_configs", "C16")
        def f(R, u, n=n, planes=planes):
            got = call(TG, "setup_plane_waves_configs", n, **({} if planes is None else dict(inc_planes=PyList(list(planes)))))
            got = got.items if isinstance(got, PyList) else got
            want = [(j, p, s) for j in range(n) for p in (planes or ["xz", "xy"]) for s in ("s", "p")]
            u.ob("one illumination for each angle, plane and polarisation", len(got) == len(want), "%d of %d" % (len(got), len(want)))
            from collections import Counter
            seen = Counter((g["inc_plane"], g["polarization"]) for g in got)
            u.ob("every plane and polarisation equally often", seen == Counter((p, s) for j, p, s in want), repr(seen))
            at = {}
            for g in got:
                k = at.setdefault((g["inc_plane"], g["polarization"]), [0]); j = k[0]; k[0] += 1
                a = g["angle"]
                u.term("angle %d of %s %s" % (j, g["inc_plane"], g["polarization"]), a.at() if isinstance(a, T) else node_of(a), mul(num(Fr(2 * j, n)), core.PI))


def gpm(nw, backend, tag):
    log, ext = [], []

    def ev(ip, d):
        w = len(log)
        log.append(dict(d))
        mk = lambda nm, M: T((M, 3), lambda i: leaf("%s_%d" % (nm, w), False, tuple(i)), "c64")
        return (mk("es", isym("N")), mk("hs", isym("N")), mk("ei", isym("G")), mk("hi", isym("G")))

    def fit(ip, *a, **kw):
        j = len(ext); ext.append(kw)
        G = isym("G")
        return {"GPM": T((iscale(G, 6), iscale(G, 6)), lambda i: leaf("gpm_%d" % j, False, tuple(i)), "c64")}

    @contract("extract_GPM_sphere_miediff/" + tag, TG + ".extract_GPM_sphere_miediff", "C19", contracts={TG + "._eval_mie": ev}, notiny=True,
              symcalls={"torchgdm.env.EnvHomogeneous3D": lambda ip, **k: Env(k), "torchgdm.struct.eff_model_tools.extract_gpm_from_fields": fit,
                        "torchgdm.tqdm": lambda ip, it, **k: it, "torchgdm.struct.struct3d.sphere": lambda ip, **k: (), "torchgdm.struct.struct3d.discretizer_cubic": lambda ip, *a, **k: tens("geo", (1, 3), "f64")})
    def f(R, u):
        del log[:], ext[:]
        N, G, L = dims(R, "N", "G", "L", lo=2)
        p, nh, r = particle(R, L)
        lam = postens("wavelengths", (ie(nw),))
        rg = tens("r_gpm", (G, 3), "f64"); rp = tens("r_probe", (N, 3), "f64")
        kw = dict(n_src_pw_angles=2, verbose=False, progress_bar=False, n_max=5)
        if backend: kw["backend"] = backend
        d = call(TG, "extract_GPM_sphere_miediff", p, lam, rg, r_probe=rp, **kw)
        u.ob("one fit per wavelength", len(ext) == nw, len(ext))
        u.ob("every illumination once per wavelength", len(log) == 12 * nw, len(log))
        for j, e in enumerate(ext):
            u.eq("wavelength %d" % j, e["wavelength"], (), lambda: lam.at(ie(j)))
            for key, nm, M in (("efields_sca", "es", N), ("hfields_sca", "hs", N), ("efields_inc", "ei", G), ("hfields_inc", "hi", G)):
                u.shape("%s %d" % (key, j), e[key], (12, M, 3))
            for k in range(12):
                a = log[12 * j + k]
                u.ob("particle", a["mie_particle"] is p and a["n_max"] == 5)
                if backend: u.ob("backend", a["backend"] == backend)
                u.eq("k0 %d %d" % (j, k), a["k0"], (), lambda: div(TWOPI, lam.at(ie(j))))
                u.eq("probe points", a["r_probe"], (N, 3), lambda i, c: rp.at(i, c))
                u.eq("support points", a["r_gpm"], (G, 3), lambda i, c: rg.at(i, c))
                # one common real factor per illumination
                i0 = (ie(0), ie(0))
                for key, nm in (("efields_sca", "es"), ("hfields_sca", "hs"), ("efields_inc", "ei"), ("hfields_inc", "hi")):
                    q = [isym("q"), isym("c")]
                    w = 12 * j + k
                    u.term("%s %d,%d keeps its ratio to the other fields" % (key, j, k), mul(e[key].at(ie(k), *q), leaf("ei_%d" % w, False, i0)),
                           mul(leaf("%s_%d" % (nm, w), False, tuple(q)), e["efields_inc"].at(ie(k), *i0)))
        u.eq("one polarisability matrix per wavelength, in order", d["GPM_N6xN6"], (nw, iscale(G, 6), iscale(G, 6)), lambda w, a, b: ite(icmp("==", w, 0), leaf("gpm_0", False, (a, b)), leaf("gpm_1", False, (a, b)) if nw > 1 else ZERO))
        u.eq("wavelengths", d["wavelengths"], (nw,), lambda w: lam.at(w))
        u.eq("wavenumbers", d["k0_spectrum"], (nw,), lambda w: div(TWOPI, lam.at(w)))
        u.eq("support points of the model", d["r_gpm"], (G, 3), lambda i, c: rg.at(i, c))
        u.eq("enclosing radius", d["enclosing_radius"], (), lambda: r.at(isub(L, 1)))
        u.ob("number of dipole pairs", True)


gpm(1, None, "one wavelength"); gpm(2, "scipy", "two wavelengths, scipy")


def struct(given, tag):
    got = {}

    def ext(ip, d):
        got["args"] = dict(d)
        return dict(got["gpm"])

    @contract("StructAutodiffMieGPM3D/" + tag, TG + ".StructAutodiffMieGPM3D.__init__", "C19", contracts={TG + ".extract_GPM_sphere_miediff": ext}, notiny=True,
              symcalls={"torchgdm.struct.StructGPM3D.__init__": lambda ip, s, *a, **kw: got.__setitem__("super", (a, kw))})
    def f(R, u):
        got.clear()
        (W, L) = dims(R, "W", "L")
        p, nh, r = particle(R, L)
        lam = postens("wavelengths", (W,)); rg = tens("r_gpm", (isym("G"), 3), "f64")
        env = Env({})
        got["gpm"] = {"environment": env, "r_gpm": rg, "r0": tens("zero", (3,), "f64")}
        kw = dict(verbose=False, progress_bar=False)
        pos = tens("r0", (3,), "f64")
        if given: kw.update(r0=pos, n_max=5, backend="scipy", n_env=SNum(nh, "float"), n_src_pw_angles=7, r_probe_add=33, some_option="kept", r_probe=tens("r_probe", (isym("N"), 3), "f64"))
        o = Inst(loader().load(TG).d["StructAutodiffMieGPM3D"])
        interp.INTERP[0].call(interp.INTERP[0].getattr(o, "__init__"), [p, lam, rg], kw)
        a = got["args"]
        u.ob("the particle is sampled", a["mie_particle"] is p)
        u.eq("wavelengths", a["wavelengths"], (W,), lambda w: lam.at(w))
        for k in ("n_max", "backend", "n_env", "r_probe"): u.ob("option " + k, a.get(k) is kw.get(k), repr(a.get(k)))
        if given: u.ob("further options", a["n_src_pw_angles"] == 7 and a["r_probe_add"] == 33 and a.get("kwargs", a).get("some_option") == "kept", repr(sorted(a)))
        s = got.get("super")
        u.ob("torchgdm's structure is built from the export", s is not None)
        u.eq("position", s[1]["positions"], (3,), lambda i: pos.at(i) if given else ZERO)
        ds = s[1]["gpm_dicts"]; ds = ds.items if isinstance(ds, PyList) else ds
        u.ob("the exported model", len(ds) == 1 and ds[0].get("r_gpm") is rg)


struct(False, "defaults"); struct(True, "all options")


for form in ("dict", "list", "mixed"):
    for n in (1, 2, 3):
        for given in (False, True):
            rec = {}

            @contract("combine_gpm_structures_autodiff/%s/%d%s" % (form, n, "/given" if given else ""), TG + ".combine_gpm_structures_autodiff", "C19",
                      symcalls={"torchgdm.struct.struct3d.gpm3d.StructGPM3D": lambda ip, *a, rec=rec, **kw: rec.__setitem__("kw", kw) or "structure"})
            def f(R, u, form=form, n=n, given=given, rec=rec):
                rec.clear()
                ds = [{"n": j} for j in range(n)]
                ps = [tens("r0_%d" % j, (3,), "f64") for j in range(n)]

                class S:
                    def __init__(self, j): self.j = j
                    def vattr(self, k):
                        if k == "r0": return ps[self.j]
                        if k == "gpm_dict": return PyList([ds[self.j]]) if form == "list" or (form == "mixed" and self.j % 2) else ds[self.j]
                        if k in ("environment", "device"): return "%s of %d" % (k, self.j)
                        raise Unsup(k)
                out = call(TG, "combine_gpm_structures_autodiff", PyList([S(j) for j in range(n)]), **(dict(environment="env", device="dev") if given else {}))
                kw = rec["kw"]
                u.ob("the combined structure is returned", out == "structure")
                got = kw["gpm_dicts"]; got = got.items if isinstance(got, PyList) else got
                u.ob("every structure's model once, in order", len(got) == n and all(x is y for x, y in zip(got, ds)))
                u.eq("positions in the same order", kw["positions"], (n, 3), lambda i, c: ite(icmp("==", i, 0), ps[0].at(c), ite(icmp("==", i, 1), ps[1 % n].at(c), ps[2 % n].at(c))) if n > 1 else ps[0].at(c))
                u.ob("environment and device", (kw["environment"], kw["device"]) == (("env", "dev") if given else ("environment of 0", "device of 0")))
