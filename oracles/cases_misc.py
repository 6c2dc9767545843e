import math, cmath, os, sys, json, tempfile, shutil, subprocess, warnings, contextlib, io
import numpy as np, torch
import mpmath as mp
from oracle import case, Fail, tonp
import ref
from gen import *
import pymiediff as pmd
from pymiediff import multishell as ms, special as sp
from pymiediff.helper import helper as hp
from pymiediff.materials import mat as mt
from pymiediff.materials import MatConstant, MatDatabase

PI = math.pi


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield

def psi_zeta(N, z):
    d1 = sp.pena_D1_n(N, z)
    return sp.pena_psi_zeta_n(N, z, d1, sp.pena_D3_n(N, z, D1=d1))


def q_ratio(N, z1, z2):
    """interface ratio of two arguments of one layer (the x arguments are proportional to z)"""
    a, b = sp.pena_D1_n(N, z1), sp.pena_D1_n(N, z2)
    return sp.pena_Q_n(N, z1, z2, z1, z2, a, b, sp.pena_D3_n(N, z1, D1=a), sp.pena_D3_n(N, z2, D1=b))


def same(a, b):
    a, b = tonp(a), tonp(b)
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True)


def flat(r):
    """all tensors of a result, by path"""
    out = {}

    def go(p, v):
        if isinstance(v, torch.Tensor): out[p] = v
        elif isinstance(v, np.ndarray): out[p] = torch.from_numpy(np.ascontiguousarray(v))
        elif isinstance(v, dict):
            for k in v: go(p + "." + str(k), v[k])
        elif isinstance(v, (list, tuple)):
            for k, x in enumerate(v): go(p + "[%d]" % k, x)
        elif isinstance(v, (int, float, complex)): out[p] = torch.tensor(v)
    go("", r)
    return out


def zrand(rng, shape, lo=0.3, hi=9., im=2.0):
    n = int(np.prod(shape)) if shape else 1
    v = np.array([complex(rng.uniform(lo, hi), rng.uniform(0, im)) for _ in range(n)])
    return tc(v.reshape(shape))


# ------------------------------------------------------------------ C12
def pure_calls(rng):
    """(label, function, kwargs) for the public computations"""
    b = batch(rng, 2, 2, 3)
    A = lambda: layer_args(b)
    th = lambda: tf([0.0, 0.3, PI / 2, 2.0, PI])
    R = b["r"][0][-1]
    pts = lambda: tf([[0., 0, 0], [0, 0, R], [R / 3, -R / 5, R / 7], [2 * R, R, -R], [0, 0, -3 * R], [b["r"][0][0], 0., 0.]])
    z = lambda: torch.cat([tc([0j, 1e-12 + 0j, 3.5 + 0j]), zrand(rng, (4,))])
    nz = lambda: zrand(rng, (2, 3))
    c = []
    for back in ("pena", "torch", "scipy"):
        c.append(("mie_coefficients/" + back, ms.mie_coefficients, dict(backend=back, n_max=3, **A())))
        c.append(("mie_coefficients/auto/" + back, ms.mie_coefficients, dict(backend=back, **A())))
        c.append(("cross_sections/" + back, ms.cross_sections, dict(backend=back, n_max=3, **A())))
        c.append(("angular_scattering/" + back, ms.angular_scattering, dict(backend=back, n_max=3, theta=th(), **A())))
        c.append(("nearfields/" + back, ms.nearfields, dict(backend=back, n_max=3, r_probe=pts(), **A())))
    for back in ("torch", "scipy"):
        c.append(("mie_coefficients/internal/" + back, ms.mie_coefficients, dict(backend=back, n_max=3, return_internal=True, **A())))
    c.append(("mie_coefficients/single", ms.mie_coefficients, dict(n_max=3, precision="single", **A())))
    G = lambda: dict(A(), eps_layers=tc([[[complex(v.real, -0.1 - abs(v.imag) / 9) for v in row] for row in p] for p in b["eps"]]), eps_env=tc([1.5 - 0.01j, 1.6 + 0.02j, 1.2 - 0.1j]))
    for back in ("pena", "torch", "scipy"): c.append(("mie_coefficients/gain/" + back, ms.mie_coefficients, dict(backend=back, n_max=3, **G())))
    e = A()
    c.append(("mie_coefficients/legacy", ms.mie_coefficients, dict(k0=e["k0"], r_c=tf([p[0] for p in b["r"]]), r_s=tf([p[1] for p in b["r"]]), eps_c=tc([p[0] for p in b["eps"]]), eps_s=tc([p[1] for p in b["eps"]]), eps_env=e["eps_env"], n_max=3)))
    n = 4
    for f in (sp.sph_jn, sp.sph_yn, sp.sph_h1n, sp.sph_jn_der, sp.sph_yn_der, sp.sph_h1n_der, sp.psi, sp.chi, sp.xi, sp.sph_jn_torch, sp.sph_yn_torch, sp.sph_h1n_torch, sp.psi_torch, sp.chi_torch, sp.xi_torch):
        c.append((f.__name__, f, dict(n=torch.tensor(n), z=z())))
        c.append((f.__name__ + "/2d", f, dict(n=torch.tensor(n), z=nz())))
    c.append(("sph_jn_torch_via_rec", sp.sph_jn_torch_via_rec, dict(n=torch.tensor(n), z=nz())))
    c.append(("f_der", sp.f_der, dict(n=torch.tensor(n), z=nz(), f_n=zrand(rng, (n + 1, 2, 3)))))
    c.append(("pena_D1_n", sp.pena_D1_n, dict(n=n, z=z()[2:])))
    c.append(("pena_D1_n/0", sp.pena_D1_n, dict(n=n, z=z())))
    c.append(("pena_D3_n", sp.pena_D3_n, dict(n=n, z=nz(), D1=zrand(rng, (n + 1, 2, 3)))))
    c.append(("pena_psi_zeta_n", sp.pena_psi_zeta_n, dict(n=n, z=nz(), D1=zrand(rng, (n + 1, 2, 3)), D3=zrand(rng, (n + 1, 2, 3)))))
    D = [zrand(rng, (n + 1, 2, 3)) for _ in range(4)]
    c.append(("pena_Q_n", sp.pena_Q_n, dict(n=n, z1=nz(), z2=nz(), x1=nz(), x2=nz(), D1_z1=D[0], D1_z2=D[1], D3_z1=D[2], D3_z2=D[3])))
    c.append(("pi_tau", sp.pi_tau, dict(n=n, mu=torch.cos(th()))))
    rr = tf([5., 0., 80., 200.])[None, None, :, None]
    geo = lambda: dict(k0=tf(0.01)[None, None, None, None] if False else tf([[[[0.01]]]]), n_medium=tc([[[[1.5 + 0.1j]]]]), r=rr.clone(), theta=tf([0.3, 1.0, 2.0, 0.0])[None, None, :, None], phi=tf([0.1, -2., 3., 0.])[None, None, :, None])
    for kind in (1, 3):
        c.append(("vsh/%d" % kind, sp.vsh, dict(n_max=3, kind=kind, **geo())))
        c.append(("vsh_pena/%d" % kind, sp.vsh_pena, dict(n_max=3, kind=kind, **geo())))
    X = lambda: tf([0., 1., -2., 0., 3.])
    c.append(("transform_xyz_to_spherical", hp.transform_xyz_to_spherical, dict(x=X(), y=tf([0., 0., 1., -1., 2.]), z=tf([0., 0., -4., 2., 0.]))))
    c.append(("transform_spherical_to_xyz", hp.transform_spherical_to_xyz, dict(r=X(), theta=X(), phi=X())))
    c.append(("transform_fields", hp.transform_fields_spherical_to_cartesian, dict(E_r=nz()[0], E_t=nz()[0], E_ph=nz()[0], r=X()[:3], theta=X()[:3], phi=X()[:3])))
    c.append(("interp1d", hp.interp1d, dict(x_eval=tf([0., 1., 2.5, 9., -3.]), x_dat=tf([3., 1., 2., 5.]), y_dat=tc([1j, 2, 3, 4 + 1j]))))
    c.append(("wiscombe", hp.get_truncution_criteroin_wiscombe, dict(ka=tf([0.1, 5., -9.]))))
    g = A()
    c.append(("pena2009", hp.get_truncution_criteroin_pena2009, dict(k0=g["k0"][None], r_layers=g["r_layers"], eps_layers=g["eps_layers"], eps_env=g["eps_env"][None])))
    c.append(("plane_wave_expansion", hp.plane_wave_expansion, dict(n=torch.tensor(4))))
    wl = lambda: tf([400., 523.4, 900., 150., 30000.])
    for nm in ("Si", "Ag", "SiO2"):
        with quiet(): m = MatDatabase(nm)
        c.append(("get_epsilon/" + nm, m.get_epsilon, dict(wavelength=wl())))
        c.append(("get_epsilon1/" + nm, m.get_epsilon, dict(wavelength=tf(611.))))
    eps_user = tc(2.5 + 0.1j)
    c.append(("MatConstant", lambda eps, wavelength: MatConstant(eps).get_epsilon(wavelength), dict(eps=eps_user, wavelength=wl())))
    with quiet(): mats = [MatDatabase("Si"), MatDatabase("Au")]
    for meth in ("get_mie_coefficients", "get_cross_sections"):
        c.append(("Particle." + meth, lambda r, k0, meth=meth: getattr(pmd.Particle(r_layers=r, mat_layers=mats, mat_env=1.1), meth)(k0, n_max=3), dict(r=tf([50., 80.]), k0=tf(b["k0"]))))
    c.append(("Particle.get_angular_scattering", lambda r, e, k0, theta: pmd.Particle(r_layers=r, eps_layers=e).get_angular_scattering(k0, theta, n_max=3), dict(r=tf([50., 80.]), e=tc([2., 3j]), k0=tf(b["k0"]), theta=th())))
    c.append(("Particle.get_nearfields", lambda r, e, k0, rp: pmd.Particle(r_layers=r, eps_layers=e).get_nearfields(k0, rp, n_max=3), dict(r=tf([50., 80.]), e=tc([2., 3j]), k0=tf(b["k0"]), rp=pts())))
    return c


@case("C12", 2, 10)
def inputs_unmodified(rng, ck, i):
    for label, f, kw in pure_calls(rng):
        keep = {k: v.clone() for k, v in kw.items() if isinstance(v, torch.Tensor)}
        ck.put(call=label, **{k: v for k, v in kw.items() if isinstance(v, torch.Tensor)})
        try:
            with quiet(): f(**kw)
        except Exception as e:
            raise Fail("%s raised %s: %s" % (label, type(e).__name__, str(e)[:200]))
        for k in keep: ck.ok(same(keep[k], kw[k]), "%s modified its argument %s" % (label, k))
        # with gradients: arguments, saved tensors and incoming gradients stay as they are
        kw2 = {k: (v.detach().clone().requires_grad_(True) if isinstance(v, torch.Tensor) and (v.is_floating_point() or v.is_complex()) else v) for k, v in kw.items()}
        try:
            with quiet():
                out = [t for t in flat(f(**kw2)).values() if t.requires_grad]
        except Exception as e:
            raise Fail("%s raised with gradient tracking %s: %s" % (label, type(e).__name__, str(e)[:200]))
        for k in keep: ck.ok(same(keep[k], kw2[k]), "%s modified its argument %s (gradient tracking)" % (label, k))
        if out:
            gs = [torch.ones_like(t) for t in out]
            vals = [t.detach().clone() for t in out]
            try: torch.autograd.backward(out, gs)
            except Exception as e: raise Fail("%s: backward raised %s: %s" % (label, type(e).__name__, str(e)[:200]))
            for k in keep: ck.ok(same(keep[k], kw2[k]), "%s: differentiation modified argument %s" % (label, k))
            for t, v in zip(out, vals): ck.ok(same(t, v), "%s: differentiation modified a result" % label)
            for g in gs: ck.ok(bool((g == 1).all()), "%s: differentiation modified the incoming gradient" % label)


@case("C12", 2, 10)
def numpy_and_shared_storage(rng, ck, i):
    """arguments that share memory with user arrays, or with each other"""
    b = batch(rng, 1, 2, 3)
    k0n = np.array(b["k0"]); rn = np.array(b["r"][0]); en = np.array(b["eps"][0])
    zn = np.array([0j, 1 + 0.2j, 3 - 0.1j])
    xyz = np.array([[0., 0, 0], [10., 0, 0], [0, 0, 500.], [0, -40., 3.]])
    copies = [x.copy() for x in (k0n, rn, en, zn, xyz)]
    ck.put(batch=b)
    t = torch.from_numpy
    for back in ("pena", "torch", "scipy"):
        ms.cross_sections(t(k0n), r_layers=t(rn), eps_layers=t(en), eps_env=1.0, backend=back, n_max=3)
        ms.nearfields(t(k0n), r_probe=t(xyz), r_layers=t(rn), eps_layers=t(en), eps_env=1.0, backend=back, n_max=3)
    for f in (sp.sph_jn, sp.sph_yn, sp.sph_jn_der, sp.sph_yn_der, sp.sph_jn_torch, sp.sph_yn_torch):
        z = t(zn)
        f(torch.tensor(3), z)
        z2 = t(zn).requires_grad_(True)
        try: r = f(torch.tensor(3), z2)
        except RuntimeError: continue
        r.abs().nan_to_num(0.).sum().backward()
    p = pmd.Particle(r_layers=t(rn), eps_layers=t(en), mat_env=1.0)
    p.get_cross_sections(t(k0n), n_max=2)
    p.get_nearfields(t(k0n), t(xyz), n_max=2)
    x = t(xyz)
    hp.transform_xyz_to_spherical(x[:, 0], x[:, 0], x[:, 2])
    xs = np.array([500., 400., 600.]); ys = np.array([1 + 1j, 2, 3]); c2 = xs.copy(), ys.copy()
    hp.interp1d(t(xs), t(xs), t(ys))
    ck.ok((xs == c2[0]).all() and (ys == c2[1]).all(), "interp1d modified its data")
    ze = np.array([0j, 1.0 + 1j]); zc = ze.copy()
    sp.bessel2ndDer(np.array([2, 2]), ze, lambda n, z: __import__("scipy.special", fromlist=["x"]).spherical_jn(n, z))
    ck.ok((ze == zc).all(), "bessel2ndDer modified its argument")
    for a, c in zip((k0n, rn, en, zn, xyz), copies): ck.ok(np.array_equal(a, c), "a user array was modified")
    # the particle keeps its definition
    ck.ok(same(p.r_layers, copies[1]) and same(p.eps_layers, copies[2]), "a call modified the particle definition")


HIST = r'''
import sys, json, torch, random
sys.path.insert(0, sys.argv[1])
import oracle; sys.modules["oracle"] = oracle
import cases_misc as cm
rng = random.Random(sys.argv[2])
calls = cm.pure_calls(rng)
order = list(range(len(calls)))
if sys.argv[3] == "rev": order.reverse()
else: random.Random(sys.argv[3]).shuffle(order)
out = {}
for j in order:
    with cm.quiet(): r = calls[j][1](**calls[j][2])
    out[j] = {k: v.detach() for k, v in cm.flat(r).items()}
torch.save((out, [c[0] for c in calls]), sys.argv[4])
'''


@case("C12", 1, 4)
def history_independent_across_orders(rng, ck, i):
    """the same calls in two processes in different order give bit-identical results"""
    import random as _r
    key = "h%d" % rng.randrange(1 << 30)
    d = tempfile.mkdtemp(prefix="c12_")
    try:
        outs = []
        env = dict(os.environ)
        ps = []
        for o in ("rev", "s%d" % i):
            fn = os.path.join(d, o + ".pt")
            ps.append((fn, subprocess.Popen([sys.executable, "-c", HIST, os.path.dirname(os.path.abspath(__file__)), key, o, fn], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        for fn, p in ps:
            _, err = p.communicate(timeout=300)
            if p.returncode: raise Fail("calls failed when repeated in another order: " + err.decode()[-600:])
            outs.append(torch.load(fn))
    finally: shutil.rmtree(d, ignore_errors=True)
    (a, lab), (b, _) = outs
    ck.put(key=key)
    for j in a:
        ck.ok(set(a[j]) == set(b[j]), lab[j] + ": results differ in structure")
        for k in a[j]: ck.ok(same(a[j][k], b[j][k]), "%s%s depends on the calls made before" % (lab[j], k))


@case("C12", 2, 8)
def repeated_calls_identical(rng, ck, i):
    calls = pure_calls(rng)
    dt = torch.get_default_dtype(); ge = torch.is_grad_enabled()
    first = []
    for label, f, kw in calls:
        with quiet(): first.append({k: v.detach().clone() for k, v in flat(f(**kw)).items()})
    for label, f, kw in reversed(calls):   # in between, with tracking
        kw2 = {k: (v.detach().clone().requires_grad_(True) if isinstance(v, torch.Tensor) and (v.is_floating_point() or v.is_complex()) else v) for k, v in kw.items()}
        with quiet(): f(**kw2)
    for (label, f, kw), r0 in zip(calls, first):
        ck.put(call=label, **{k: v for k, v in kw.items() if isinstance(v, torch.Tensor)})
        with quiet(): r = flat(f(**kw))
        for k in r0: ck.ok(same(r0[k], r[k]), "%s%s changed when the call was repeated" % (label, k))
    ck.ok(torch.get_default_dtype() == dt and torch.is_grad_enabled() == ge, "global torch state changed")


@case("C12", 3, 12)
def material_memo(rng, ck, i):
    nm = ["Si", "Ag", "SiO2", "Au", "GaN", "Ge"][i % 6]
    with quiet():
        m = MatDatabase(nm)
        fresh = lambda: MatDatabase(nm)
    W = [float(np.float32(rng.uniform(420., 860.))) for _ in range(3)]
    ck.put(material=nm, wavelengths=W)
    ops = []
    for _ in range(30):
        w = rng.choice(W)
        k = rng.choice(["plain", "grad", "nograd", "spec", "specgrad", "neighbour", "f64", "device", "pyfloat"])
        ops.append((k, w))
    ck.put(ops=ops)
    for k, w in ops:
        with quiet(): ref_ = fresh().get_epsilon(torch.tensor(w))
        if k == "plain": e = m.get_epsilon(torch.tensor(w)); ck.ok(same(e, ref_), "look-up of %s differs after other look-ups" % w)
        elif k == "pyfloat": e = m.get_epsilon(w); ck.ok(same(e, ref_), "look-up of %s differs after other look-ups" % w)
        elif k == "f64": e = m.get_epsilon(tf(w)); ck.ok(same(e, ref_), "look-up of %s differs after other look-ups" % w)
        elif k == "nograd":
            with torch.no_grad(): e = m.get_epsilon(torch.tensor(w, requires_grad=True))
            ck.ok(same(e, ref_) and not e.requires_grad, "no_grad look-up")
        elif k in ("grad", "specgrad"):
            x = torch.tensor(w if k == "grad" else [w, W[0]], requires_grad=True)
            with quiet(): fm = fresh()
            y = torch.tensor(w if k == "grad" else [w, W[0]], requires_grad=True)
            e, e2 = m.get_epsilon(x), fm.get_epsilon(y)
            ck.ok(same(e, e2), "value with gradient tracking differs after other look-ups")
            ck.ok(e.requires_grad == e2.requires_grad and e.requires_grad, "gradient tracking lost after other look-ups")
            g, = torch.autograd.grad(e.real.sum(), x); g2, = torch.autograd.grad(e2.real.sum(), y)
            ck.ok(same(g, g2), "gradient differs after other look-ups")
        elif k == "spec":
            e = m.get_epsilon(torch.tensor(W))
            with quiet(): f2 = fresh().get_epsilon(torch.tensor(W))
            ck.ok(same(e, f2), "spectrum differs after other look-ups")
            ck.ok(not e.requires_grad, "constant look-up became part of a graph")
        elif k == "neighbour":
            w2 = float(np.nextafter(np.float32(w), np.float32(1e9)))
            e = m.get_epsilon(torch.tensor(w2))
            with quiet(): f2 = fresh().get_epsilon(torch.tensor(w2))
            ck.ok(same(e, f2), "neighbouring wavelength")
        elif k == "device": m.set_device("cpu")


@case("C12", 1, 3)
def materials_do_not_share_state(rng, ck, i):
    d = tempfile.mkdtemp(prefix="c12_")
    try:
        fs = []
        for k in range(2):
            fn = os.path.join(d, "m%d.yml" % k)
            open(fn, "w").write("DATA:\n  - type: tabulated nk\n    data: |\n        0.4 %f 0.1\n        0.8 %f 0.2\n" % (1.5 + k, 2.5 + k))
            fs.append(fn)
        m0, m1 = MatDatabase("same", yaml_file=fs[0]), MatDatabase("same", yaml_file=fs[1])
        w = torch.tensor(600.)
        e0 = complex(m0.get_epsilon(w)); e1 = complex(m1.get_epsilon(w)); e0b = complex(m0.get_epsilon(w))
        x = lambda k: ((1.5 + k + 0.1j) ** 2 + (2.5 + k + 0.2j) ** 2) / 2
        ck.close(e0, x(0), 1e-6, 0, "first material"); ck.close(e1, x(1), 1e-6, 0, "second material"); ck.ok(e0 == e0b, "first material again")
        # a particle built twice from the same material, evaluated alternately
        pA = pmd.Particle(r_layers=[50., 70.], mat_layers=[m0, m1], mat_env=1.0)
        pB = pmd.Particle(r_layers=[50., 70.], mat_layers=[m1, m0], mat_env=1.3)
        k = tf([0.01, 0.012])
        r1 = pA.get_cross_sections(k, n_max=3)["cs_ext"]; pB.get_cross_sections(k, n_max=3); r2 = pA.get_cross_sections(k, n_max=3)["cs_ext"]
        ck.ok(same(r1, r2), "particles influence each other")
    finally: shutil.rmtree(d, ignore_errors=True)


@case("C12", 3, 12)
def one_particle_many_spectra(rng, ck, i):
    """a particle in use gives, for every spectrum, what a particle never used before gives"""
    names = ["Si", "Ag", "GaN", "SiO2", "Au", "ZrO2", "GaAs"]
    pick = [rng.choice(names) for _ in range(3)]
    a, b_ = sorted(2 * PI / rng.uniform(450, 800) for _ in range(2))
    mid = lambda: a + (b_ - a) * rng.uniform(0.2, 0.8)
    m1, m2 = mid(), mid()
    specs = [[a, m1, b_], [a, m2, b_], [b_, m1, a], [m1, a, b_], [a, b_, m1], [a, m1], [a, b_], [a], [b_], [a, a * (1 + 1e-9), b_], [a, m1, m2, b_], [a, m2, m1, b_]]
    rng.shuffle(specs)
    ck.put(materials=pick, spectra=specs)

    def make():
        with quiet(): ml = [MatDatabase(n) for n in pick]
        if i % 3 == 0: return pmd.Particle(r_layers=tf([50., 70.]), mat_layers=[4.0, 2.0], mat_env=ml[0])
        if i % 3 == 1: return pmd.Particle(r_layers=tf([50., 70.]), mat_layers=[ml[0], ml[1]], mat_env=ml[2])
        return pmd.Particle(r_core=50., r_shell=70., mat_core=ml[0], mat_shell=1.5, mat_env=1.33)
    p = make()
    f = [lambda p, k: p.get_cross_sections(k, n_max=2), lambda p, k: p.get_mie_coefficients(k, n_max=2), lambda p, k: p.get_angular_scattering(k, tf([0.3]), n_max=2),
         lambda p, k: p.get_nearfields(k, tf([[0., 40., 0.], [0., 0., 90.]]), n_max=2), lambda p, k: p.get_material_permittivities(k)]
    for j, s in enumerate(specs):
        k = tf(s)
        g = f[(i + j) % len(f)] if j % 3 == 0 else f[4]
        x, y = flat(g(p, k)), flat(g(make(), k))
        for key in y: ck.ok(same(x[key], y[key]), "spectrum %s: %s differs from a particle never used before" % (s, key))


# ------------------------------------------------------------------ C13
def graddiff(ck, f, xs, names, rng, h=1e-6, rtol=2e-4, atol=0., label="", min_rel=1e-9):
    """compare autograd of <w, f(xs)> with central differences along random directions"""
    leaves = [x.detach().clone().requires_grad_(True) for x in xs]
    outs = flat(f(*leaves))
    res0 = {}
    for key, o in outs.items():
        if not (o.is_floating_point() or o.is_complex()): continue
        w = torch.randn(o.shape, dtype=F64)
        wi = torch.randn(o.shape, dtype=F64)
        L = (o.real * w).sum() + ((o.imag * wi).sum() if o.is_complex() else 0)
        if not o.requires_grad:
            res0[key] = (None, w, wi); continue
        g = torch.autograd.grad(L, leaves, retain_graph=True, allow_unused=True)
        res0[key] = (g, w, wi)
    for j, x in enumerate(xs):
        d = torch.randn(x.shape, dtype=F64)
        if x.is_complex(): d = torch.complex(d, torch.randn(x.shape, dtype=F64))
        sc = x.abs() if x.abs().min() > 0 else torch.ones_like(x.abs())
        d = d * sc
        vals = {}
        for s in (2, 1, -1, -2):
            ys = [y.detach() for y in xs]
            ys[j] = ys[j] + s * h * d
            vals[s] = {k: v.detach() for k, v in flat(f(*ys)).items()}
        for key, (g, w, wi) in res0.items():
            def val(s):
                o = vals[s][key]
                return float((o.real * w).sum()) + (float((o.imag * wi).sum()) if o.is_complex() else 0.)
            num = (8 * (val(1) - val(-1)) - (val(2) - val(-2))) / (12 * h)
            o = vals[1][key]
            mag = float((o.real.abs() * w.abs()).sum()) + (float((o.imag.abs() * wi.abs()).sum()) if o.is_complex() else 0.)
            # disagreement of the two central differences: rounding noise of the function itself
            noise = 1e-14 * mag / h * 20 + 10 * abs((val(1) - val(-1)) / (2 * h) - (val(2) - val(-2)) / (4 * h))
            if g is None or g[j] is None: an = 0.
            else:
                gj = g[j]
                an = float((gj.real * d.real).sum() + (gj.imag * d.imag).sum()) if x.is_complex() else float((gj * d).sum())
            ck.ok(math.isfinite(an), "%s: gradient of %s with respect to %s is not finite" % (label, key, names[j]))
            lim = rtol * max(abs(num), abs(an)) + noise + atol * mag + (2e-9 if mag < 1e-6 and label.startswith("mieint") else 1e-10 if mag < 1e-14 else 0.)     # a value that is zero up to rounding
            ck.ok(abs(num - an) <= lim, "%s: derivative of %s with respect to %s: autograd %.8g, finite difference %.8g (allowed %.2g)" % (label, key, names[j], an, num, lim))


@case("C13", 9, 54)
def gradients_of_observables(rng, ck, i):
    fn = ["mie", "cs", "ang", "nf", "nf", "mieint", "mie", "cs", "nf"][i % 9]
    back = ["pena", "pena", "pena", "pena", "torch", "torch", "torch", "scipy", "scipy"][i % 9]
    L = rng.choice([1, 2, 3, 4]) if back == "pena" else rng.choice([1, 2])
    Np, Nk = rng.choice([(1, 1), (2, 2), (1, 2)])
    b = batch(rng, Np, L, Nk, hostc=rng.random() < 0.4)
    A = layer_args(b)
    N = rng.choice([1, 2, 4]) if fn != "nf" else rng.choice([1, 2])
    ck.put(batch=b, n_max=N, function=fn, backend=back)
    th = tf([0.3, 1.2, 2.4])
    R = max(p[-1] for p in b["r"])
    pts = tf([[x * q for x in p] for p, q in zip(pts_on_sphere(rng, 4, poles=False), (b["r"][0][0] * 0.4, b["r"][0][-1] * 0.93, R * 1.2, R * 2.7))])
    names = ["k0", "r_layers", "eps_layers", "eps_env"]
    xs = [A[n] for n in names]
    skip = ("n", "n_max", "r_probe", "r_layers", "eps_layers", "eps_env", "k0", "m_layers", "m_env")
    def clean(r): return {k: v for k, v in r.items() if k not in ("wavelength",)} if isinstance(r, dict) else r
    if fn == "mie": f = lambda k, r, e, v: clean(ms.mie_coefficients(k0=k, r_layers=r, eps_layers=e, eps_env=v, n_max=N, backend=back))
    elif fn == "mieint": f = lambda k, r, e, v: clean(ms.mie_coefficients(k0=k, r_layers=r, eps_layers=e, eps_env=v, n_max=N, backend=back, return_internal=True))
    elif fn == "cs": f = lambda k, r, e, v: ms.cross_sections(k0=k, r_layers=r, eps_layers=e, eps_env=v, n_max=N, backend=back)
    elif fn == "ang":
        names.append("theta"); xs.append(th)
        f = lambda k, r, e, v, t: ms.angular_scattering(k0=k, theta=t, r_layers=r, eps_layers=e, eps_env=v, n_max=N, backend=back)
    else:
        names.append("r_probe"); xs.append(pts)
        f = lambda k, r, e, v, q: ms.nearfields(k0=k, r_probe=q, r_layers=r, eps_layers=e, eps_env=v, n_max=N, backend=back)
    graddiff(ck, f, xs, names, rng, label="%s/%s" % (fn, back), atol=1e-9)


@case("C13", 8, 32)
def gradients_through_particles(rng, ck, i):
    """wavenumber (single or spectrum), radii, permittivities and indices of a particle object"""
    k = tf(2 * PI / rng.uniform(420, 900)) if i % 2 == 0 else tf([2 * PI / rng.uniform(420, 900) for _ in range(rng.choice([1, 2]))])
    L = rng.choice([1, 2, 3])
    r, e = particle(rng, L)
    form = ["eps", "index", "core"][(i // 4) % 3]
    if form == "core" and L > 2: form = "eps"
    meth = ["get_cross_sections", "get_mie_coefficients", "get_angular_scattering", "get_nearfields"][i % 4 if i < 8 else rng.randrange(4)]
    extra = dict(get_angular_scattering=dict(theta=tf([0.3, 1.9])), get_nearfields=dict(r_probe=tf([[0.3 * r[0], 0.2 * r[0], 0.1 * r[0]], [r[-1], r[-1], -0.7 * r[-1]]]))).get(meth, {})
    ck.put(k0=k, r=r, eps=e, form=form, method=meth)
    n = tc([cmath.sqrt(v) for v in e])

    def make(R, E):
        if form == "eps": return pmd.Particle(r_layers=R, eps_layers=E, mat_env=1.2)
        if form == "index": return pmd.Particle(r_layers=R, mat_layers=list(E), mat_env=1.2)
        return pmd.Particle(r_core=R[0], mat_core=E[0], mat_env=1.2, **(dict(r_shell=R[1], mat_shell=E[1]) if L == 2 else {}))

    def f(k, R, E):
        with quiet(): d = getattr(make(R, E), meth)(k, n_max=2, **extra)
        return {q: v for q, v in d.items() if q not in ("wavelength", "k0")}
    exact = form == "eps"    # indices become single-precision material constants
    if exact: graddiff(ck, f, [k, tf(r), tc(e)], ["k0", "r_layers", "eps_layers"], rng, label=meth, atol=1e-9)
    else: graddiff(ck, lambda k, R: f(k, R, n), [k, tf(r)], ["k0", "radii"], rng, label=meth, atol=1e-9, rtol=1e-3, min_rel=1e-7)


@case("C13", 6, 24)
def gradients_in_single_precision(rng, ck, i):
    """the gradients of a single-precision evaluation are those of the double-precision one, to single precision"""
    fn = ["cs", "mie", "ang"][i % 3]
    L = rng.choice([1, 2, 3]); N = rng.choice([2, 3])
    b = batch(rng, rng.choice([1, 2]), L, rng.choice([1, 2]), hostc=i % 2 == 0)
    b["r"] = [[v * 150. / p[-1] for v in p] for p in b["r"]]
    b["eps"] = [[[complex(abs(v.real), min(v.imag, 0.3)) for v in row] for row in p] for p in b["eps"]]
    ck.put(batch=b, n_max=N, function=fn)
    A = layer_args(b)
    g, cut = {}, []
    for prec in ("double", "single"):
        X = {k: v.clone().requires_grad_(True) for k, v in A.items()}
        if fn == "cs": o = [ms.cross_sections(n_max=N, precision=prec, **X)[q] for q in ("cs_sca", "cs_ext")]
        elif fn == "mie": o = [ms.mie_coefficients(n_max=N, precision=prec, **X)[q] for q in ("a_n", "b_n")]
        else: o = [ms.angular_scattering(theta=tf([0.3, 1.2, 2.4]), n_max=N, precision=prec, **X)[q] for q in ("S1", "S2")]
        for q, t in enumerate(o):
            for part in (("re", "im") if t.is_complex() else ("re",)):
                v = (t.real if part == "re" else t.imag).sum()
                g[prec, q, part] = torch.autograd.grad(v, list(X.values()), retain_graph=True, allow_unused=True)
    for (prec, q, part), gs in g.items():
        if prec == "double": continue
        for nm, a_, d_ in zip(A, gs, g["double", q, part]):
            ck.ok((a_ is None) == (d_ is None), "single precision: gradient of output %d (%s) with respect to %s missing" % (q, part, nm))
            if a_ is None: continue
            parts = (a_.real, d_.real, a_.imag, d_.imag) if a_.is_complex() else (a_, d_)
            for u, v in zip(parts[::2], parts[1::2]):
                sc = float(d_.abs().max())
                ck.ok(float((u.double() - v.double()).abs().max()) <= 1e-2 * sc, "single precision: gradient of output %d (%s) with respect to %s: %s instead of %s" % (q, part, nm, u.flatten()[:4].tolist(), v.flatten()[:4].tolist()))


@case("C13", 3, 12)
def derivative_at_pole_angles_and_axis(rng, ck, i):
    b = batch(rng, 1, rng.choice([1, 2, 3]), 2)
    A = layer_args(b)
    ck.put(batch=b)
    th = tf([0.0, PI / 2, PI, 0.7]).requires_grad_(True)
    r = ms.angular_scattering(theta=th, n_max=3, **A)
    for key in ("S1", "S2", "i_unpol"):
        o = r[key]
        g, = torch.autograd.grad(o.real.sum(), th, retain_graph=True)
        ck.ok(bool(torch.isfinite(g).all()), "d %s / d theta finite at the poles" % key)
        ck.ok(abs(float(g[0])) < 1e-6 * (1 + float(o.abs().max())), "d %s / d theta vanishes at theta=0" % key)
    # grazing values of the scalars fed one at a time
    for nm in ("k0", "r_layers", "eps_layers", "eps_env"):
        B = {k: v.clone() for k, v in A.items()}
        B[nm].requires_grad_(True)
        for f, keys in ((lambda: ms.cross_sections(n_max=3, **B), ("cs_ext", "cs_sca", "cs_abs", "q_ext", "q_sca", "q_abs", "cs_ext_multipoles", "q_sca_multipoles")), (lambda: ms.mie_coefficients(n_max=3, **B), ("a_n", "b_n"))):
            r = f()
            for key in keys:
                ck.ok(key in r, "missing " + key)
                vv = r[key]
                for q, t in enumerate(vv.values() if isinstance(vv, dict) else [vv]):
                    ck.ok(t.requires_grad, "%s is not connected to %s" % (key, nm))
                    g, = torch.autograd.grad(t.real.sum() + (t.imag.sum() if t.is_complex() else 0), B[nm], retain_graph=True)
                    ck.ok(bool(torch.isfinite(torch.view_as_real(g) if g.is_complex() else g).all()), "finite gradient of %s with respect to %s" % (key, nm))
                    ck.ok(float(g.abs().max()) > 0, "zero gradient of %s with respect to %s" % (key, nm))


def mpj(n, z): return mp.sqrt(mp.pi / (2 * z)) * mp.besselj(n + mp.mpf(1) / 2, z)
def mpy(n, z): return mp.sqrt(mp.pi / (2 * z)) * mp.bessely(n + mp.mpf(1) / 2, z)
def d1(f, n, z): return (n / z) * f(n, z) - f(n + 1, z)
def d2(f, n, z): return ((n * n - n - z * z) * f(n, z) + 2 * z * f(n + 1, z)) / z ** 2


@case("C13", 12, 80)
def bessel_derivative_rules(rng, ck, i):
    N = rng.choice([1, 2, 5, 9])
    kinds = [("sph_jn", mpj, d1), ("sph_yn", mpy, d1), ("sph_jn_der", mpj, d2), ("sph_yn_der", mpy, d2)]
    name, f, der = kinds[i % 4]
    vals = [complex(rng.uniform(-12, 12), rng.uniform(-2.5, 2.5)) for _ in range(4)] + [complex(rng.uniform(0.6, 12), 0.)] + [complex(0.02, 0.01) if name.startswith("sph_j") else 1.1 + 0.5j]
    ck.put(function=name, n=N, z=vals)
    z = tc(vals).requires_grad_(True)
    r = getattr(sp, name)(torch.tensor(N), z)
    ck.ok(tuple(r.shape) == (N + 1, len(vals)), "shape")
    for n in range(N + 1):
        for j, zz in enumerate(vals):
            for part in ("re", "im"):
                o = r[n, j]
                g, = torch.autograd.grad(o.real if part == "re" else o.imag, z, retain_graph=True)
                D = complex(der(f, n, mp.mpc(zz)))
                # pytorch convention: gradient of Re f is conj(f'), of Im f is conj(-i f')... times i
                e = np.conj(D) if part == "re" else np.conj(-1j * D)
                ck.close(complex(g[j]), e, 2e-7, 1e-11 * (1 + abs(D)), "d%s/dz n=%d z=%s (%s)" % (name, n, zz, part))
                others = [complex(g[q]) for q in range(len(vals)) if q != j]
                ck.ok(max(abs(v) for v in others) == 0, "cross gradient")
    # complex incoming gradient: linearity of the rule
    w = torch.complex(torch.randn(r.shape, dtype=F64), torch.randn(r.shape, dtype=F64))
    g, = torch.autograd.grad(r, z, grad_outputs=w, retain_graph=True)
    e = [sum(complex(w[n, j]) * np.conj(complex(der(f, n, mp.mpc(vals[j])))) for n in range(N + 1)) for j in range(len(vals))]
    ck.close(g, np.array(e), 1e-6, 1e-9 * (1 + float(np.abs(np.array(e)).max())), name + " with complex incoming gradient")


@case("C13", 4, 20)
def second_derivative_formula(rng, ck, i):
    from scipy.special import spherical_jn, spherical_yn
    for nm, f, g in (("j", spherical_jn, mpj), ("y", spherical_yn, mpy)):
        n = np.array([0, 1, 2, 5, 8]); z = np.array([complex(rng.uniform(0.8, 9), rng.uniform(-2, 2)) for _ in n])
        ck.put(n=n, z=z)
        r = sp.bessel2ndDer(n, z, f)
        e = [complex(d2(g, int(a), mp.mpc(complex(q)))) for a, q in zip(n, z)]
        ck.close(np.asarray(r), np.array(e), 1e-8, 1e-12, "second derivative of " + nm)


@case("C13", 2, 8)
def gradients_of_equal_entries(rng, ck, i):
    """entries that happen to coincide are still separate inputs"""
    k0, host, e = 0.011, rng.uniform(1.2, 2.0), complex(rng.uniform(3, 9), 0.4)
    k = tf([k0, k0]).requires_grad_(); en = tc([host, host]).requires_grad_()
    ep = tc([[[e, e], [e + 1, e + 1]]] * 2).requires_grad_(); r = tf([[60., 100.], [60., 100.]]).requires_grad_()
    ck.put(k0=k0, host=host, eps=e)
    args = dict(k0=k, r_layers=r, eps_layers=ep, eps_env=en)
    obs = [lambda a: ms.cross_sections(n_max=3, **a)["q_ext"], lambda a: ms.angular_scattering(theta=tf([0.3, 0.3]), n_max=3, **a)["i_per"]]
    f = obs[i % 2]
    g = torch.autograd.grad(f(args).sum(), [k, r, ep, en], allow_unused=True)
    one = dict(k0=tf([k0]).requires_grad_(), r_layers=tf([[60., 100.]]).requires_grad_(), eps_layers=tc([[[e], [e + 1]]]).requires_grad_(), eps_env=tc([host]).requires_grad_())
    w = torch.autograd.grad(f(one).sum(), list(one.values()))
    for nm, x, y, c in zip(one, g, w, (2, 2, 1, 2)):
        ck.ok(x is not None, "gradient with respect to " + nm + " exists")
        if x is not None: ck.close(x, (c * tonp(y) * np.ones(tuple(x.shape))), 1e-5, 1e-12, "gradient with respect to " + nm)


@case("C13", 4, 16)
def gradients_on_the_axis(rng, ck, i):
    """probe points on the axis of the incident wave (where the angles of the coordinates are singular), off the origin"""
    L = 1 + i % 2
    b = batch(rng, 1, L, 1)
    b["eps"] = [[[complex(rng.uniform(1.5, 6), rng.uniform(0, 0.5))] for _ in range(L)]]
    R = b["r"][0]
    z = rng.choice([-1, 1]) * rng.choice([0.5 * R[0], 1.3 * R[-1], 2.5 * R[-1]])
    t = rng.choice([0.0, 1e-14, -1e-14, 1e-10]) * abs(z)
    p0 = tf([[t, 0.0, z]]) if i % 3 else tf([[t, -t, z]])
    back = ["pena", "torch", "scipy"][i % 3]
    ck.put(batch=b, point=p0, backend=back)
    f = lambda p: ms.nearfields(r_probe=p, n_max=5, backend=back, **layer_args(b))
    p = p0.clone().requires_grad_()
    s = f(p)
    h = 1e-2
    D = []
    for a in range(3):
        d = torch.zeros(1, 3, dtype=torch.float64); d[0, a] = h
        u, v = f(p0 + d), f(p0 - d)
        D.append({q: (tonp(u[q]) - tonp(v[q])).reshape(3) / (2 * h) for q in ("E_t", "H_t", "E_s", "H_s", "E_i")})
    for q in ("E_t", "H_t", "E_s", "H_s", "E_i"):
        v = s[q].reshape(3)
        sc = float(v.abs().max()) * b["k0"][0] + max(abs(D[a][q]).max() for a in range(3))
        for c in range(3):
            for part in ("real", "imag"):
                g, = torch.autograd.grad(getattr(v[c], part), p, retain_graph=True)
                ck.close(g[0], np.array([getattr(D[a][q][c], part) for a in range(3)]), 1e-4, 1e-4 * sc, "gradient of %s %s[%d] with respect to the probe point on the axis" % (part, q, c))


@case("C13", 5, 20)
def gradients_of_special_functions(rng, ck, i):
    N = rng.choice([1, 3, 6])
    z = zrand(rng, (3,), 0.6, 7., 1.2)
    ck.put(n=N, z=z)
    nt = torch.tensor(N)
    fs = [("psi", lambda x: sp.psi(nt, x)), ("chi", lambda x: sp.chi(nt, x)), ("xi", lambda x: sp.xi(nt, x)), ("psi_torch", lambda x: sp.psi_torch(nt, x)), ("chi_torch", lambda x: sp.chi_torch(nt, x)), ("xi_torch", lambda x: sp.xi_torch(nt, x)),
          ("sph_h1n", lambda x: sp.sph_h1n(nt, x)), ("sph_jn_torch", lambda x: sp.sph_jn_torch(nt, x)), ("sph_yn_torch", lambda x: sp.sph_yn_torch(nt, x)), ("sph_h1n_torch", lambda x: sp.sph_h1n_torch(nt, x)),
          ("pena_D1_n", lambda x: sp.pena_D1_n(N, x)), ("pena_D3_n", lambda x: sp.pena_D3_n(N, x)), ("pena_psi_zeta_n", lambda x: psi_zeta(N, x))]
    for nm, f in fs: graddiff(ck, f, [z], ["z"], rng, label=nm, rtol=1e-4, atol=1e-9)
    graddiff(ck, lambda x, y: q_ratio(N, x, y), [z, zrand(rng, (3,), 0.6, 7., 1.2)], ["z1", "z2"], rng, label="pena_Q_n", rtol=1e-4, atol=1e-9)
    graddiff(ck, lambda m: sp.pi_tau(N, m), [tf([rng.uniform(-1, 1) for _ in range(4)])], ["mu"], rng, label="pi_tau", rtol=1e-4, atol=1e-9)
    x, y, w = (tf([rng.uniform(-5, 5) for _ in range(4)]) for _ in range(3))
    graddiff(ck, hp.transform_xyz_to_spherical, [x, y, w], ["x", "y", "z"], rng, label="transform_xyz_to_spherical", rtol=1e-4, atol=1e-9)
    graddiff(ck, hp.transform_spherical_to_xyz, [x, y, w], ["r", "theta", "phi"], rng, label="transform_spherical_to_xyz", rtol=1e-4, atol=1e-9)
    E = [zrand(rng, (4,)) for _ in range(3)]
    graddiff(ck, lambda a, b_, c_, t, p: hp.transform_fields_spherical_to_cartesian(a, b_, c_, x, t, p), E + [y, w], ["E_r", "E_t", "E_ph", "theta", "phi"], rng, label="transform_fields", rtol=1e-4, atol=1e-9)
    xd = tf(sorted(rng.uniform(0, 10) for _ in range(6))); yd = zrand(rng, (6,))
    mid = (xd[1:] + xd[:-1]) / 2
    graddiff(ck, hp.interp1d, [mid, xd, yd], ["x_eval", "x_dat", "y_dat"], rng, h=1e-7, label="interp1d", rtol=1e-4, atol=1e-8)


@case("C13", 6, 20)
def material_wavelength_gradient(rng, ck, i):
    nm = ["Si", "SiO2", "Ag", "GaAs", "ZrO2", "Au"][i % 6]
    with quiet(): m = MatDatabase(nm)
    ck.put(material=nm)
    ws = []
    if m.model_type == "data":
        wl = np.sort(m.wl_dat.numpy().astype(float))
        o = np.argsort(m.wl_dat.numpy()); ee = m.eps_dat.numpy()[o].astype(complex)
        for _ in range(5):
            j = rng.randrange(len(wl) - 1); t = rng.uniform(0.2, 0.8)
            w = float(np.float32(wl[j] + t * (wl[j + 1] - wl[j])))
            if not (wl[j] < w < wl[j + 1]): continue
            ws.append((w, (ee[j + 1] - ee[j]) / (wl[j + 1] - wl[j]), 1e-2, 5e-3 * (abs(ee[j]) * 1e-3) / (wl[j + 1] - wl[j])))
    else:
        C = m.coeff
        for _ in range(5):
            w = float(np.float32(rng.uniform(max(300., m.wl_range[0]), min(2000., m.wl_range[1])))) ; x = w / 1000
            D = sum(C[q] * (2 * x / (x * x - C[q + 1] ** 2) - 2 * x ** 3 / (x * x - C[q + 1] ** 2) ** 2) for q in range(1, len(C), 2)) / 1000
            ws.append((w, complex(D, 0), 2e-3, 1e-7))
    for mode in ("scalar", "after plain look-up", "spectrum"):
        if mode == "spectrum":
            x = torch.tensor([w[0] for w in ws], requires_grad=True)
            e = m.get_epsilon(x)
            g, = torch.autograd.grad(e.real.sum(), x)
            for q, (w, D, rt, at) in enumerate(ws): ck.close(float(g[q]), D.real, rt, at, "d Re eps / d wavelength of %s at %g (%s)" % (nm, w, mode))
        else:
            for w, D, rt, at in ws:
                if mode != "scalar": m.get_epsilon(torch.tensor(w))
                x = torch.tensor(w, requires_grad=True)
                e = m.get_epsilon(x)
                g, = torch.autograd.grad(e.real, x, retain_graph=True)
                ck.close(float(g), D.real, rt, at, "d Re eps / d wavelength of %s at %g (%s)" % (nm, w, mode))
                if m.model_type == "data":
                    g, = torch.autograd.grad(e.imag, x)
                    ck.close(float(g), D.imag, rt, at, "d Im eps / d wavelength of %s at %g (%s)" % (nm, w, mode))
    # refractive index given as tensor, squared to a permittivity
    n0 = tc(1.7 + 0.2j).requires_grad_(True)
    p = pmd.Particle(r_layers=tf([60., 80.]).requires_grad_(True), mat_layers=[n0, m], mat_env=1.2)
    k = tf([0.011, 0.013]).requires_grad_(True)
    for out in (p.get_cross_sections(k, n_max=2)["cs_ext"], p.get_mie_coefficients(k, n_max=2)["a_n"].abs(), p.get_angular_scattering(k, tf([0.4]), n_max=2)["i_unpol"], p.get_nearfields(k, tf([[0, 0, 100.], [20., 5., 1.]]), n_max=2)["E_t"].abs()):
        gs = torch.autograd.grad(out.sum(), [n0, p.r_layers, k], retain_graph=True, allow_unused=True)
        for nm2, g in zip(("index", "radii", "k0"), gs): ck.ok(g is not None and bool(torch.isfinite(torch.view_as_real(g) if g.is_complex() else g).all()) and float(g.abs().max()) > 0, "particle output is not connected to " + nm2)


# ------------------------------------------------------------------ C14
def load_yaml(fn):
    import yaml
    return yaml.load(open(fn, encoding="utf8"), Loader=yaml.BaseLoader)["DATA"]


def exp_table(rows, w):
    """linear interpolation of eps on the sorted rows, ends held"""
    rows = sorted(rows)
    xs = [r[0] for r in rows]; es = [r[1] for r in rows]
    if w <= xs[0]: return es[0]
    if w >= xs[-1]: return es[-1]
    import bisect
    j = bisect.bisect_left(xs, w)
    if xs[j] == w: return es[j]
    t = (w - xs[j - 1]) / (xs[j] - xs[j - 1])
    return es[j - 1] * (1 - t) + es[j] * t


f32 = lambda x: float(np.float32(x))


def rows_of(dat):
    out = []
    for l in dat["data"].split("\n"):
        s = l.split()
        if s: out.append((f32(1000.0 * float(s[0])), (float(s[1]) + 1j * (float(s[2]) if len(s) > 2 else 0.)) ** 2))
    return out


def check_table(ck, m, rows, rng, what, n=25):
    xs = sorted(r[0] for r in rows)
    ws = [xs[0], xs[-1], f32(xs[0] * 0.5), f32(xs[-1] * 2), xs[1], xs[-2]]
    for _ in range(n):
        j = rng.randrange(len(xs) - 1)
        ws.append(f32(xs[j] + rng.choice([0., 0.5, rng.random(), 0.01, 0.99]) * (xs[j + 1] - xs[j])))
    spec = m.get_epsilon(torch.tensor(ws))
    ck.ok(tuple(spec.shape) == (len(ws),), what + ": shape of a spectrum")
    for q, w in enumerate(ws):
        e = exp_table(rows, w)
        # tolerance: single precision arithmetic on the neighbouring values
        import bisect
        j = min(max(bisect.bisect_left(xs, w), 1), len(xs) - 1)
        sl = abs(exp_table(rows, xs[j]) - exp_table(rows, xs[j - 1])) / max(xs[j] - xs[j - 1], 1e-9) * xs[j] * 2.5e-7
        ck.close(complex(spec[q]), e, 2e-5, sl, "%s at %r nm (spectrum)" % (what, w))
        e1 = complex(m.get_epsilon(torch.tensor(w)))
        ck.ok(e1 == complex(spec[q]), "%s at %r nm: alone %s, in a spectrum %s" % (what, w, e1, complex(spec[q])))


@case("C14", 1, 3)
def database_tables(rng, ck, i):
    folder = os.path.join(os.path.dirname(pmd.materials.__file__), "data")
    files = sorted(f for f in os.listdir(folder) if f.endswith(".yml"))
    names = pmd.materials.list_available_materials()
    ck.ok(len(files) == len(names), "every data file is listed")
    nform = 0
    for fn in files:
        nm = fn.split("_")[0]
        ck.put(material=nm)
        dat = load_yaml(os.path.join(folder, fn))[0]
        with quiet(): m = MatDatabase(nm)
        ck.ok(m.__name__ == nm, "name")
        kind = dat["type"].split()
        if kind[0] == "tabulated": check_table(ck, m, rows_of(dat), rng, nm)
        elif kind == ["formula", "1"]:
            nform += 1
            C = [float(s) for s in dat["coefficients"].split()]
            check_sellmeier(ck, m, C, rng, nm)
        else:
            ck.raises(lambda: m.get_epsilon(600.), nm + ": unsupported formula answered")
    ck.ok(nform > 0, "formula materials present")
    ck.raises(lambda: MatDatabase("no-such-material"), "unknown material accepted", ValueError)
    for nm in ("SI", "si", "Si"):
        with quiet(): ck.ok(complex(MatDatabase(nm).get_epsilon(500.)) == complex(MatDatabase("si").get_epsilon(500.)), "names are case-insensitive")


def check_sellmeier(ck, m, C, rng, what, lo=350., hi=2000.):
    ws = [f32(rng.uniform(lo, hi)) for _ in range(8)]
    spec = m.get_epsilon(torch.tensor(ws))
    for q, w in enumerate(ws):
        x = w / 1000
        e = 1 + C[0] + sum(C[j] * x * x / (x * x - C[j + 1] ** 2) for j in range(1, len(C), 2))
        cond = sum(abs(C[j] * x * x / (x * x - C[j + 1] ** 2)) * (1 + x * x / abs(x * x - C[j + 1] ** 2)) for j in range(1, len(C), 2))
        ck.close(complex(spec[q]), complex(e), 1e-6, 1e-6 * cond, "%s (%d terms) at %r nm" % (what, (len(C) - 1) // 2, w))
        ck.ok(complex(m.get_epsilon(torch.tensor(w))) == complex(spec[q]), "%s: single wavelength equals spectrum" % what)


@case("C14", 8, 60)
def user_files(rng, ck, i):
    d = tempfile.mkdtemp(prefix="c14_")
    try:
        fn = os.path.join(d, "user.yml")
        if i % 4 == 3:
            nt = rng.randrange(0, 5)
            C = [rng.choice([0., rng.uniform(0, 2)])]
            for _ in range(nt): C += [rng.uniform(0.1, 2.), rng.choice([rng.uniform(0.01, 0.25), rng.uniform(4., 12.)])]
            open(fn, "w").write("DATA:\n  - type: formula 1\n    wavelength_range: 0.3 2.5\n    coefficients: %s\n" % " ".join(repr(c) for c in C))
            ck.put(coefficients=C)
            m = MatDatabase(yaml_file=fn)
            if nt: check_sellmeier(ck, m, C, rng, "formula file")
            else: ck.close(complex(m.get_epsilon(500.)), complex(1 + C[0]), 1e-6, 0, "formula without terms")
        else:
            k = rng.choice([2, 3, 5, 12, 30])
            xs = sorted({round(rng.uniform(0.3, 2.0), 3) for _ in range(k + 1)})
            rows = [(x, round(rng.uniform(0.1, 4), 3), round(rng.uniform(0, 5), 3)) for x in xs]
            order = rng.choice(["sorted", "reversed", "shuffled"])
            file_rows = list(rows)
            if order == "reversed": file_rows.reverse()
            if order == "shuffled": rng.shuffle(file_rows)
            onlyn = rng.random() < 0.25
            open(fn, "w").write("DATA:\n  - type: tabulated %s\n    data: |\n%s\n" % ("n" if onlyn else "nk", "\n".join("        %r %r%s" % (a, b_, "" if onlyn else " %r" % c_) for a, b_, c_ in file_rows)))
            ck.put(rows=file_rows, order=order, only_n=onlyn)
            m = MatDatabase(yaml_file=fn)
            R = [(f32(1000. * a), (b_ + 1j * (0. if onlyn else c_)) ** 2) for a, b_, c_ in rows]
            check_table(ck, m, R, rng, "table file (%s rows)" % order, 12)
            init = [R[0][0], f32((R[0][0] + R[-1][0]) / 2)]
            m2 = MatDatabase(yaml_file=fn, init_lookup_wavelengths=torch.tensor(init))
            for w in init: ck.ok(complex(m2.get_epsilon(torch.tensor(w))) == complex(m.get_epsilon(torch.tensor(w))), "initial look-up table")
    finally: shutil.rmtree(d, ignore_errors=True)


@case("C14", 6, 30)
def interpolation(rng, ck, i):
    """helper.interp1d on its own, double precision"""
    n = rng.choice([1, 2, 3, 4, 9, 40])
    xs = sorted({round(rng.uniform(-50, 50), 2) for _ in range(n)})
    cx = rng.random() < 0.5
    ys = [complex(rng.uniform(-3, 3), rng.uniform(-3, 3)) if cx else rng.uniform(-3, 3) for _ in xs]
    ev = list(xs) + [xs[0] - 1, xs[-1] + 7.5] + [rng.uniform(xs[0], xs[-1]) for _ in range(10)]
    rng.shuffle(ev)
    o = list(range(len(xs))); rng.shuffle(o)
    ck.put(x=xs, y=ys, x_eval=ev, order=o)
    T = tc if cx else tf
    r = hp.interp1d(tf(ev), tf([xs[j] for j in o]), T([ys[j] for j in o]))
    e = [exp_table(list(zip(xs, ys)), v) for v in ev]
    ck.close(r, np.array(e), 1e-9, 1e-10, "interp1d")
    if len(xs) > 1:
        r2 = hp.interp1d(tf(ev[:6]).view(2, 3), tf([xs[j] for j in o]), T([ys[j] for j in o]))
        ck.close(r2, np.array(e[:6]).reshape(2, 3), 1e-9, 1e-10, "interp1d 2d")
    r3 = hp.interp1d(tf(ev[0]), tf([xs[j] for j in o]), T([ys[j] for j in o]))
    ck.close(r3, np.array(e[0]), 1e-9, 1e-10, "interp1d scalar")


@case("C14", 2, 8)
def constants(rng, ck, i):
    for e in (rng.uniform(1, 9), complex(rng.uniform(-9, 9), rng.uniform(0, 5)), 4, 1.0):
        ck.put(eps=e)
        for v in (e, tc(e), np.complex128(e)):
            m = MatConstant(v)
            ck.close(complex(m.get_epsilon(512.)), complex(e), 1e-6, 0, "constant, scalar wavelength")
            ck.close(m.get_epsilon(tf([400., 500., 900.])), np.full(3, e, complex), 1e-6, 0, "constant, spectrum")
            ck.close(m.get_epsilon(tf([400.])).reshape(-1), np.full(1, e, complex), 1e-6, 0, "constant, one-element spectrum")
    mm = MatConstant()
    ck.close(complex(mm.get_epsilon(1.)), 2.0 + 0j, 0, 0, "default constant")


# ------------------------------------------------------------------ C15
def wisc(x):
    if x <= 8: return x + 4 * x ** (1 / 3) + 1
    if x < 4200: return x + 4.05 * x ** (1 / 3) + 2
    return x + 4 * x ** (1 / 3) + 2


def pena_bound(b):
    out = []
    for p in range(len(b["r"])):
        for q in range(len(b["k0"])):
            k0, env = b["k0"][q], b["env"][q]
            xo = abs(k0 * cmath.sqrt(env) * b["r"][p][-1])
            opt = 0.
            for l in range(len(b["r"][p])):
                n = cmath.sqrt(b["eps"][p][l][q])
                opt = max(opt, abs(k0 * n * b["r"][p][l]), abs(k0 * n * (b["r"][p][l - 1] if l else 0)))
            out.append((xo, opt))
    xo = max(o[0] for o in out)
    return xo, max(o[1] for o in out)


def reaches(n, target, slack): return n >= target - slack


@case("C15", 24, 200)
def order_covers_the_particle(rng, ck, i):
    L = rng.choice([1, 2, 3, 5])
    Np, Nk = rng.choice([(1, 1), (2, 1), (1, 3), (3, 2)])
    b = batch(rng, Np, L, Nk)
    sc = rng.choice([0.05, 0.5, 1, 4, 12])
    b["k0"] = [k * sc for k in b["k0"]]
    if i % 6 == 5:   # the biggest optical size belongs to an inner radius
        b["eps"][0][-1] = [complex(30., 0.1)] * Nk
    if i % 5 == 4:
        b["env"] = [v * 3 for v in b["env"]]
    ck.put(batch=b)
    A = layer_args(b)
    bc = dict(k0=A["k0"][None], r_layers=A["r_layers"], eps_layers=A["eps_layers"], eps_env=A["eps_env"][None])
    n = hp.get_truncution_criteroin_pena2009(**bc)
    xo, opt = pena_bound(b)
    ck.ok(isinstance(n, int), "integer order")
    need = max(round(wisc(xo)), opt) + 15
    ck.ok(n >= need - 0.5 - 1e-6, "order %d is below the required %.3f (outer size %.3f, largest optical size %.3f)" % (n, need, xo, opt))
    ck.ok(n <= need + 1.0, "order %d exceeds the definition %.3f" % (n, need))
    nw = hp.get_truncution_criteroin_wiscombe(tf([xo * 0.3, xo, xo * 0.9]))
    ck.ok(abs(nw - wisc(xo)) <= 0.5 + 1e-6, "Wiscombe order %d for size %.4f, expected %.3f" % (nw, xo, wisc(xo)))
    if xo > 60 or opt > 120: return
    r = ms.mie_coefficients(**A)
    ck.ok(int(r["n_max"]) == n, "the default backend uses order %d, the criterion gives %d" % (int(r["n_max"]), n))
    ck.ok(r["a_n"].shape[0] == n and r["b_n"].shape[0] == n and r["n"].tolist() == list(range(1, n + 1)), "orders 1..n_max")
    cs = ms.cross_sections(**A)
    ck.ok(int(cs["n_max"]) == n if "n_max" in cs else True, "cross sections use the same order")
    if L <= 2 and xo < 25:
        for back in ("torch", "scipy"):
            r = ms.mie_coefficients(backend=back, **A)
            ck.ok(int(r["n_max"]) == nw, "backend %s uses order %d, Wiscombe gives %d" % (back, int(r["n_max"]), nw))
    # an explicit order is used exactly
    for back in ("pena", "torch", "scipy"):
        if back != "pena" and L > 2: continue
        for e in (1, 2, 7, torch.tensor(3)):
            r = ms.mie_coefficients(backend=back, n_max=e, **A)
            ck.ok(r["a_n"].shape[0] == int(e) and int(r["n_max"]) == int(e), "explicit order %d with %s" % (int(e), back))


@case("C15", 4, 16)
def explicit_order_of_any_size(rng, ck, i):
    """a given order is used exactly, however small the particle"""
    b = batch(rng, 2, 2, 2)
    f = rng.choice([0.02, 0.2, 1.0])
    b["r"] = [[x * f for x in r] for r in b["r"]]
    N = rng.choice([1, 2, 25, 61, 80])
    back = ["pena", "torch", "scipy"][i % 3]
    ck.put(batch=b, n_max=N, backend=back)
    with quiet(): c = ms.mie_coefficients(n_max=N if i % 2 else torch.tensor(N), backend=back, **layer_args(b))
    ck.ok(int(c["n_max"]) == N and tuple(c["a_n"].shape) == (N, 2, 2) and tuple(c["b_n"].shape) == (N, 2, 2) and c["n"].tolist() == list(range(1, N + 1)), "order %d with backend %s: %s" % (N, back, tuple(c["a_n"].shape)))


@case("C15", 12, 100)
def order_is_monotone(rng, ck, i):
    L = rng.choice([1, 2, 4])
    b = batch(rng, 3, L, 3)
    b["k0"] = [k * rng.choice([0.2, 1, 5]) for k in b["k0"]]
    ck.put(batch=b)
    def crit(ps, qs):
        return hp.get_truncution_criteroin_pena2009(tf([[b["k0"][q] for q in qs]]), tf([b["r"][p] for p in ps]), tc([[[row[q] for q in qs] for row in b["eps"][p]] for p in ps]), tf([[b["env"][q] for q in qs]]))
    def wis(ps, qs): return hp.get_truncution_criteroin_wiscombe(tf([[b["k0"][q] * math.sqrt(b["env"][q]) * b["r"][p][-1] for q in qs] for p in ps]))
    for f, what in ((crit, "default order"), (wis, "Wiscombe order")):
        full = f([0, 1, 2], [0, 1, 2])
        singles = [f([p], [q]) for p in range(3) for q in range(3)]
        ck.ok(full >= max(singles), "%s %d of a batch is below %d of a member" % (what, full, max(singles)))
        ck.ok(f([0, 1], [0, 1, 2]) <= full and f([0, 1, 2], [1]) <= full and f([2], [0, 1, 2]) <= full, what + " shrinks when the batch grows")
        if what == "Wiscombe order": ck.ok(full == max(singles), "Wiscombe order of the batch is the maximum")


@case("C15", 1, 2)
def wiscombe_branches(rng, ck, i):
    for x in [0.001, 0.5, 1., 4., 7.5, 7.999, 8.0, 8.001, 8.2, 20., 150., 1000., 4100., 4199.9, 4200., 4200.5, 6000.]:
        ck.put(x=x)
        n = hp.get_truncution_criteroin_wiscombe(tf([x, x / 2]))
        ck.ok(abs(n - wisc(x)) <= 0.5 + 1e-6, "Wiscombe order %d at %r, expected %.3f" % (n, x, wisc(x)))
        ck.ok(hp.get_truncution_criteroin_wiscombe(tf([-x])) == n, "modulus of the size parameter")
        ck.ok(hp.get_truncution_criteroin_wiscombe(tc([x * cmath.exp(0.4j)])) == n, "modulus of a complex size parameter")
        m = hp.get_truncution_criteroin_pena2009(tf([[x / 100]]), tf([[100.]]), tc([[[0.25]]]), tf([[1.0]]))
        ck.ok(abs(m - (round(wisc(x)) + 15)) <= 1 if abs(wisc(x) % 1 - 0.5) > 1e-3 else True, "default order %d at outer size %r, expected %.3f" % (m, x, wisc(x) + 15))


# ------------------------------------------------------------------ C16
@case("C16", 10, 60)
def coordinates(rng, ck, i):
    n = 40
    sc = [1e-3, 1e-8, 250., 1., 1e-6, 1e6][i % 6]
    P = [[sc * rng.gauss(0, 1) for _ in range(3)] for _ in range(n)]
    for a in range(3):
        for s in (1, -1): P.append([s * sc if q == a else 0. for q in range(3)])
    P += [[sc, 1e-9 * sc, 0.], [0., sc, sc], [sc, 0., -sc], [-sc, 0., sc], [-sc, 1e-12 * sc, 0], [-sc, -1e-12 * sc, 0], [0, -sc, 0.3 * sc], [1e-7 * sc, 1e-7 * sc, sc], [1e-4 * sc, -1e-4 * sc, -sc]]
    ck.put(points=P)
    A = np.array(P)
    x, y, z = (tf(A[:, q].copy()) for q in range(3))
    r, t, p = hp.transform_xyz_to_spherical(x, y, z)
    R = np.sqrt((A ** 2).sum(1))
    ck.close(r, R, 1e-12, 0, "radius")
    ck.close(t, np.arctan2(np.hypot(A[:, 0], A[:, 1]), A[:, 2]), 0, 3e-8, "polar angle")
    ph = np.arctan2(A[:, 1], A[:, 0])
    on = np.hypot(A[:, 0], A[:, 1]) > 1e-6 * R
    d = np.abs(np.exp(1j * tonp(p)) - np.exp(1j * ph))[on]
    ck.ok(d.max() < 1e-6 if len(d) else True, "azimuth: largest deviation %g" % (d.max() if len(d) else 0))
    X = hp.transform_spherical_to_xyz(r, t, p)
    for q in range(3): ck.ok((np.abs(tonp(X[q]) - A[:, q]) <= 1e-7 * R + 1e-14).all(), "round trip of component %d" % q)
    if sc >= 1e-8:
        X = hp.transform_spherical_to_xyz(*hp.transform_xyz_to_spherical(*[v.to(torch.float32) for v in (x, y, z)]))
        for q in range(3): ck.ok((np.abs(tonp(X[q]) - A[:, q]) <= 4e-4 * R + 1e-12).all(), "round trip of component %d in single precision" % q)
    # field conversion
    th = tf([rng.uniform(0, PI) for _ in range(n)] + [0., PI, PI / 2]); phi = tf([rng.uniform(-PI, PI) for _ in range(n)] + [0., 1., PI])
    m = len(th)
    E = [tc([complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(m)]) for _ in range(3)]
    F = [tc([complex(rng.gauss(0, 1), rng.gauss(0, 1)) for _ in range(m)]) for _ in range(3)]
    C = [tonp(v) for v in hp.transform_fields_spherical_to_cartesian(*E, torch.ones(m), th, phi)]
    G = [tonp(v) for v in hp.transform_fields_spherical_to_cartesian(*F, 5 * torch.ones(m), th, phi)]
    T, Q = tonp(th), tonp(phi)
    er = np.array([np.sin(T) * np.cos(Q), np.sin(T) * np.sin(Q), np.cos(T)]); et = np.array([np.cos(T) * np.cos(Q), np.cos(T) * np.sin(Q), -np.sin(T)]); ep = np.array([-np.sin(Q), np.cos(Q), 0 * Q])
    e = [tonp(v) for v in E]
    for q in range(3): ck.close(C[q], e[0] * er[q] + e[1] * et[q] + e[2] * ep[q], 1e-12, 1e-13, "component %d of the converted field" % q)
    f_ = [tonp(v) for v in F]
    ck.close(sum(np.conj(a) * b_ for a, b_ in zip(C, G)), sum(np.conj(a) * b_ for a, b_ in zip(e, f_)), 1e-11, 1e-11, "inner product")
    one = tf(np.ones(m)); zero = tf(np.zeros(m))
    rad = hp.transform_fields_spherical_to_cartesian(one, zero, zero, one, th, phi)
    pos = hp.transform_spherical_to_xyz(one, th, phi)
    for q in range(3): ck.close(rad[q], tonp(pos[q]), 1e-13, 1e-14, "the radial unit field points along the position")


@case("C16", 1, 3)
def coordinates_shapes(rng, ck, i):
    P = np.array([[rng.gauss(0, 1) for _ in range(3)] for _ in range(6)])
    x, y, z = (tf(P[:, q].copy()).view(2, 3) for q in range(3))
    r, t, p = hp.transform_xyz_to_spherical(x, y, z)
    ck.ok(r.shape == (2, 3) and t.shape == (2, 3) and p.shape == (2, 3), "shape")
    X = hp.transform_spherical_to_xyz(r, t, p)
    for q in range(3): ck.close(X[q].reshape(-1), P[:, q], 1e-10, 1e-12, "2d round trip")
    r, t, p = hp.transform_xyz_to_spherical(tf([0.]), tf([0.]), tf([0.]))
    ck.ok(float(r) == 0 and bool(torch.isfinite(t).all() and torch.isfinite(p).all()), "the origin is finite")


def expected_frame(angle, plane, pol):
    s, c = math.sin(angle), math.cos(angle)
    k = {"yz": [0, s, c], "xz": [s, 0, c], "xy": [s, c, 0]}[plane]
    e = {("yz", "s"): [1, 0, 0], ("yz", "p"): [0, -c, s], ("xz", "s"): [0, 1, 0], ("xz", "p"): [-c, 0, s], ("xy", "s"): [0, 0, 1], ("xy", "p"): [-c, s, 0]}[plane, pol]
    return np.array(e, float), np.array(k, float)


@case("C16", 3, 12)
def rotations(rng, ck, i):
    from pymiediff.helper import tg
    for a in [0., PI / 2, PI, -PI / 3, 2 * PI] + [rng.uniform(-7, 7) for _ in range(8)]:
        ck.put(angle=a)
        c, s = math.cos(a), math.sin(a)
        M = dict(x=[[1, 0, 0], [0, c, -s], [0, s, c]], y=[[c, 0, s], [0, 1, 0], [-s, 0, c]], z=[[c, -s, 0], [s, c, 0], [0, 0, 1]])
        for ax in "xyz":
            f = getattr(tg, "rotation_" + ax)
            for dt, tol in ((torch.float32, 2e-6), (torch.float64, 1e-12)):
                R = tonp(f(a, DTYPE_FLOAT=dt)).astype(float)
                ck.close(R, np.array(M[ax], float), 0, tol, "rotation_%s(%g)" % (ax, a))
                ck.close(R @ R.T, np.eye(3), 0, 3 * tol, "orthogonality")
                ck.close(np.linalg.det(R), 1.0, 0, 5 * tol, "determinant")
            R = f(tf(a), DTYPE_FLOAT=F64)
            ck.close(R, np.array(M[ax], float), 0, 1e-12, "rotation_%s of a tensor" % ax)
        for plane in ("xz", "yz", "xy"):
            for pol in "sp":
                F = tonp(tg._plane_wave_rotation(a, plane, pol, "cpu")).astype(float)
                e, k = expected_frame(a, plane, pol)
                ck.close(F @ F.T, np.eye(3), 0, 3e-6, "frame %s/%s is orthogonal" % (plane, pol))
                ck.close(np.linalg.det(F), 1.0, 0, 5e-6, "frame %s/%s is proper" % (plane, pol))
                ck.close(F @ np.array([0, 0, 1.]), k, 0, 3e-6, "frame %s/%s maps +z to the direction" % (plane, pol))
                ck.close(F @ np.array([1., 0, 0]), e, 0, 3e-6, "frame %s/%s maps x to the polarisation" % (plane, pol))
    ck.raises(lambda: tg._plane_wave_rotation(0.1, "zz", "s", "cpu"), "unknown plane accepted", ValueError)
    for pl in ("xz", "yz", "xy"): ck.raises(lambda: tg._plane_wave_rotation(0.1, pl, "q", "cpu"), "unknown polarisation accepted", ValueError)
    cf = tg.setup_plane_waves_configs(5, ["xz", "yz", "xy"])
    ck.ok(len(cf) == 30, "number of illumination configurations")
    ck.ok(len({(round(float(c_["angle"]), 5), c_["inc_plane"], c_["polarization"]) for c_ in cf}) == 30, "distinct configurations")


@case("C16", 4, 20)
def rotated_illumination(rng, ck, i):
    from pymiediff.helper import tg
    L = [1, 2, 3, 2][i % 4]
    r, e = particle(rng, L)
    r32 = [f32(v) for v in r]
    p = pmd.Particle(r_layers=tf(r32), eps_layers=tc(e), mat_env=rng.choice([1.0, 1.33]))
    a = rng.uniform(0, 2 * PI); plane = ["xz", "yz", "xy"][i % 3]; pol = "sp"[(i // 3) % 2]
    if i % 2: plane = rng.choice(["xz", "yz", "xy"]); pol = rng.choice("sp")
    k0 = 2 * PI / rng.uniform(450, 900)
    R = r[-1]
    pr = torch.tensor([[x * q for x in s] for s, q in zip(pts_on_sphere(rng, 4), (1.1 * R, 1.5 * R, 2 * R, 3 * R))], dtype=torch.float32)
    gp = torch.tensor([[x * q for x in s] for s, q in zip(pts_on_sphere(rng, 3), (0.2 * R, 0.6 * R, 2.1 * R))], dtype=torch.float32)
    ck.put(r=r32, eps=e, angle=a, plane=plane, pol=pol, k0=k0, r_probe=pr, r_gpm=gp)
    kk = torch.tensor(k0, dtype=torch.float32)
    es, hs, ei, hi = tg._eval_mie(p, dict(angle=torch.tensor(a, dtype=torch.float32), inc_plane=plane, polarization=pol), kk, pr, gp, n_max=4)
    e0, kd = expected_frame(a, plane, pol)
    n = math.sqrt(float(p.mat_env.get_epsilon(500.).real))
    kf = float(kk)
    ph = np.exp(1j * kf * n * (gp.numpy().astype(float) @ kd))
    ck.close(ei, ph[:, None] * e0[None, :], 5e-3, 3e-3, "incident field is the plane wave along the requested direction")
    h0 = np.cross(kd, e0) * n
    ck.close(hi, ph[:, None] * h0[None, :], 5e-3, 3e-3 * n, "incident magnetic field")
    # rotation covariance: fields of the native wave at the back-rotated points, rotated forward
    h = np.cross(kd, e0)
    F = np.stack([e0, h, kd], 1)           # columns: images of x, y, z
    q = torch.tensor(pr.numpy().astype(float) @ F)
    back = "torch" if L <= 2 else "pena"
    nat = p.get_nearfields(tf(kf), q, n_max=4, backend=back)
    E = tonp(nat["E_s"]) @ F.T; H = tonp(nat["H_s"]) @ F.T
    sE = np.abs(E).max(); sH = np.abs(H).max()
    ck.close(es, E, 2e-3, 2e-3 * sE, "scattered field is the rotated native field")
    ck.close(hs, H, 2e-3, 2e-3 * sH, "scattered magnetic field is the rotated native field")


# ------------------------------------------------------------------ C17
def radial_ref(N, z):
    z = mp.mpc(z)
    j = [mpj(n, z) for n in range(N + 2)]; y = [mpy(n, z) for n in range(N + 2)]
    h = [a + 1j * b_ for a, b_ in zip(j, y)]
    return j, y, h


def der(f, z):
    return [-f[1]] + [f[n - 1] - (n + 1) / z * f[n] for n in range(1, len(f) - 1)]


@case("C17", 14, 90)
def special_functions(rng, ck, i):
    N = rng.choice([1, 2, 3, 6, 11, 16])
    R = [(0.3, 3.), (2., 15.), (5., 40.)][i % 3]
    vals = [complex(rng.uniform(*R), rng.choice([0., rng.uniform(-1.5, 1.5), rng.uniform(0, 4)])) for _ in range(3)]
    ck.put(n=N, z=vals)
    z = tc(vals)
    nt = torch.tensor(N)
    refs = [radial_ref(N, v) for v in vals]
    C = lambda lst: np.array([[complex(lst[q][n]) for q in range(len(vals))] for n in range(N + 1)])
    J = C([r[0] for r in refs]); Y = C([r[1] for r in refs]); H = C([r[2] for r in refs])
    zs = [mp.mpc(v) for v in vals]
    dJ = C([der(r[0], q) for r, q in zip(refs, zs)]); dY = C([der(r[1], q) for r, q in zip(refs, zs)]); dH = C([der(r[2], q) for r, q in zip(refs, zs)])
    zz = np.array(vals)[None, :]

    def chk(got, exp, what, rt=1e-7, at=None):
        if isinstance(got, tuple): got, = got
        ck.close(got, exp, rt, 0 if at is None else at, "%s n=0..%d" % (what, N))
    big = 1e-13 * np.abs(H).max(0)[None, :] * np.ones_like(J.real)
    for suf, tol in (("", 1e-8), ("_torch", 1e-6)):
        fj = getattr(sp, "sph_jn" + suf)(nt, z); fy = getattr(sp, "sph_yn" + suf)(nt, z); fh = getattr(sp, "sph_h1n" + suf)(nt, z)
        ck.close(fj, J, tol, 1e-12 if suf == "" else 1e-10, "sph_jn" + suf)
        ck.close(fy, Y, tol, 0, "sph_yn" + suf)
        ck.close(fh, H, tol, 1e-12, "sph_h1n" + suf)
        ck.ok(fj.shape == (N + 1, 3), "shape")
        for nm, g, dg, sg in (("psi", J, dJ, 1), ("chi", Y, dY, -1), ("xi", H, dH, 1)):
            a, b_ = getattr(sp, nm + suf)(nt, z)
            ck.close(a, sg * zz * g, 10 * tol, 1e-9, nm + suf)
            ck.close(b_, sg * (g + zz * dg), 30 * tol, 1e-8, "derivative of " + nm + suf)
        for nm, g, f_ in (("jn", fj, dJ), ("yn", fy, dY), ("h1n", fh, dH)):
            ck.close(sp.f_der(nt, z, g), f_, 30 * tol, 1e-8, "f_der of sph_%s%s" % (nm, suf))
    for nm, g in (("sph_jn_der", dJ), ("sph_yn_der", dY), ("sph_h1n_der", dH)):
        ck.close(getattr(sp, nm)(nt, z), g, 1e-7, 1e-11, nm)
    r = sp.sph_jn_torch_via_rec(nt, z)
    ck.close(r, J, 1e-6, 1e-8 * np.abs(J).max(), "sph_jn_torch_via_rec")
    if min(abs(v.imag) for v in vals) >= 0:
        z2 = tc([complex(v.real, abs(v.imag)) for v in vals])
        zz2 = [mp.mpc(complex(v)) for v in z2]
        refs2 = [radial_ref(N, q) for q in zz2]
        J2 = C([r[0] for r in refs2]); H2 = C([r[2] for r in refs2])
        dJ2 = C([der(r[0], q) for r, q in zip(refs2, zz2)]); dH2 = C([der(r[2], q) for r, q in zip(refs2, zz2)])
        w = tonp(z2)[None, :]
        PS, ZE = w * J2, w * H2
        D1 = (J2 + w * dJ2) / PS; D3 = (H2 + w * dH2) / ZE
        g1 = sp.pena_D1_n(N, z2); g3 = sp.pena_D3_n(N, z2, D1=g1); gp, gz = sp.pena_psi_zeta_n(N, z2, D1=g1, D3=g3)
        ck.close(g1, D1, 1e-7, 1e-8, "pena_D1_n"); ck.close(g3, D3, 1e-7, 1e-8, "pena_D3_n")
        ck.close(gp, PS, 1e-7, 1e-11, "pena_psi_zeta_n psi"); ck.close(gz, ZE, 1e-7, 1e-11, "pena_psi_zeta_n zeta")
        ck.close(sp.pena_D3_n(N, z2), D3, 1e-7, 1e-8, "pena_D3_n alone")
        t1 = sp.D1n_torch(N, z2)
        ck.close(t1, D1, 1e-6, 1e-6, "D1n_torch")
        ck.close(sp.D1n_torch(nt, z2, n_add=60), D1, 1e-6, 1e-6, "D1n_torch with an explicit depth")
        ck.close(sp.D3n_torch(N, z2, tc(D1))[0], D3, 1e-6, 1e-6, "D3n_torch"); ck.close(sp.D3n_torch(nt, z2, tc(D1))[1], PS * ZE, 1e-6, 1e-9, "psi_n zeta_n of D3n_torch")
        perm = [1, 2, 0]
        q = q_ratio(N, z2, z2[perm])
        ck.close(q, PS / ZE * (ZE / PS)[:, perm], 1e-6, 0, "pena_Q_n")
        # Wronskian psi zeta' - psi' zeta = i
        ck.close(gp * (g3 * gz) - (g1 * gp) * gz, np.full(gp.shape, 1j), 0, 1e-9, "Wronskian")


@case("C17", 10, 60)
def small_arguments(rng, ck, i):
    """arguments close to the origin (down to 5e-10), where series and cut-offs take over: values, derivatives and ratios stay accurate to a relative 1e-6"""
    N = rng.choice([1, 2, 4, 9, 12, 15])
    lo, hi = [(-9.3, -8.05), (-7.95, -6), (-6, -3), (-3, -0.5), (-9.3, -0.5)][i % 5]
    vals = [complex(10 ** rng.uniform(lo, hi) * np.exp(1j * rng.choice([0., rng.uniform(0, 1.5)]))) for _ in range(3)]
    ck.put(n=N, z=vals)
    z, nt = tc(vals), torch.tensor(N)
    refs = [radial_ref(N + 1, v) for v in vals]
    C = lambda lst: np.array([[complex(lst[q][n]) for q in range(len(vals))] for n in range(N + 1)])
    J, Y, H = (C([r[k] for r in refs]) for k in range(3))
    zs = [mp.mpc(v) for v in vals]
    dJ, dY, dH = (C([der(r[k], q) for r, q in zip(refs, zs)]) for k in range(3))
    zz = np.array(vals)[None, :]

    def chk(got, exp, what, rt=1e-6):
        got = tonp(got); ck.ok(tuple(got.shape) == exp.shape, what + ": shape")
        fin = (np.abs(exp) > 1e-270) & (np.abs(exp) < 1e270)
        ck.close(np.where(fin, got, exp), exp, rt, 0, "%s n=0..%d" % (what, N))
    for suf in ("", "_torch"):
        chk(getattr(sp, "sph_jn" + suf)(nt, z), J, "sph_jn" + suf); chk(getattr(sp, "sph_yn" + suf)(nt, z), Y, "sph_yn" + suf)
        chk(getattr(sp, "sph_h1n" + suf)(nt, z), H, "sph_h1n" + suf)
        for nm, g, dg, sg in (("chi", Y, dY, -1), ("xi", H, dH, 1), ("psi", J, dJ, 1)):
            a, b_ = getattr(sp, nm + suf)(nt, z)
            chk(a, sg * zz * g, nm + suf)
            if nm == "psi": chk(b_[1:], (sg * (g + zz * dg))[1:], "derivative of " + nm + suf, 1e-5)
    chk(sp.sph_jn_torch_via_rec(nt, z), J, "sph_jn_torch_via_rec")
    zz2 = [mp.mpc(v) for v in vals]
    PS, ZE = zz * J, zz * H
    D1 = np.array([[complex((n + 1) / v if n else mp.cot(v)) if abs(v) < 1e-4 else complex(der(r[0], mp.mpc(v))[n] / r[0][n] + 1 / mp.mpc(v)) for v, r in zip(vals, refs)] for n in range(N + 1)])
    chk(sp.pena_D1_n(N, z), D1, "pena_D1_n"); chk(sp.D1n_torch(N, z), D1, "D1n_torch")


@case("C17", 6, 40)
def large_and_commensurate_arguments(rng, ck, i):
    """few orders at large arguments, arguments at the zeros of sin(z), mixed magnitudes in one call"""
    N = rng.choice([0, 1, 3, 6])
    if i % 3 == 0: vals = [complex(math.pi * rng.randint(1, 12)), complex(math.pi * rng.randint(1, 40)), complex(rng.uniform(1, 9))]
    elif i % 3 == 1: vals = [complex(rng.uniform(20, 180)), complex(rng.uniform(20, 60), rng.uniform(0, 6)), complex(rng.uniform(0.5, 5))]
    else: vals = [complex(rng.uniform(30, 120)), complex(1e-3), complex(0.05)]
    ck.put(n=N, z=vals)
    z = tc(vals); nt = torch.tensor(N)
    refs = [radial_ref(N + 1, mp.mpc(v)) for v in vals]
    C = lambda L: np.array([[complex(v) for v in row] for row in L]).T
    J = C([r[0] for r in refs]); Y = C([r[1] for r in refs]); H = C([r[2] for r in refs])
    at = 1e-10
    for nm in ("sph_jn", "sph_jn_torch", "sph_jn_torch_via_rec"):
        ck.close(getattr(sp, nm)(nt, z), J[:N + 1], 1e-7, at, nm)
    for nm in ("sph_yn", "sph_yn_torch"): ck.close(getattr(sp, nm)(nt, z), Y[:N + 1], 1e-7, at, nm)
    w = np.array(vals)[None, :]
    PS, ZE = (w * J)[:N + 1], (w * H)[:N + 1]
    nn = np.arange(N + 1)[:, None]
    dZE = (nn + 1) / w * ZE - (w * H)[1:N + 2]
    g1 = sp.pena_D1_n(N, z)
    ck.close(sp.pena_D3_n(N, z, D1=g1), dZE / ZE, 1e-7, 1e-9, "pena_D3_n")
    gp, gz = psi_zeta(N, z)
    ck.close(gp, PS, 1e-7, 1e-10, "pena_psi_zeta_n psi"); ck.close(gz, ZE, 1e-7, 1e-10, "pena_psi_zeta_n zeta")
    dPS = (nn + 1) / w * PS - (w * J)[1:N + 2]
    ok = np.abs(PS) > 1e-6
    ck.close((tonp(g1) * PS)[ok], dPS[ok], 1e-6, 1e-7, "D1 psi = psi'")
    ck.close((tonp(sp.D1n_torch(nt, z)) * PS)[ok], dPS[ok], 1e-6, 1e-6, "D1n_torch psi = psi'")
    perm = [1, 2, 0]
    q = q_ratio(N, z, z[perm])
    ck.close(tonp(q) * ZE * PS[:, perm], PS * ZE[:, perm], 1e-6, 1e-9 * np.abs(ZE).max() * np.abs(PS).max(), "pena_Q_n")


@case("C17", 4, 20)
def special_functions_shapes(rng, ck, i):
    """multi-dimensional arguments and every layout give the same values"""
    N = rng.choice([1, 4, 8])
    nt = torch.tensor(N)
    z = zrand(rng, (2, 3), 0.05 if i % 2 else 0.5, 9., 1.5)
    if i % 2: z[0, 1] = 1e-3 + 0j
    ck.put(n=N, z=z)
    fs = dict(sph_jn=sp.sph_jn, sph_yn=sp.sph_yn, sph_h1n=sp.sph_h1n, sph_jn_der=sp.sph_jn_der, sph_yn_der=sp.sph_yn_der, sph_h1n_der=sp.sph_h1n_der, psi=sp.psi, chi=sp.chi, xi=sp.xi, sph_jn_torch=sp.sph_jn_torch, sph_yn_torch=sp.sph_yn_torch, sph_h1n_torch=sp.sph_h1n_torch, psi_torch=sp.psi_torch, chi_torch=sp.chi_torch, xi_torch=sp.xi_torch)
    P = dict(pena_D1_n=sp.pena_D1_n, pena_D3_n=sp.pena_D3_n, pena_psi_zeta_n=psi_zeta, pena_D1n_torch=sp.D1n_torch, pena_D3n_torch=lambda n, q: sp.D3n_torch(n, q, sp.pena_D1_n(n, q)))
    for nm, f in list(fs.items()) + list(P.items()):
        n = N if nm.startswith("pena") else nt
        a = list(flat(f(n, z)).values())
        for o in a: ck.ok(tuple(o.shape) == (N + 1, 2, 3), nm + ": shape %s" % (tuple(o.shape),))
        b_ = list(flat(f(n, z.reshape(-1))).values())
        for u, v in zip(a, b_): ck.close(u.reshape(N + 1, -1), tonp(v), 1e-9, 1e-12, nm + ": two-dimensional argument")
        c_ = list(flat(f(n, z[1, 2].reshape(1))).values())
        for u, v in zip(a, c_): ck.close(u[:, 1, 2], tonp(v)[:, 0], 1e-6, 1e-9, nm + ": single argument")
    m1 = sp.pena_D1_n(N, z); m3 = sp.pena_D1_n(N + 3, z)
    ck.close(m1, tonp(m3)[:N + 1], 1e-9, 0, "order n does not depend on the requested maximum")


@case("C17", 3, 15)
def special_functions_far_from_the_real_axis(rng, ck, i):
    """large imaginary parts of either sign (below the overflow of the exponential)"""
    N = rng.choice([1, 3, 6])
    z = np.array([complex(rng.uniform(1, 60), s * rng.uniform(20, 150)) for s in (1, -1, 1, -1)])
    ck.put(n=N, z=z)
    from scipy.special import spherical_jn, spherical_yn
    n = np.arange(N + 1)[:, None]
    j, y, jd, yd = spherical_jn(n, z[None]), spherical_yn(n, z[None]), spherical_jn(n, z[None], True), spherical_yn(n, z[None], True)
    nt = torch.tensor(N); zt = torch.tensor(z, dtype=torch.complex128)
    for nm, f, v, d in (("psi", sp.psi, z * j, j + z * jd), ("psi_torch", sp.psi_torch, z * j, j + z * jd), ("chi", sp.chi, -z * y, -y - z * yd), ("chi_torch", sp.chi_torch, -z * y, -y - z * yd)):
        g = f(nt, zt)
        ck.close(g[0], v, 1e-7, 0, nm); ck.close(g[1], d, 1e-6, 0, nm + " derivative")


@case("C17", 3, 15)
def angular(rng, ck, i):
    N = rng.choice([1, 2, 5, 20])
    mu = [rng.uniform(-1, 1) for _ in range(5)] + [1., -1., 0.]
    ck.put(n=N, mu=mu)
    p, t = sp.pi_tau(N, tf(mu))
    for j, m in enumerate(mu):
        pi = [0., 1.]
        for n in range(2, N + 1): pi.append(((2 * n - 1) * m * pi[n - 1] - n * pi[n - 2]) / (n - 1))
        ta = [0.] + [n * m * pi[n] - (n + 1) * pi[n - 1] for n in range(1, N + 1)]
        ck.close(p[:, j], np.array(pi), 1e-10, 1e-10 * N * N, "pi_n"); ck.close(t[:, j], np.array(ta), 1e-10, 1e-9 * N * N, "tau_n")
    p2, t2 = sp.pi_tau(N, tf(mu).view(2, 4))
    ck.close(p2.reshape(N + 1, -1), tonp(p), 0, 0, "pi_tau 2d"); ck.close(t2.reshape(N + 1, -1), tonp(t), 0, 0, "pi_tau 2d")


@case("C17", 6, 36)
def vector_harmonics(rng, ck, i):
    N = rng.choice([1, 2, 4, 6])
    kind = [1, 3][i % 2]
    k0 = 2 * PI / rng.uniform(400, 900); nm = complex(rng.uniform(1., 3.), rng.choice([0., rng.uniform(0, 0.6)]))
    r = [rng.uniform(30., 600.) for _ in range(4)]; th = [rng.uniform(0.1, PI - 0.1) for _ in range(4)]; ph = [rng.uniform(-PI, PI) for _ in range(4)]
    ck.put(n=N, kind=kind, k0=k0, n_medium=nm, r=r, theta=th, phi=ph)
    S = lambda v: tf(v)[None, :, None]
    for fn in (sp.vsh, sp.vsh_pena):
        out = fn(N, tf(k0).view(1, 1, 1), tc(nm).view(1, 1, 1), S(r), S(th), S(ph), kind)
        for o in out: ck.ok(tuple(o.shape) == (N, 4, 3), fn.__name__ + ": shape %s" % (tuple(o.shape),))
        for q in range(4):
            rho = mp.mpc(k0 * nm * r[q]) + mp.mpf("1e-8")
            j, y, h = radial_ref(N, rho)
            f = j if kind == 1 else h
            df = der(f, rho)
            pi, ta = ref.pitau(N, mp.cos(th[q]))
            s, c = mp.sin(ph[q]), mp.cos(ph[q]); st = mp.sin(th[q])
            for n in range(1, N + 1):
                z, dz = f[n], (f[n] + rho * df[n]) / rho
                Mo = [0, c * pi[n] * z, -s * ta[n] * z]; Me = [0, -s * pi[n] * z, -c * ta[n] * z]
                No = [s * n * (n + 1) * st * pi[n] * z / rho, s * ta[n] * dz, c * pi[n] * dz]
                Ne = [c * n * (n + 1) * st * pi[n] * z / rho, c * ta[n] * dz, -s * pi[n] * dz]
                for nme, o, e in zip(("M_o1n", "M_e1n", "N_o1n", "N_e1n"), out, (Mo, Me, No, Ne)):
                    e = np.array([complex(v) for v in e])
                    ck.close(o[n - 1, q], e, 1e-5, 1e-6 * np.abs(e).max(), "%s %s order %d" % (fn.__name__, nme, n))
    ck.raises(lambda: sp.vsh_pena(N, tf(k0).view(1, 1, 1), tc(nm).view(1, 1, 1), S(r), S(th), S(ph), 2), "vsh_pena: unknown kind accepted", ValueError)
    ck.raises(lambda: sp.vsh(N, tf(k0).view(1, 1, 1), tc(nm).view(1, 1, 1), S(r), S(th), S(ph), 4), "vsh: unknown kind accepted", ValueError)


# ------------------------------------------------------------------ C18
def sq(r):
    return {k: (v.squeeze() if isinstance(v, torch.Tensor) else v) for k, v in r.items()}


def cmp_results(ck, got, exp, what, rt=1e-10):
    ck.ok(set(got) == set(exp), "%s: keys %s, expected %s" % (what, sorted(map(str, got)), sorted(map(str, exp))))
    for k in exp:
        g, e = got[k], exp[k]
        if isinstance(e, torch.Tensor):
            ck.ok(isinstance(g, torch.Tensor), what + ": " + str(k))
            ck.ok(g.dtype == e.dtype, "%s.%s: dtype %s, expected %s" % (what, k, g.dtype, e.dtype))
            a, b_ = tonp(g), tonp(e)
            ck.ok(a.shape == b_.shape, "%s.%s: shape %s, expected %s" % (what, k, a.shape, b_.shape))
            ck.ok(np.array_equal(np.isnan(a), np.isnan(b_)), "%s.%s: nan pattern" % (what, k))
            ck.close(np.nan_to_num(a), np.nan_to_num(b_), rt, 1e-300, "%s.%s" % (what, k))
        elif isinstance(e, dict): cmp_results(ck, g, e, what + "." + str(k), rt)
        elif isinstance(e, (int, float, str)): ck.ok(g == e, "%s.%s: %r, expected %r" % (what, k, g, e))


@case("C18", 10, 60)
def particle_equals_functional(rng, ck, i):
    Nk = [1, 3, 2, 4][i % 4]
    L = [1, 2, 3, 4, 2][i % 5]
    r, e = particle(rng, L)
    mode = ["eps", "mats", "legacy", "index", "epsspec", "mixed"][i % 6]
    if mode == "legacy": L = min(L, 2); r, e = r[:L], e[:L]
    k0 = tf([2 * PI / rng.uniform(420, 900) for _ in range(Nk)])
    if i % 5 == 4: k0 = k0[0]
    wl = 2 * PI / k0
    names = ["Si", "Ag", "SiO2", "Au", "GaAs"]
    pick = [rng.choice(names) for _ in range(L)]
    nidx = [cmath.sqrt(v) for v in e]
    envs = [1.0, 1.33, 1, MatConstant(2.25), 1.5][i % 5]
    ck.put(mode=mode, r=r, eps=e, k0=k0, materials=pick, env=str(envs))
    with quiet():
        mats = [MatDatabase(n) for n in pick]
        fresh = [MatDatabase(n) for n in pick]
    eenv = envs.get_epsilon(wl) if isinstance(envs, MatConstant) else MatConstant(envs ** 2).get_epsilon(wl)
    one = torch.ones_like(k0)
    stk = lambda q: torch.stack([v.reshape(k0.shape) for v in q])
    if mode == "eps":
        p = pmd.Particle(r_layers=tf(r), eps_layers=tc(e), mat_env=envs); E = tc(e)
    elif mode == "epsspec":
        sp_ = [[v * (1 + 0.05 * q) for q in range(max(k0.numel(), 1))] for v in e]
        p = pmd.Particle(r_layers=tf(r), eps_layers=tc(sp_), mat_env=envs); E = tc(sp_)
    elif mode == "mats":
        p = pmd.Particle(r_layers=tf(r), mat_layers=mats, mat_env=envs); E = stk([m.get_epsilon(wl) for m in fresh])
    elif mode == "index":
        p = pmd.Particle(r_layers=r, mat_layers=list(nidx), mat_env=envs); E = stk([one * torch.tensor(n ** 2, dtype=torch.complex64) for n in nidx]); r = [f32(v) for v in r]
    elif mode == "mixed":
        use = [m if q % 2 else tc(nidx[q]) for q, m in enumerate(mats)]
        p = pmd.Particle(r_layers=tf(r), mat_layers=use, mat_env=envs)
        E = stk([(fresh[q].get_epsilon(wl) if q % 2 else one * torch.tensor(nidx[q] ** 2, dtype=torch.complex64)).to(torch.complex64) for q in range(L)])
    else:
        kw = dict(r_core=tf(r[0]), mat_core=mats[0])
        if L == 2: kw.update(r_shell=tf(r[1]), mat_shell=nidx[1])
        p = pmd.Particle(mat_env=envs, **kw)
        E = stk([fresh[0].get_epsilon(wl)] + ([one * torch.tensor(nidx[1] ** 2, dtype=torch.complex64)] if L == 2 else []))
    rt = 1e-10 if mode not in ("index", "mixed", "legacy") else 2e-4
    rl = torch.tensor(r) if mode == "index" else tf(r)
    ev = p.get_material_permittivities(k0)
    E = E.to(torch.complex64) if mode not in ("eps", "epsspec") else E
    ck.close(ev[0].reshape(-1), tonp(E.reshape(-1)), 3e-6, 0, "layer permittivities"); ck.close(ev[1].reshape(-1), tonp(eenv.reshape(-1)), 3e-6, 0, "host permittivity")
    # the functional interface gets the particle's own permittivities so results agree to rounding
    A = dict(r_layers=rl, eps_layers=ev[0], eps_env=ev[1])
    backs = ["pena"] if L > 2 else ["pena", "torch", "scipy"]
    back = rng.choice(backs)
    N = rng.choice([1, 3, 5])
    prec = "double"
    th = tf([0.0, 0.4, 2.2]) if i % 3 else tf([0.7])
    pts = tf([[x * q for x in s] for s, q in zip(pts_on_sphere(rng, 3), (r[0] * 0.5, r[-1] * 1.5, r[-1] * 3))])
    if i % 4 == 1: pts = pts[1:2]
    rt = 1e-9
    cmp_results(ck, p.get_mie_coefficients(k0, backend=back, n_max=N), sq(ms.mie_coefficients(k0, backend=back, n_max=N, **A)), "get_mie_coefficients", rt)
    cmp_results(ck, p.get_mie_coefficients(k0), sq(ms.mie_coefficients(k0, **A)), "get_mie_coefficients (defaults)", rt)
    cmp_results(ck, p.get_mie_coefficients(k0, n_max=2, precision="single"), sq(ms.mie_coefficients(k0, n_max=2, precision="single", **A)), "get_mie_coefficients (single precision)", rt)
    if back != "pena": cmp_results(ck, p.get_mie_coefficients(k0, return_internal=True, backend=back, n_max=N), sq(ms.mie_coefficients(k0, return_internal=True, backend=back, n_max=N, **A)), "get_mie_coefficients (internal)", rt)
    cmp_results(ck, p.get_cross_sections(k0, backend=back, n_max=N), sq(ms.cross_sections(k0, backend=back, n_max=N, **A)), "get_cross_sections", rt)
    cmp_results(ck, p.get_cross_sections(k0), sq(ms.cross_sections(k0, **A)), "get_cross_sections (defaults)", rt)
    cmp_results(ck, p.get_angular_scattering(k0, th, backend=back, n_max=N), sq(ms.angular_scattering(k0, theta=th, backend=back, n_max=N, **A)), "get_angular_scattering", rt)
    cmp_results(ck, p.get_angular_scattering(k0, th), sq(ms.angular_scattering(k0, theta=th, **A)), "get_angular_scattering (defaults)", rt)
    cmp_results(ck, p.get_nearfields(k0, pts, backend=back, n_max=N), sq(ms.nearfields(k0, r_probe=pts, backend=back, n_max=N, **A)), "get_nearfields", rt)
    cmp_results(ck, p.get_nearfields(k0, pts, E_0=2.5, n_max=2) if has_arg(ms.nearfields, "E_0") else {}, sq(ms.nearfields(k0, r_probe=pts, E_0=2.5, n_max=2, **A)) if has_arg(ms.nearfields, "E_0") else {}, "get_nearfields (amplitude)", rt)
    if L == 1 or mode == "legacy":
        ck.ok(float(p.r_c) == float(rl[0]) and (p.r_s is None if L == 1 else float(p.r_s) == float(rl[-1])), "radius aliases")


def has_arg(f, n):
    import inspect
    return n in inspect.signature(f).parameters


@case("C18", 1, 2)
def invalid_particles_rejected(rng, ck, i):
    P = pmd.Particle
    V = ValueError
    m = MatConstant(2.)
    bad = [("nothing", {}), ("radius only", dict(r_core=50.)), ("core material only", dict(mat_core=2.)), ("shell radius without material", dict(r_core=50., mat_core=2., r_shell=70.)), ("shell material without radius", dict(r_core=50., mat_core=2., mat_shell=3.)),
           ("both interfaces", dict(r_layers=[50.], mat_layers=[2.], r_core=50., mat_core=2.)), ("layers with core radius", dict(r_layers=[50.], mat_layers=[2.], r_core=50.)), ("layers with shell material", dict(r_layers=[50.], mat_layers=[2.], mat_shell=2.)), ("layers with core material", dict(r_layers=[50.], mat_layers=[2.], mat_core=2.)), ("layers with shell radius", dict(r_layers=[50.], eps_layers=[2.], r_shell=90.)),
           ("eps without radii", dict(eps_layers=[2.])), ("materials without radii", dict(mat_layers=[2.])), ("radii alone", dict(r_layers=[50., 60.])), ("eps and materials", dict(r_layers=[50.], eps_layers=[2.], mat_layers=[2.])),
           ("too few materials", dict(r_layers=[50., 60.], mat_layers=[2.])), ("too many materials", dict(r_layers=[50., 60.], mat_layers=[2., m, 3.])), ("two-dimensional radii", dict(r_layers=[[50., 60.]], eps_layers=[2., 3.])), ("no layers", dict(r_layers=[], eps_layers=[])), ("scalar radius", dict(r_layers=50., eps_layers=2.)),
           ("shell inside core", dict(r_core=80., mat_core=2., r_shell=70., mat_shell=3.)), ("shell equal to core", dict(r_core=70., mat_core=2., r_shell=70., mat_shell=3.))]
    for what, kw in bad:
        ck.put(definition=what)
        ck.raises(lambda: P(**kw), what + " accepted", V)
    # radii that are not increasing are rejected when evaluated at the latest
    ck.raises(lambda: P(r_layers=[70., 60.], eps_layers=[2., 3.]).get_cross_sections(tf([0.01]), n_max=2), "decreasing radii evaluated")
    ck.raises(lambda: P(r_layers=[70., 70.], mat_layers=[2., 3.]).get_cross_sections(tf([0.01]), n_max=2), "equal radii evaluated")
    ck.raises(lambda: P(r_layers=[50., 70.], eps_layers=[2.]).get_cross_sections(tf([0.01, 0.02, 0.03]), n_max=2), "missing permittivity evaluated")
    ck.raises(lambda: P(r_layers=[50., 60., 70.], eps_layers=[2., 3., 4.]).get_cross_sections(tf([0.01]), n_max=2, backend="torch"), "three layers with the core-shell backend")
    for n in (1.5, 2, 1.2 + 0.3j, np.float64(1.4), np.float32(1.7), tc(1.3 + 0.1j), tf(1.9)):
        p = P(r_layers=[50.], mat_layers=[n], mat_env=n)
        ck.put(index=str(n))
        e, v = p.get_material_permittivities(tf([0.01, 0.02]))
        x = complex(n) ** 2
        ck.close(e, np.full((1, 2), x), 1e-6, 0, "layer index is squared"); ck.close(v, np.full(2, x), 1e-6, 0, "host index is squared")
        p = P(r_core=50., mat_core=n, mat_env=n, r_shell=60., mat_shell=n)
        e, v = p.get_material_permittivities(tf([0.01, 0.02]))
        ck.close(e, np.full((2, 2), x), 1e-6, 0, "core and shell index is squared"); ck.close(v, np.full(2, x), 1e-6, 0, "host index is squared")
    p = P(r_core=50., mat_core=m, r_shell=60., mat_shell=3.)
    ck.ok(p.r_layers.tolist() == [50., 60.] and p.mat_layers[0] is m and p.mat_c is m and p.mat_s is p.mat_layers[1], "legacy definition in layer form")
    ck.close(p.get_material_permittivities(tf([0.01]))[1].reshape(-1), np.array([1 + 0j]), 0, 0, "default host is vacuum")


@case("C18", 3, 10)
def numbers_of_every_kind(rng, ck, i):
    """an index given as python number or tensor of any kind is squared; whole radii and permittivities are numbers too"""
    r = sorted(rng.sample(range(20, 160), 2)); n = rng.randrange(2, 5); h = rng.choice([1, 2])
    k = tf([0.01, 0.013])
    ck.put(r=r, n=n, host=h)
    want = ms.cross_sections(k0=k, r_layers=tf([float(x) for x in r]), eps_layers=tc([complex(n * n), 2.25]), eps_env=tf([float(h * h)]), n_max=3)
    kinds = [n, float(n), complex(n), torch.tensor(n), torch.tensor(float(n)), torch.tensor(complex(n)), torch.tensor(n, dtype=torch.int32), np.float64(n)]
    for m in kinds:
        for kw in (dict(r_layers=r, mat_layers=[m, 1.5]), dict(r_core=r[0], r_shell=r[1], mat_core=m, mat_shell=1.5), dict(r_layers=torch.tensor(r), mat_layers=[m, torch.tensor(1.5)])):
            g = pmd.Particle(mat_env=h, **kw).get_cross_sections(k0=k, n_max=3)
            for q in ("q_ext", "cs_sca"): ck.close(g[q], tonp(want[q]).reshape(-1), 1e-5, 0, "%s of a particle with index %r" % (q, m))
    g = pmd.Particle(r_layers=torch.tensor(r), eps_layers=torch.tensor([n * n, 3]), mat_env=torch.tensor(h)).get_cross_sections(k0=k, n_max=3)
    w = ms.cross_sections(k0=k, r_layers=tf([float(x) for x in r]), eps_layers=tc([complex(n * n), 3.0]), eps_env=tf([float(h * h)]), n_max=3)
    ck.close(g["q_ext"], tonp(w["q_ext"]).reshape(-1), 1e-5, 0, "whole permittivities")


@case("C18", 2, 8)
def device_move_and_reuse(rng, ck, i):
    r, e = particle(rng, 3)
    with quiet(): ml = [MatDatabase("Si"), 1.5, MatDatabase("Ag")]
    p = pmd.Particle(r_layers=tf(r), mat_layers=ml, mat_env=1.1)
    k = tf([0.01, 0.012])
    ck.put(r=r)
    a = p.get_cross_sections(k, n_max=3)
    p.set_device("cpu")
    b_ = p.get_cross_sections(k, n_max=3)
    cmp_results(ck, b_, a, "after set_device", 0)
    ck.ok(same(p.r_layers, tf(r)), "radii unchanged by set_device")
    for q in (p, pmd.Particle(r_layers=tf(r[:1]), mat_layers=[ml[0]], mat_env=1.1), pmd.Particle(r_core=r[0], r_shell=r[1], mat_core=1.5, mat_shell=ml[0], mat_env=1.0)):
        for step in ("construction", "set_device"):
            if step == "set_device": q.set_device("cpu")
            n = len(q.r_layers)
            if hasattr(q, "r_c"): ck.ok(same(q.r_c, q.r_layers[0]), "attribute r_c after " + step)
            if hasattr(q, "r_s"): ck.ok(q.r_s is None if n == 1 else same(q.r_s, q.r_layers[-1]), "attribute r_s after " + step)
            if hasattr(q, "mat_c"): ck.ok(q.mat_c is q.mat_layers[0], "attribute mat_c after " + step)
            if hasattr(q, "mat_s"): ck.ok(q.mat_s is (None if n == 1 else q.mat_layers[-1]), "attribute mat_s after " + step)
    where = lambda q: [str(t.device) for t in [q.r_layers] + ([] if q.eps_layers is None else [q.eps_layers]) + [m_.eps_scalar if hasattr(m_, "eps_scalar") else m_.eps_dat for m_ in (q.mat_layers or []) + [q.mat_env]]]
    mk = lambda: [MatConstant(2.0 + j) for j in range(len(r))]
    try:  # a device without data: only the placement of the tensors is looked at
        qs = [pmd.Particle(r_layers=[float(v) for v in r], mat_layers=mk(), mat_env=MatConstant(1.0), device="meta")]
        for kw in (dict(mat_layers=mk()), dict(eps_layers=tc([2.0] * len(r)))):
            q = pmd.Particle(r_layers=tf(r), mat_env=MatConstant(1.0), **kw)
            q.set_device("meta")
            qs.append(q)
    except (NotImplementedError, RuntimeError): qs = []
    for q in qs: ck.ok(set(where(q)) == {"meta"}, "radii and materials on the particle's device: %s" % where(q))
    p.get_nearfields(k, tf([[0, 0, 500.]]), n_max=2); p.get_angular_scattering(k, tf([0.1, 0.2]), n_max=2)
    cmp_results(ck, p.get_cross_sections(k, n_max=3), a, "after other evaluations", 0)
    repr(p)


@case("C18", 3, 12)
def nearly_equal_materials(rng, ck, i):
    """every layer has its own material, however alike the materials (or their names) are"""
    base = complex(rng.uniform(1.5, 9), rng.choice([0., rng.uniform(0, 1)]))
    n = rng.randint(2, 6)
    e = [base * (1 + (q + 1) * 1e-4 * rng.uniform(0.5, 1)) for q in range(n)]
    rng.shuffle(e)
    r = sorted(rng.uniform(30, 200) for _ in range(n))
    k = tf([0.01, 0.012])
    ck.put(eps=e, r=r)
    for what, p in (("constants", pmd.Particle(r_layers=tf(r), mat_layers=[MatConstant(v) for v in e], mat_env=MatConstant(e[0]))),
                    ("indices", pmd.Particle(r_layers=tf(r), mat_layers=[cmath.sqrt(v) for v in e], mat_env=cmath.sqrt(e[0])))):
        E, V = p.get_material_permittivities(k)
        ck.close(E, np.array([[v] * 2 for v in e]), 3e-6, 0, what + ": permittivity of every layer"); ck.close(V, np.array([e[0]] * 2), 3e-6, 0, what + ": host")
    d = tempfile.mkdtemp(prefix="c18_")
    try:   # two materials of the same name
        ms_ = []
        for q in range(2):
            fn = os.path.join(d, "m%d.yml" % q)
            open(fn, "w").write("DATA:\n  - type: tabulated nk\n    data: |\n        0.4 %f 0.1\n        0.8 %f 0.1\n" % (1.5 + q, 1.5 + q))
            ms_.append(MatDatabase("same", yaml_file=fn))
        E, V = pmd.Particle(r_layers=[50., 70., 80.], mat_layers=[ms_[0], ms_[1], ms_[0]], mat_env=ms_[1]).get_material_permittivities(k)
        x = [(1.5 + 0.1j) ** 2, (2.5 + 0.1j) ** 2]
        ck.close(E, np.array([[x[0]] * 2, [x[1]] * 2, [x[0]] * 2]), 1e-5, 0, "materials of one name"); ck.close(V, np.array([x[1]] * 2), 1e-5, 0, "host of the same name")
    finally: shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ C19
@case("C19", 10, 50)
def bridge_coefficients(rng, ck, i):
    from pymiediff.helper import tg
    L = [1, 2, 3, 2, 4][i % 5]
    r, e = particle(rng, L)
    Nw = [1, 3, 2, 5][i % 4]
    Nn = [2, 1, 3, 4, 2][i % 5]
    envn = [1.0, 1.5, 1.25, 2.0, 1.33, 1.1, 1.5165][(i // 2) % 7]
    W = [f32(rng.uniform(450, 900)) for _ in range(Nw)]
    ck.put(r=r, eps=e, wavelengths=W, n_max=Nn, n_env=envn)
    if i % 3 == 2:
        with quiet(): ml = [MatDatabase(rng.choice(["Si", "Ag", "GaAs"])) for _ in range(L)]
        p = pmd.Particle(r_layers=tf(r), mat_layers=ml, mat_env=envn)
    else: p = pmd.Particle(r_layers=tf(r), eps_layers=tc(e), mat_env=envn)
    if i % 4 == 3: p.set_device("cpu")
    wl = torch.tensor(W)
    k0 = 2 * torch.pi / wl
    backs = [None] if L > 2 else [None, "pena", "torch", "scipy"]
    back = rng.choice(backs)
    used = back or ("pena" if L > 2 else "torch")
    E, V = p.get_material_permittivities(k0)
    R = ms.mie_coefficients(k0, r_layers=p.r_layers, eps_layers=E, eps_env=V, n_max=Nn, backend=used)
    A = tonp(R["a_n"])[:, 0, :].T; B = tonp(R["b_n"])[:, 0, :].T

    def chk(a, b_, what):
        ck.ok(tuple(a.shape) == (Nw, Nn) and tuple(b_.shape) == (Nw, Nn), "%s: shape %s, expected (wavelengths %d, orders %d)" % (what, tuple(a.shape), Nw, Nn))
        ck.close(a, A, 1e-5, 1e-20, what + " a_n"); ck.close(b_, B, 1e-5, 1e-20, what + " b_n")
    a, b_ = tg.mie_ab_sphere_3d_AD(p, wl, n_max=Nn, backend=back)
    chk(a, b_, "exported")
    a, b_ = tg.mie_ab_sphere_3d_AD(p, wl, n_env=envn, n_max=Nn, backend=back)
    chk(a, b_, "exported with the host index")
    d = tg.mie_ab_sphere_3d_AD(p, W if Nw > 1 else W[0], n_max=Nn, backend=back, as_dict=True)
    chk(d["a_n"], d["b_n"], "exported dictionary")
    ck.close(torch.as_tensor(d["n_env"]).real.reshape(-1)[0], np.array(envn), 1e-6, 0, "host index")
    ck.close(float(d["r_enclosing"]), r[-1], 0, 0, "enclosing radius")
    ck.close(d["wavelengths"], np.array(W), 0, 0, "wavelengths")
    ck.raises(lambda: tg.mie_ab_sphere_3d_AD(p, wl, n_env=envn + 0.3, n_max=Nn), "a different host index is accepted")
    a2, b2 = tg.mie_ab_sphere_3d_AD(p, wl, backend=back)
    ck.ok(tuple(a2.shape) == (Nw, 2), "default number of orders")


@case("C19", 6, 30)
def dipole_polarisability(rng, ck, i):
    from pymiediff.helper import tg
    L = [1, 2, 3][i % 3]
    r, e = particle(rng, L, rmin=20., rmax=100.)
    Nw = [1, 3, 4][(i // 2) % 3]
    envn = [1.0, 1.5, 1.25, 2.0][i % 4]
    W = sorted(f32(rng.uniform(450, 900)) for _ in range(Nw))  # the dependency's own table look-up needs sorted wavelengths
    ck.put(r=r, eps=e, wavelengths=W, n_env=envn)
    p = pmd.Particle(r_layers=tf(r), eps_layers=tc(e), mat_env=envn)
    back = None if L > 2 else rng.choice([None, "pena", "torch"])
    with quiet():
        s = tg.StructAutodiffMieEffPola3D(p, torch.tensor(W), verbose=False, backend=back, n_env=envn if i % 2 else None)
    k0 = tf([2 * PI / w for w in W])
    R = ms.mie_coefficients(k0, r_layers=tf(r), eps_layers=tc(e), eps_env=envn ** 2, n_max=2)
    a1, b1 = tonp(R["a_n"])[0, 0], tonp(R["b_n"])[0, 0]
    al = tonp(s.alpha_data[0])
    ck.ok(al.shape == (Nw, 6, 6), "shape of the polarisability")
    K = np.array([2 * PI / w for w in W])
    exp = np.zeros((Nw, 6, 6), complex)
    for q in range(3):
        exp[:, q, q] = 1.5j * a1 / K ** 3 / envn
        exp[:, 3 + q, 3 + q] = 1.5j * b1 / K ** 3 / envn ** 3
    ck.close(al, exp, 1e-4, 0, "polarisability")
    ck.close(s.wavelengths_data, np.array(W), 1e-7, 0, "wavelengths")
    with quiet(): s2 = tg.StructAutodiffMieEffPola3D(p, torch.tensor(W), verbose=False, backend=back, r0=[10., -5., 3.])
    ck.close(s2.alpha_data[0], exp, 1e-4, 0, "polarisability at another position")


@case("C19", 3, 12)
def gpm_sampling(rng, ck, i):
    """what the GPM export hands to torchgdm: fields of every illumination, each up to one common factor"""
    import torchgdm.struct.eff_model_tools as emt
    from pymiediff.helper import tg
    L = [1, 3, 2][i % 3]
    r, e = particle(rng, L)
    r32 = [f32(v) for v in r]
    envn = [1.0, 1.5][i % 2]
    p = pmd.Particle(r_layers=tf(r32), eps_layers=tc(e), mat_env=envn)
    W = [f32(rng.uniform(450, 900)) for _ in range([2, 1][i % 2])]
    R, na = r[-1], [2, 3][i % 2]
    pr = torch.tensor([[x * q for x in s] for s, q in zip(pts_on_sphere(rng, 3), (1.1 * R, 1.5 * R, 2 * R))], dtype=torch.float32)
    gp = torch.tensor([[x * q for x in s] for s, q in zip(pts_on_sphere(rng, 2), (0.6 * R, 2.1 * R))], dtype=torch.float32)
    ck.put(r=r32, eps=e, wavelengths=W, r_probe=pr, r_gpm=gp, n_env=envn)
    calls, old = [], emt.extract_gpm_from_fields

    def fit(**kw):
        calls.append(kw)
        return {"GPM": torch.full((12, 12), float(len(calls)), dtype=torch.complex64)}
    emt.extract_gpm_from_fields = fit
    try:
        with quiet(): d = tg.extract_GPM_sphere_miediff(p, torch.tensor(W), gp, r_probe=pr, n_src_pw_angles=na, n_max=4, verbose=False, progress_bar=False)
    finally: emt.extract_gpm_from_fields = old
    ck.ok(len(calls) == len(W), "one fit per wavelength")
    ck.close(d["GPM_N6xN6"][:, 0, 0], np.arange(1, len(W) + 1), 1e-6, 0, "matrices in the order of the wavelengths")
    ck.close(d["wavelengths"], np.array(W), 1e-6, 0, "wavelengths"); ck.close(d["k0_spectrum"], 2 * PI / np.array(W), 1e-6, 0, "wavenumbers")
    ck.close(float(d["enclosing_radius"]), R, 1e-6, 0, "enclosing radius")
    back = "torch" if L <= 2 else "pena"
    for c, w in zip(calls, W):
        ck.close(float(c["wavelength"]), w, 1e-5, 0, "wavelength of the fit")
        got = np.concatenate([tonp(c[k]).reshape(6 * na, -1) for k in ("efields_sca", "hfields_sca", "efields_inc", "hfields_inc")], 1)
        kf = 2 * PI / w
        left = list(range(6 * na))
        for j in range(na):
            for plane in ("xz", "yz", "xy"):
                for pol in "sp":
                    e0, kd = expected_frame(2 * PI * j / na, plane, pol)
                    F = np.stack([e0, np.cross(kd, e0), kd], 1)
                    nat = p.get_nearfields(tf(kf), torch.tensor(pr.numpy().astype(float) @ F), n_max=4, backend=back)
                    ph = np.exp(1j * kf * envn * (gp.numpy().astype(float) @ kd))[:, None]
                    v = np.concatenate([(tonp(nat["E_s"]) @ F.T).ravel(), (tonp(nat["H_s"]) @ F.T).ravel(), (ph * e0).ravel(), (ph * np.cross(kd, e0) * envn).ravel()])
                    err = [np.abs(g - v * (np.vdot(v, g) / np.vdot(v, v))).max() / max(np.abs(g).max(), 1e-30) for g in got[left]]
                    q = int(np.argmin(err))
                    if not err[q] < 8e-3: raise Fail("no sampled illumination is the wave %s/%s at angle %d of %d (deviation %.2g)" % (plane, pol, j, na, err[q]))
                    left.pop(q)


@case("C19", 3, 10)
def solver_patch(rng, ck, i):
    """torchgdm's solver made differentiable: same coupled fields; combined structures keep positions, models and environment"""
    import torchgdm as tgm
    import torchgdm.linearsystem as ls
    from pymiediff.helper import tg
    envn = [1.0, 1.5, 1.2][i % 3]
    W = sorted(f32(rng.uniform(500, 800)) for _ in range([1, 2][i % 2]))
    N = [2, 3][i % 2]
    rs = [[f32(rng.uniform(20, 40)), f32(rng.uniform(45, 70))] for _ in range(N)]
    es = [[rng.uniform(2, 12), rng.uniform(2, 8)] for _ in range(N)]
    pos = [[300. * j, f32(rng.uniform(-60, 60)), f32(rng.uniform(-60, 60))] for j in range(N)]
    ck.put(r=rs, eps=es, wavelengths=W, positions=pos, n_env=envn)
    wl = torch.tensor(W)
    env = tgm.env.EnvHomogeneous3D(env_material=envn ** 2)
    inc = [tgm.env.freespace_3d.PlaneWave(e0p=1, e0s=0, inc_angle=0.3), tgm.env.freespace_3d.PlaneWave(e0p=0, e0s=1, inc_angle=1.2)]
    parts = [pmd.Particle(r_layers=tf(r), eps_layers=tc(e), mat_env=envn) for r, e in zip(rs, es)]
    keep = {(c, n): c.__dict__.get(n) for c in (ls.LinearSystemBase, ls.LinearSystemFullMemEff, ls.LinearSystemFullInverse) for n in ("_get_full_Gdotalpha", "_zero_fill_nonpolarizable_fields", "solve")}

    def run(parts, pos, solver):
        with quiet():
            st = [tg.StructAutodiffMieEffPola3D(p, wl, verbose=False, r0=q) for p, q in zip(parts, pos)]
            s = tgm.simulation.Simulation(structures=st, environment=env, illumination_fields=inc, wavelengths=wl, **({"linearsystem": getattr(ls, solver)()} if solver else {}))
            s.run(verbose=0, progress_bar=False)
            cs = s.get_spectra_crosssections(progress_bar=False, verbose=False)
        return {**{k: tonp(cs[k]).real for k in ("ecs", "scs", "acs")}, "e": np.stack([tonp(s.fields_inside[k].efield) for k in s.fields_inside])}

    def restore():
        for (c, n), v in keep.items():
            if v is not None: setattr(c, n, v)
            elif n in c.__dict__: delattr(c, n)
    for nm in (None, "LinearSystemFullInverse"):
        ref = run(parts, pos, nm)
        tg.patch_torchgdm_autodiff()
        try: got = run(parts, pos, nm)
        finally: restore()
        for k in ref:
            top = abs(ref["ecs" if k != "e" else "e"]).max()
            ck.close(got[k] / top, ref[k] / top, 2e-5, 2e-5, "%s with the differentiable solver" % k)
    one = run(parts[:1], pos[:1], None)
    k = 2 * PI * envn / np.array(W)
    R = ms.mie_coefficients(tf([2 * PI / w for w in W]), r_layers=tf(rs[0]), eps_layers=tc(es[0]), eps_env=envn ** 2, n_max=1)
    exp = 6 * PI / k ** 2 * (tonp(R["a_n"]) + tonp(R["b_n"]))[0, 0].real
    ck.close(one["ecs"].reshape(len(W), -1)[:, 0] if one["ecs"].ndim > 1 else one["ecs"], exp, 3e-4, 0, "extinction of the exported dipole")


@case("C19", 2, 6)
def gpm_end_to_end(rng, ck, i):
    """the exported model, solved by torchgdm, extinguishes and scatters as the particle does; combining structures keeps model, position and host"""
    import torchgdm as tgm
    from pymiediff.helper import tg
    envn = [1.5, 1.0, 1.25][i % 3]
    L = [2, 1, 3][i % 3]
    r = sorted(f32(rng.uniform(30, 100)) for _ in range(L))
    e = [complex(rng.uniform(2, 8), rng.uniform(0, 0.5)) for _ in range(L)]
    W = sorted(f32(rng.uniform(550, 800)) for _ in range([1, 2][(i // 3) % 2]))
    r0 = [[100., -50., 30.], None, [0., 0., 400.]][i % 3]
    ang = rng.uniform(0.2, 1.3)
    ck.put(r=r, eps=e, wavelengths=W, n_env=envn, r0=r0, angle=ang)
    p = pmd.Particle(r_layers=tf(r), eps_layers=tc(e), mat_env=envn)
    wl = torch.tensor(W)
    env = tgm.env.EnvHomogeneous3D(env_material=envn ** 2)
    with quiet():
        s = tg.StructAutodiffMieGPM3D(p, r_gpm=16, wavelengths=wl, verbose=False, progress_bar=False, r0=r0)
        sim = tgm.simulation.Simulation([s], env, [tgm.env.freespace_3d.PlaneWave(e0p=1, e0s=0, inc_angle=ang)], wl)
        sim.run(verbose=0, progress_bar=False)
        cs = tonp(sim.get_spectra_crosssections(progress_bar=False, verbose=False)["ecs"]).reshape(-1)
    R = max(r)
    q = tonp(p.get_cross_sections(tf([2 * PI / w for w in W]))["cs_ext"]).reshape(-1)
    ck.close(cs, q, 5e-2, 0, "extinction of the exported model")  # quality of the single-precision dipole fit: typically 1e-4, up to 1.1e-2
    ck.close(s.r0.reshape(-1), np.array(r0 or [0., 0., 0.]), 1e-6, 1e-3, "position of the structure")
    ck.close(torch.as_tensor(s.environment.env_material.get_epsilon(600.0)).reshape(-1)[0].real, np.array(envn ** 2), 1e-5, 0, "host of the structure")
    with quiet():
        c1 = tg.combine_gpm_structures_autodiff([s], environment=env)
        c2 = tg.combine_gpm_structures_autodiff([s])
        far = tgm.env.EnvHomogeneous3D(env_material=7.0)
        c3 = tg.combine_gpm_structures_autodiff([s], environment=far)
    for c in (c1, c2, c3):
        ck.close(c.get_all_positions() if hasattr(c, "get_all_positions") else c.positions, s.get_all_positions() if hasattr(s, "get_all_positions") else s.positions, 1e-6, 1e-3, "positions of the combined structure")
        ck.ok(len(c.gpm_dict if isinstance(c.gpm_dict, list) else [c.gpm_dict]) == 1, "one model per structure")
        for w in W: ck.close(c.get_gpm(w, c.environment), s.get_gpm(w, s.environment), 0, 0, "model of the combined structure")
    ck.ok(c2.environment is s.environment and c1.environment is env and c3.environment is far, "host of the combined structure")
    dev = torch.device("cpu")
    with quiet(): ck.ok(str(tg.combine_gpm_structures_autodiff([s], device=dev).device) == "cpu", "device of the combined structure")
    ck.raises(lambda: tg.combine_gpm_structures_autodiff([]), "an empty list is accepted", ValueError)
    s.gpm_dict = [s.gpm_dict[0] if isinstance(s.gpm_dict, list) else s.gpm_dict] * 2
    ck.raises(lambda: tg.combine_gpm_structures_autodiff([s]), "several models in one structure are accepted", ValueError)


@case("C13", 3, 12)
def gradients_of_transforms(rng, ck, i):
    """angles and positions through the rotation matrices, the illumination frames and the coordinate transforms"""
    from pymiediff.helper import tg
    a0 = rng.uniform(-3, 3)
    ck.put(angle=a0)
    s, c = math.sin(a0), math.cos(a0)
    D = {"x": [[0, 0, 0], [0, -s, -c], [0, c, -s]], "y": [[-s, 0, c], [0, 0, 0], [-c, 0, -s]], "z": [[-s, -c, 0], [c, -s, 0], [0, 0, 0]]}
    for ax in "xyz":
        for dt, tol in ((torch.float32, 1e-5), (F64, 1e-12)):
            a = torch.tensor(a0, dtype=dt, requires_grad=True)
            M = getattr(tg, "rotation_" + ax)(a, DTYPE_FLOAT=dt)
            for p in range(3):
                for q in range(3):
                    g = torch.autograd.grad(M[p, q], a, retain_graph=True, allow_unused=True)[0] if M.requires_grad else None
                    ck.close(0. if g is None else float(g), D[ax][p][q], 0, tol, "derivative of rotation_%s[%d,%d] with respect to the angle" % (ax, p, q))
    for pl in ("yz", "xz", "xy"):
        for po in "sp":
            h = 1e-2
            f = lambda v: tg._plane_wave_rotation(v, pl, po, "cpu")
            a = torch.tensor(a0, requires_grad=True)
            M = f(a)
            N = (8 * (f(torch.tensor(a0 + h)) - f(torch.tensor(a0 - h))) - (f(torch.tensor(a0 + 2 * h)) - f(torch.tensor(a0 - 2 * h)))) / (12 * h)
            for p in range(3):
                for q in range(3):
                    g = torch.autograd.grad(M[p, q], a, retain_graph=True, allow_unused=True)[0] if M.requires_grad else None
                    ck.close(0. if g is None else float(g), float(N[p, q]), 0, 2e-3, "derivative of the illumination frame %s/%s [%d,%d] with respect to the angle" % (pl, po, p, q))
    X = [torch.tensor([rng.uniform(0.5, 2) * rng.choice([1, -1]) for _ in range(4)], dtype=F64) for _ in range(3)]
    graddiff(ck, lambda x, y, z: dict(zip(("r", "theta", "phi"), hp.transform_xyz_to_spherical(x, y, z))), X, "xyz", rng, label="transform_xyz_to_spherical")
    S = [X[0].abs(), X[1].abs(), X[2]]
    graddiff(ck, lambda r, t, p: dict(zip("xyz", hp.transform_spherical_to_xyz(r, t, p))), S, ("r", "theta", "phi"), rng, label="transform_spherical_to_xyz")
    E = [torch.randn(4, dtype=F64) + 1j * torch.randn(4, dtype=F64) for _ in range(3)]
    graddiff(ck, lambda a, b, c, t, p: dict(zip("xyz", hp.transform_fields_spherical_to_cartesian(a, b, c, S[0], t, p))), E + S[1:], ("E_r", "E_t", "E_ph", "theta", "phi"), rng, label="transform_fields_spherical_to_cartesian")
    xd = torch.sort(torch.rand(6, dtype=F64))[0] * 3; xd = xd + torch.arange(6)
    xe = torch.tensor([float(xd[k] + t * (xd[k + 1] - xd[k])) for k, t in ((0, .3), (2, .6), (4, .8))], dtype=F64)
    graddiff(ck, lambda a, b, c: {"y": hp.interp1d(a, b, c)}, [xe, xd, torch.randn(6, dtype=F64)], ("x_eval", "x_dat", "y_dat"), rng, label="interp1d")
