"""input generators shared by the oracle cases"""
import numpy as np, torch, cmath, math
F64, C128 = torch.float64, torch.complex128
tf = lambda x: torch.tensor(x, dtype=F64)
tc = lambda x: torch.tensor(x, dtype=C128)


def particle(rng, L, lossy=True, rmin=20., rmax=160.):
    """strictly increasing radii and layer permittivities"""
    w = [rng.uniform(0.15, 1.0) for _ in range(L)]
    R = rng.uniform(max(rmin, 25. * L), rmax)
    c = np.cumsum(w) / sum(w)
    r = [float(R * x) for x in c]
    e = []
    for _ in range(L):
        re = rng.choice([rng.uniform(1.2, 6.), rng.uniform(6., 14.), rng.uniform(-12., -2.) if lossy else rng.uniform(1.2, 4.)])
        im = rng.choice([rng.uniform(0.01, 0.3), rng.uniform(0.3, 4.)]) if lossy else 0.0
        e.append(complex(re, im))
    return r, e


def batch(rng, Np, L, Nk, lossy=True, hostc=False):
    """dict of inputs: k0 (Nk), r (Np,L), eps (Np,L,Nk), env (Nk)"""
    rr, ee = [], []
    for _ in range(Np):
        r, e = particle(rng, L, lossy)
        rr.append(r)
        ee.append([[v * (1 + 0.1 * rng.uniform(-1, 1)) for _ in range(Nk)] for v in e])
    k0 = [2 * math.pi / rng.uniform(380., 1200.) for _ in range(Nk)]
    env = [rng.uniform(1.0, 2.4) for _ in range(Nk)]
    if hostc: env = [complex(v, rng.uniform(0.0, 0.05)) for v in env]
    return dict(k0=k0, r=rr, eps=ee, env=env)


def layer_args(b):
    env = tc(b["env"]) if isinstance(b["env"][0], complex) else tf(b["env"])
    return dict(k0=tf(b["k0"]), r_layers=tf(b["r"]), eps_layers=tc(b["eps"]), eps_env=env)


def call_args(b):
    """layer arguments or, for up to two layers, now and then the core/shell arguments"""
    a = layer_args(b)
    Np, L = len(b["r"]), len(b["r"][0])
    form = int(b["k0"][0] * 1e9) % 5
    if L > 2 or form > 1: return a
    b["form"] = "core/shell arguments"
    r, e = a.pop("r_layers"), a.pop("eps_layers")
    if Np == 1:
        r = r[0]; e = e[0]
        a.update(r_c=r[0], eps_c=e[0])
        if L == 2: a.update(r_s=r[1], eps_s=e[1])
    else:
        a.update(r_c=r[:, 0], eps_c=e[:, 0])
        if L == 2: a.update(r_s=r[:, 1], eps_s=e[:, 1])
    return a


def pts_on_sphere(rng, n, poles=True):
    out = []
    for i in range(n):
        th = math.acos(rng.uniform(-1, 1)); ph = rng.uniform(-math.pi, math.pi)
        if poles and i == 0: th = rng.choice([0.05, math.pi - 0.05])
        out.append((math.sin(th) * math.cos(ph), math.sin(th) * math.sin(ph), math.cos(th)))
    return out
