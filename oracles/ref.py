"""Independent reference: layered-sphere boundary problem solved with mpmath, one linear
system per order; fields from the solved expansion coefficients.  Shares no code with /repo."""
import mpmath as mp

mp.mp.dps = 45


def radial(N, z):
    """psi, psi', zeta, zeta', (lists 0..N) at complex z"""
    z = mp.mpc(z)
    pre = mp.sqrt(mp.pi * z / 2)
    M = N + 1
    j = [None] * (M + 1)
    j[M] = pre * mp.besselj(M + mp.mpf(1) / 2, z)
    j[M - 1] = pre * mp.besselj(M - mp.mpf(1) / 2, z)
    for n in range(M - 1, 0, -1): j[n - 1] = (2 * n + 1) / z * j[n] - j[n + 1]
    # normalise to the exact order-0 value where it is not close to zero
    h = [None] * (M + 1)
    e = mp.e ** (1j * z)
    h[0] = -1j * e
    h[1] = -e * (1 + 1j / z)
    for n in range(1, M): h[n + 1] = (2 * n + 1) / z * h[n] - h[n - 1]
    dj = [mp.cos(z)] + [j[n - 1] - n * j[n] / z for n in range(1, N + 1)]
    dh = [e] + [h[n - 1] - n * h[n] / z for n in range(1, N + 1)]
    return j[:N + 1], dj, h[:N + 1], dh


def solve(xs, ms, N):
    """xs[l]: size parameter of interface l (host wavenumber), ms[l]: relative index of layer l.
    returns dict of lists over n=1..N: a, b (outside), and inner: list over layers of (a,b,c,d)"""
    L = len(xs)
    ms = [mp.mpc(m) for m in ms] + [mp.mpc(1)]
    xs = [mp.mpc(x) for x in xs]
    rin = [radial(N, ms[l] * xs[l]) for l in range(L)]
    rout = [radial(N, ms[l + 1] * xs[l]) for l in range(L)]
    res = {"a": [], "b": [], "inner": []}
    for n in range(1, N + 1):
        sol = {}
        for typ in ("TM", "TE"):
            A = mp.zeros(2 * L, 2 * L)
            rhs = mp.zeros(2 * L, 1)
            # column layout: layer0: p0 ; layer l: p_l, q_l ; outside: q_L  (field = p psi - q zeta)
            col = lambda l, k: 0 if l == 0 else (2 * l - 1 + k)
            for l in range(L):
                ps, dps, ze, dze = [f[n] for f in rin[l]]
                Ps, dPs, Ze, dZe = [f[n] for f in rout[l]]
                mi, mo = ms[l], ms[l + 1]
                # TM: u continuous, u'/m continuous;  TE: u/m continuous, u' continuous
                w = (1, 1, 1 / mi, 1 / mo) if typ == "TM" else (1 / mi, 1 / mo, 1, 1)
                for r, (fi, gi, fo, go, wi, wo) in enumerate(((ps, ze, Ps, Ze, w[0], w[1]), (dps, dze, dPs, dZe, w[2], w[3]))):
                    row = 2 * l + r
                    A[row, col(l, 0)] += wi * fi
                    if l > 0: A[row, col(l, 1)] -= wi * gi
                    if l + 1 < L:
                        A[row, col(l + 1, 0)] -= wo * fo
                        A[row, col(l + 1, 1)] += wo * go
                    else:
                        A[row, 2 * L - 1] += wo * go
                        rhs[row] += wo * fo
            # column scaling
            sc = [max(abs(A[i, k]) for i in range(2 * L)) or mp.mpf(1) for k in range(2 * L)]
            for k in range(2 * L):
                for i in range(2 * L): A[i, k] /= sc[k]
            for i in range(2 * L):
                s = max(abs(A[i, k]) for k in range(2 * L)) or mp.mpf(1)
                for k in range(2 * L): A[i, k] /= s
                rhs[i] /= s
            v = mp.lu_solve(A, rhs)
            v = [v[k] / sc[k] for k in range(2 * L)]
            sol[typ] = [(v[0], mp.mpc(0))] + [(v[2 * l - 1], v[2 * l]) for l in range(1, L)] + [(mp.mpc(1), v[2 * L - 1])]
        res["a"].append(sol["TM"][L][1])
        res["b"].append(sol["TE"][L][1])
        # per region (a, b, c, d)
        res["inner"].append([(sol["TM"][l][1], sol["TE"][l][1], sol["TE"][l][0], sol["TM"][l][0]) for l in range(L + 1)])
    return res


def pitau(N, mu):
    p = [mp.mpf(0), mp.mpf(1)]
    for n in range(2, N + 1): p.append(((2 * n - 1) * mu * p[n - 1] - n * p[n - 2]) / (n - 1))
    t = [mp.mpf(0)] + [n * mu * p[n] - (n + 1) * p[n - 1] for n in range(1, N + 1)]
    return p[:N + 1], t


def fields(k0, radii, nl, nenv, pts, E0, N, sol=None):
    """list of (E_part, H_part, region) per point, cartesian; E_part: internal field inside,
    scattered field outside."""
    L = len(radii)
    k = mp.mpc(k0) * nenv
    ms = [mp.mpc(v) / nenv for v in nl]
    if sol is None: sol = solve([k * r for r in radii], ms, N)
    out = []
    for (x, y, z) in pts:
        x, y, z = mp.mpf(x), mp.mpf(y), mp.mpf(z)
        r = mp.sqrt(x * x + y * y + z * z)
        mu = z / r
        th = mp.acos(mu)
        ph = mp.atan2(y, x)
        reg = L
        for l in range(L):
            if r <= radii[l]: reg = l; break
        nm = mp.mpc(nl[reg]) if reg < L else mp.mpc(nenv)
        rho = mp.mpc(k0) * nm * r
        ps, dps, ze, dze = radial(N, rho)
        p, t = pitau(N, mu)
        cp, sp, st = mp.cos(ph), mp.sin(ph), mp.sin(th)
        E = [mp.mpc(0)] * 3
        H = [mp.mpc(0)] * 3
        for n in range(1, N + 1):
            a, b, c, d = sol["inner"][n - 1][reg]
            En = mp.mpc(0, 1) ** n * E0 * (2 * n + 1) / mp.mpf(n * (n + 1))

            def MN(u, du):
                zn = u / rho
                Mo = (0, cp * p[n] * zn, -sp * t[n] * zn)
                Me = (0, -sp * p[n] * zn, -cp * t[n] * zn)
                No = (sp * n * (n + 1) * st * p[n] * zn / rho, sp * t[n] * du / rho, cp * p[n] * du / rho)
                Ne = (cp * n * (n + 1) * st * p[n] * zn / rho, cp * t[n] * du / rho, -sp * p[n] * du / rho)
                return Mo, Me, No, Ne
            Mo1, Me1, No1, Ne1 = MN(ps[n], dps[n])
            Mo3, Me3, No3, Ne3 = MN(ze[n], dze[n])
            if reg == L: c = d = 0
            for q in range(3):
                E[q] += En * (c * Mo1[q] - 1j * d * Ne1[q] + 1j * a * Ne3[q] - b * Mo3[q])
                H[q] += -nm * En * (d * Me1[q] + 1j * c * No1[q] - 1j * b * No3[q] - a * Me3[q])
        st, ct = mp.sin(th), mp.cos(th)

        def cart(F): return (F[0] * st * cp + F[1] * ct * cp - F[2] * sp, F[0] * st * sp + F[1] * ct * sp + F[2] * cp, F[0] * ct - F[1] * st)
        out.append((cart(E), cart(H), reg))
    return out
