"""every documented way of describing the particles, as symbolic arguments plus their meaning"""
from base import *
Z = ie(0)
pos = lambda n: n if n == "++" else n


class In:
    """keyword arguments and what they mean: r(p,l), eps(p,l,w), k0(w), env(w)"""
    def __init__(self, R, layer="full", k0="vec", env="vec", dtype="c128", L=None, whole=False):
        self.R, self.fixL = R, L
        P, W = ie(1), ie(1)
        kw = self.kw = {}
        # spectrum
        if k0 == "vec":
            (W,) = dims(R, "W")
            t = postens("k0", (W,)); kw["k0"] = t; self.k0 = lambda w: t.at(w)
        elif k0 == "row":
            (W,) = dims(R, "W")
            t = postens("k0", (1, W)); kw["k0"] = t; self.k0 = lambda w: t.at(Z, w)
        elif k0 == "zero-dim":
            t = postens("k0", ()); kw["k0"] = t; self.k0 = lambda w: t.at()
        else:
            x = leaf("k0++", True, (), ())
            kw["k0"] = SNum(x, "float"); self.k0 = lambda w: x
        # host
        if env == "vec":
            te = tens("eps_env", (W,)); kw["eps_env"] = te; self.env = lambda w: te.at(w)
        elif env == "one":
            te = tens("eps_env", (1,)); kw["eps_env"] = te; self.env = lambda w: te.at(Z)
        elif env == "zero-dim":
            te = tens("eps_env", ()); kw["eps_env"] = te; self.env = lambda w: te.at()
        elif env == "real":
            xe = leaf("eps_env", True, (), ())
            kw["eps_env"] = SNum(xe, "float"); self.env = lambda w: xe
        else:
            xe = leaf("eps_env", False, (), ())
            kw["eps_env"] = SNum(xe, "complex"); self.env = lambda w: xe
        self.L = None
        getattr(self, "l_" + layer.replace("-", "_"))(R, kw, W, "i64" if whole else dtype)
        self.W = W
        if whole:                      # radii and permittivities given as integer tensors
            for nm in ("r_layers", "r_c", "r_s"):
                if isinstance(kw.get(nm), T): kw[nm].dtype = "i64"

    # -- multilayer layouts
    def radii(self, R, P, L, one=False):
        if one:
            t = postens("r_layers", (L,)); self.r = lambda p, l: t.at(l)
            assume(R, "torch.all(r[1:] > r[:-1])", r=t)
        else:
            t = postens("r_layers", (P, L)); self.r = lambda p, l: t.at(p, l)
        q = T((P, L), lambda i: self.r(*i), "f64")
        assume(R, "torch.all(r[:, 1:] > r[:, :-1])", r=q)
        self.kw["r_layers"] = t
        self.P, self.L = P, L

    def l_full(self, R, kw, W, dt):
        P, L = dims(R, "P", "L")
        if self.fixL: L = ie(self.fixL)
        self.radii(R, P, L)
        t = kw["eps_layers"] = tens("eps_layers", (P, L, W), dt)
        self.eps = lambda p, l, w: t.at(p, l, w)

    def l_full_shared(self, R, kw, W, dt):
        P, L = dims(R, "P", "L")
        self.radii(R, P, L)
        t = kw["eps_layers"] = tens("eps_layers", (1, L, W), dt)
        self.eps = lambda p, l, w: t.at(Z, l, w)

    def l_full_const(self, R, kw, W, dt):
        P, L = dims(R, "P", "L")
        self.radii(R, P, L)
        t = kw["eps_layers"] = tens("eps_layers", (P, L, 1), dt)
        self.eps = lambda p, l, w: t.at(p, l, Z)

    def l_full_both(self, R, kw, W, dt):
        P, L = dims(R, "P", "L")
        self.radii(R, P, L)
        t = kw["eps_layers"] = tens("eps_layers", (1, L, 1), dt)
        self.eps = lambda p, l, w: t.at(Z, l, Z)

    def l_per_particle(self, R, kw, W, dt):
        P, L = dims(R, "P", "L")
        self.radii(R, P, L)
        t = kw["eps_layers"] = tens("eps_layers", (P, L), dt)
        self.eps = lambda p, l, w: t.at(p, l)

    def l_spectra(self, R, kw, W, dt):
        """(L, N_k0); when that shape is also (N_part, L) the latter reading is the documented one"""
        P, L = dims(R, "P", "L")
        R.ctx.assume(bnot(band(icmp("==", P, L), icmp("==", L, W))))
        self.radii(R, P, L)
        t = kw["eps_layers"] = tens("eps_layers", (L, W), dt)
        self.eps = lambda p, l, w: t.at(l, w)

    def l_constants(self, R, kw, W, dt):
        P, L = dims(R, "P", "L")
        self.radii(R, P, L)
        t = kw["eps_layers"] = tens("eps_layers", (L,), dt)
        self.eps = lambda p, l, w: t.at(l)

    def l_single_full(self, R, kw, W, dt):
        (L,) = dims(R, "L")
        if self.fixL: L = ie(self.fixL)
        self.radii(R, ie(1), L, one=True)
        t = kw["eps_layers"] = tens("eps_layers", (1, L, W), dt)
        self.eps = lambda p, l, w: t.at(Z, l, w)

    def l_single_spectra(self, R, kw, W, dt):
        (L,) = dims(R, "L")
        R.ctx.assume(bnot(band(icmp("==", L, 1), icmp("==", W, 1))))     # (1, 1): both readings agree
        self.radii(R, ie(1), L, one=True)
        t = kw["eps_layers"] = tens("eps_layers", (L, W), dt)
        self.eps = lambda p, l, w: t.at(l, w)

    def l_single_constants(self, R, kw, W, dt):
        (L,) = dims(R, "L")
        self.radii(R, ie(1), L, one=True)
        t = kw["eps_layers"] = tens("eps_layers", (L,), dt)
        self.eps = lambda p, l, w: t.at(l)

    def l_single_row(self, R, kw, W, dt):
        (L,) = dims(R, "L")
        self.radii(R, ie(1), L, one=True)
        t = kw["eps_layers"] = tens("eps_layers", (1, L), dt)
        self.eps = lambda p, l, w: t.at(Z, l)

    # -- legacy layouts: homogeneous (h_) and core-shell (c_)
    def _legacy(self, R, shell, rshape, eshape, P, W, dt, emap):
        kw = self.kw
        self.P, self.L = P, ie(2 if shell else 1)
        def rad(nm):
            if rshape == "py":
                x = leaf(nm + "++", True, (), ()); kw[nm] = SNum(x, "float"); return lambda p: x
            if rshape == "0d":
                t = kw[nm] = postens(nm, ()); return lambda p: t.at()
            t = kw[nm] = postens(nm, (P,)); return lambda p: t.at(p)
        def mat(nm):
            if eshape == "py":
                x = leaf(nm, False, (), ()); kw[nm] = SNum(x, "complex"); return lambda p, w: x
            t = kw[nm] = tens(nm, eshape, dt); return lambda p, w: t.at(*emap(p, w))
        rc, ec = rad("r_c"), mat("eps_c")
        self.r, self.eps = (lambda p, l: rc(p)), (lambda p, l, w: ec(p, w))
        if shell:
            rs, es = rad("r_s"), mat("eps_s")
            self.r = lambda p, l: pick(l, rc(p), rs(p))
            self.eps = lambda p, l, w: pick(l, ec(p, w), es(p, w))
            q = T((P, 2), lambda i: self.r(*i), "f64")
            assume(R, "torch.all(r[:, 1:] > r[:, :-1])", r=q)
            a, b = T((P,), lambda i: rc(i[0]), "f64"), T((P,), lambda i: rs(i[0]), "f64")
            assume(R, "not torch.equal(a, b)", a=a, b=b)

    def l_h_numbers(self, R, kw, W, dt): self._legacy(R, 0, "py", "py", ie(1), W, dt, None)
    def l_c_numbers(self, R, kw, W, dt): self._legacy(R, 1, "py", "py", ie(1), W, dt, None)
    def l_h_0d(self, R, kw, W, dt): self._legacy(R, 0, "0d", (), ie(1), W, dt, lambda p, w: ())
    def l_c_0d(self, R, kw, W, dt): self._legacy(R, 1, "0d", (), ie(1), W, dt, lambda p, w: ())
    def l_h_spectrum(self, R, kw, W, dt): self._legacy(R, 0, "0d", (W,), ie(1), W, dt, lambda p, w: (w,))
    def l_c_spectrum(self, R, kw, W, dt): self._legacy(R, 1, "0d", (W,), ie(1), W, dt, lambda p, w: (w,))

    def _P(self, R, lo=1):
        (P,) = dims(R, "P", lo=lo)
        return P
    def l_h_batch_const(self, R, kw, W, dt):
        P = self._P(R, 2); self._legacy(R, 0, "vec", (P,), P, W, dt, lambda p, w: (p,))
    def l_c_batch_const(self, R, kw, W, dt):
        P = self._P(R, 2); self._legacy(R, 1, "vec", (P,), P, W, dt, lambda p, w: (p,))
    def l_h_batch(self, R, kw, W, dt):
        P = self._P(R); self._legacy(R, 0, "vec", (P, W), P, W, dt, lambda p, w: (p, w))
    def l_c_batch(self, R, kw, W, dt):
        P = self._P(R); self._legacy(R, 1, "vec", (P, W), P, W, dt, lambda p, w: (p, w))
    def l_h_batch_col(self, R, kw, W, dt):
        P = self._P(R); self._legacy(R, 0, "vec", (P, 1), P, W, dt, lambda p, w: (p, Z))
    def l_c_batch_col(self, R, kw, W, dt):
        P = self._P(R); self._legacy(R, 1, "vec", (P, 1), P, W, dt, lambda p, w: (p, Z))

    # -- region data
    def index(self, p, l, w): return mkpow(self.eps(p, l, w), Fr(1, 2))
    def nenv(self, w): return mkpow(self.env(w), Fr(1, 2))
    def k(self, w): return mul(self.k0(w), self.nenv(w))
    def m(self, l, p, w): return div(self.index(p, l, w), self.nenv(w))
    def x(self, l, p, w): return mul(self.k(w), self.r(p, l))


def pick(l, a, b):
    c = iconst(nz(l))
    if c is not None: return (a, b)[c]
    return ite(icmp("==", l, 0), a, b)


MULTI = ["full", "full-shared", "full-const", "full-both", "per-particle", "spectra", "constants", "single-full", "single-spectra", "single-constants", "single-row"]
LEGACY = [a + b for a in ("h-", "c-") for b in ("numbers", "0d", "spectrum", "batch-const", "batch", "batch-col")]
SPECT = ["vec", "row", "zero-dim", "number"]
HOST = ["vec", "one", "zero-dim", "real", "complex"]
SQ = ("eps_layers", "eps_env", "eps_c", "eps_s")
