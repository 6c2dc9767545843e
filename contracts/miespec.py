"""The boundary-value problem of a layered sphere as ghost sequences.

T_l is the coefficient of the outgoing radial function in region l (0 = core, L = host):
   u_l(rho) = psi_n(m_l rho) - T_l zeta_n(m_l rho),   T_0 = 0 (regular at the centre).
Continuity of the tangential E and H at the interface x_l between region l and l+1 is
   TM (a_n):  u_l'/u_l (m_l x_l) / m_l = u_{l+1}'/u_{l+1} (m_{l+1} x_l) / m_{l+1}
   TE (b_n):  m_l u_l'/u_l (m_l x_l)   = m_{l+1} u_{l+1}'/u_{l+1} (m_{l+1} x_l)
which determines T_{l+1}; the scattering coefficients are T_L with m_L = 1."""
from base import *
import pit

def _leafT(kind, l, n, p, w): return leaf("T" + kind, False, (l, n, p, w), ())


def prev(kind): return leaf("@prev" + kind, False, (isym("@l"), isym("@n"), isym("@p"), isym("@w")), ())


def hlog(u, n, y):
    """logarithmic derivative of psi - u zeta at y"""
    return div(sub(F.dpsi(n, y), mul(u, F.dzeta(n, y))), sub(F.psi(n, y), mul(u, F.zeta(n, y))))


def next_T(kind, u, n, y, z, m0, m1):
    """T of the next region; y = m0 x, z = m1 x"""
    h = mul(hlog(u, n, y), div(m1, m0) if kind == "A" else div(m0, m1))
    return div(sub(F.dpsi(n, z), mul(h, F.psi(n, z))), sub(F.dzeta(n, z), mul(h, F.zeta(n, z))))


class Sphere:
    """region data as functions of (l, p, w): relative index m, and size parameter x of the outer surface"""
    def __init__(self, m, x): self.m, self.x = m, x
    def T(self, kind, l, n, p, w): return _leafT(kind, ie(l), ie(n), ie(p), ie(w))
    def H(self, kind, l, n, p, w):
        """logarithmic derivative just inside the outer surface of region l"""
        y = mul(self.m(l, p, w), self.x(l, p, w))
        return hlog(self.T(kind, l, n, p, w), n, y)
    def outer(self, kind, L, n, p, w):
        """scattering coefficient for L regions: T of the host"""
        last = isub(L, 1)
        m0, x = self.m(last, p, w), self.x(last, p, w)
        return next_T(kind, self.T(kind, last, n, p, w), n, mul(m0, x), x, m0, ONE)
    def setup(self, w): w.state["sphere"] = self


def _h(kind):
    def f(w, t, iv, tv):
        sph = w.state["sphere"]
        l, n, p, q = iv
        s = [isym(x) for x in ("@l", "@n", "@p", "@w")]

        def step(m, before):
            old = dict(w.env)
            w.env.update({"@l": m % w.p, "@n": n, "@p": p, "@w": q})
            w.state[("prev", kind, m % w.p, n, p, q)] = before
            l0 = isub(s[0], 1)
            m0, m1, x = sph.m(l0, s[2], s[3]), sph.m(s[0], s[2], s[3]), sph.x(l0, s[2], s[3])
            term = next_T(kind, prev(kind), s[1], mul(m0, x), mul(m1, x), m0, m1)
            try: return w.ev(term)
            finally:
                w.env.clear(); w.env.update(old)
        return pit.uprec(w, ("T" + kind, n, p, q), l, lambda: 0, step)
    return f


pit.HANDLERS["TA"], pit.HANDLERS["TB"] = _h("A"), _h("B")
for _k in "AB":
    pit.HANDLERS["@prev" + _k] = lambda w, t, iv, tv, _k=_k: w.state[("prev", _k) + tuple(iv)]
