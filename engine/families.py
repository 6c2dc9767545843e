"""Ghost functions of the specifications: sequences a loop may compute.

A loop whose summary equals one of these closed forms (checked: base case and induction step,
identity-tested for all iterations) is replaced by it; the closed form is the loop invariant."""
from core import *
from torchmod import psi, zeta, dpsi, dzeta, jn, yn


class Fam:
    def __init__(self, name, f, nargs=1, minimal=False, scaled=False):
        self.name, self.f, self.nargs, self.minimal, self.scaled = name, f, nargs, minimal, scaled


def hn(n, z): return div(zeta(n, z), z)
def D1(n, z): return div(dpsi(n, z), psi(n, z))
def D3(n, z): return div(dzeta(n, z), zeta(n, z))
def pz(n, z): return mul(psi(n, z), zeta(n, z))
def pin(n, mu): return leaf("pin", mu.real, (n,), (mu,))
def taun(n, mu):
    return sub(mul(fint(n), mu, pin(n, mu)), mul(fint(iadd(n, 1)), pin(isub(n, 1), mu)))
def jratio(n, z): return div(psi(n, z), psi(isub(n, 1), z))
def Q(n, x, y): return div(mul(psi(n, x), zeta(n, y)), mul(zeta(n, x), psi(n, y)))
def djn(n, z): return sub(jn(isub(n, 1), z), mul(fint(iadd(n, 1)), jn(n, z), mkpow(z, Fr(-1))))
def dyn(n, z): return sub(yn(isub(n, 1), z), mul(fint(iadd(n, 1)), yn(n, z), mkpow(z, Fr(-1))))


STD = [
    Fam("D1", D1, minimal=True),
    Fam("psi_n(z)/psi_{n-1}(z)", jratio, minimal=True),
    Fam("j_n", jn, minimal=True, scaled=True),
    Fam("psi_n", psi, minimal=True, scaled=True),
    Fam("y_n", yn), Fam("zeta_n", zeta), Fam("h_n", hn),
    Fam("D3", D3), Fam("psi*zeta", pz),
    Fam("pi_n", pin), Fam("tau_n", taun),
    Fam("Q", Q, nargs=2),
    Fam("(zeta_n(z2)/zeta_n(z1))^2", lambda n, x, y: mkpow(div(zeta(n, y), zeta(n, x)), Fr(2)), nargs=2),
]
