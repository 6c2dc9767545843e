"""contracts on coordinate, field and frame transformations (helper.helper, helper.tg)"""
from base import *
import core
from core import *
from tensor import *

sin_, cos_ = (lambda t: fn1("sin", t)), (lambda t: fn1("cos", t))


def realpts(R, rank, *names):
    sh = tuple(dims(R, *["N%d" % k for k in range(rank)]))
    return sh, [tens(nm, sh, "f64") for nm in names]


def basis(t, p):
    """spherical unit vectors"""
    return ((mul(sin_(t), cos_(p)), mul(sin_(t), sin_(p)), cos_(t)),
            (mul(cos_(t), cos_(p)), mul(cos_(t), sin_(p)), neg(sin_(t))),
            (neg(sin_(p)), cos_(p), ZERO))


for rank in (0, 1, 2, 3):
    @contract("spherical to Cartesian/rank %d" % rank, HP + ".transform_spherical_to_xyz", "C16")
    def f(R, u, rank=rank):
        sh, (r, th, ph) = realpts(R, rank, "r", "theta", "phi")
        v = call(HP, "transform_spherical_to_xyz", r, th, ph)
        for c, nm in enumerate("xyz"):
            u.eq(nm, v[c], sh, lambda *i: mul(r.at(*i), basis(th.at(*i), ph.at(*i))[0][c]))

    @contract("Cartesian to spherical and back/rank %d" % rank, HP + ".transform_xyz_to_spherical", "C16", generic="zero")
    def f(R, u, rank=rank):
        sh, (x, y, z) = realpts(R, rank, "x", "y", "z")
        # on the axis the angles are taken sqrt(eps) off it: a relative guard, covered by bounded cases
        s = call(HP, "transform_xyz_to_spherical", x, y, z)
        v = call(HP, "transform_spherical_to_xyz", *s)
        rho = lambda *i: mkpow(add(*[mkpow(q.at(*i), Fr(2)) for q in (x, y, z)]), Fr(1, 2))
        u.eq("r = sqrt(x^2 + y^2 + z^2)", s[0], sh, rho)
        u.eq("r cos theta = z", T(sh, lambda i: mul(s[0].at(*i), cos_(s[1].at(*i))), "f64"), sh, z.at)
        for nm, t, q in zip("xyz", v, (x, y, z)): u.eq(nm + " recovered", t, sh, q.at)

    @contract("field components/rank %d" % rank, HP + ".transform_fields_spherical_to_cartesian", "C16")
    def f(R, u, rank=rank):
        sh, (r, th, ph) = realpts(R, rank, "r", "theta", "phi")
        E = [tens("E_" + c, sh) for c in ("r", "t", "ph")]
        D = [tens("D_" + c, sh) for c in ("r", "t", "ph")]
        v = call(HP, "transform_fields_spherical_to_cartesian", *E, r, th, ph)
        w = call(HP, "transform_fields_spherical_to_cartesian", *D, r, th, ph)
        for c, nm in enumerate("xyz"):
            u.eq("E_" + nm + " in the basis e_r, e_theta, e_phi", v[c], sh, lambda *i: add(*[mul(E[k].at(*i), basis(th.at(*i), ph.at(*i))[k][c]) for k in range(3)]))
        ip = lambda a, b: (lambda i: add(*[mul(x.at(*i), conj(y.at(*i))) for x, y in zip(a, b)]))
        u.eq("lengths and inner products preserved", T(sh, ip(v, w), "c128"), sh, lambda *i: ip(E, D)(i), grad=False)


# ------------------------------------------------------------------ rotations and illumination frames
def matrix(u, M, name, ref, grad=False):
    """M is a proper rotation, and equal to the reference"""
    sh = (3, 3)
    at = lambda i, j: M.at(ie(i), ie(j))
    for i in range(3):
        for j in range(3):
            if ref is not None: u.term("%s[%d,%d]" % (name, i, j), at(i, j), ref[i][j], grad=grad)
            u.term("%s orthogonal (%d,%d)" % (name, i, j), add(*[mul(at(k, i), at(k, j)) for k in range(3)]), ONE if i == j else ZERO)
    det = add(*[mul(num(s), at(0, a), at(1, b), at(2, c)) for a, b, c, s in ((0, 1, 2, 1), (1, 2, 0, 1), (2, 0, 1, 1), (0, 2, 1, -1), (1, 0, 2, -1), (2, 1, 0, -1))])
    u.term(name + " determinant 1", det, ONE)


def rot(axis, a):
    s, c = sin_(a), cos_(a)
    n = neg(s)
    return {"x": ((ONE, ZERO, ZERO), (ZERO, c, n), (ZERO, s, c)), "y": ((c, ZERO, s), (ZERO, ONE, ZERO), (n, ZERO, c)), "z": ((c, n, ZERO), (s, c, ZERO), (ZERO, ZERO, ONE))}[axis]


for axis in "xyz":
    for kind in ("number", "tensor"):
        @contract("rotation_%s/%s" % (axis, kind), TG + ".rotation_" + axis, "C16")
        def f(R, u, axis=axis, kind=kind):
            al = leaf("alpha", True, (), ())
            M = call(TG, "rotation_" + axis, SNum(al, "float") if kind == "number" else T((), lambda i: al, "f64", owner="argument alpha"))
            if u.shape("matrix", M, (3, 3)): matrix(u, M, "matrix", rot(axis, al), kind == "tensor")


FRAMES = {   # plane, polarisation -> propagation direction, electric field
    ("yz", "s"): lambda s, c: ((ZERO, s, c), (ONE, ZERO, ZERO)), ("yz", "p"): lambda s, c: ((ZERO, s, c), (ZERO, neg(c), s)),
    ("xz", "s"): lambda s, c: ((s, ZERO, c), (ZERO, ONE, ZERO)), ("xz", "p"): lambda s, c: ((s, ZERO, c), (neg(c), ZERO, s)),
    ("xy", "s"): lambda s, c: ((s, c, ZERO), (ZERO, ZERO, ONE)), ("xy", "p"): lambda s, c: ((s, c, ZERO), (neg(c), s, ZERO))}


for (plane, pol), fr in FRAMES.items():
    @contract("illumination frame/%s/%s" % (plane, pol), TG + "._plane_wave_rotation", "C16")
    def f(R, u, plane=plane, pol=pol, fr=fr):
        al = leaf("alpha", True, (), ())
        M = call(TG, "_plane_wave_rotation", T((), lambda i: al, "f64", owner="argument angle"), plane, pol, "cpu")
        if not u.shape("frame", M, (3, 3)): return
        k, e = fr(sin_(al), cos_(al))
        matrix(u, M, "frame", None)
        # native wave: +z propagation, E along x
        for i in range(3):
            u.term("E direction (%d)" % i, M.at(ie(i), ie(0)), e[i])
            u.term("propagation direction (%d)" % i, M.at(ie(i), ie(2)), k[i])
