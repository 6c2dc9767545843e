"""Randomised identity testing: terms are evaluated in GF(p) at random points of the
algebraic variety cut out by the axioms of the special functions.

A false identity of total degree d survives one trial with probability <= d/p
(p > 2**60, Schwartz-Zippel), independently for every trial."""
import random
from fractions import Fraction as Fr
from core import *


class Unsupported(Exception): pass
class Retry(Exception): pass
class Unresolved(Exception):
    def __init__(self, c, soft=False): self.cond, self.soft = c, soft     # soft: the term has a value without the decision


def _isprime(n):
    if n % 2 == 0: return False
    d, s = n - 1, 0
    while d % 2 == 0: d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if a % n == 0: continue
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True


_primes = {}


def prime(k):
    """k-th deterministic prime = 5 mod 8 above 2**61"""
    if k not in _primes:
        r = random.Random(0xA5A5 + k)
        n = (1 << 61) + (r.getrandbits(58) << 3) + 5
        while not _isprime(n): n += 8
        _primes[k] = n
    return _primes[k]


HANDLERS = {}          # leaf name -> f(world, node, ivals, tvals)


def handler(name):
    def d(f): HANDLERS[name] = f; return f
    return d


class World:
    NPTS = 3

    def __init__(self, seed, k=0, squares=(), subst=None, conds=None, seqdef=None):
        self.rng = random.Random("%s/%d" % (seed, k))
        self.p = prime(k % 7)
        g = 2
        while pow(g, (self.p - 1) // 2, self.p) == 1: g += 1
        self.i = pow(g, (self.p - 1) // 4, self.p)
        self.g = g
        self.memo, self.env, self.rnd = {}, {}, {}
        self.squares = squares
        self.isub = subst or {}
        self.conds = conds or {}
        self.seqdef = seqdef or {}
        self.state = {}
        self.ties = {}
        self.pos = False
        self.opaque = False     # inside max/min: moduli are opaque functions of |.|^2 (no square roots mod p)

    # -- random values
    def rand(self, key):
        v = self.rnd.get(key)
        if v is None: v = self.rnd[key] = self.rng.randrange(1 << 40, self.p - (1 << 40))
        return v

    def randint(self, key):
        v = self.rnd.get(key)
        if v is None: v = self.rnd[key] = self.rng.randrange(1 << 40, 1 << 58)
        return v

    def inv(self, x):
        if x % self.p == 0: raise Retry("division by zero")
        return pow(x, -1, self.p)

    def q(self, f): return f.numerator % self.p * pow(f.denominator, -1, self.p) % self.p
    def small(self, v, lim=1 << 20):
        if v < lim: return v
        if self.p - v < lim: return v - self.p
        return None

    def sqrt(self, a):
        p = self.p
        a %= p
        if a == 0: return 0
        if pow(a, (p - 1) // 2, p) != 1: raise Retry("non-residue")
        r = pow(a, (p + 3) // 8, p)
        if r * r % p != a: r = r * pow(2, (p - 1) // 4, p) % p
        assert r * r % p == a
        return min(r, p - r)

    # -- integers
    def iev(self, x):
        r = x.c
        for a, k in x.co:
            if isinstance(a, str):
                if a in self.env: v = self.env[a]
                elif a in self.isub: v = self.iev(self.isub[a])
                else: v = self.randint(("sym", a))
            else:
                args = tuple(self.iev(y) if isinstance(y, IE) else (self.ev(y) if isinstance(y, Node) else y) for y in a[1:])
                if a[0] == "mul": v = args[0] * args[1] % self.p
                else: v = self.randint((a[0],) + args)
            r += k * v
        return r % self.p

    # -- terms
    def ev(self, t):
        if self.env:
            fs = freesyms(t)
            key = (t, tuple((v, self.env[v]) for v in sorted(self.env) if v in fs), self.opaque)
        else: key = (t, (), self.opaque)
        r = self.memo.get(key)
        if r is None: r = self.memo[key] = self._ev(t)
        return r

    def _ev(self, t):
        p, op, a = self.p, t.op, t.a
        if op == "num":
            return (self.q(a[0]) + self.i * self.q(a[1])) % p
        if op == "int": return self.iev(a[0])
        if op == "opq": return self.rand(("opq", a[0]))
        if op == "add": return sum(self.ev(x) for x in a) % p
        if op == "mul":
            r = 1
            for x in a: r = r * self.ev(x) % p
            return r
        if op == "pow" and a[0].op == "abs" and a[1].denominator == 1 and a[1].numerator % 2 == 0:
            return self._pow(self.ev(abs2(a[0].a[0])), a[1] / 2)
        if op == "pow": return self._pow(self.ev(a[0]), a[1], a[1].denominator == 2 and nonneg(a[0]))
        if op == "powi": return self._powi(a[0], a[1])
        if op == "powg": return self.rand(("powg", self.ev(a[0]), self.ev(a[1])))
        if op in ("detach", "rl", "nn"): return self.ev(a[0])
        if op == "conj":
            x = a[0]
            if x.op == "leaf":
                h = HANDLERS.get("conj:" + x.a[0])
                iv = tuple(self.iev(y) for y in x.a[1])
                tv = tuple(self.ev(conj(y)) for y in x.a[2])
                if x.a[0] in self.seqdef:
                    return self.ev(conj(self.seqdef[x.a[0]](*x.a[1])))
                if h: return h(self, x, iv, tv)
                if x.a[0] in self.squares: return pow(self.rand(("sqc", x.a[0], iv, tv)), 2, p)
                return self.rand(("conj", x.a[0], iv, tv))
            return self.rand(("conjv", x.op, self.ev(x)))
        if op == "abs":
            if self.opaque: return self.rand(("absopq", self.ev(abs2(a[0]))))
            return self.sqrt(self.ev(abs2(a[0])))
        if op == "exp": return self._exp(a[0], (Fr(1), Fr(0)))
        if op == "sin":
            e = self._exp(a[0], (Fr(0), Fr(1)))
            return (e - self.inv(e)) * self.inv(2 * self.i) % p
        if op == "cos":
            e = self._exp(a[0], (Fr(0), Fr(1)))
            return (e + self.inv(e)) * self.inv(2) % p
        if op == "ite":
            return self.ev(a[1] if self.cond(a[0]) else a[2])
        if op == "sum":
            n = self.iev(isub(a[2], a[1]))
            tot = 0
            for w, x in self.measure(n):
                old = self.env.get(a[0])
                self.env[a[0]] = x
                tot += w * self.ev(a[3])
                if old is None: del self.env[a[0]]
                else: self.env[a[0]] = old
            return tot % p
        if op in ("maxr", "minr", "prod"):
            n = self.iev(isub(a[2], a[1]))
            vals, oq = [], self.opaque
            if op != "prod": self.opaque = True
            for w, x in self.measure(n):
                old = self.env.get(a[0])
                self.env[a[0]] = x
                vals.append(self.ev(a[3]))
                if old is None: del self.env[a[0]]
                else: self.env[a[0]] = old
            self.opaque = oq
            if op == "prod":
                r = 1
                for v in vals: r = r * v % p
                return r
            return self.rand((op, n) + tuple(vals))
        if op in ("max2", "min2"):
            c = fcmp("<=", a[0], a[1])
            if ("open", c) not in self.conds:
                if c in (TRUE, FALSE): d = c is TRUE
                elif c in self.conds: d = self.conds[c]
                else: raise Unresolved(c, True)
                return self.ev(a[1] if d == (op == "max2") else a[0])
            return self.rand((op, frozenset((self.ev(a[0]), self.ev(a[1])))))
        if op == "leaf":
            name = a[0]
            if name in self.seqdef: return self.ev(self.seqdef[name](*a[1]))
            iv = tuple(self.iev(x) for x in a[1])
            tv = tuple(self.ev(x) for x in a[2])
            h = HANDLERS.get(name)
            if h: return h(self, t, iv, tv)
            if name in self.ties:
                return self.ties[name](self, iv, tv)
            if name in self.squares: return pow(self.rand(("sq", name, iv, tv)), 2, p)
            return self.rand((name, iv, tv))
        if op in ("log", "acos", "round", "floor", "ceil", "trunc", "lgamma", "sign") or op.startswith("fn_"):
            return self.rand((op, self.ev(a[0])))
        if op == "atan2": return self.rand((op, self.ev(a[0]), self.ev(a[1])))
        if op in ("true", "false"): return int(op == "true")
        if op == "b2n": return 1 if self.cond(a[0]) else 0
        raise Unsupported("eval of " + op)

    def measure(self, n):
        """random NPTS-atom measure for a range of length n"""
        return [(self.rand(("w", n, j)), self.randint(("x", n, j))) for j in range(self.NPTS)]

    def cond(self, c):
        if c is TRUE: return True
        if c is FALSE: return False
        if c in self.conds: return self.conds[c]
        if c.op == "not": return not self.cond(c.a[0])
        if c.op == "and":
            r = True
            for x in c.a:
                if not self.cond(x): r = False
            return r
        if bnot(c) in self.conds: return not self.conds[bnot(c)]
        if c.op in ("i==", "i<=") and "@l" in freesyms(c):
            # region index of a ghost recursion step: a number, never an open condition
            if freesyms(c) != {"@l"} or "@l" not in self.env: raise Unsupported("condition on a region index")
            m = self.small(self.env["@l"], 200)
            if m is None: raise Unsupported("condition on a region index")
            d = isubst(c.a[0], {"@l": ie(m)}).c
            return d == 0 if c.op == "i==" else d <= 0
        raise Unresolved(c)

    def posroot(self, a):
        """square root of a non-negative real: multiplicative (the odd-order root of a quartic residue)"""
        p = self.p
        a %= p
        if a == 0: return 0
        if pow(a, (p - 1) // 4, p) != 1:
            self.pos = True
            raise Retry("non-residue")
        return pow(a, ((p - 1) // 4 + 1) // 2, p)

    def _pow(self, v, e, positive=False):
        if e.denominator == 1:
            n = e.numerator
            return pow(v, n, self.p) if n >= 0 else pow(self.inv(v), -n, self.p)
        if e.denominator == 2:
            r = self.posroot(v) if positive else self.sqrt(v)
            n = e.numerator
            return pow(r, n, self.p) if n >= 0 else pow(self.inv(r), -n, self.p)
        r = self.rand(("root", v, e.denominator))
        n = e.numerator
        return pow(r, n, self.p) if n >= 0 else pow(self.inv(r), -n, self.p)

    def _powi(self, b, e):
        p = self.p
        v = self.ev(b)
        r = pow(v, e.c, p) if e.c >= 0 else pow(self.inv(v), -e.c, p)
        order = {p - 1: 2, self.i: 4, p - self.i: 4, 1: 1}.get(v)
        for a, k in e.co:
            av = self.iev(IE(((a, 1),), 0))
            if order: f = pow(v, av % order, p)
            else:
                f = self.rand(("powi", v, av))
            r = r * (pow(f, k, p) if k >= 0 else pow(self.inv(f), -k, p)) % p
        return r

    # -- exponentials: exp(sum c_j v_j) = prod E_j^{c_j}
    def lindec(self, t, c=(Fr(1), Fr(0)), out=None):
        out = [] if out is None else out
        if t.op == "num":
            out.append((ONE, cmulnum(c, t.a)))
        elif t.op == "add":
            for x in t.a: self.lindec(x, c, out)
        elif t.op in ("detach", "rl", "nn"): self.lindec(t.a[0], c, out)
        elif t.op == "mul":
            k, rest = coef(t)
            c = cmulnum(c, k)
            if rest.op == "mul":
                fs = [x.a[0] if x.op in ("detach", "rl", "nn") else x for x in rest.a]
                j = next((j for j, x in enumerate(fs) if x.op == "add"), None)
                if j is not None:
                    for y in fs[j].a: self.lindec(mul(y, *fs[:j], *fs[j + 1:]), c, out)
                else:
                    m = mul(*fs)
                    if m.op == "mul" and m.a[0].op == "num" or m.op != "mul": self.lindec(m, c, out)
                    else: out.append((m, c))
            else: self.lindec(rest, c, out)
        else: out.append((t, c))
        return out

    def _exp(self, t, c):
        p = self.p
        tot = {}
        for a, k in self.lindec(t, c):
            v = self.ev(a)
            if v > p // 2: v = p - v; k = (-k[0], -k[1])
            o = tot.get(v, (Fr(0), Fr(0)))
            tot[v] = (o[0] + k[0], o[1] + k[1])
        r = 1
        pi = self.rand(("opq", "pi"))
        pv, ps = (pi, 1) if pi <= p // 2 else (p - pi, -1)
        for v, (x, y) in tot.items():
            if v == pv:
                yy = y * ps
                if (yy * 2).denominator == 1:
                    r = r * pow(self.i, int(yy * 2) % 4, p) % p; y = Fr(0)
            for nm, e in (("E", x), ("Ei", y)):
                if e == 0: continue
                e8 = e * 8
                if e8.denominator != 1:          # exp(v / q) as a further independent variable (relations to exp(v) not used)
                    b, e8 = self.rand((nm, v, e8.denominator)), Fr(e8.numerator)
                    if abs(e8) > 1 << 20: raise Unsupported("exp of fractional multiple")
                else: b = self.rand((nm, v))
                n = int(e8)
                r = r * (pow(b, n, p) if n >= 0 else pow(self.inv(b), -n, p)) % p
        return r


# ------------------------------------------------------------------ special functions
def _near(bases, n, lim=64):
    for b in bases:
        if abs(n - b) <= lim: return b
    return None


def _ricc(w, n, z):
    """(psi_n, zeta_n) at argument value z; three-term recurrence + Wronskian"""
    p = w.p
    sm = w.small(n)
    if sm is not None: n = sm
    tabs = w.state.setdefault(("ricc", z), {})
    b = 0 if sm is not None and abs(sm) <= 200 else _near([x for x in tabs if x != 0], n)
    zi = w.inv(z)
    if b is None: b = n
    if b not in tabs:
        if b == 0:
            e = w.state.get(("eiz", z))
            if e is None:
                # value of exp(i z): must agree with _exp on a term of value z
                v, s = (z, 1) if z <= p // 2 else (p - z, -1)
                e = w.rand(("Ei", v))
                e = pow(e, 8, p)
                if s < 0: e = w.inv(e)
            ei = w.inv(e)
            s_ = (e - ei) * w.inv(2 * w.i) % p
            c_ = (e + ei) * w.inv(2) % p
            tabs[0] = {0: (s_, (s_ - w.i * c_) % p), -1: (c_, (c_ + w.i * s_) % p)}
        else:
            P0, P1, Z0 = w.rand(("psi0", z, b)), w.rand(("psi1", z, b)), w.rand(("zet0", z, b))
            # psi_b zeta_{b-1} - psi_{b-1} zeta_b = i
            Z1 = (w.i + P1 * Z0) * w.inv(P0) % p
            tabs[b] = {b: (P0, Z0), b - 1: (P1, Z1)}
    T = tabs[b]
    while n not in T:
        hi, lo = max(T), min(T)
        if n > hi:      # f_{m+1} = (2m+1)/z f_m - f_{m-1}
            m = hi
            k = (2 * m + 1) * zi % p
            T[m + 1] = tuple((k * T[m][j] - T[m - 1][j]) % p for j in (0, 1))
        else:
            m = lo
            k = (2 * m + 1) * zi % p
            T[m - 1] = tuple((k * T[m][j] - T[m + 1][j]) % p for j in (0, 1))
    return T[n]


def ricc_args(w, node):
    """register exp(iz) for the argument term, so that psi_0 = sin z agrees with exp"""
    z = node.a[2][0]
    v = w.ev(z)
    if ("eiz", v) not in w.state:
        w.state[("eiz", v)] = w._exp(z, (Fr(0), Fr(1)))
    return v


@handler("psi")
def _h_psi(w, t, iv, tv):
    ricc_args(w, t)
    return _ricc(w, iv[0], tv[0])[0]


@handler("zeta")
def _h_zeta(w, t, iv, tv):
    ricc_args(w, t)
    return _ricc(w, iv[0], tv[0])[1]


@handler("conj:zeta")
def _h_czeta(w, t, iv, tv):
    zc = conj(t.a[2][0])
    if ("eiz", tv[0]) not in w.state: w.state[("eiz", tv[0])] = w._exp(zc, (Fr(0), Fr(1)))
    a, b = _ricc(w, iv[0], tv[0])
    return (2 * a - b) % w.p


def _pitab(w, n, mu):
    p = w.p
    sm = w.small(n)
    if sm is not None: n = sm
    if mu in (1, p - 1) and (sm is None or n >= 0):
        # lemma pi_n(+-1), proved by induction in contracts/c_lemma.py
        c = n * (n + 1) % p * w.inv(2) % p
        return c if mu == 1 or n % 2 == 1 else p - c if c else 0
    tabs = w.state.setdefault(("pi", mu), {})
    b = 0 if sm is not None and abs(sm) <= 200 else _near([x for x in tabs if x != 0], n)
    if b is None: b = n
    if b not in tabs:
        tabs[b] = {0: 0, 1: 1} if b == 0 else {b: w.rand(("pi0", mu, b)), b - 1: w.rand(("pi1", mu, b))}
    T = tabs[b]
    if b == 0 and n < 0: raise Unsupported("pi of negative order")
    while n not in T:
        hi, lo = max(T), min(T)
        if n > hi:
            m = hi
            T[m + 1] = ((2 * m + 1) * mu * T[m] - (m + 1) * T[m - 1]) * w.inv(m) % p
        else:
            m = lo
            T[m - 1] = ((2 * m + 1) * mu * T[m] - m * T[m + 1]) * w.inv(m + 1) % p
    return T[n]


@handler("pin")
def _h_pin(w, t, iv, tv): return _pitab(w, iv[0], tv[0])


@handler("conj:pin")
def _h_cpin(w, t, iv, tv): return _pitab(w, iv[0], tv[0])


def uprec(w, key, n, init, step):
    """first-order upward recurrence; n concrete small -> from init(0); else random base below"""
    sm = w.small(n)
    tabs = w.state.setdefault(key, {})
    if sm is not None and 0 <= sm <= 200:
        T = tabs.setdefault(0, {0: None})
        if T[0] is None: T[0] = init()
        n = sm
    else:
        b = None
        for x in tabs:
            if x != 0 and abs(n - x) <= 64: b = x
        if b is None:
            b = n - 4
            tabs[b] = {b: w.rand(key + ("base", b))}
        T = tabs[b]
        if n < b: raise Unsupported("recurrence below base")
    while n not in T:
        m = max(T)
        T[m + 1] = step(m + 1, T[m]) % w.p
    return T[n]
