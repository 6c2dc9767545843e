"""Symbolic core: integer expressions (IE) and hash-consed terms (Node).

IE    linear integer combination of atoms (symbols or opaque integer terms).
Node  complex-valued terms and boolean formulas over IE indices.

Machine floats are treated as exact complex numbers (see DESIGN.md, trusted base)."""
from fractions import Fraction as Fr

# ------------------------------------------------------------------ IE
class IE:
    __slots__ = ("co", "c", "h")
    _tab = {}

    def __new__(cls, co=(), c=0):
        key = (co, c)
        o = cls._tab.get(key)
        if o is None:
            o = object.__new__(cls)
            o.co, o.c, o.h = co, c, hash(key)
            cls._tab[key] = o
        return o

    def __hash__(self): return self.h
    def __eq__(self, o): return self is o      # interned
    def __ne__(self, o): return self is not o
    def is_const(self): return not self.co

    def __repr__(self):
        s = []
        for a, k in self.co:
            n = a if isinstance(a, str) else "%s(%s)" % (a[0], ",".join(map(str, a[1:])))
            s.append(n if k == 1 else ("-" + n if k == -1 else "%d*%s" % (k, n)))
        if self.c or not s:
            s.append(str(self.c))
        return "+".join(s).replace("+-", "-")


def ie(x):
    if isinstance(x, IE): return x
    if isinstance(x, bool): return IE((), int(x))
    if isinstance(x, int): return IE((), x)
    raise TypeError("ie(%r)" % (x,))


def isym(name): return IE(((name, 1),), 0)


def _akey(p):
    return (0, p[0]) if isinstance(p[0], str) else (1, repr(p[0]))


def _mk(d, c):
    it = [(a, k) for a, k in d.items() if k]
    it.sort(key=_akey)
    return IE(tuple(it), c)


def iadd(a, b):
    a, b = ie(a), ie(b)
    if not a.co: return IE(b.co, a.c + b.c)
    if not b.co: return IE(a.co, a.c + b.c)
    d = dict(a.co)
    for x, k in b.co: d[x] = d.get(x, 0) + k
    return _mk(d, a.c + b.c)


def iscale(a, k):
    a = ie(a)
    if k == 0: return IE((), 0)
    return IE(tuple((x, c * k) for x, c in a.co), a.c * k)


def isub(a, b): return iadd(a, iscale(b, -1))
def ineg(a): return iscale(a, -1)


def imul(a, b):
    a, b = ie(a), ie(b)
    if a.is_const(): return iscale(b, a.c)
    if b.is_const(): return iscale(a, b.c)
    if repr(a) > repr(b): a, b = b, a
    return IE(((("mul", a, b), 1),), 0)


def iop(op, *args):
    """opaque integer operation: fdiv, mod, max, min, sub, subinv, rint ..."""
    args = tuple(ie(a) if isinstance(a, int) else a for a in args)
    ii = all(isinstance(a, IE) and a.is_const() for a in args)
    if ii and op in ("fdiv", "mod", "max", "min"):
        v = [a.c for a in args]
        return ie({"fdiv": lambda: v[0] // v[1], "mod": lambda: v[0] % v[1], "max": lambda: max(v), "min": lambda: min(v)}[op]())
    if op in ("fdiv", "mod") and args[1].is_const() and args[1].c > 1:
        m, x = args[1].c, args[0]
        hi = IE(tuple((a, k // m) for a, k in x.co if k % m == 0), x.c // m)
        if hi.co or hi.c:
            lo = IE(tuple((a, k) for a, k in x.co if k % m), x.c % m)
            r = iop(op, lo, args[1]) if not lo.is_const() else ie(lo.c // m if op == "fdiv" else lo.c % m)
            return iadd(hi, r) if op == "fdiv" else r
    if op in ("max", "min") and args[0] is args[1]: return args[0]
    if op == "flat":          # (n, i_1..i_n, d_1..d_n) row-major position
        pass
    if op == "unflat":        # (m, j, d_1..d_n): m-th coordinate of position j
        j = args[1]
        if len(j.co) == 1 and j.c == 0 and j.co[0][1] == 1 and isinstance(j.co[0][0], tuple) and j.co[0][0][0] == "flat":
            a = j.co[0][0]
            n = a[1].c
            if a[2 + n:] == args[2:]: return a[2 + args[0].c]
    if op == "sub" and len(args) == 2 and isinstance(args[1], IE):
        m = args[1]
        if len(m.co) == 1 and m.c == 0 and m.co[0][1] == 1 and isinstance(m.co[0][0], tuple) and m.co[0][0][0] == "subinv" and m.co[0][0][1] == args[0]:
            return m.co[0][0][2]
    return IE((((op,) + args, 1),), 0)


def iconst(x):
    x = ie(x)
    return x.c if x.is_const() else None


# ------------------------------------------------------------------ Node
class Node:
    __slots__ = ("op", "a", "id", "real", "fs")
    _tab = {}
    _n = 0

    def __repr__(self): return show(self)
    def __hash__(self): return self.id


def mk(op, *a, real=False):
    key = (op, a)
    o = Node._tab.get(key)
    if o is None:
        o = Node()
        o.op, o.a, o.real = op, a, real
        Node._n += 1
        o.id = Node._n
        o.fs = None
        Node._tab[key] = o
    return o


def num(re, im=0):
    return mk("num", Fr(re), Fr(im), real=(im == 0))


def floatnum(x):
    """exact value of a python float literal, taken as the shortest decimal"""
    if isinstance(x, bool): return num(int(x))
    if isinstance(x, int): return num(x)
    if isinstance(x, float):
        if x != x: return mk("opq", "nan", real=True)
        if x in (float("inf"), float("-inf")): return mk("opq", "inf" if x > 0 else "-inf", real=True)
        return num(Fr(repr(x)))
    if isinstance(x, complex): return num(Fr(repr(x.real)), Fr(repr(x.imag)))
    if isinstance(x, Fr): return num(x)
    raise TypeError(x)


ZERO, ONE, I = num(0), num(1), num(0, 1)
TRUE, FALSE = mk("true"), mk("false")
PI = mk("opq", "pi", real=True)


def leaf(name, real, iargs=(), targs=()):
    return mk("leaf", name, tuple(ie(i) for i in iargs), tuple(targs), real=bool(real))


def fint(x):
    x = ie(x)
    if x.is_const(): return num(x.c)
    return mk("int", x, real=True)


def cmulnum(p, q): return (p[0] * q[0] - p[1] * q[1], p[0] * q[1] + p[1] * q[0])


def add(*ts):
    d, order, c = {}, [], (Fr(0), Fr(0))
    stack = list(ts)[::-1]
    while stack:
        t = stack.pop()
        if t.op == "num":
            c = (c[0] + t.a[0], c[1] + t.a[1]); continue
        if t.op == "add":
            stack.extend(t.a[::-1]); continue
        k, b = coef(t)
        if b.op == "int":
            pass
        if b in d: d[b] = (d[b][0] + k[0], d[b][1] + k[1])
        else: d[b] = k; order.append(b)
    out = []
    for b in order:
        k = d[b]
        if k == (0, 0): continue
        out.append(b if k == (1, 0) else mul(num(*k), b))
    out.sort(key=lambda t: t.id)
    if c != (0, 0): out.append(num(*c))
    if not out: return ZERO
    if len(out) == 1: return out[0]
    return mk("add", *out, real=all(t.real for t in out))


def coef(t):
    if t.op == "mul" and t.a[0].op == "num":
        rest = t.a[1:]
        return t.a[0].a, (rest[0] if len(rest) == 1 else mk("mul", *rest, real=all(x.real for x in rest)))
    return (Fr(1), Fr(0)), t


def mul(*ts):
    d, order, c = {}, [], (Fr(1), Fr(0))
    stack = list(ts)[::-1]
    while stack:
        t = stack.pop()
        if t.op == "num":
            c = cmulnum(c, t.a); continue
        if t.op == "mul":
            stack.extend(t.a[::-1]); continue
        if t.op == "pow" and isinstance(t.a[1], Fr):
            b, e = t.a
        else: b, e = t, Fr(1)
        if b in d:
            d[b] = d[b] + e
        else: d[b] = e; order.append(b)
    if c == (0, 0): return ZERO
    out = []
    for b in order:
        e = d[b]
        if e == 0: continue
        out.append(b if e == 1 else mkpow(b, e))
    out.sort(key=lambda t: t.id)
    # a pow may have produced a number (num base)
    nums = [t for t in out if t.op == "num"]
    for t in nums: c = cmulnum(c, t.a)
    out = [t for t in out if t.op != "num"]
    if c != (1, 0): out.insert(0, num(*c))
    if not out: return ONE
    if len(out) == 1: return out[0]
    if len(out) == 2 and out[0].op == "num" and out[1].op == "add":
        return add(*[mul(out[0], x) for x in out[1].a])
    return mk("mul", *out, real=all(t.real for t in out))


def mkpow(b, e):
    """b ** e for rational e; (b**x)**n merged only for integer n"""
    if e == 0: return ONE
    if e == 1: return b
    if b.op == "num" and e.denominator == 1:
        re, im = b.a
        if (re, im) == (0, 0):
            return ZERO if e > 0 else mk("pow", b, e, real=True)
        n = abs(e.numerator)
        r = (Fr(1), Fr(0))
        base = (re, im)
        while n:
            if n & 1: r = cmulnum(r, base)
            base = cmulnum(base, base); n >>= 1
        if e < 0:
            q = r[0] ** 2 + r[1] ** 2
            r = (r[0] / q, -r[1] / q)
        return num(*r)
    if b.op == "num" and b.a[1] == 0 and b.a[0] > 0 and e.denominator == 2:
        from math import isqrt
        p, q = b.a[0].numerator, b.a[0].denominator
        if isqrt(p) ** 2 == p and isqrt(q) ** 2 == q:
            return mkpow(num(Fr(isqrt(p), isqrt(q))), Fr(e.numerator))
    if e.denominator == 1:
        if b.op == "pow" and isinstance(b.a[1], Fr): return mkpow(b.a[0], b.a[1] * e)
        if b.op == "mul": return mul(*[mkpow(x, e) for x in b.a])
        return mk("pow", b, e, real=b.real)
    if b.op == "pow" and isinstance(b.a[1], Fr) and nonneg(b.a[0]): return mkpow(b.a[0], b.a[1] * e)
    if b.op == "mul":                      # pull nonnegative factors out of a root
        pos = [x for x in b.a if nonneg(x)]
        rest = [x for x in b.a if not nonneg(x)]
        if b.a[0].op == "num" and b.a[0].a[1] == 0 and b.a[0].a[0] < 0:
            pos.append(num(-b.a[0].a[0])); rest[rest.index(b.a[0])] = num(-1)
        if pos and (rest or len(pos) > 1):
            return mul(*[mkpow(x, e) for x in pos], *([mkpow(mul(*rest), e)] if rest else []))
    # fractional: real only if base known nonnegative
    return mk("pow", b, e, real=nonneg(b))


def nonneg(t):
    if t.op == "num": return t.a[1] == 0 and t.a[0] >= 0
    if t.op in ("abs", "nn"): return True
    if t.op == "opq" and t.a[0] == "pi": return True
    if t.op == "leaf" and t.a[0].endswith("+"): return True
    if t.op == "pow":
        if isinstance(t.a[1], Fr):
            if t.a[1].denominator == 1 and t.a[1].numerator % 2 == 0: return t.a[0].real
            return nonneg(t.a[0])
        return False
    if t.op == "mul":
        if all(nonneg(x) for x in t.a): return True
        return False
    if t.op == "add": return all(nonneg(x) for x in t.a)
    if t.op == "exp": return t.a[0].real
    if t.op == "ite": return nonneg(t.a[1]) and nonneg(t.a[2])
    if t.op in ("sum", "maxr", "detach"): return nonneg(t.a[-1])
    if t.op == "max2": return nonneg(t.a[0]) or nonneg(t.a[1])
    if t.op == "min2": return nonneg(t.a[0]) and nonneg(t.a[1])
    return False


def neg(t): return mul(num(-1), t)
def sub(a, b): return add(a, neg(b))
def div(a, b): return mul(a, mkpow(b, Fr(-1)))


def powt(b, e):
    """general power, e a Node or number"""
    if isinstance(e, (int, Fr)): return mkpow(b, Fr(e))
    if e.op == "num" and e.a[1] == 0:
        return mkpow(b, e.a[0])
    if e.op == "int" or (e.op in ("add", "mul") and int_of(e) is not None):
        ee = int_of(e)
        if ee.is_const(): return mkpow(b, Fr(ee.c))
        return mk("powi", b, ee, real=b.real)
    return mk("powg", b, e, real=nonneg(b) and e.real)


def int_of(t):
    """IE equal to the (integer valued) term, or None"""
    if t.op == "num":
        return ie(int(t.a[0])) if t.a[1] == 0 and t.a[0].denominator == 1 else None
    if t.op == "int": return t.a[0]
    if t.op == "add":
        r = ie(0)
        for x in t.a:
            v = int_of(x)
            if v is None: return None
            r = iadd(r, v)
        return r
    if t.op == "mul":
        r = ie(1)
        for x in t.a:
            v = int_of(x)
            if v is None: return None
            r = imul(r, v)
        return r
    return None


_conj = {}


def conj(t):
    if t.real: return t
    r = _conj.get(t)
    if r is not None: return r
    op, a = t.op, t.a
    if op == "num": r = num(a[0], -a[1])
    elif op == "add": r = add(*[conj(x) for x in a])
    elif op == "mul": r = mul(*[conj(x) for x in a])
    elif op == "pow": r = mkpow(conj(a[0]), a[1])
    elif op == "powi": r = mk("powi", conj(a[0]), a[1])
    elif op in ("exp", "sin", "cos", "log"): r = fn1(op, conj(a[0]))
    elif op == "ite": r = ite(a[0], conj(a[1]), conj(a[2]))
    elif op == "sum": r = mk("sum", a[0], a[1], a[2], conj(a[3]))
    elif op == "detach": r = mk("detach", conj(a[0]))
    elif op == "conj": r = a[0]
    elif op == "leaf" and a[0] in ("psi", "jn", "yn", "chi"):
        r = mk("leaf", a[0], a[1], tuple(conj(x) for x in a[2]), real=False)
    else: r = mk("conj", t)
    _conj[t] = r
    return r


HALF = num(Fr(1, 2))
def re(t): return t if t.real else asreal(mul(HALF, add(t, conj(t))))
def im(t): return ZERO if t.real else asreal(mul(num(0, Fr(-1, 2)), sub(t, conj(t))))


def asreal(t):
    if t.real: return t
    return mk("rl", t, real=True)


def asnonneg(t):
    """a term known to be real and non-negative"""
    return t if nonneg(t) else mk("nn", t, real=True)


def absv(t):
    if nonneg(t): return t
    if t.op == "num":
        if t.a[1] == 0: return num(abs(t.a[0]))
        return mkpow(num(t.a[0] ** 2 + t.a[1] ** 2), Fr(1, 2))
    if t.op == "mul": return mul(*[absv(x) for x in t.a])
    if t.op == "pow" and isinstance(t.a[1], Fr) and t.a[1].denominator == 1: return mkpow(absv(t.a[0]), t.a[1])
    if t.op == "conj": t = t.a[0]
    if t.op in ("detach",): return detach(absv(t.a[0]))
    if t.op == "add" and t.a[0].op == "mul" and t.a[0].a[0].op == "num" and t.real and t.a[0].a[0].a[0] < 0: t = neg(t)
    return mk("abs", t, real=True)


def abs2(t): return mul(t, conj(t)) if not t.real else mkpow(t, Fr(2))


def quarters(t):
    """(q, u) with t = q pi/2 + u for an integer q, or None"""
    for x in (t.a if t.op == "add" else (t,)):
        c = ONE if x is PI else x.a[1 - x.a.index(PI)] if x.op == "mul" and len(x.a) == 2 and PI in x.a else None
        if c is not None and c.op == "num" and c.a[1] == 0 and (2 * c.a[0]).denominator == 1: return int(2 * c.a[0]), sub(t, x)
    return None


def fn1(name, t):
    if name in ("sin", "cos"):
        q = quarters(t)
        if q is not None:
            k = (q[0] + (name == "cos")) % 4                  # sin(u + k pi/2)
            r = fn1("cos" if k % 2 else "sin", q[1])
            return neg(r) if k >= 2 else r
        if t.op == "mul" and any(x.op == "num" and x.a[1] == 0 and x.a[0] < 0 for x in t.a):
            r = fn1(name, neg(t))
            return neg(r) if name == "sin" else r
    if name == "exp":
        if t is ZERO: return ONE
        if t.op == "log": return t.a[0]
        return mk("exp", t, real=t.real)
    if name == "log":
        if t is ONE: return ZERO
        return mk("log", t, real=nonneg(t))
    if name == "sin":
        if t is ZERO: return ZERO
        if t.op == "acos":
            return mkpow(asnonneg(sub(ONE, mkpow(t.a[0], Fr(2)))), Fr(1, 2))       # acos is defined for |t| <= 1
        if t.op == "atan2":
            y, x = t.a
            return div(y, mkpow(add(mkpow(x, Fr(2)), mkpow(y, Fr(2))), Fr(1, 2)))
        if t is PI: return ZERO
        return mk("sin", t, real=t.real)
    if name == "cos":
        if t is ZERO: return ONE
        if t.op == "acos": return t.a[0]
        if t.op == "atan2":
            y, x = t.a
            return div(x, mkpow(add(mkpow(x, Fr(2)), mkpow(y, Fr(2))), Fr(1, 2)))
        if t is PI: return num(-1)
        return mk("cos", t, real=t.real)
    if name == "acos": return mk("acos", t, real=True)
    if name in ("round", "floor", "ceil", "trunc"):
        if int_of(t) is not None: return t
        return mk(name, t, real=True)
    if name == "lgamma": return mk("lgamma", t, real=True)
    if name == "sign": return mk("sign", t, real=True)
    return mk("fn_" + name, t, real=t.real)


def detach(t):
    if int_of(t) is not None: return t
    if t.op in ("num", "int", "detach") or (t.op == "opq"): return t
    return mk("detach", t, real=t.real)


def strip_detach(t):
    if not has_detach(t): return t
    return rewrite(t, lambda x: x.a[0] if x.op == "detach" else None)


# ------------------------------------------------------------------ booleans
def icmp(op, a, b):
    """op in == < <= ; a,b IE"""
    d = isub(a, b)
    if op == "<": d = iadd(d, 1); op = "<="      # a<b  <=> a-b+1<=0
    if d.is_const():
        return TRUE if (d.c == 0 if op == "==" else d.c <= 0) else FALSE
    if op == "==":
        if d.co[0][1] < 0: d = ineg(d)
    return mk("i" + op, d)


def fcmp(op, a, b):
    """op in == < <= on real (or complex for ==) terms"""
    ia, ib = int_of(a), int_of(b)
    if ia is not None and ib is not None: return icmp(op, ia, ib)
    if a is b: return FALSE if op == "<" else TRUE
    if a.op == "num" and b.op == "num":
        if op == "==": return TRUE if a.a == b.a else FALSE
        if a.a[1] == 0 and b.a[1] == 0:
            return TRUE if (a.a[0] < b.a[0] if op == "<" else a.a[0] <= b.a[0]) else FALSE
    if op in ("<",) and b.op == "num" and b.a[0] <= 0 and b.a[1] == 0 and nonneg(a): return FALSE
    if op == "==":
        for s, z in ((a, b), (b, a)):
            if s.op == "ite" and {s.a[1], s.a[2]} == {ZERO, ONE} and (z is ZERO or z is ONE):
                return s.a[0] if s.a[1] is z else bnot(s.a[0])
    # x - y < 0 is x < y
    for s, z, lhs in ((a, b, True), (b, a, False)):
        if z is ZERO and s.op == "add" and len(s.a) == 2 and s.real:
            (k1, x), (k2, y) = coef(s.a[0]), coef(s.a[1])
            if {k1, k2} == {(1, 0), (-1, 0)}:
                if k1 != (1, 0): x, y = y, x
                return fcmp(op, x, y) if lhs else fcmp(op, y, x)
    return mk("f" + op, a, b)


def bnot(x):
    if x is TRUE: return FALSE
    if x is FALSE: return TRUE
    if x.op == "not": return x.a[0]
    if x.op == "i<=":   # not d<=0  <=> -d+1<=0
        return mk("i<=", iadd(ineg(x.a[0]), 1))
    if x.op == "f<": return fcmp("<=", x.a[1], x.a[0])
    if x.op == "f<=": return fcmp("<", x.a[1], x.a[0])
    return mk("not", x)


def band(*xs):
    out = []
    for x in xs:
        if x is FALSE: return FALSE
        if x is TRUE: continue
        if x.op == "and": out += [y for y in x.a if y not in out]
        elif x not in out: out.append(x)
    for x in out:
        if bnot(x) in out: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk("and", *out)


def bor(*xs): return bnot(band(*[bnot(x) for x in xs]))


def quant(kind, var, lo, hi, body):
    """forall/exists var in [lo,hi) : body"""
    if kind == "exists": return bnot(quant("forall", var, lo, hi, bnot(body)))
    if body is TRUE: return TRUE
    n = iconst(isub(hi, lo))
    if n is not None and n <= 8:
        l = [subst(body, {var: iadd(lo, i)}) for i in range(max(n, 0))]
        return band(*l) if kind == "forall" else bor(*l)
    return mk(kind, *_rename(var, body, lo, hi))


def last(var, lo, hi, cond, val, els):
    """val at the last var in [lo,hi) with cond, els without any"""
    lo, hi = ie(lo), ie(hi)
    n = iconst(isub(hi, lo))
    if n is not None and n <= 8:
        r = els
        for i in range(max(n, 0)):
            m = {var: iadd(lo, i)}
            r = ite(subst(cond, m), subst(val, m), r)
        return r
    d = max(bdepth(cond), bdepth(val))
    free = (freesyms(cond) | freesyms(val)) - {var}
    while "@%d" % d in free: d += 1
    nv = "@%d" % d
    if nv != var: cond, val = subst(cond, {var: isym(nv)}), subst(val, {var: isym(nv)})
    return mk("last", nv, lo, hi, cond, val, els, real=val.real and els.real)


def _rename(var, body, lo, hi):
    """canonical bound variable (de Bruijn-like by depth of binder nesting)"""
    d = bdepth(body)
    free = freesyms(body) - {var}
    while "@%d" % d in free: d += 1        # never capture an outer bound variable
    nv = "@%d" % d
    if nv != var: body = subst(body, {var: isym(nv)})
    return nv, lo, hi, body


_bd = {}


def bdepth(t):
    r = _bd.get(t)
    if r is not None: return r
    r = 0
    for x in children(t):
        if x.op in ("sum", "maxr", "minr", "forall", "exists", "last", "prod"): r = max(r, bdepth(x))
        else: r = max(r, bdepth(x))
    if t.op in ("sum", "maxr", "minr", "forall", "exists", "last", "prod"): r += 1
    _bd[t] = r
    return r


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == "not": return ite(c.a[0], b, a)
    if a.op == "ite" and a.a[0] is c: a = a.a[1]
    if b.op == "ite" and b.a[0] is c: b = b.a[2]
    if a is b: return a
    return mk("ite", c, a, b, real=a.real and b.real)


def ssum(var, lo, hi, body):
    """sum_{var=lo}^{hi-1} body, var a symbol name"""
    lo, hi = ie(lo), ie(hi)
    if body is ZERO: return ZERO
    n = iconst(isub(hi, lo))
    if n is not None and n <= 8:
        return add(*[subst(body, {var: iadd(lo, i)}) for i in range(max(n, 0))])
    body = subst(body, {var: iadd(isym(var), lo)})
    v, l, h, body = _rename(var, body, ie(0), isub(hi, lo))
    return mk("sum", v, l, h, body, real=body.real)


def red(kind, var, lo, hi, body):
    """maxr / minr / prod over var in [lo,hi)"""
    lo, hi = ie(lo), ie(hi)
    n = iconst(isub(hi, lo))
    if n == 1: return subst(body, {var: lo})
    if kind in ("maxr", "minr"):
        b = int_of(strip_detach(body))
        if b is not None:
            k = dict((a, q) for a, q in b.co if isinstance(a, str)).get(var, 0)
            if k and var not in ie_syms(isub(b, iscale(isym(var), k))):
                return fint(isubst(b, {var: isub(hi, 1) if (k > 0) == (kind == "maxr") else lo}))
    if n is not None and n <= 8:
        l = [subst(body, {var: iadd(lo, i)}) for i in range(max(n, 0))]
        if kind == "prod": return mul(*l)
        r = l[0]
        for x in l[1:]: r = max2(r, x) if kind == "maxr" else min2(r, x)
        return r
    if kind in ("maxr", "minr") and var not in freesyms(body): return body
    body = subst(body, {var: iadd(isym(var), lo)})
    v, l, h, body = _rename(var, body, ie(0), isub(hi, lo))
    return mk(kind, v, l, h, body, real=body.real)


def max2(a, b):
    if a is b: return a
    if a.op == "num" and b.op == "num": return a if a.a[0] >= b.a[0] else b
    if a.id > b.id: a, b = b, a
    return mk("max2", a, b, real=True)


def min2(a, b):
    if a is b: return a
    if a.op == "num" and b.op == "num": return a if a.a[0] <= b.a[0] else b
    if a.id > b.id: a, b = b, a
    return mk("min2", a, b, real=True)


# ------------------------------------------------------------------ traversal
def children(t):
    op, a = t.op, t.a
    if op in ("num", "int", "opq", "true", "false", "i==", "i<="): return _iechildren(t)
    if op == "leaf": return tuple(a[2]) + _iechildren(t)
    if op in ("sum", "maxr", "minr", "prod", "forall", "exists"): return (a[3],) + _iechildren(t)
    if op == "last": return (a[3], a[4], a[5]) + _iechildren(t)
    if op in ("pow", "powi"): return (a[0],) + _iechildren(t)
    return tuple(x for x in a if isinstance(x, Node))


def _iechildren(t):
    out = ()
    for x in t.a:
        if isinstance(x, IE): out += _ienodes(x)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, IE): out += _ienodes(y)
    return out


def _ienodes(x):
    out = ()
    for a, k in x.co:
        if isinstance(a, tuple):
            for y in a[1:]:
                if isinstance(y, Node): out += (y,)
                elif isinstance(y, IE): out += _ienodes(y)
    return out


def ie_syms(x):
    s = set()
    for a, k in x.co:
        if isinstance(a, str): s.add(a)
        else:
            for y in a[1:]:
                if isinstance(y, IE): s |= ie_syms(y)
                elif isinstance(y, Node): s |= freesyms(y)
    return s


_E = frozenset()


def freesyms(t):
    if t.fs is not None: return t.fs
    s = set()
    for x in t.a:
        if isinstance(x, IE): s |= ie_syms(x)
        elif isinstance(x, Node): s |= freesyms(x)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, IE): s |= ie_syms(y)
                elif isinstance(y, Node): s |= freesyms(y)
    if t.op in ("sum", "maxr", "minr", "prod", "forall", "exists", "last"): s.discard(t.a[0])
    t.fs = frozenset(s)
    return t.fs


def isubst(x, m, memo=None):
    if not x.co: return x
    if not (ie_syms(x) & m.keys()): return x
    r = ie(x.c)
    for a, k in x.co:
        if isinstance(a, str):
            v = m.get(a)
            r = iadd(r, iscale(v, k) if v is not None else IE(((a, k),), 0))
        else:
            args = [isubst(y, m) if isinstance(y, IE) else (subst(y, m) if isinstance(y, Node) else y) for y in a[1:]]
            if a[0] == "mul": v = imul(*args)
            else: v = iop(a[0], *args)
            r = iadd(r, iscale(v, k))
    return r


def rebuild(t, fN, fI):
    """apply fN to Node children, fI to IE children and rebuild with simplification"""
    op, a = t.op, t.a
    if op in ("num", "opq", "true", "false"): return t
    if op == "int": return fint(fI(a[0]))
    if op == "leaf":
        return mk("leaf", a[0], tuple(fI(x) for x in a[1]), tuple(fN(x) for x in a[2]), real=t.real)
    if op == "add": return add(*[fN(x) for x in a])
    if op == "mul": return mul(*[fN(x) for x in a])
    if op == "pow": return mkpow(fN(a[0]), a[1])
    if op == "powi": return powt(fN(a[0]), fint(fI(a[1])))
    if op == "powg": return powt(fN(a[0]), fN(a[1]))
    if op in ("exp", "log", "sin", "cos", "acos", "round", "floor", "ceil", "trunc", "lgamma", "sign"): return fn1(op, fN(a[0]))
    if op.startswith("fn_"): return fn1(op[3:], fN(a[0]))
    if op == "abs": return absv(fN(a[0]))
    if op == "rl": return asreal(fN(a[0]))
    if op == "nn": return asnonneg(fN(a[0]))
    if op == "conj": return conj(fN(a[0]))
    if op == "detach": return detach(fN(a[0]))
    if op == "ite": return ite(fN(a[0]), fN(a[1]), fN(a[2]))
    if op == "i==": return icmp("==", fI(a[0]), 0)
    if op == "i<=": return icmp("<=", fI(a[0]), 0)
    if op in ("f==", "f<", "f<="): return fcmp(op[1:], fN(a[0]), fN(a[1]))
    if op == "not": return bnot(fN(a[0]))
    if op == "and": return band(*[fN(x) for x in a])
    if op == "max2": return max2(fN(a[0]), fN(a[1]))
    if op == "min2": return min2(fN(a[0]), fN(a[1]))
    if op == "atan2": return mk("atan2", fN(a[0]), fN(a[1]), real=True)
    if op == "sum": return ssum(a[0], fI(a[1]), fI(a[2]), fN(a[3]))
    if op in ("maxr", "minr", "prod"): return red(op, a[0], fI(a[1]), fI(a[2]), fN(a[3]))
    if op in ("forall", "exists"): return quant(op, a[0], fI(a[1]), fI(a[2]), fN(a[3]))
    if op == "last": return last(a[0], fI(a[1]), fI(a[2]), fN(a[3]), fN(a[4]), fN(a[5]))
    return mk(op, *[fN(x) if isinstance(x, Node) else (fI(x) if isinstance(x, IE) else x) for x in a], real=t.real)


_fresh = [0]


def fresh(p="v"):
    _fresh[0] += 1
    return "%s$%d" % (p, _fresh[0])


def subst(t, m):
    """substitute integer symbols (name -> IE)"""
    m = {k: v for k, v in m.items()}
    memo = {}
    keys = m.keys()

    def go(x):
        if not (freesyms(x) & keys): return x
        r = memo.get(x)
        if r is None:
            if x.op in ("sum", "maxr", "minr", "prod", "forall", "exists", "last"):
                # avoid capture: bound variable renamed if it occurs in the substituted values
                bv = x.a[0]
                bad = any(bv in ie_syms(v) for v in m.values())
                if bad or bv in keys:
                    nv = fresh("b")
                    x2 = mk(x.op, nv, x.a[1], x.a[2], *[subst(y, {bv: isym(nv)}) for y in x.a[3:]], real=x.real)
                    r = rebuild(x2, go, lambda i: isubst(i, m))
                else: r = rebuild(x, go, lambda i: isubst(i, m))
            else:
                r = rebuild(x, go, lambda i: isubst(i, m))
            memo[x] = r
        return r
    return go(t)


def rewrite(t, f):
    """bottom-up rewrite: f(node) -> node or None (after children were rewritten)"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            y = rebuild(x, go, goI)
            z = f(y)
            r = memo[x] = y if z is None else z
        return r

    def goI(x):
        if not any(isinstance(a, tuple) for a, k in x.co): return x
        r = ie(x.c)
        for a, k in x.co:
            if isinstance(a, str): v = IE(((a, 1),), 0)
            else:
                args = [goI(y) if isinstance(y, IE) else (go(y) if isinstance(y, Node) else y) for y in a[1:]]
                v = imul(*args) if a[0] == "mul" else iop(a[0], *args)
            r = iadd(r, iscale(v, k))
        return r
    return go(t)


def walk(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        yield x
        st.extend(children(x))


def leaves(t):
    return [x for x in walk(t) if x.op == "leaf"]


def has_detach(t):
    return any(x.op == "detach" for x in walk(t))


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if d > 7: return "…"
    op, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if op == "num":
        if a[1] == 0: return str(a[0])
        if a[0] == 0: return "%sj" % a[1]
        return "(%s+%sj)" % a
    if op == "int": return "[%s]" % a[0]
    if op == "opq": return a[0]
    if op == "leaf": return "%s(%s)" % (a[0], ",".join([str(x) for x in a[1]] + [s(x) for x in a[2]]))
    if op == "add": return "(" + " + ".join(s(x) for x in a) + ")"
    if op == "mul": return "*".join(s(x) for x in a)
    if op in ("pow", "powi"): return "%s^(%s)" % (s(a[0]), a[1])
    if op == "sum": return "Σ_{%s=%s..%s-1}(%s)" % (a[0], a[1], a[2], s(a[3]))
    if op in ("i==", "i<="): return "%s%s0" % (a[0], op[1:])
    if op in ("f==", "f<", "f<="): return "%s %s %s" % (s(a[0]), op[1:], s(a[1]))
    if op in ("true", "false"): return op
    return "%s(%s)" % (op, ",".join(s(x) if isinstance(x, Node) else str(x) for x in a))
