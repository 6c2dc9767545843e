"""Symbolic tensors: shape (tuple of IE) + storage with an element function idx -> Node."""
from fractions import Fraction as Fr
from core import *


class Unsup(Exception):
    """construct outside the verifier's subset"""


class PyExc(Exception):
    """a Python exception raised by the interpreted program"""
    def __init__(self, cls, msg="", value=None):
        Exception.__init__(self, "%s: %s" % (cls, msg))
        self.cls, self.msg, self.value = cls, msg, value


class Restart(Exception): pass


cur = None          # current Run (set by explore)


def run(): return cur[0]


cur = [None]

FLOATS = ("f16", "f32", "f64")
COMPLEX = ("c64", "c128")
INTS = ("u8", "i8", "i16", "i32", "i64")
RANK = {"bool": 0, "u8": 1, "i8": 1, "i16": 2, "i32": 3, "i64": 4, "f16": 5, "f32": 6, "f64": 7, "c64": 8, "c128": 9}
PREC = {"f16": 0, "f32": 1, "f64": 2, "c64": 1, "c128": 2}


def cat(dt): return 0 if dt == "bool" else 1 if dt in INTS else 2 if dt in FLOATS else 3


def promote(items):
    """torch result_type; items: list of (dtype, weight) weight 2 = dimensioned, 1 = 0-dim tensor, 0 = python scalar"""
    res = None
    for w in (2, 1, 0):
        grp = [d for d, ww in items if ww == w]
        if not grp: continue
        g = grp[0]
        for d in grp[1:]: g = join(g, d)
        if res is None: res = g if w else {"f64": "f32", "c128": "c64"}.get(g, g)
        elif cat(g) > cat(res):
            if w == 0:
                if g == "f64" and cat(res) < 2: res = "f32"
                elif g == "c128": res = "c128" if res == "f64" else "c64"
                else: res = g
            else:
                if cat(g) == 3 and cat(res) == 2: res = "c128" if res == "f64" or False else "c64"
                else: res = g
    return res


def join(a, b):
    if a == b: return a
    if cat(a) == 3 or cat(b) == 3:
        p = max(PREC.get(a, 0), PREC.get(b, 0))
        return "c128" if p == 2 else "c64"
    return a if RANK[a] >= RANK[b] else b


class Storage:
    __slots__ = ("f", "owner", "memo", "ver", "id", "nd")
    def __init__(self, f, owner=None, nd=None):
        self.f, self.owner, self.memo, self.ver, self.nd = f, owner, {}, 0, nd
        R = cur[0]
        self.id = 0
        if R is not None:
            self.id = R.newid()
            R.objs[self.id] = self

    def get(self, idx):
        r = self.memo.get(idx)
        if r is None:
            r = self.memo[idx] = self.f(idx)
        return r

    def reader(self):
        f, memo = self.f, self.memo
        def g(idx):
            r = memo.get(idx)
            if r is None: r = memo[idx] = f(idx)
            return r
        return g

    def set(self, f):
        self.f, self.memo = f, {}
        self.ver += 1


def nz(d):
    """normalise a dim under the path's solved equalities"""
    d = ie(d)
    R = cur[0]
    return isubst(d, R.ctx.isubst) if R and R.ctx.isubst else d


class T:
    """tensor view: shape, dtype, storage, vmap (view idx -> storage idx), inv (storage idx -> (cond, view idx))"""
    def __init__(self, shape, f=None, dtype="f64", owner=None, store=None, vmap=None, inv=None, lib="torch", grad=False):
        self.shape = tuple(ie(s) for s in shape)
        self.dtype = dtype
        self.store = store if store is not None else Storage(f, owner, len(self.shape))
        self.vmap, self.inv = vmap, inv
        self.lib = lib
        self.grad = grad
        self.part = None
        self.attrs = {}

    @property
    def ndim(self): return len(self.shape)

    def reader(self):
        g = self.store.reader()
        if self.vmap is None:
            h = g
        else:
            vm = self.vmap
            h = lambda idx: g(vm(idx))
        if self.part == "re": return lambda idx: re(h(idx))
        if self.part == "im": return lambda idx: im(h(idx))
        return h

    def at(self, *idx):
        return self.reader()(tuple(ie(i) for i in idx))

    def view(self, shape, fwd, back):
        """fwd: new idx -> this idx ; back: this idx -> (cond, new idx) or None"""
        vm0, inv0 = self.vmap, self.inv
        vm = fwd if vm0 is None else (lambda idx: vm0(fwd(idx)))
        if back is None: inv = "none"
        elif inv0 is None: inv = back
        elif inv0 == "none": inv = "none"
        else:
            def inv(b):
                c, i = inv0(b)
                c2, j = back(i)
                return band(c, c2), j
        r = T(shape, dtype=self.dtype, store=self.store, vmap=vm, inv=inv, lib=self.lib)
        r.part = self.part
        return r

    def write(self, cond_val):
        """cond_val: view idx -> (cond, Node value); performs a guarded in-place update"""
        R = cur[0]
        st = self.store
        if st.owner: R.event("write", st.owner)
        if self.part: raise Unsup("write through .real/.imag")
        old = st.reader()
        if self.inv is None:
            def f(b):
                c, v = cond_val(b)
                if c is FALSE: return old(b)
                return ite(c, v() , old(b))
        elif self.inv == "none": raise Unsup("write through non-invertible view")
        else:
            inv = self.inv
            def f(b):
                c0, i = inv(b)
                if c0 is FALSE: return old(b)
                c, v = cond_val(i)
                c = band(c0, c)
                if c is FALSE: return old(b)
                return ite(c, v(), old(b))
        st.set(f)
        R.mutated(st)

    def fresh(self):
        """independent copy"""
        return T(self.shape, self.reader(), self.dtype, lib=self.lib)

    def __repr__(self): return "T%s:%s" % (list(self.shape), self.dtype)


class SNum:
    """symbolic python number (float / complex)"""
    def __init__(self, node, kind="float"): self.node, self.kind = node, kind
    def __repr__(self): return "SNum(%s)" % self.node


class SBool:
    def __init__(self, node): self.node = node
    def __repr__(self): return "SBool(%s)" % self.node


def is_scalar(x): return isinstance(x, (int, float, complex, IE, SNum, SBool, bool))


def node_of(x):
    """scalar value -> Node"""
    if isinstance(x, bool): return num(int(x))
    if isinstance(x, (int, float, complex, Fr)): return floatnum(x)
    if isinstance(x, IE): return fint(x)
    if isinstance(x, SNum): return x.node
    if isinstance(x, SBool): return b2n(x.node)
    if isinstance(x, T):
        if x.ndim == 0: return x.at()
        raise Unsup("tensor used as scalar")
    raise Unsup("scalar of %r" % (x,))


def b2n(c):
    if c is TRUE: return ONE
    if c is FALSE: return ZERO
    return ite(c, ONE, ZERO)


def n2b(t):
    """numeric node interpreted as truth value"""
    if t.op == "ite" and t.a[1] is ONE and t.a[2] is ZERO: return t.a[0]
    if t.op == "ite" and t.a[1] is ZERO and t.a[2] is ONE: return bnot(t.a[0])
    if t is ONE: return TRUE
    if t is ZERO: return FALSE
    if t.op in ("true", "false", "i==", "i<=", "f==", "f<", "f<=", "not", "and", "forall", "exists"): return t
    return bnot(fcmp("==", t, ZERO))


def scalar_dtype(x):
    if isinstance(x, (bool, SBool)): return "bool"
    if isinstance(x, (int, IE)): return "i64"
    if isinstance(x, float): return "f64"
    if isinstance(x, complex): return "c128"
    if isinstance(x, SNum): return "c128" if x.kind == "complex" else "f64"
    raise Unsup("dtype of %r" % (x,))


def same(a, b):
    """decide a == b (dims) on this path; None if open"""
    a, b = nz(a), nz(b)
    if a is b: return True
    return cur[0].ctx.decide(icmp("==", a, b))


def bdim(a, b, what="broadcast"):
    """broadcast two dims -> (dim, a_is_one, b_is_one)"""
    a, b = nz(a), nz(b)
    if a is b: return a, False, False
    ca, cb = iconst(a), iconst(b)
    if ca == 1 and cb == 1: return a, False, False
    if ca == 1: return b, True, False
    if cb == 1: return a, False, True
    R = cur[0]
    if R.branch(icmp("==", a, b)): return a, False, False
    if R.branch(icmp("==", a, 1)): return b, True, False
    if R.branch(icmp("==", b, 1)): return a, False, True
    raise PyExc("RuntimeError", "size mismatch in %s: %s vs %s" % (what, a, b))


def broadcast_shapes(shapes, what="broadcast"):
    """-> (shape, [index mappers])"""
    n = max((len(s) for s in shapes), default=0)
    res = [ie(1)] * n
    ones = [[False] * n for _ in shapes]
    first = [None] * n
    for k in range(n):
        d = None
        for j, s in enumerate(shapes):
            o = k - (n - len(s))
            if o < 0: continue
            if d is None: d = nz(s[o]); continue
            d2, x, y = bdim(d, s[o], what)
            d = d2
        res[k] = d
    for j, s in enumerate(shapes):
        for k in range(n):
            o = k - (n - len(s))
            if o < 0: continue
            sd = nz(s[o])
            if sd is not nz(res[k]):
                if iconst(sd) == 1: ones[j][k] = True
                elif same(sd, res[k]): pass
                elif same(sd, 1): ones[j][k] = True
                else: raise Unsup("broadcast bookkeeping %s %s" % (sd, res[k]))
            elif iconst(sd) == 1: ones[j][k] = True
    maps = []
    for j, s in enumerate(shapes):
        off = n - len(s)
        on = tuple(ones[j][off:])
        if off == 0 and not any(on): maps.append(None)
        else:
            def m(idx, off=off, on=on):
                return tuple(ie(0) if o else i for o, i in zip(on, idx[off:]))
            maps.append(m)
    return tuple(res), maps


NARROW = {"u8": (0, 255), "i8": (-128, 127), "i16": (-32768, 32767)}


def wrap_(v, d):
    """a value stored in one of the narrow integer types: wraps around unless it provably fits
    (the 32 and 64 bit types are treated as mathematical integers)"""
    lo, hi = NARROW[d]
    if v.op == "ite": return ite(v.a[0], wrap_(v.a[1], d), wrap_(v.a[2], d))
    k = int_of(strip_detach(v))
    if k is None:
        if v.op in ("opq", "fn", "re", "im"): return v
        raise Unsup("arithmetic in a narrow integer type")
    if k.is_const(): return num((k.c - lo) % (hi - lo + 1) + lo)
    if cur[0].ctx.decide(band(icmp("<=", lo, k), icmp("<=", k, hi))) is True: return v
    return fint(iadd(iop("mod", isub(k, lo), ie(hi - lo + 1)), lo))


def narrow(f, d):
    if d not in NARROW: return f
    return lambda *a: wrap_(f(*a), d)


def ew(fn, args, dtype, lib=None):
    """elementwise op; args tensors/scalars"""
    fn = narrow(fn, dtype)
    ts = [a for a in args if isinstance(a, T)]
    if not ts:
        ns = [node_of(a) for a in args]
        v = fn(*ns)
        return T((), lambda idx: v, dtype, lib=lib or "torch")
    shape, maps = broadcast_shapes([t.shape for t in ts])
    rds = []
    k = 0
    for a in args:
        if isinstance(a, T):
            r, m = a.reader(), maps[k]
            k += 1
            rds.append(r if m is None else (lambda idx, r=r, m=m: r(m(idx))))
        else:
            v = node_of(a)
            rds.append(lambda idx, v=v: v)
    return T(shape, lambda idx: fn(*[r(idx) for r in rds]), dtype, lib=lib or ts[0].lib)


def weight(a): return (2 if a.ndim else 1) if isinstance(a, T) else 0
def dtype_of(a): return a.dtype if isinstance(a, T) else scalar_dtype(a)
def rtype(args):
    if any(isinstance(a, T) and a.lib == "numpy" for a in args):
        d = dtype_of(args[0])
        for a in args[1:]: d = join(d, dtype_of(a))
        return d
    return promote([(dtype_of(a), weight(a)) for a in args])


def fresh_idx(n, p="q"): return tuple(isym(fresh(p)) for _ in range(n))


# ------------------------------------------------------------------ reshape
def prod_ie(ds):
    r = ie(1)
    for d in ds: r = imul(r, d)
    return r


def reshape_maps(src, dst):
    """groups [(src positions, dst positions)] with equal products"""
    s = [(i, nz(d)) for i, d in enumerate(src) if iconst(nz(d)) != 1]
    t = [(i, nz(d)) for i, d in enumerate(dst) if iconst(nz(d)) != 1]
    groups = []
    i = j = 0
    while i < len(s) or j < len(t):
        gi, gj = [], []
        if i < len(s): gi.append(s[i]); i += 1
        if j < len(t): gj.append(t[j]); j += 1
        while True:
            a, b = prod_ie(d for _, d in gi), prod_ie(d for _, d in gj)
            if a is b or same(a, b): break
            if len(gi) <= len(gj) and i < len(s): gi.append(s[i]); i += 1
            elif j < len(t): gj.append(t[j]); j += 1
            elif i < len(s): gi.append(s[i]); i += 1
            else:
                raise PyExc("RuntimeError", "shape %s is invalid for input of size %s" % (list(dst), list(src)))
        groups.append((gi, gj))
    return groups


def flat_of(idx, dims):
    if len(idx) == 1: return idx[0]
    if all(iconst(i) is not None for i in idx) and all(iconst(d) is not None for d in dims):
        r = 0
        for i, d in zip(idx, dims): r = r * d.c + i.c
        return ie(r)
    return iop("flat", ie(len(idx)), *idx, *dims)


def unflat(j, dims):
    if len(dims) == 1: return (j,)
    if iconst(j) is not None and all(iconst(d) is not None for d in dims):
        v, out = j.c, []
        for d in reversed(dims): out.append(ie(v % d.c)); v //= d.c
        return tuple(reversed(out))
    return tuple(iop("unflat", ie(m), j, *dims) for m in range(len(dims)))


def resolve_minus1(src, dst):
    dst = [ie(d) for d in dst]
    k = [i for i, d in enumerate(dst) if iconst(d) == -1]
    if not k: return tuple(dst)
    if len(k) > 1: raise PyExc("RuntimeError", "only one dimension can be inferred")
    k = k[0]
    rest = [nz(d) for i, d in enumerate(dst) if i != k and iconst(d) != 1]
    s = [nz(d) for d in src if iconst(nz(d)) != 1]
    c = 1
    for d in list(rest):
        for x in s:
            if x is d or (not d.is_const() and not x.is_const() and same(x, d)):
                s.remove(x); rest.remove(d); break
    cs = 1
    for d in rest:
        if d.is_const(): c *= d.c
        else:
            # d must divide what is left: fork on equality with some factor
            R = cur[0]
            for x in s:
                if not x.is_const() and R.branch(icmp("==", x, d)):
                    s.remove(x); break
            else:
                if R.branch(icmp("==", d, 1)): continue
                # constant left-over may equal d
                for x in s:
                    if R.branch(icmp("==", x, d)):
                        s.remove(x); break
                else:
                    raise Unsup("reshape -1: %s -> %s" % (list(src), list(dst)))
    for x in list(s):
        if x.is_const(): cs *= x.c; s.remove(x)
    if cs % c: 
        if s: raise Unsup("reshape -1")
        raise PyExc("RuntimeError", "invalid reshape")
    dst[k] = imul(prod_ie(s), cs // c)
    return tuple(dst)


def reshape(t, dst):
    dst = resolve_minus1(t.shape, dst)
    src = t.shape
    groups = reshape_maps(src, dst)
    ns, nd = len(src), len(dst)

    def fwd(idx):
        out = [ie(0)] * ns
        for gi, gj in groups:
            if len(gi) == 1 and len(gj) == 1: out[gi[0][0]] = idx[gj[0][0]]; continue
            j = flat_of([idx[p] for p, _ in gj], [d for _, d in gj])
            for (p, _), v in zip(gi, unflat(j, [d for _, d in gi])): out[p] = v
        return tuple(out)

    def back(idx):
        out = [ie(0)] * nd
        for gi, gj in groups:
            if len(gi) == 1 and len(gj) == 1: out[gj[0][0]] = idx[gi[0][0]]; continue
            j = flat_of([idx[p] for p, _ in gi], [d for _, d in gi])
            for (p, _), v in zip(gj, unflat(j, [d for _, d in gj])): out[p] = v
        return TRUE, tuple(out)
    return t.view(dst, fwd, back)
