"""Models (assumed contracts) of the torch / numpy / scipy.special / python builtins pymiediff uses."""
import math
from fractions import Fraction as Fr
from core import *
import core
from tensor import *
from interp import (Mod, Func, Cls, Inst, Bound, StaticM, ClassM, Prop, TypeTag, TENSOR, NDARRAY, ExcT, ExcI, Sym, Range, L,
                    SuperO, ZipO, EnumO, BUILTINS, INTERP, Loader, Interp, unie, deint, as_int, merge_vals, list_concat, pick, clampidx)

DT = {"float32": "f32", "float": "f32", "float64": "f64", "double": "f64", "complex64": "c64", "cfloat": "c64", "complex128": "c128", "cdouble": "c128", "int": "i32",
      "int32": "i32", "int64": "i64", "long": "i64", "bool": "bool", "float16": "f16", "half": "f16", "int16": "i16", "uint8": "u8", "int8": "i8"}


class DType:
    def __init__(self, d): self.d = d
    def __eq__(self, o): return isinstance(o, DType) and o.d == self.d
    def __hash__(self): return hash(self.d)
    def __repr__(self): return "dtype(%s)" % self.d
    is_complex = property(lambda s: cat_(s.d) == 3)
    is_floating_point = property(lambda s: cat_(s.d) == 2)


class Shape(tuple):
    def numel(self): return unie(prod_ie(self))


class Device:
    type = "cpu"
    def __eq__(self, o): return isinstance(o, (Device, str))
    def __hash__(self): return 1


from tensor import cat as cat_
NATIVE = (DType, Device)
CPU = Device()


def dt_of(d):
    if d is None: return None
    if isinstance(d, DType): return d.d
    if d is float: return "f64"
    if d is complex: return "c128"
    if d is int: return "i64"
    if d is bool: return "bool"
    if d is b_int: return "i64"
    if d is b_float: return "f64"
    if d is b_complex: return "c128"
    if isinstance(d, str): return DT.get(d.replace("torch.", ""), "f64")
    raise Unsup("dtype %r" % (d,))


def note(s):
    R = cur[0]
    if R is not None: R.note(s)


# ------------------------------------------------------------------ tiny guards
TINY = Fr(1, 10 ** 7)        # in contracts about dimensionless arguments (option generic=True)
REL = Fr(2, 10 ** 8)         # there also: a magnitude below this fraction of another one (on the axis of the coordinates)
GUARD = Fr(1, 10 ** 20)      # elsewhere: smaller than any quantity of the domain in any unit of length


def tiny():
    R = cur[0]
    return GUARD if R is not None and R.opts.get("generic") is not True else TINY


def relative_tiny(t):
    """a negligible fraction of a magnitude"""
    if t.op != "mul" or not nonneg(t): return False
    def val(x):
        if x.op == "num" and x.a[1] == 0: return float(x.a[0])
        if x.op == "pow" and x.a[0].op == "num" and isinstance(x.a[1], Fr) and nonneg(x.a[0]): return float(x.a[0].a[0]) ** float(x.a[1])
    c = [val(x) for x in t.a]
    f = 1.0
    for v in c: f *= 1.0 if v is None else v
    return None in c and 0 < f <= REL


def is_tiny(c):
    """(guard value) for comparisons that only fire in a negligible neighbourhood of a singular point"""
    TINY = tiny()
    if c.op in ("f<", "f<="):
        a, b = c.a
        if b.op == "num" and b.a[1] == 0 and 0 < b.a[0] <= TINY and nonneg(a) and a.op != "num": return False, a
        if a.op == "num" and a.a[1] == 0 and 0 < a.a[0] <= TINY and nonneg(b) and b.op != "num": return True, b
        if cur[0] is not None and cur[0].opts.get("generic"):
            if relative_tiny(b) and nonneg(a): return False, a
            if relative_tiny(a) and nonneg(b): return True, b
    if c.op == "f==" and cur[0] is not None and cur[0].opts.get("generic"):
        a, b = c.a
        if b is ZERO and int_of(a) is None and a.op != "ite" and not (a.op == "opq"): return False, a
        if a is ZERO and int_of(b) is None and b.op != "ite" and not (b.op == "opq"): return False, b
    return None


def guard(c):
    R = cur[0]
    if R is None or R.opts.get("notiny"): return c
    if c.op == "not":
        return bnot(guard(c.a[0]))
    t = is_tiny(c)
    if t is None: return c
    R.note("generic-point assumption: comparisons of a magnitude with a negligible constant (1e-20; 1e-7 or exact zero for dimensionless arguments) take their generic value")
    return TRUE if t[0] else FALSE


# ------------------------------------------------------------------ scalars / dtype helpers
def astensor(x, lib="torch"):
    if isinstance(x, T): return x
    if is_scalar(x):
        d = scalar_dtype(x)
        if lib == "torch": d = {"f64": "f32", "c128": "c64"}.get(d, d)
        n = node_of(x)
        return T((), lambda idx: n, d, lib=lib)
    if isinstance(x, (L, tuple, list, Range)):
        return from_seq(x, lib)
    raise Unsup("tensor from %r" % (x,))


def from_seq(x, lib="torch"):
    if isinstance(x, Range): x = L([fintv(i) for i in INTERP[0].iterate(x)])
    if isinstance(x, L) and x.items is None:
        n = nz(x.length)
        j0 = isym(fresh("e"))
        s = x.getf(j0)
        if is_scalar(s):
            d = scalar_dtype(s)
            if lib == "torch": d = {"f64": "f32", "c128": "c64"}.get(d, d)
            return T((n,), lambda idx: node_of(x.getf(idx[0])), d, lib=lib)
        raise Unsup("tensor of symbolic nested list")
    items = list(x.items) if isinstance(x, L) else list(x)
    if not items: return T((0,), lambda idx: ZERO, "f32" if lib == "torch" else "f64", lib=lib)
    ts = [astensor(i, lib) for i in items]
    sh = ts[0].shape
    for t in ts[1:]:
        if len(t.shape) != len(sh): raise PyExc("ValueError", "ragged sequence")
        for a, b in zip(sh, t.shape):
            if not same(a, b):
                if same(a, b) is False or not cur[0].branch(icmp("==", a, b)): raise PyExc("ValueError", "ragged sequence")
    d = ts[0].dtype
    for t in ts[1:]: d = join(d, t.dtype)
    return stack_ts(ts, 0, d, lib)


def fintv(i): return i


def choose(i, vals):
    """element i of a python list of thunks"""
    i = nz(i)
    if i.is_const():
        return vals[i.c]()
    r = vals[-1]()
    for k in range(len(vals) - 2, -1, -1):
        c = icmp("==", i, k)
        d = cur[0].ctx.decide(c)
        if d is True: r = vals[k]()
        elif d is None: r = ite(c, vals[k](), r)
    return r


def stack_ts(ts, dim, d=None, lib=None):
    if d is None:
        d = ts[0].dtype
        for t in ts[1:]: d = join(d, t.dtype)
    rds = [t.reader() for t in ts]
    sh = ts[0].shape
    n = len(sh) + 1
    dim = dim % n
    return T(sh[:dim] + (ie(len(ts)),) + sh[dim:],
             lambda idx: choose(idx[dim], [lambda r=r: r(idx[:dim] + idx[dim + 1:]) for r in rds]), d, lib=lib or ts[0].lib)


def getdim(d, n):
    d = d if isinstance(d, int) else iconst(deint(d))
    if d is None: raise Unsup("symbolic dim")
    if not -n <= d < max(n, 1): raise PyExc("IndexError", "Dimension out of range")
    return d % n if n else 0


def shape_arg(a):
    if len(a) == 1 and isinstance(a[0], (tuple, L, list, Shape)):
        a = a[0]
        if isinstance(a, L):
            a = INTERP[0].iterate(a)
            if a is None: raise Unsup("symbolic rank")
    return tuple(deint(x) for x in a)


# ------------------------------------------------------------------ arithmetic
def fexp(e):
    """python exponent -> Node; floats that are rationals with small denominator are taken exactly"""
    if isinstance(e, float):
        f = Fr(e).limit_denominator(64)
        if abs(float(f) - e) <= 1e-15 * max(1, abs(e)): return num(f)
    return node_of(e)


def small_add(a, b):
    """x + tiny constant -> x (recorded; only in contracts about a generic point)"""
    if cur[0] is not None and cur[0].opts.get("notiny"): return None
    for x, y in ((a, b), (b, a)):
        if isinstance(y, (float, complex)) and y != 0 and abs(y) <= float(tiny()) and not isinstance(x, (int, float, complex, bool)):
            note("generic-point assumption: additive safeguard %r dropped" % y)
            return x
    return None


def tiny_tensor(t):
    if not isinstance(t, T) or t.ndim != 0 or (cur[0] is not None and cur[0].opts.get("notiny")): return False
    v = t.at()
    return v.op == "num" and v.a[1] == 0 and 0 < abs(v.a[0]) <= tiny()


F2 = {"Add": add, "Sub": sub, "Mult": mul, "Div": div}


def binop(op, a, b, ip=None):
    if isinstance(a, (L, tuple)) or isinstance(b, (L, tuple)):
        if op == "Add":
            if isinstance(a, tuple) and isinstance(b, tuple): return a + b
            if isinstance(a, L) and isinstance(b, L): return list_concat(a, b)
        if op == "Mult":
            if isinstance(b, (L, tuple)): a, b = b, a
            if isinstance(b, (int, IE, T)) and not isinstance(b, bool):
                n = unie(deint(b))
                if isinstance(a, tuple):
                    if isinstance(n, IE): raise Unsup("symbolic tuple repetition")
                    return a * n
                if isinstance(n, int) and a.concrete(): return L(a.items * n)
                if a.concrete() and len(a.items) == 1:
                    v = a.items[0]
                    R = cur[0]
                    if not R.branch(icmp("<=", 0, n)): return L([])
                    l = L(None, n, lambda j: v)
                    l.fill = True
                    return l
                raise Unsup("list repetition")
        if isinstance(a, T) or isinstance(b, T): pass
        else: raise Unsup("sequence operator " + op)
    if isinstance(a, str) or isinstance(b, str):
        if op == "Mod": return a
        if op == "Add" and isinstance(a, str) and isinstance(b, str): return a + b
        if op == "Mult": return a * b
        raise PyExc("TypeError", "string operator")
    if isinstance(a, (set, frozenset)): return {"Sub": a.__sub__, "BitOr": a.__or__, "BitAnd": a.__and__}[op](b)
    if isinstance(a, dict) and op == "BitOr": return {**a, **b}
    if a is None or b is None: raise PyExc("TypeError", "unsupported operand type(s): NoneType")
    if hasattr(a, "vdiv") and op == "Div": return a.vdiv(b)
    if isinstance(a, (L, tuple)): a = astensor(a, b.lib)
    if isinstance(b, (L, tuple)): b = astensor(b, a.lib)
    if isinstance(a, T) or isinstance(b, T): return tbin(op, a, b)
    if op in ("BitAnd", "BitOr", "BitXor") and (isinstance(a, SBool) or isinstance(b, SBool)) and isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        x, y = [(TRUE if q else FALSE) if isinstance(q, bool) else q.node for q in (a, b)]
        return SBool(band(x, y) if op == "BitAnd" else bor(x, y) if op == "BitOr" else bor(band(x, bnot(y)), band(bnot(x), y)))
    if isinstance(a, SBool): a = unie(int_of(b2n(a.node))) if int_of(b2n(a.node)) is not None else SNum(b2n(a.node))
    if isinstance(b, SBool): b = SNum(b2n(b.node))
    A, B = isinstance(a, (IE, int)), isinstance(b, (IE, int))
    conc = isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex))
    if conc:
        try:
            if op == "Add": return a + b
            if op == "Sub": return a - b
            if op == "Mult": return a * b
            if op == "Div": return a / b
            if op == "FloorDiv": return a // b
            if op == "Mod": return a % b
            if op == "Pow": return a ** b
            if op == "BitAnd": return a & b
            if op == "BitOr": return a | b
            if op == "BitXor": return a ^ b
        except ZeroDivisionError: raise PyExc("ZeroDivisionError", "division by zero")
        raise Unsup("operator " + op)
    if A and B:
        if op == "Add": return unie(iadd(a, b))
        if op == "Sub": return unie(isub(a, b))
        if op == "Mult": return unie(imul(a, b))
        if op in ("FloorDiv", "Mod"):
            return unie(iop("fdiv" if op == "FloorDiv" else "mod", ie(a), ie(b)))
        if op == "Div":
            return SNum(div(fint(a), fint(b)))
        if op == "Pow":
            if isinstance(b, int) and b >= 0:
                r = ie(1)
                for _ in range(b): r = imul(r, a)
                return unie(r)
            return SNum(powt(fint(ie(a)), fint(ie(b))), "float")
        raise Unsup("integer operator " + op)
    s = small_add(a, b) if op == "Add" else (small_add(a, b) if op == "Sub" and isinstance(b, float) else None)
    if s is not None: return s
    kind = "complex" if "c128" in (scalar_dtype(a), scalar_dtype(b)) else "float"
    x, y = node_of(a), node_of(b)
    if op in F2: return SNum(F2[op](x, y), kind)
    if op == "Pow": return SNum(powt(x, fexp(b)), kind)
    raise Unsup("scalar operator " + op)


def masked_of(args):
    m = None
    for a in args:
        if isinstance(a, T) and a.masked is not None: m = a.masked
    if m is None: return None
    for a in args:
        if isinstance(a, T) and a.masked is None and a.ndim: raise Unsup("mixing a masked selection with a full tensor")
        if isinstance(a, T) and a.masked is not None and not same_mask(a.masked, m): raise Unsup("different masks combined")
    return m


T.masked = None


def mew(fn, args, dtype, lib=None):
    m = masked_of(args)
    r = ew(fn, args, dtype, lib)
    r.masked = m
    return r


def same_mask(a, b):
    if a is b: return True
    if a.ndim != b.ndim: return False
    q = fresh_idx(a.ndim, "m")
    return a.at(*q) is b.at(*q)


def rdiv(args):
    d = rtype(args)
    if cat_(d) < 2:
        d = "f32" if not any(isinstance(a, T) and a.lib == "numpy" for a in args) else "f64"
    return d


def tbin(op, a, b):
    args = [a, b]
    if op in ("Add", "Sub"):
        s = small_add(a, b) if op == "Add" else (a if isinstance(b, float) and small_add(a, b) is a else None)
        if s is not None: return s
        if op == "Add":
            if tiny_tensor(b) and isinstance(a, T) and a.ndim:
                note("generic-point assumption: additive safeguard dropped"); return a
            if tiny_tensor(a) and isinstance(b, T) and b.ndim: return b
    if op in ("Add", "Sub", "Mult"): 
        return mew(F2[op], args, rtype(args))
    if op == "Div": return mew(div, args, rdiv(args))
    if op == "Pow":
        d = rtype(args)
        if isinstance(b, T): return mew(lambda x, y: powt(x, y), args, d)
        e = fexp(b)
        if cat_(d) < 2 and isinstance(b, float): d = "f32"
        return mew(lambda x: powt(x, e), [a], d)
    if op == "MatMult": return matmul(a, b)
    if op == "FloorDiv":
        def fd(x, y):
            i, j = int_of(x), int_of(y)
            if i is None or j is None: return fn1("floor", div(x, y))
            return fint(iop("fdiv", i, j))
        return mew(fd, args, rtype(args))
    if op == "Mod":
        def md(x, y):
            i, j = int_of(x), int_of(y)
            if i is None or j is None: return sub(x, mul(y, fn1("floor", div(x, y))))
            return fint(iop("mod", i, j))
        return mew(md, args, rtype(args))
    if op in ("BitAnd", "BitOr", "BitXor"):
        if all(dtype_of(x) == "bool" for x in args):
            f = {"BitAnd": lambda x, y: b2n(band(n2b(x), n2b(y))), "BitOr": lambda x, y: b2n(bor(n2b(x), n2b(y))),
                 "BitXor": lambda x, y: b2n(bor(band(n2b(x), bnot(n2b(y))), band(bnot(n2b(x)), n2b(y))))}[op]
            return mew(f, args, "bool")
    raise Unsup("tensor operator " + op)


def inplace(op, old, v):
    r = binop(op, old, v)
    if r is old: return old
    if not isinstance(r, T): raise Unsup("in-place result")
    if old.lib == "torch" and cat_(r.dtype) > cat_(old.dtype): raise PyExc("RuntimeError", "result type can't be cast to the desired output type")
    # out-shape must equal old shape
    if r.ndim != old.ndim or any(not same(x, y) for x, y in zip(r.shape, old.shape)):
        if r.ndim != old.ndim: raise PyExc("RuntimeError", "output with shape doesn't match the broadcast shape")
        for x, y in zip(r.shape, old.shape):
            if not cur[0].branch(icmp("==", x, y)): raise PyExc("RuntimeError", "output with shape doesn't match the broadcast shape")
    rd = r.reader()
    old.write(lambda i: (TRUE, lambda: rd(i)))
    return old


def unop(op, v):
    if op == "USub":
        if isinstance(v, T): return mew(neg, [v], v.dtype)
        if isinstance(v, (int, float, complex)): return -v
        if isinstance(v, IE): return unie(ineg(v))
        if isinstance(v, SNum): return SNum(neg(v.node), v.kind)
    if op == "UAdd": return v
    if op == "Invert":
        if isinstance(v, T) and v.dtype == "bool": return mew(lambda x: b2n(bnot(n2b(x))), [v], "bool")
        if isinstance(v, int): return ~v
        if isinstance(v, SBool): return SBool(bnot(v.node))
    raise Unsup("unary %s of %r" % (op, v))


CMP = {"Eq": lambda x, y: fcmp("==", x, y), "NotEq": lambda x, y: bnot(guard(fcmp("==", x, y))), "Lt": lambda x, y: fcmp("<", x, y),
       "LtE": lambda x, y: fcmp("<=", x, y), "Gt": lambda x, y: fcmp("<", y, x), "GtE": lambda x, y: fcmp("<=", y, x)}


def cmpnode(op, x, y): return guard(CMP[op](x, y))


def compare(op, a, b, ip=None):
    if op == "Is": return same_obj(a, b)
    if op == "IsNot": return not same_obj(a, b)
    if op in ("In", "NotIn"):
        r = contains(b, a, ip)
        if isinstance(r, SBool): return r if op == "In" else SBool(bnot(r.node))
        return r if op == "In" else not r
    if isinstance(a, T) or isinstance(b, T):
        if (a is None or b is None) or isinstance(a, str) or isinstance(b, str):
            return op == "NotEq"
        if isinstance(a, (L, tuple)): a = astensor(a)
        if isinstance(b, (L, tuple)): b = astensor(b)
        return mew(lambda x, y: b2n(cmpnode(op, x, y)), [a, b], "bool")
    sc = (int, float, complex, IE, SNum, SBool)
    if isinstance(a, sc) and isinstance(b, sc):
        if isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)):
            return {"Eq": lambda: a == b, "NotEq": lambda: a != b, "Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b}[op]()
        c = cmpnode(op, node_of(a), node_of(b))
        if c is TRUE: return True
        if c is FALSE: return False
        return SBool(c)
    if isinstance(a, (tuple, L)) and isinstance(b, (tuple, L)) and op in ("Eq", "NotEq"):
        if isinstance(a, tuple) != isinstance(b, tuple): return op == "NotEq"
        la, lb = seqlen(a), seqlen(b)
        if not (isinstance(la, int) and isinstance(lb, int)): raise Unsup("comparison of symbolic lists")
        if la != lb: return op == "NotEq"
        ga = list(a) if isinstance(a, tuple) else a.items
        gb = list(b) if isinstance(b, tuple) else b.items
        r = TRUE
        for x, y in zip(ga, gb):
            if x is y: continue
            v = compare("Eq", x, y)
            if v is False: return op == "NotEq"
            if isinstance(v, SBool): r = band(r, v.node)
            elif isinstance(v, T): raise Unsup("tensor element comparison")
        if op == "NotEq": r = bnot(r)
        return True if r is TRUE else (False if r is FALSE else SBool(r))
    if op == "Eq": return _eq(a, b)
    if op == "NotEq": return not _eq(a, b)
    if a is None or b is None: raise PyExc("TypeError", "'<' not supported with NoneType")
    if isinstance(a, str) and isinstance(b, str): return {"Lt": a < b, "Gt": a > b, "LtE": a <= b, "GtE": a >= b}[op]
    raise Unsup("comparison %s of %r, %r" % (op, a, b))


def _eq(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return a is b or (isinstance(a, Sym) and isinstance(b, Sym) and a.name == b.name)
    if isinstance(a, (TypeTag, Cls, Func, Inst)) or isinstance(b, (TypeTag, Cls, Func, Inst)): return a is b
    try: return bool(a == b)
    except Exception: return a is b


def seqlen(x): return len(x) if isinstance(x, tuple) else x.len()


def same_obj(a, b):
    if a is b: return True
    if isinstance(a, (bool, int, str)) and isinstance(b, (bool, int, str)): return type(a) == type(b) and a == b
    return False


def contains(c, x, ip):
    if hasattr(c, "vcontains"): return c.vcontains(x)
    if isinstance(c, (L, tuple, list)):
        items = c.items if isinstance(c, L) else c
        if items is None: raise Unsup("membership in symbolic list")
        for y in items:
            v = compare("Eq", x, y, ip)
            if v is True: return True
            if isinstance(v, SBool) and cur[0].branch(v.node): return True
            if isinstance(v, T) and ip.truth(v): return True
        return False
    if isinstance(c, (dict, set, str)) or hasattr(c, "__contains__"):
        if hasattr(c, "vcontains"): return c.vcontains(x)
        return x in c
    if hasattr(c, "vcontains"): return c.vcontains(x)
    raise Unsup("membership test in %r" % (c,))


# ------------------------------------------------------------------ indexing
def parse_key(t, key):
    key = list(key) if isinstance(key, tuple) else [key]
    out = []
    for k in key:
        if isinstance(k, (L,)): k = from_seq(k, t.lib)
        if isinstance(k, Range): k = from_seq(k, t.lib)
        if isinstance(k, (SNum,)): raise Unsup("float index")
        out.append(k)
    cnt = 0
    for k in out:
        if k is None or k is Ellipsis: continue
        if isinstance(k, T) and k.dtype == "bool": cnt += k.ndim
        elif isinstance(k, SBool) or isinstance(k, bool): raise Unsup("bool index")
        else: cnt += 1
    if cnt > t.ndim: raise PyExc("IndexError", "too many indices for tensor of dimension %d" % t.ndim)
    fill = [slice(None)] * (t.ndim - cnt)
    if any(k is Ellipsis for k in out):
        p = [i for i, k in enumerate(out) if k is Ellipsis]
        if len(p) > 1: raise PyExc("IndexError", "more than one ellipsis")
        out = out[:p[0]] + fill + out[p[0] + 1:]
    else: out += fill
    return out


def inrange(j, n):
    """normalise an integer index against dim n; raises IndexError when outside on this path"""
    R = cur[0]
    j, n = nz(j), nz(n)
    if j.is_const() and n.is_const():
        if not -n.c <= j.c < n.c: raise PyExc("IndexError", "index %s is out of bounds for dimension with size %s" % (j, n))
        return ie(j.c % n.c)
    if j.is_const() and j.c < 0:
        if not R.branch(icmp("<=", ineg(j), n)): raise PyExc("IndexError", "index out of bounds")
        return iadd(n, j)
    ok = band(icmp("<=", 0, j), icmp("<", j, n))
    d = R.ctx.decide(ok)
    if d is True: return j
    if R.branch(icmp("<", j, 0)):
        if not R.branch(icmp("<=", 0, iadd(j, n))): raise PyExc("IndexError", "index out of bounds")
        return iadd(j, n)
    if not R.branch(icmp("<", j, n)): raise PyExc("IndexError", "index %s is out of bounds for dimension with size %s" % (j, n))
    return j


def slice_lohi(k, n):
    """-> (start, length, step) as IE"""
    step = 1 if k.step is None else iconst(deint(k.step))
    if step is None: raise Unsup("symbolic step")
    if k.start is None and k.stop is None and step == 1: return ie(0), n, 1
    if step == -1 and k.start is None and k.stop is None: return isub(n, 1), n, -1
    if step <= 0: raise PyExc("ValueError", "step must be greater than zero")
    lo = clampidx(None if k.start is None else deint(k.start), n, 0)
    hi = clampidx(None if k.stop is None else deint(k.stop), n, n)
    ln = isub(hi, lo)
    if ln.is_const(): ln = ie(max(ln.c, 0))
    elif not cur[0].branch(icmp("<=", 0, ln)): ln = ie(0)
    if step != 1: ln = iop("fdiv", iadd(ln, step - 1), ie(step)) if not ln.is_const() else ie(-(-ln.c // step))
    return lo, ln, step


def index_view(t, keys):
    """basic indexing (ints, slices, None) -> view"""
    shape, plan, d = [], [], 0
    for k in keys:
        if k is None:
            shape.append(ie(1)); plan.append(("new", len(shape) - 1)); continue
        n = t.shape[d]
        if isinstance(k, slice):
            lo, ln, st = slice_lohi(k, nz(n))
            shape.append(ln); plan.append(("sl", len(shape) - 1, lo, st, d))
        else:
            plan.append(("int", inrange(deint(k), n), d))
        d += 1
    nd = t.ndim
    if all(p[0] == "sl" and p[2] is ie(0) and p[3] == 1 and nz(t.shape[p[4]]) is nz(shape[p[1]]) for p in plan):
        pass

    def fwd(idx):
        out = [None] * nd
        for p in plan:
            if p[0] == "sl": out[p[4]] = iadd(p[2], iscale(idx[p[1]], p[3]))
            elif p[0] == "int": out[p[2]] = p[1]
        return tuple(out)

    def back(b):
        c, out = [], [ie(0)] * len(shape)
        for p in plan:
            if p[0] == "sl":
                v = isub(b[p[4]], p[2])
                if p[3] == -1: v = ineg(v)
                elif p[3] != 1:
                    c.append(icmp("==", iop("mod", v, ie(p[3])), 0)); v = iop("fdiv", v, ie(p[3]))
                out[p[1]] = v
                if not (p[2] is ie(0) and p[3] == 1): c.append(icmp("<=", 0, v))
                if not (iadd(p[2], shape[p[1]]) is nz(t.shape[p[4]]) and p[3] == 1): c.append(icmp("<", v, shape[p[1]]))
            elif p[0] == "int": c.append(icmp("==", b[p[2]], p[1]))
        return band(*[dec(x) for x in c]), tuple(out)
    r = t.view(shape, fwd, back)
    r.masked = t.masked
    return r


def dec(c):
    if c is TRUE or c is FALSE: return c
    R = cur[0]
    if R is None: return c
    d = R.ctx.decide(c)
    return TRUE if d is True else (FALSE if d is False else c)


def isadv(k): return isinstance(k, T) and (k.ndim > 0 or k.dtype == "bool")


def advanced(t, key): return any(isadv(k) for k in parse_key(t, key))


def basic(k): return k is None or isinstance(k, (slice, int, IE)) or (isinstance(k, T) and k.ndim == 0 and k.dtype != "bool")


def getitem(t, key):
    keys = parse_key(t, key)
    if all(basic(k) for k in keys): return index_view(t, keys)
    adv = [i for i, k in enumerate(keys) if isadv(k)]
    if any(not (basic(k) or isadv(k)) for k in keys): raise Unsup("index %r" % (keys,))
    bm = [i for i in adv if keys[i].dtype == "bool"]
    if bm:
        if len(adv) > 1: raise Unsup("several advanced indices with a mask")
        m = keys[bm[0]]
        if all((isinstance(k, slice) and k == slice(None)) for i, k in enumerate(keys) if i != bm[0]):
            full = mask_full(t, m, bm[0])
            r = t.fresh()
            r.masked = full
            return r
        raise Unsup("mask combined with other indices")
    # integer arrays
    pre = index_view(t, [slice(None) if i in adv else k for i, k in enumerate(keys)])
    dims, d = [], 0
    for i, k in enumerate(keys):
        if i in adv: dims.append(d)
        if not (isinstance(k, (int, IE)) or (isinstance(k, T) and k.ndim == 0)): d += 1
    ixs = [keys[i] for i in adv]
    if dims != list(range(dims[0], dims[0] + len(dims))): raise Unsup("separated advanced indices")
    bs, maps = broadcast_shapes([k.shape for k in ixs])
    rd = pre.reader()
    irs = [k.reader() for k in ixs]
    d0, nb = dims[0], len(bs)
    shape = pre.shape[:d0] + bs + pre.shape[d0 + len(dims):]
    for k, dd in zip(ixs, dims): check_index_bounds(k, pre.shape[dd])

    def f(idx):
        bi = idx[d0:d0 + nb]
        vals = []
        for r, m, dd in zip(irs, maps, dims):
            v = int_of(r(bi if m is None else m(bi)))
            if v is None: v = IE(((("trunc", r(bi if m is None else m(bi))), 1),), 0)
            if v.is_const() and v.c < 0: v = iadd(v, pre.shape[dd])
            vals.append(v)
        return rd(idx[:d0] + tuple(vals) + idx[d0 + nb:])
    return T(shape, f, t.dtype, lib=t.lib)


def check_index_bounds(k, n):
    R = cur[0]
    q = fresh_idx(k.ndim, "c")
    v = int_of(k.at(*q))
    R.obl = getattr(R, "obl", [])
    R.obl.append(("index", k, q, v, n))


def mask_full(t, m, at):
    """mask m applied to dims at.. of t, broadcast to full shape of t"""
    rd = m.reader()
    for a, b in zip(m.shape, t.shape[at:at + m.ndim]):
        if not same(a, b):
            if not cur[0].branch(icmp("==", a, b)): raise PyExc("IndexError", "The shape of the mask does not match")
    if m.ndim == t.ndim: return m
    return T(t.shape, lambda idx: rd(idx[at:at + m.ndim]), "bool")


def setitem(t, key, v):
    keys = parse_key(t, key)
    R = cur[0]
    if isinstance(v, (L, tuple)): v = astensor(v, t.lib)
    vd = dtype_of(v)
    if t.lib == "torch" and cat_(vd) > cat_(t.dtype) and cat_(vd) == 3:
        if isinstance(v, T): R.event("warn-cast", vd, t.dtype)
    adv = [i for i, k in enumerate(keys) if isadv(k)]
    if not adv:
        tgt = index_view(t, keys)
        write_bc(tgt, v)
        return
    if len(adv) > 1: return store_joint(t, keys, adv, v)
    k = keys[adv[0]]
    pre = index_view(t, [slice(None) if i == adv[0] and k.dtype != "bool" else kk for i, kk in enumerate(keys) if not (i == adv[0] and k.dtype == "bool")][:adv[0]]
                     + [slice(None)] * (k.ndim if k.dtype == "bool" else 1) + keys[adv[0] + 1:])
    at = sum(1 for kk in keys[:adv[0]] if not (isinstance(kk, (int, IE)) or (isinstance(kk, T) and kk.ndim == 0)))
    if k.dtype == "bool":
        m = mask_full(pre, k, at)
        mr = m.reader()
        if isinstance(v, T) and v.masked is not None:
            if not same_mask(v.masked, m): raise Unsup("masked store with a different mask")
            vr = v.reader()
            if v.ndim != pre.ndim: raise Unsup("masked store rank")
            pre.write(lambda i: (n2b(mr(i)), lambda: vr(i)))
            return
        if isinstance(v, T) and v.ndim > 0: raise Unsup("masked store of unmasked tensor")
        n = node_of(v)
        if cat_(dtype_of(v)) == 3 and cat_(t.dtype) < 3: raise PyExc("RuntimeError", "cannot store complex into real")
        pre.write(lambda i: (n2b(mr(i)), lambda: n))
        return
    # integer array index: must be an (affine) injection of the whole dim or arange
    if k.ndim != 1: raise Unsup("store through index array of rank %d" % k.ndim)
    q = isym(fresh("s"))
    e = int_of(k.at(q))
    if e is None: raise Unsup("store through opaque index array")
    off = isub(e, q)
    if q.co[0][0] in ie_syms(off): raise Unsup("store through non-affine index array")
    sub_ = index_view(pre, [slice(None)] * at + [slice(off, iadd(off, k.shape[0]))] + [slice(None)] * (pre.ndim - at - 1))
    write_bc(sub_, v)


def affine_offset(k):
    """off with k[q] == q + off for every q"""
    if k.dtype == "bool" or k.ndim != 1: raise Unsup("store through index array of rank %d" % k.ndim)
    q = isym(fresh("s"))
    e = int_of(k.at(q))
    if e is None: raise Unsup("store through opaque index array")
    off = isub(e, q)
    if q.co[0][0] in ie_syms(off): raise Unsup("store through non-affine index array")
    return off


def store_joint(t, keys, adv, v):
    """t[.., k1, k2, ..] = v with adjacent index vectors k_j[q] = q + o_j: a (partial) diagonal"""
    offs = [affine_offset(keys[i]) for i in adv]
    n = keys[adv[0]].shape[0]
    if any(not same(keys[i].shape[0], n) for i in adv): raise Unsup("joint store of index vectors of different lengths")
    pre = index_view(t, [slice(None) if i in adv else k for i, k in enumerate(keys)])
    dims, d = [], 0
    for i, k in enumerate(keys):
        if i in adv: dims.append(d)
        if not (isinstance(k, (int, IE)) or (isinstance(k, T) and k.ndim == 0)): d += 1
    m = len(dims)
    if dims != list(range(dims[0], dims[0] + m)): raise Unsup("separated advanced indices")
    for i, dd in zip(adv, dims): check_index_bounds(keys[i], pre.shape[dd])
    a = dims[0]

    def fwd(i): return i[:a] + tuple(iadd(i[a], o) for o in offs) + i[a + 1:]

    def back(b):
        q = isub(b[a], offs[0])
        c = [icmp("<=", 0, q), icmp("<", q, n)] + [icmp("==", isub(b[a + j], offs[j]), q) for j in range(1, m)]
        return band(*[dec(x) for x in c]), b[:a] + (q,) + b[a + m:]
    write_bc(pre.view(pre.shape[:a] + (n,) + pre.shape[a + m:], fwd, back), v)


def write_bc(tgt, v):
    if isinstance(v, T):
        if v.masked is not None: raise Unsup("masked value stored unmasked")
        vs = v.shape
        while len(vs) > tgt.ndim:
            if iconst(nz(vs[0])) != 1: raise PyExc("RuntimeError", "shape mismatch in assignment")
            v = index_view(v, [0] + [slice(None)] * (len(vs) - 1)); vs = v.shape
        off = tgt.ndim - len(vs)
        ones = []
        for a, b in zip(vs, tgt.shape[off:]):
            a, b = nz(a), nz(b)
            if a is b: ones.append(False); continue
            if iconst(a) == 1: ones.append(True); continue
            if same(a, b) or cur[0].branch(icmp("==", a, b)): ones.append(False)
            elif cur[0].branch(icmp("==", a, 1)): ones.append(True)
            else: raise PyExc("RuntimeError", "The expanded size of the tensor must match the existing size")
        rd = v.reader()
        tgt.write(lambda i: (TRUE, lambda: rd(tuple(ie(0) if o else x for o, x in zip(ones, i[off:])))))
    else:
        n = node_of(v)
        tgt.write(lambda i: (TRUE, lambda: n))


# ------------------------------------------------------------------ shape functions
def unsqueeze(t, dim):
    n = t.ndim + 1
    dim = dim if isinstance(dim, int) else iconst(deint(dim))
    if not -n <= dim < n: raise PyExc("IndexError", "Dimension out of range")
    dim %= n
    r = t.view(t.shape[:dim] + (ie(1),) + t.shape[dim:], lambda i: i[:dim] + i[dim + 1:], lambda i: (TRUE, i[:dim] + (ie(0),) + i[dim:]))
    r.masked = t.masked
    return r


def squeeze(t, *dims, dim=None):
    R = cur[0]
    if dim is not None: dims = dim if isinstance(dim, tuple) else (dim,)
    if dims and isinstance(dims[0], (tuple, L)): dims = INTERP[0].iterate(dims[0])
    rng = [getdim(d, t.ndim) for d in dims] if dims else range(t.ndim)
    drop = [d for d in rng if R.branch(icmp("==", nz(t.shape[d]), 1))]
    keep = [d for d in range(t.ndim) if d not in drop]
    nd = t.ndim

    def fwd(i):
        out = [ie(0)] * nd
        for k, d in enumerate(keep): out[d] = i[k]
        return tuple(out)
    return t.view([t.shape[d] for d in keep], fwd, lambda i: (TRUE, tuple(i[d] for d in keep)))


def permute(t, order):
    order = [getdim(d, t.ndim) for d in order]
    inv = [order.index(k) for k in range(t.ndim)]
    return t.view([t.shape[d] for d in order], lambda i: tuple(i[inv[d]] for d in range(len(order))), lambda i: (TRUE, tuple(i[d] for d in order)))


def moveaxis(t, src, dst):
    src = list(src) if isinstance(src, tuple) else [src]
    dst = list(dst) if isinstance(dst, tuple) else [dst]
    n = t.ndim
    src, dst = [getdim(s, n) for s in src], [getdim(d, n) for d in dst]
    order = [k for k in range(n) if k not in src]
    for d, s in sorted(zip(dst, src)): order.insert(d, s)
    return permute(t, order)


def transpose(t, a, b):
    o = list(range(t.ndim))
    a, b = getdim(a, t.ndim), getdim(b, t.ndim)
    o[a], o[b] = o[b], o[a]
    return permute(t, o)


def broadcast_to(t, *shape):
    shape = shape_arg(shape)
    n = len(shape)
    off = n - t.ndim
    if off < 0: raise PyExc("RuntimeError", "broadcast_to: too few dimensions")
    ones, out = [], list(shape)
    for k, a in enumerate(t.shape):
        b = nz(shape[off + k])
        a = nz(a)
        if iconst(b) == -1: out[off + k] = a; ones.append(False); continue
        if a is b: ones.append(False); continue
        if iconst(a) == 1: ones.append(True); continue
        if same(a, b): ones.append(False)
        elif cur[0].branch(icmp("==", a, b)): ones.append(False)
        elif cur[0].branch(icmp("==", a, 1)): ones.append(True)
        else: raise PyExc("RuntimeError", "The expanded size of the tensor (%s) must match the existing size (%s)" % (b, a))
    r = t.view(out, lambda i: tuple(ie(0) if o else x for o, x in zip(ones, i[off:])), None if (any(ones) or off) else (lambda i: (TRUE, (ie(0),) * off + i)))
    r.masked = t.masked
    return r


def atleast_1d(*ts):
    if len(ts) > 1: return tuple(atleast_1d(t) for t in ts)
    t = astensor(ts[0]) if not isinstance(ts[0], T) else ts[0]
    return t if t.ndim else unsqueeze(t, 0)


def atleast_nd(t, n, lib="torch"):
    t = astensor(t)
    while t.ndim < n: t = unsqueeze(t, 0)
    return t


def cast(t, d, note_=True):
    if d is None or d == t.dtype: return t
    R = cur[0]
    if cat_(d) < cat_(t.dtype) or (PREC.get(d, 9) < PREC.get(t.dtype, 0) and cat_(d) >= 2):
        R.event("cast", t.dtype, d)
    rd = t.reader()
    if cat_(d) == 0: f = lambda i: b2n(n2b(rd(i)))
    elif cat_(t.dtype) == 3 and cat_(d) == 2: f = lambda i: re(rd(i))
    elif cat_(t.dtype) >= 2 and cat_(d) == 1:
        def f(i):
            v = rd(i)
            k = int_of(v)
            return fint(k) if k is not None else fint(IE(((("trunc", core.strip_detach(v)), 1),), 0))
    else: f = rd
    r = T(t.shape, narrow(f, d), d, lib=t.lib)
    r.masked = t.masked
    return r


def like(t, n, dtype=None, **kw):
    return T(t.shape, lambda i: n, dt_of(dtype) or t.dtype, lib=t.lib)


def filled(n, lib):
    def f(*size, dtype=None, device=None, requires_grad=False, out=None, size_kw=None, **kw):
        if "size" in kw: size = (kw["size"],)
        if "shape" in kw: size = (kw["shape"],)
        if lib == "numpy" and len(size) == 2: dtype = size[1]; size = size[:1]
        s = shape_arg(size)
        return T(s, lambda i: n, dt_of(dtype) or ("f32" if lib == "torch" else "f64"), lib=lib)
    return f


def arange(*a, dtype=None, device=None, lib="torch", **kw):
    a = [as_int(x) if isinstance(x, T) else x for x in a]
    if "end" in kw: a.append(kw["end"])
    st, sp, step = (0, a[0], 1) if len(a) == 1 else ((a[0], a[1], 1) if len(a) == 2 else a)
    if any(isinstance(x, (float, SNum)) for x in (st, sp, step)): raise Unsup("float arange")
    if not isinstance(step, int): step = iconst(deint(step))
    st, sp = deint(st), deint(sp)
    n = Range(st, sp, step).count()
    n = nz(n)
    if n.is_const(): n = ie(max(n.c, 0))
    elif not cur[0].branch(icmp("<=", 0, n)):
        raise PyExc("RuntimeError", "upper bound and lower bound inconsistent with step sign")
    d = dt_of(dtype) or "i64"
    return T((n,), narrow(lambda i: fint(iadd(st, iscale(i[0], step))), d), d, lib=lib)


def linspace(a, b, n=None, steps=None, num=None, dtype=None, device=None, lib="torch", **kw):
    n = n if n is not None else (steps if steps is not None else num)
    if n is None: n = 50
    n = deint(n)
    a, b = node_of(a), node_of(b)
    return T((n,), lambda i: add(a, mul(sub(b, a), div(fint(i[0]), fint(isub(n, 1))))), dt_of(dtype) or "f32", lib=lib)


def stack(ts, dim=0, axis=None, **kw):
    if axis is not None: dim = axis
    if isinstance(ts, T): return moveaxis(ts, 0, dim) if dim else ts.fresh()
    if isinstance(ts, L) and ts.items is None:
        n = nz(ts.length)
        if cur[0].ctx.decide(icmp("<", 0, n)) is not True:
            if not cur[0].branch(icmp("<", 0, n)): raise PyExc("RuntimeError", "stack expects a non-empty TensorList")
        jn_ = fresh("st")
        j0 = isym(jn_)
        gf = ts.getf
        with cur[0].scope((jn_,), band(icmp("<=", 0, j0), icmp("<", j0, n))): s = gf(j0)
        if s is None: raise PyExc("TypeError", "expected Tensor as element, got NoneType")
        if not isinstance(s, T): raise Unsup("stack of %r" % (s,))
        sh = s.shape
        srd = s.reader()
        nd = len(sh) + 1
        dim = getdim(dim, nd)
        memo = {}

        def f(i):
            j = i[dim]
            if not j.is_const(): return subst(srd(i[:dim] + i[dim + 1:]), {jn_: j})
            v = memo.get(j)
            if v is None:
                v = gf(j)
                if isinstance(v, T): v = v.reader()
                memo[j] = v
            if v is None: raise Unsup("stack of a list with a hole")
            return v(i[:dim] + i[dim + 1:])
        return T(sh[:dim] + (n,) + sh[dim:], f, s.dtype, lib=s.lib)
    items = INTERP[0].iterate(ts)
    if not items: raise PyExc("RuntimeError", "stack expects a non-empty TensorList")
    for x in items:
        if not isinstance(x, T): raise PyExc("TypeError", "expected Tensor as element in argument 0, but got %r" % (x,))
    sh = items[0].shape
    for x in items[1:]:
        if x.ndim != len(sh): raise PyExc("RuntimeError", "stack expects each tensor to be equal size")
        for a, b in zip(sh, x.shape):
            if not same(a, b) and not cur[0].branch(icmp("==", a, b)): raise PyExc("RuntimeError", "stack expects each tensor to be equal size")
    # snapshot
    return stack_ts([x.fresh() if False else x for x in items], getdim(dim, len(sh) + 1))


def concat(ts, dim=0, axis=None, **kw):
    if axis is not None: dim = axis
    items = INTERP[0].iterate(ts)
    if items is None: raise Unsup("cat of symbolic list")
    nd = items[0].ndim
    dim = getdim(dim, nd)
    off = [ie(0)]
    for x in items:
        if x.ndim != nd: raise PyExc("RuntimeError", "Tensors must have same number of dimensions")
        for k in range(nd):
            if k != dim and not same(x.shape[k], items[0].shape[k]):
                if not cur[0].branch(icmp("==", x.shape[k], items[0].shape[k])): raise PyExc("RuntimeError", "Sizes of tensors must match except in dimension %d" % dim)
        off.append(iadd(off[-1], x.shape[dim]))
    rds = [x.reader() for x in items]
    d = items[0].dtype
    for x in items[1:]: d = join(d, x.dtype)

    def f(i):
        r = None
        for k in range(len(items) - 1, -1, -1):
            c = dec(icmp("<=", off[k], i[dim])) if k else TRUE
            if c is FALSE: continue
            if k < len(items) - 1 and dec(icmp("<", i[dim], off[k + 1])) is FALSE: continue
            v = rds[k](i[:dim] + (isub(i[dim], off[k]),) + i[dim + 1:])
            r = v if r is None or c is TRUE and r is None else None if False else (ite(icmp("<", i[dim], off[k + 1]), v, r) if dec(icmp("<", i[dim], off[k + 1])) is not TRUE else v)
        return r
    return T(items[0].shape[:dim] + (off[-1],) + items[0].shape[dim + 1:], f, d, lib=items[0].lib)


# ------------------------------------------------------------------ reductions
def dims_of(t, dim):
    if dim is None: return list(range(t.ndim))
    if isinstance(dim, (tuple, L, list)): return sorted(getdim(d, t.ndim) for d in INTERP[0].iterate(dim))
    return [getdim(dim, t.ndim)]


def reduce_(t, dim, keepdim, f, dtype):
    ds = dims_of(t, dim)
    rd, sh, nd = t.reader(), t.shape, t.ndim
    keep = [k for k in range(nd) if k not in ds]
    out = tuple(ie(1) if k in ds else sh[k] for k in range(nd)) if keepdim else tuple(sh[k] for k in keep)

    def g(i):
        full = [None] * nd
        if keepdim:
            for k in keep: full[k] = i[k]
        else:
            for k, v in zip(keep, i): full[k] = v
        def rec(m):
            if m == len(ds): return rd(tuple(full))
            v = fresh("r")
            full[ds[m]] = isym(v)
            n = nz(sh[ds[m]])
            if n.is_const() and n.c <= 8:
                vals = []
                for q in range(n.c):
                    full[ds[m]] = ie(q)
                    vals.append(rec(m + 1))
                return f(None, None, vals)
            b = rec(m + 1)
            return f(v, n, b)
        return rec(0)
    r = T(out, g, dtype, lib=t.lib)
    return r


def tsum(t, dim=None, keepdim=False, axis=None, dtype=None, **kw):
    if axis is not None: dim = axis
    t = astensor(t)
    if t.masked is not None: raise Unsup("sum of a masked selection")
    def f(v, n, b): return add(*b) if v is None else ssum(v, 0, n, b)
    return reduce_(t, dim, keepdim or kw.get("keepdims", False), f, "i64" if cat_(t.dtype) < 2 else t.dtype)


def tmean(t, dim=None, keepdim=False, axis=None, **kw):
    if axis is not None: dim = axis
    ds = dims_of(t, dim)
    n = prod_ie([t.shape[d] for d in ds])
    return binop("Div", tsum(t, dim, keepdim), unie(n))


def tprod(t, dim=None, keepdim=False, **kw):
    def f(v, n, b): return mul(*b) if v is None else red("prod", v, 0, n, b)
    return reduce_(t, dim, keepdim, f, t.dtype)


def extremum(kind):
    two = max2 if kind == "maxr" else min2
    def g(t, *a, dim=None, axis=None, keepdim=False, **kw):
        if isinstance(t, (L, tuple)): t = astensor(t)
        if a:
            if isinstance(a[0], T): return mew(two, [t, a[0]], rtype([t, a[0]]))
            dim = a[0]
        if axis is not None: dim = axis
        if t.masked is not None: raise Unsup("max of masked selection")
        def f(v, n, b):
            if v is None:
                r = b[0]
                for x in b[1:]: r = two(r, x)
                return r
            return red(kind, v, 0, n, b)
        r = reduce_(t, dim, keepdim, f, t.dtype)
        if dim is not None and t.lib == "torch": return MaxRes(r)
        return r
    return g


class MaxRes(tuple):
    def __new__(cls, r): return tuple.__new__(cls, (r, Sym("indices")))
    values = property(lambda s: s[0])


def allany(kind):
    def g(t, dim=None, axis=None, keepdim=False, **kw):
        if axis is not None: dim = axis
        if isinstance(t, (bool, SBool)): return t
        if isinstance(t, (L, tuple)):
            t = astensor(t)
        q = "forall" if kind == "all" else "exists"
        def f(v, n, b):
            if v is None: return b2n((band if kind == "all" else bor)(*[n2b(x) for x in b]))
            return b2n(quant(q, v, ie(0), n, n2b(b)))
        return reduce_(t, dim, keepdim, f, "bool")
    return g


def tequal(a, b):
    if a.ndim != b.ndim: return False
    for x, y in zip(a.shape, b.shape):
        if same(x, y): continue
        if not cur[0].branch(icmp("==", x, y)): return False
    r = ew(lambda x, y: b2n(eqnode(x, y)), [a, b], "bool")
    c = n2b(allany("all")(r).at())
    if c is TRUE: return True
    if c is FALSE: return False
    return SBool(c)


def eqnode(x, y): return fcmp("==", x, y)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    """|a - b| <= atol + rtol |b|, as torch and numpy define it (for numbers: no claim about nan)"""
    if isinstance(a, (L, tuple)): a = astensor(a)
    if isinstance(b, (L, tuple)): b = astensor(b)
    ab = TORCH.d["abs"]
    return compare("LtE", ab(binop("Sub", a, b)), binop("Add", binop("Mult", ab(b), rtol), atol))


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not isinstance(a, T) and not isinstance(b, T): return isclose(a, b, rtol, atol)
    c = n2b(allany("all")(isclose(a, b, rtol, atol)).at())
    if c is TRUE: return True
    if c is FALSE: return False
    return SBool(c)


def cumprod(t, dim=0, **kw):
    import loops
    return loops.cumulative(t, getdim(dim, t.ndim), "prod")


def cumsum(t, dim=0, **kw):
    import loops
    return loops.cumulative(t, getdim(dim, t.ndim), "sum")


def nonzero(t, as_tuple=False):
    if t.ndim != 1: raise Unsup("nonzero of rank %d" % t.ndim)
    q = isym(fresh("nzq"))
    c = n2b(t.at(q))
    c = dec(c)
    if c is TRUE: r = arange(unie(nz(t.shape[0])))
    elif c is FALSE: r = T((0,), lambda i: ZERO, "i64")
    else: raise Unsup("nonzero of an undetermined mask")
    if as_tuple or t.lib == "numpy": return (r,)
    return unsqueeze(r, 1)


# ------------------------------------------------------------------ elementwise functions
def fdtype(a):
    d = dtype_of(a)
    if cat_(d) < 2: return "f32" if not (isinstance(a, T) and a.lib == "numpy") else "f64"
    return d


def elem(name, f=None, dtype=None):
    f = f or (lambda x: fn1(name, x))
    def g(x, *rest, out=None, **kw):
        if isinstance(x, (L, tuple)): x = astensor(x)
        d = dtype(x) if dtype else fdtype(x)
        if is_scalar(x):
            return SNum(f(node_of(x)), "complex" if cat_(d) == 3 else "float")
        return mew(f, [x], d)
    g.__name__ = name
    return g


def absdt(x):
    d = dtype_of(x)
    return {"c64": "f32", "c128": "f64"}.get(d, d)


def f_sqrt(x): return mkpow(x, Fr(1, 2))


def f_atan2(y, x): return mk("atan2", y, x, real=True)


def t_round(x, decimals=0, **kw):
    d = iconst(deint(decimals)) if not isinstance(decimals, int) else decimals
    if is_scalar(x): return SNum(fn1("round", node_of(x)))
    if d == 0: return mew(lambda v: fn1("round", v), [x], x.dtype)
    s = num(10 ** d)
    return mew(lambda v: div(fn1("round", mul(v, s)), s), [x], x.dtype)


def clamp(x, min=None, max=None, **kw):
    if "a_min" in kw: min = kw["a_min"]
    if "a_max" in kw: max = kw["a_max"]
    lo = None if min is None else node_of(min)
    hi = None if max is None else node_of(max)
    def near1(v, s): return v is not None and v.op == "num" and v.a[1] == 0 and abs(v.a[0] - s) <= Fr(1, 10 ** 9)
    if near1(lo, -1) and near1(hi, 1):
        note("generic-point assumption: clamp to [-1, 1] does not act")
        return x
    def f(v):
        i = int_of(v)
        for b, op in ((lo, "max"), (hi, "min")):
            if b is None: continue
            ib = int_of(b)
            if i is not None and ib is not None:
                c = icmp("<=", ib, i) if op == "max" else icmp("<=", i, ib)
                c = dec(c)
                i = i if c is TRUE else (ib if c is FALSE else iop(op, i, ib))
                v = fint(i)
            else:
                v = maxd(op, v, b); i = None
        return v
    if lo is not None and lo.op == "num" and 0 < lo.a[0] <= tiny() and hi is None:
        note("generic-point assumption: lower clamp %s does not act" % lo); return x
    return mew(f, [x], x.dtype)


def where(c, a=None, b=None):
    if a is None: return nonzero(c, as_tuple=True)
    if isinstance(c, (bool, SBool)): c = astensor(c)
    d = rtype([a, b])
    def f(cc, x, y):
        cc = n2b(cc)
        return ite(cc, x, y)
    # x+eps style safeguards were already dropped: if the condition is never true on this path keep laziness
    return mew(f, [c, a, b], d)


def bin2(f, dtype=None):
    def g(a, b, out=None, **kw):
        if is_scalar(a) and is_scalar(b): return SNum(f(node_of(a), node_of(b)))
        if isinstance(a, (L, tuple)): a = astensor(a)
        if isinstance(b, (L, tuple)): b = astensor(b)
        return mew(f, [a, b], dtype or rtype([a, b]))
    return g


def maxd(op, x, y):
    """maximum / minimum, decided under the facts of the path where possible"""
    c = dec(fcmp("<=", y, x) if op == "max" else fcmp("<=", x, y))
    if c is TRUE: return x
    if c is FALSE: return y
    return (max2 if op == "max" else min2)(x, y)


def imax(x, y):
    i, j = int_of(x), int_of(y)
    if i is not None and j is not None: return fint(iop("max", i, j))
    return maxd("max", x, y)


def imin(x, y):
    i, j = int_of(x), int_of(y)
    if i is not None and j is not None: return fint(iop("min", i, j))
    return min2(x, y)


def matmul(a, b):
    if a.ndim == 2 and b.ndim == 2:
        n = a.shape[1]
        if not same(n, b.shape[0]) and not cur[0].branch(icmp("==", n, b.shape[0])): raise PyExc("RuntimeError", "mat1 and mat2 shapes cannot be multiplied")
        ra, rb = a.reader(), b.reader()
        return T((a.shape[0], b.shape[1]), lambda i: ssum1(n, lambda v: mul(ra((i[0], v)), rb((v, i[1])))), join(a.dtype, b.dtype), lib=a.lib)
    if a.ndim == 2 and b.ndim == 1: return squeeze(matmul(a, unsqueeze(b, 1)), 1) if False else _mv(a, b)
    if a.ndim == 1 and b.ndim == 2: return _mv(permute(b, (1, 0)), a)
    if a.ndim == 1 and b.ndim == 1: return tsum(tbin("Mult", a, b))
    if a.ndim > 2 and b.ndim == 2:
        n = a.shape[-1]
        if not same(n, b.shape[0]) and not cur[0].branch(icmp("==", n, b.shape[0])): raise PyExc("RuntimeError", "shapes cannot be multiplied")
        ra, rb = a.reader(), b.reader()
        return T(a.shape[:-1] + (b.shape[1],), lambda i: ssum1(n, lambda v: mul(ra(i[:-1] + (v,)), rb((v, i[-1])))), join(a.dtype, b.dtype), lib=a.lib)
    if a.ndim > 2 and b.ndim > 2 or (a.ndim == 2 and b.ndim > 2):
        n = a.shape[-1]
        sh, maps = broadcast_shapes([a.shape[:-2], b.shape[:-2]])
        ra, rb = a.reader(), b.reader()
        ma = maps[0] or (lambda i: i)
        mb = maps[1] or (lambda i: i)
        return T(sh + (a.shape[-2], b.shape[-1]), lambda i: ssum1(n, lambda v: mul(ra(tuple(ma(i[:-2])) + (i[-2], v)), rb(tuple(mb(i[:-2])) + (v, i[-1])))), join(a.dtype, b.dtype), lib=a.lib)
    raise Unsup("matmul of ranks %d, %d" % (a.ndim, b.ndim))


def _mv(a, b):
    n = a.shape[1]
    if not same(n, b.shape[0]) and not cur[0].branch(icmp("==", n, b.shape[0])): raise PyExc("RuntimeError", "size mismatch")
    ra, rb = a.reader(), b.reader()
    return T((a.shape[0],), lambda i: ssum1(n, lambda v: mul(ra((i[0], v)), rb((v,)))), join(a.dtype, b.dtype), lib=a.lib)


def ssum1(n, f):
    n = nz(n)
    if n.is_const() and n.c <= 8: return add(*[f(ie(q)) for q in range(n.c)])
    v = fresh("k")
    return ssum(v, 0, n, f(isym(v)))


def norm(t, *a, dim=None, keepdim=False, axis=None, **kw):
    s = tsum(mew(abs2, [t], absdt(t)), dim if dim is not None else axis, keepdim)
    return mew(f_sqrt, [s], s.dtype)


def cross(a, b, dim=-1, **kw):
    n = max(a.ndim, b.ndim)
    if a.ndim == b.ndim == 1:
        x, y = [a.at(k) for k in range(3)], [b.at(k) for k in range(3)]
        r = [sub(mul(x[1], y[2]), mul(x[2], y[1])), sub(mul(x[2], y[0]), mul(x[0], y[2])), sub(mul(x[0], y[1]), mul(x[1], y[0]))]
        return T((3,), lambda i: choose(i[0], [lambda v=v: v for v in r]), join(a.dtype, b.dtype), lib=a.lib)
    raise Unsup("cross of rank %d" % n)


def holds_tensor(x):
    if isinstance(x, T): return x.lib == "torch"
    if isinstance(x, L) and not x.concrete(): return True
    return any(holds_tensor(q) for q in (x.items if isinstance(x, L) else x)) if isinstance(x, (L, tuple)) else False


def as_tensor(x, dtype=None, device=None, **kw):
    d = dt_of(dtype)
    if isinstance(x, Sym): raise Unsup("as_tensor of %s" % x.name)
    if x is None or isinstance(x, (str, dict)): raise PyExc("TypeError", "Could not infer dtype")
    t = astensor(x)
    if isinstance(x, (L, tuple)) and holds_tensor(x):      # entries are converted to plain numbers: a copy outside the graph
        t = T(t.shape, (lambda r: lambda i: detach(r(i)))(t.reader()), t.dtype, lib=t.lib)
    if isinstance(x, (L, tuple)) and d is not None and cat_(d) >= cat_(t.dtype): t = T(t.shape, narrow(t.reader(), d), d)
    elif is_scalar(x) and d is not None and cat_(d) >= cat_(t.dtype): t = T((), narrow(t.reader(), d), d)
    if t.lib == "numpy":
        s = t
        t = t.view(t.shape, lambda i: i, lambda i: (TRUE, i)); t.lib = "torch"
    return cast(t, d)


def new_tensor(x, dtype=None, device=None, requires_grad=False, **kw):
    if isinstance(x, T): note("torch.tensor(tensor) copies and detaches"); x = T(x.shape, (lambda r: lambda i: detach(r(i)))(x.reader()), x.dtype)
    t = as_tensor(x, dtype)
    return t.fresh()


def np_array(x, dtype=None, copy=True, **kw):
    if isinstance(x, T):
        if x.lib == "torch": x = tattr(x, "numpy")()
        t = x.fresh(); t.lib = "numpy"
        return cast(t, dt_of(dtype))
    return cast(astensor(x, "numpy"), dt_of(dtype))


def np_asarray(x, dtype=None, **kw):
    if isinstance(x, T):
        if x.lib == "torch": x = tattr(x, "numpy")()
        return cast(x, dt_of(dtype))
    return cast(astensor(x, "numpy"), dt_of(dtype))


def from_numpy(x):
    r = x.view(x.shape, lambda i: i, lambda i: (TRUE, i)); r.lib = "torch"
    return r


class Finfo:
    def __init__(self, d):
        d = dt_of(d) if not isinstance(d, T) else d.dtype
        self.eps = {"f32": 1.1920928955078125e-07, "c64": 1.1920928955078125e-07}.get(d, 2.220446049250313e-16)
        self.tiny = 1e-38 if d in ("f32", "c64") else 2.2250738585072014e-308
        self.max = 3.4e38 if d in ("f32", "c64") else 1.7976931348623157e+308


# ------------------------------------------------------------------ spherical Bessel functions
def jn(n, z):
    n = ie(n)
    return div(leaf("psi", z.real, (n,), (z,)), z)


def psi(n, z): return leaf("psi", z.real, (n,), (z,))
def zeta(n, z): return leaf("zeta", False, (n,), (z,))
def yn(n, z): return div(mul(num(0, -1), sub(zeta(n, z), psi(n, z))), z)
def dpsi(n, z): return sub(psi(isub(n, 1), z), mul(div(fint(n), z), psi(n, z)))
def dzeta(n, z): return sub(zeta(isub(n, 1), z), mul(div(fint(n), z), zeta(n, z)))


def sph_fn(f):
    def g(n, z, derivative=False):
        if isinstance(derivative, SBool): raise Unsup("symbolic derivative flag")
        if isinstance(n, T) or isinstance(z, T):
            zt = z
            if isinstance(z, T) and z.lib != "numpy" or isinstance(n, T) and n.lib != "numpy": raise Unsup("scipy function on a torch tensor")
        def h(nn, zz):
            k = int_of(nn)
            if k is None: raise Unsup("Bessel function of non-integer order")
            if derivative: return sub(f(isub(k, 1), zz), mul(div(fint(iadd(k, 1)), zz), f(k, zz)))
            return f(k, zz)
        d = dtype_of(z)
        if cat_(d) < 2: d = "f64"
        if not isinstance(z, T) and not isinstance(n, T): return SNum(h(node_of(n), node_of(z)), "complex" if cat_(d) == 3 else "float")
        d = {"f32": "f64", "c64": "c128"}.get(d, d)
        return ew(h, [n, z], d, lib="numpy")
    return g


# ------------------------------------------------------------------ tensor attributes
def detach_t(t):
    rd = t.reader()
    r = t.view(t.shape, lambda i: i, lambda i: (TRUE, i))
    r.det = True
    if t.dtype in ("f32", "f64", "c64", "c128", "f16"):
        st = t.store
        r2 = T(t.shape, None, t.dtype, store=st, vmap=t.vmap, inv=t.inv, lib=t.lib)
        r2.part, r2.masked = t.part, t.masked
        r2.isdet = True
        return r2
    return r


_old_reader = T.reader


def _reader(self):
    h = _old_reader(self)
    if getattr(self, "isdet", False): return lambda idx: detach(h(idx))
    return h


T.reader = _reader
_old_view = T.view


def _view(self, shape, fwd, back):
    r = _old_view(self, shape, fwd, back)
    if getattr(self, "isdet", False): r.isdet = True
    if getattr(self, "rgrad", None) is not None: r.rgrad = self.rgrad
    return r


T.view = _view


def requires_grad(t):
    v = getattr(t, "rgrad", None)
    if v is not None: return v
    tr = cur[0].opts.get("tracked")            # leaf name -> truth symbol of "this input requires a gradient"
    if tr:
        x = t.at(*[isym(fresh("g")) for _ in t.shape])
        st, seen, names = [x], set(), set()
        while st:
            y = st.pop()
            if y in seen or y.op == "detach": continue
            seen.add(y)
            if y.op == "leaf" and y.a[0] in tr: names.add(tr[y.a[0]])
            st += [c for c in children(y) if isinstance(c, Node)]
        if names: return SBool(bor(*[mk("bopq", q) for q in sorted(names)]))
    return False


def item(t):
    for d in t.shape:
        if iconst(nz(d)) != 1 and not cur[0].branch(icmp("==", d, 1)):
            raise PyExc("RuntimeError", "a Tensor with more than one element cannot be converted to Scalar")
    v = t.at(*([0] * t.ndim))
    if cat_(t.dtype) == 1:
        k = int_of(core.strip_detach(v))
        if k is not None: return unie(k)
    if t.dtype == "bool":
        c = n2b(v)
        return True if c is TRUE else (False if c is FALSE else SBool(c))
    if v.op == "num" and v.a[1] == 0 and cat_(t.dtype) == 2 and False: return float(v.a[0])
    return SNum(detach(v), "complex" if cat_(t.dtype) == 3 else "float")


def part(t, which):
    if cat_(t.dtype) < 3:
        if which == "re": return t
        return T(t.shape, lambda i: ZERO, t.dtype, lib=t.lib)
    r = t.view(t.shape, lambda i: i, lambda i: (TRUE, i))
    if r.part: raise Unsup("nested part")
    r.part = which
    r.dtype = absdt(t)
    r.masked = t.masked
    return r


def to_(t, *a, dtype=None, device=None, copy=False, non_blocking=False, **kw):
    for x in a:
        if isinstance(x, DType) or x in (float, complex, int, bool): dtype = x
        elif isinstance(x, T): dtype = DType(x.dtype)
    r = cast(t, dt_of(dtype))
    return r.fresh() if copy and r is t else r


METHODS = {}


def method(*names):
    def d(f):
        for n in names: METHODS[n] = f
        return f
    return d


def tattr(t, k):
    if k == "shape": return Shape(unie(nz(d)) for d in t.shape)
    if k == "ndim": return t.ndim
    if k == "dtype": return DType(t.dtype)
    if k == "device": return CPU
    if k == "real": return part(t, "re")
    if k == "imag": return part(t, "im")
    if k == "T": return permute(t, list(range(t.ndim))[::-1])
    if k == "mT": return transpose(t, -1, -2)
    if k == "requires_grad": return requires_grad(t)
    if k == "is_leaf": return True
    if k == "grad": return None
    if k == "data": return detach_t(t)
    if k == "is_cuda": return False
    if k == "size" and t.lib == "numpy": return unie(prod_ie(t.shape))
    f = METHODS.get(k)
    if f is None: raise Unsup("tensor method %s" % k)
    return lambda *a, **kw: f(t, *a, **kw)


def size_(t, d=None):
    s = tattr(t, "shape")
    return s if d is None else s[d if isinstance(d, int) else iconst(deint(d))]


def tnumpy(t, *a, **kw):
    if not getattr(t, "isdet", False) and requires_grad(t) is True: raise PyExc("RuntimeError", "Can't call numpy() on Tensor that requires grad")
    r = t.view(t.shape, lambda i: i, lambda i: (TRUE, i))
    r.lib = "numpy"
    if cat_(t.dtype) >= 2: r.isdet = True
    return r


def clone(t, **kw):
    r = t.fresh(); r.masked = t.masked
    if getattr(t, "rgrad", None) is not None: r.rgrad = t.rgrad
    return r


def fill_inplace(n):
    def f(t):
        t.write(lambda i: (TRUE, lambda: n)); return t
    return f


def inplace_method(op):
    def f(t, v, **kw): return inplace(op, t, v)
    return f


def flatten(t, start_dim=0, end_dim=-1):
    if t.ndim == 0: return unsqueeze(t, 0)
    s, e = getdim(start_dim, t.ndim), getdim(end_dim, t.ndim)
    return reshape(t, t.shape[:s] + (prod_ie(t.shape[s:e + 1]),) + t.shape[e + 1:])


def t_repeat(t, *reps):
    raise Unsup("repeat")


def flip(t, *dims):
    if len(dims) == 1 and isinstance(dims[0], (tuple, L)): dims = INTERP[0].iterate(dims[0])
    ds = [getdim(d, t.ndim) for d in dims]
    sh = t.shape
    f = lambda i: tuple(isub(isub(sh[k], 1), x) if k in ds else x for k, x in enumerate(i))
    return t.view(sh, f, lambda i: (TRUE, f(i))).fresh()


def index_select(t, dim, index): 
    return getitem(t, tuple([slice(None)] * getdim(dim, t.ndim) + [index]))


def t_diff(t, dim=-1, **kw):
    d = getdim(dim, t.ndim)
    a = getitem(t, tuple([slice(None)] * d + [slice(1, None)]))
    b = getitem(t, tuple([slice(None)] * d + [slice(None, -1)]))
    return binop("Sub", a, b)


def numel(t): return unie(nz(prod_ie(t.shape)))


M = METHODS
M["unsqueeze"] = unsqueeze
M["squeeze"] = squeeze
M["permute"] = lambda t, *o: permute(t, INTERP[0].iterate(o[0]) if len(o) == 1 and isinstance(o[0], (tuple, L)) else o)
M["moveaxis"] = M["movedim"] = moveaxis
M["transpose"] = M["swapaxes"] = transpose
M["view"] = lambda t, *s: reshape(t, shape_arg(s))
M["reshape"] = lambda t, *s, **kw: reshape(t, shape_arg(s if s else (kw["shape"],)))
M["flatten"] = M["ravel"] = flatten
M["broadcast_to"] = broadcast_to
M["expand"] = broadcast_to
M["expand_as"] = lambda t, o: broadcast_to(t, o.shape)
M["to"] = to_
M["type"] = to_
M["astype"] = lambda t, d, **kw: cast(t, dt_of(d))
M["double"] = lambda t: cast(t, "f64")
M["float"] = lambda t: cast(t, "f32")
M["cpu"] = M["contiguous"] = M["cuda"] = lambda t, *a, **k: t
M["requires_grad_"] = lambda t, *a: t
M["clone"] = M["copy"] = clone
M["detach"] = detach_t
M["numpy"] = tnumpy
M["item"] = item
M["tolist"] = lambda t: L([getitem(t, q) if False else item(getitem(t, q)) for q in range(concrete_len(t))]) if t.ndim else item(t)
M["numel"] = M["nelement"] = numel
M["dim"] = M["ndimension"] = lambda t: t.ndim
M["size"] = size_
M["conj"] = M["conjugate"] = M["conj_physical"] = lambda t: mew(conj, [t], t.dtype)
M["resolve_conj"] = lambda t: t
M["abs"] = M["absolute"] = lambda t: mew(absv, [t], absdt(t))
M["sqrt"] = lambda t: mew(f_sqrt, [t], fdtype(t))
M["square"] = lambda t: mew(lambda x: mkpow(x, Fr(2)), [t], t.dtype)
M["pow"] = lambda t, e: binop("Pow", t, e)
M["reciprocal"] = lambda t: mew(lambda x: mkpow(x, Fr(-1)), [t], fdtype(t))
for _n in ("exp", "sin", "cos", "log", "acos"): M[_n] = (lambda n: lambda t: mew(lambda x: fn1(n, x), [t], fdtype(t)))(_n)
M["arccos"] = M["acos"]
M["round"] = t_round
M["clamp"] = M["clip"] = clamp
M["sum"], M["mean"], M["prod"] = tsum, tmean, tprod
M["max"], M["min"] = extremum("maxr"), extremum("minr")
M["amax"], M["amin"] = lambda t, dim=None, keepdim=False: _first(extremum("maxr")(t, dim=dim, keepdim=keepdim)), lambda t, dim=None, keepdim=False: _first(extremum("minr")(t, dim=dim, keepdim=keepdim))
M["all"], M["any"] = allany("all"), allany("any")
M["nonzero"] = nonzero
M["add"], M["sub"], M["mul"], M["div"] = [lambda t, o, op=op: binop(op, t, o) for op in ("Add", "Sub", "Mult", "Div")]
M["add_"], M["sub_"], M["mul_"], M["div_"] = [inplace_method(op) for op in ("Add", "Sub", "Mult", "Div")]
M["zero_"] = fill_inplace(ZERO)
M["neg"] = lambda t: mew(neg, [t], t.dtype)
M["is_complex"] = lambda t: cat_(t.dtype) == 3
M["is_floating_point"] = lambda t: cat_(t.dtype) == 2
M["matmul"] = M["mm"] = M["dot"] = matmul
M["cumprod"], M["cumsum"] = cumprod, cumsum
M["logical_and"] = lambda a, b: tbin("BitAnd", cast(a, "bool"), cast(b, "bool"))
M["logical_not"] = lambda a: unop("Invert", cast(a, "bool"))
M["where"] = lambda t, c, o: where(c, t, o)
M["flip"] = flip
M["index_select"] = index_select
M["diff"] = t_diff
M["eq"], M["ne"], M["lt"], M["le"], M["gt"], M["ge"] = [lambda t, o, op=op: compare(op, t, o) for op in ("Eq", "NotEq", "Lt", "LtE", "Gt", "GtE")]
M["fill_"] = lambda t, v: (t.write(lambda i: (TRUE, lambda: node_of(v))), t)[1]
M["copy_"] = lambda t, v: (write_bc(t, v), t)[1]
M["__len__"] = lambda t: b_len(t)
M["retain_grad"] = lambda t: None
M["equal"] = tequal
M["tile"] = M["repeat"] = t_repeat
M["norm"] = norm
M["new_zeros"] = lambda t, *s, dtype=None, device=None: T(shape_arg(s), lambda i: ZERO, dt_of(dtype) or t.dtype)
M["new_tensor"] = lambda t, x, **kw: as_tensor(x, DType(t.dtype))
M["masked_fill"] = lambda t, m, v: where(m, v if isinstance(v, T) else T((), lambda i: node_of(v), t.dtype), t)
def unbind(t, dim=0):
    d = getdim(dim, t.ndim)
    at = lambda q: getitem(t, tuple([slice(None)] * d + [q]))
    n = iconst(nz(t.shape[d]))
    return L(length=t.shape[d], get=at) if n is None else tuple(at(q) for q in range(n))


M["unbind"] = unbind
M["nan_to_num"] = lambda t, *a, **k: t


def _first(x): return x[0] if isinstance(x, tuple) else x


def concrete_len(t):
    n = iconst(nz(t.shape[0]))
    if n is None: raise Unsup("list of symbolic tensor")
    return n


def numattr(o, k):
    if k == "real": return o if not (isinstance(o, complex) or (isinstance(o, SNum) and o.kind == "complex")) else (o.real if isinstance(o, complex) else SNum(re(o.node)))
    if k == "imag":
        if isinstance(o, complex): return o.imag
        return SNum(im(o.node)) if isinstance(o, SNum) and o.kind == "complex" else 0.0
    if k in ("item", "squeeze"): return lambda: o
    if k == "conjugate" or k == "conj": return lambda: SNum(conj(node_of(o)), "complex")
    if k == "is_integer": return lambda: float(o).is_integer()
    if k == "shape": raise PyExc("AttributeError", "shape")
    if k == "dtype" and isinstance(o, SNum): raise PyExc("AttributeError", "dtype")
    raise PyExc("AttributeError", "number has no attribute " + k)


# ------------------------------------------------------------------ custom autograd functions
class Ctx_:
    def __init__(self): self.saved = ()


def autograd_apply(ip, cls, args):
    R = cur[0]
    fw = cls.lookup("forward")
    f = fw.f if isinstance(fw, StaticM) else fw
    ctx = Inst(Cls("ctx", [], {}))
    setup = cls.lookup("setup_context")
    saved = []
    ctx.attrs["save_for_backward"] = lambda *a: ctx.attrs.__setitem__("saved_tensors", tuple(a))
    if setup is not None:
        r = ip.call(f, list(args), {})
        ip.call(setup.f if isinstance(setup, StaticM) else setup, [ctx, tuple(args), r], {})
    else: r = ip.call(f, [ctx] + list(args), {})
    R.event("autograd", cls.name)
    def strip(t):
        if not isinstance(t, T): return t
        rd = t.reader()
        return T(t.shape, lambda i: core.strip_detach(rd(i)), t.dtype)
    r2 = tuple(strip(x) for x in r) if isinstance(r, tuple) else strip(r)
    R.lastctx = (cls, ctx, args, r)
    return r2


# ------------------------------------------------------------------ modules
def passthru(*a, **k): return None


def mk_isgrad():
    if "gradmode" in cur[0].opts and cur[0].nograd <= 0: return SBool(mk("bopq", cur[0].opts["gradmode"]))
    return cur[0].nograd <= 0 and cur[0].opts.get("grad", True)


def t_argsort(t, dim=-1, descending=False, stable=False, **kw):
    h = cur[0].opts.get("argsort")
    if h: return h(t, descending)
    raise Unsup("argsort")


def t_sort(t, dim=-1, descending=False, **kw):
    ix = t_argsort(t, dim, descending)
    return MaxRes2(getitem(t, ix), ix)


class MaxRes2(tuple):
    def __new__(cls, a, b): return tuple.__new__(cls, (a, b))
    values = property(lambda s: s[0])
    indices = property(lambda s: s[1])


def t_bucketize(x, b, right=False, out_int32=False, side=None, **kw):
    h = cur[0].opts.get("bucketize")
    if h: return h(x, b, right if side is None else side == "right")
    raise Unsup("bucketize")


def is_tensor(x): return isinstance(x, T) and x.lib == "torch"


def ones_(lib): return filled(ONE, lib)
def zeros_(lib): return filled(ZERO, lib)


def full(size, v, dtype=None, **kw):
    n = node_of(v)
    return T(shape_arg((size,)), lambda i: n, dt_of(dtype) or {"f64": "f32", "c128": "c64"}.get(scalar_dtype(v) if is_scalar(v) else v.dtype, scalar_dtype(v) if is_scalar(v) else v.dtype))


def t_complex(a, b): return mew(lambda x, y: add(x, mul(I, y)), [a, b], {"f32": "c64", "f64": "c128"}[rtype([a, b])])


def t_polar(a, b): return mew(lambda x, y: mul(x, fn1("exp", mul(I, y))), [a, b], {"f32": "c64", "f64": "c128"}[rtype([a, b])])


def eye(n, m=None, dtype=None, lib="torch", **kw):
    n = deint(n); m = n if m is None else deint(m)
    return T((n, m), lambda i: b2n(dec(icmp("==", i[0], i[1]))), dt_of(dtype) or "f32", lib=lib)


def diag(t, *a, **kw):
    if t.ndim == 1:
        rd = t.reader()
        return T((t.shape[0], t.shape[0]), lambda i: ite(dec(icmp("==", i[0], i[1])), rd((i[0],)), ZERO), t.dtype, lib=t.lib)
    raise Unsup("diag")


def einsum(spec, *ts):
    lhs, out = spec.replace(" ", "").split("->")
    ins = lhs.split(",")
    if "..." in spec: raise Unsup("einsum ellipsis")
    dims = {}
    for s, t in zip(ins, ts):
        for c, d in zip(s, t.shape):
            if c not in dims: dims[c] = d
            elif not same(dims[c], d) and not cur[0].branch(icmp("==", dims[c], d)): raise PyExc("RuntimeError", "einsum size mismatch")
    rds = [t.reader() for t in ts]
    red_ = [c for c in dims if c not in out]
    d = ts[0].dtype
    for t in ts[1:]: d = join(d, t.dtype)

    def f(i):
        m = dict(zip(out, i))
        def rec(k):
            if k == len(red_): return mul(*[r(tuple(m[c] for c in s)) for r, s in zip(rds, ins)])
            def g(v):
                m[red_[k]] = v
                return rec(k + 1)
            return ssum1(dims[red_[k]], g)
        return rec(0)
    return T(tuple(dims[c] for c in out), f, d, lib=ts[0].lib)


def meshgrid(*a, indexing="ij", **kw): raise Unsup("meshgrid")


def outer(a, b): return binop("Mult", unsqueeze(a, 1), unsqueeze(b, 0))


def dtypes_dict(): return {k: DType(v) for k, v in DT.items()}


def common(lib):
    d = dict(
        sqrt=elem("sqrt", f_sqrt), exp=elem("exp"), sin=elem("sin"), cos=elem("cos"), log=elem("log"),
        abs=elem("abs", absv, absdt), absolute=elem("abs", absv, absdt), square=elem("square", lambda x: mkpow(x, Fr(2)), dtype_of),
        real=lambda t: part(astensor(t, lib), "re"), imag=lambda t: part(astensor(t, lib), "im"), conj=elem("conj", conj, dtype_of),
        round=t_round, clip=clamp, where=where, sum=tsum, mean=tmean, prod=tprod,
        all=allany("all"), any=allany("any"), isreal=lambda *a: Sym("isreal"), max=extremum("maxr"), min=extremum("minr"),
        maximum=bin2(imax), minimum=bin2(imin), stack=stack, concatenate=concat, moveaxis=moveaxis, squeeze=lambda t, *a, **k: squeeze(t, *a, **k),
        matmul=matmul, ones_like=lambda t, **k: like(t, ONE, **k), zeros_like=lambda t, **k: like(t, ZERO, **k), full_like=lambda t, v, **k: like(t, node_of(v), **k),
        ones=ones_(lib), zeros=zeros_(lib), empty=zeros_(lib), empty_like=lambda t, **k: like(t, ZERO, **k), broadcast_to=lambda t, *s: broadcast_to(t, *s), reshape=lambda t, *s: reshape(t, shape_arg(s)),
        pi=SNum(PI), inf=float("inf"), nan=float("nan"), finfo=Finfo, linspace=lambda *a, **k: linspace(*a, lib=lib, **k),
        arange=lambda *a, **k: arange(*a, lib=lib, **k), cumprod=cumprod, cumsum=cumsum, logical_and=bin2(lambda x, y: b2n(band(n2b(x), n2b(y))), "bool"),
        logical_or=bin2(lambda x, y: b2n(bor(n2b(x), n2b(y))), "bool"), logical_not=elem("not", lambda x: b2n(bnot(n2b(x))), lambda x: "bool"),
        nan_to_num=lambda t, *a, **k: (note("nan_to_num acts as the identity on finite values"), t)[1],
        isnan=elem("isnan", lambda x: ZERO, lambda x: "bool"), isfinite=elem("isfinite", lambda x: ONE, lambda x: "bool"), isinf=elem("isinf", lambda x: ZERO, lambda x: "bool"),
        einsum=einsum, cross=cross, eye=lambda *a, **k: eye(*a, lib=lib, **k), diag=diag, outer=outer, sign=elem("sign"), transpose=transpose, diff=t_diff, dot=matmul,
        add=bin2(add), multiply=bin2(mul), subtract=bin2(sub), divide=bin2(div), power=lambda a, b: binop("Pow", a, b), pow=lambda a, b: binop("Pow", a, b), negative=elem("neg", neg, dtype_of), reciprocal=elem("rec", lambda x: mkpow(x, Fr(-1))),
        lgamma=elem("lgamma"), floor=elem("floor"), ceil=elem("ceil"), trunc=elem("trunc"), flip=flip, hypot=bin2(lambda x, y: mkpow(add(mkpow(x, Fr(2)), mkpow(y, Fr(2))), Fr(1, 2))), meshgrid=meshgrid,
        nonzero=nonzero, amax=M["amax"], amin=M["amin"], equal=(tequal if lib == "torch" else bin2(lambda x, y: b2n(eqnode(x, y)), "bool")),
        arccos=elem("acos"), arctan2=bin2(f_atan2), rad2deg=elem("rad2deg", lambda x: mul(x, div(num(180), PI))), deg2rad=elem("deg2rad", lambda x: mul(x, div(PI, num(180)))),
    )
    d.update(dtypes_dict())
    return d


Function = Sym("torch.autograd.Function")
TORCH = Mod("torch", common("torch"))
TORCH.d.update(
    Tensor=TENSOR, as_tensor=as_tensor, tensor=new_tensor, asarray=as_tensor, from_numpy=from_numpy, atleast_1d=atleast_1d, atleast_2d=lambda t: atleast_nd(t, 2), cat=concat, concat=concat, vstack=None,
    unsqueeze=unsqueeze, movedim=moveaxis, permute=lambda t, o: permute(t, INTERP[0].iterate(o)), acos=elem("acos"), atan2=bin2(f_atan2), clamp=clamp, numel=numel, is_complex=lambda t: cat_(t.dtype) == 3, is_floating_point=lambda t: cat_(t.dtype) == 2, argsort=t_argsort, sort=t_sort, bucketize=t_bucketize, searchsorted=lambda b, x, right=False, **k: t_bucketize(x, b, right, **k),
    is_tensor=is_tensor, is_grad_enabled=mk_isgrad, full=full, complex=t_complex, polar=t_polar, expand_copy=broadcast_to, flatten=flatten, clone=clone, detach=detach_t, mul=bin2(mul), div=bin2(div), sub=bin2(sub), neg=elem("neg", neg, dtype_of), true_divide=bin2(div), index_select=index_select, norm=norm, mm=matmul, mv=matmul, broadcast_tensors=lambda *ts: _bts(ts), broadcast_shapes=lambda *s: Shape(unie(x) for x in broadcast_shapes([tuple(ie(y) for y in z) for z in s])[0]), allclose=allclose, isclose=isclose, device=lambda *a: CPU, no_grad=lambda: Sym("no_grad"), enable_grad=lambda: Sym("enable_grad"), inference_mode=lambda: Sym("no_grad"), result_type=lambda a, b: DType(rtype([a, b])), promote_types=lambda a, b: DType(join(a.d, b.d)), get_default_dtype=lambda: DType("f32"), ge=lambda a, b: compare("GtE", a, b), gt=lambda a, b: compare("Gt", a, b), lt=lambda a, b: compare("Lt", a, b), le=lambda a, b: compare("LtE", a, b), eq=lambda a, b: compare("Eq", a, b), select=lambda t, d, i: getitem(t, tuple([slice(None)] * getdim(d, t.ndim) + [i])), narrow=lambda t, d, s, n: getitem(t, tuple([slice(None)] * getdim(d, t.ndim) + [slice(s, binop("Add", s, n))])), unbind=M["unbind"], float_power=lambda a, b: binop("Pow", a, b), masked_fill=M["masked_fill"])
TORCH.d.pop("vstack")


def _bts(ts):
    sh, _ = broadcast_shapes([t.shape for t in ts])
    return tuple(broadcast_to(t, sh) for t in ts)


TORCH.d["autograd"] = Mod("torch.autograd", dict(Function=Function, grad=Sym("torch.autograd.grad"), gradcheck=Sym("torch.autograd.gradcheck"),
                                                 function=Mod("torch.autograd.function", dict(once_differentiable=lambda f: f, Function=Function))))
TORCH.d["linalg"] = Mod("torch.linalg", dict(norm=norm, cross=cross, vector_norm=norm))
TORCH.d["nn"] = Mod("torch.nn", {"__opaque__": True})
TORCH.d["cuda"] = Mod("torch.cuda", dict(is_available=lambda: False))
TORCH.d["special"] = Mod("torch.special", {"__opaque__": True})
NUMPY = Mod("numpy", common("numpy"))
NUMPY.d.update(array=np_array, asarray=np_asarray, ndarray=NDARRAY, atleast_1d=lambda x: atleast_1d(np_asarray(x)), newaxis=None, ascontiguousarray=np_asarray, float64=DType("f64"), complex128=DType("c128"), linalg=Mod("numpy.linalg", dict(norm=norm)), squeeze=lambda t, **k: squeeze(np_asarray(t), **k), isscalar=lambda x: is_scalar(x), ndim=lambda x: x.ndim if isinstance(x, T) else 0, shape=lambda x: tattr(np_asarray(x), "shape"), copy=lambda x: clone(np_asarray(x)), allclose=lambda a, b, **k: tequal(np_asarray(a), np_asarray(b)))
SCISPECIAL = Mod("scipy.special", dict(spherical_jn=sph_fn(jn), spherical_yn=sph_fn(yn)))
MODULES = {"torch": TORCH, "numpy": NUMPY, "scipy.special": SCISPECIAL, "scipy": Mod("scipy", dict(special=SCISPECIAL)),
           "warnings": Mod("warnings", dict(warn=passthru, simplefilter=passthru, filterwarnings=passthru, catch_warnings=lambda **k: Sym("cw"))),
           "typing": Mod("typing", {k: Sym("typing." + k) for k in ("Union", "Optional", "List", "Tuple", "Dict", "Any", "Callable", "Sequence", "Iterable")}),
           "math": Mod("math", dict(pi=SNum(PI), sqrt=elem("sqrt", f_sqrt), exp=elem("exp"), sin=elem("sin"), cos=elem("cos"), log=elem("log"), inf=float("inf"), ceil=lambda x: b_int(x) if False else _mceil(x), floor=lambda x: as_int(x), isclose=lambda a, b, **k: abs(a - b) < 1e-9, fabs=elem("abs", absv, absdt))),
           "copy": Mod("copy", dict(copy=lambda x: L(x.items) if isinstance(x, L) else (dict(x) if isinstance(x, dict) else (clone(x) if isinstance(x, T) else x)), deepcopy=lambda x: clone(x) if isinstance(x, T) else (L(list(x.items)) if isinstance(x, L) else x))),
           "collections": Mod("collections", dict(deque=lambda x=(): b_list(x), OrderedDict=lambda *a, **k: b_dict(*a, **k))),
           "functools": Mod("functools", dict(wraps=lambda f: (lambda g: g), lru_cache=Sym("functools.lru_cache"), partial=lambda f, *a, **k: (lambda *b, **m: INTERP[0].call(f, list(a) + list(b), {**k, **m})), reduce=lambda f, s, *i: _reduce(f, s, *i))),
           "torch.autograd": TORCH.d["autograd"], "numpy.linalg": NUMPY.d["linalg"], "__future__": Mod("__future__", dict(annotations=None)), "time": Mod("time", {"__opaque__": True}), "os": Mod("os", {"__opaque__": True}), "sys": Mod("sys", {"__opaque__": True})}


def _mceil(x):
    if isinstance(x, (int, float)): return math.ceil(x)
    return unie(ineg(IE(((("trunc", neg(node_of(x))), 1),), 0)))


def _reduce(f, s, *i):
    xs = INTERP[0].iterate(s)
    if xs is None: raise Unsup("reduce over symbolic sequence")
    xs = list(i) + xs
    r = xs[0]
    for x in xs[1:]: r = INTERP[0].call(f, [r, x], {})
    return r


# ------------------------------------------------------------------ builtins
def b_len(x):
    if isinstance(x, L): return x.len()
    if isinstance(x, T):
        if x.ndim == 0: raise PyExc("TypeError", "len() of a 0-d tensor")
        return unie(nz(x.shape[0]))
    if isinstance(x, Range): return unie(nz(x.count()))
    if isinstance(x, (tuple, dict, str, set, list)): return len(x)
    if is_scalar(x): raise PyExc("TypeError", "object of type number has no len()")
    if hasattr(x, "vlen"): return x.vlen()
    if x is None: raise PyExc("TypeError", "object of type 'NoneType' has no len()")
    if isinstance(x, Inst):
        f = x.cls.lookup("__len__")
        if f: return INTERP[0].call(f, [x], {})
    raise Unsup("len of %r" % (x,))


def b_range(*a):
    a = [deint(x) if not isinstance(x, (float, SNum)) else _bad("'float' object cannot be interpreted as an integer") for x in a]
    if len(a) == 1: return Range(0, a[0], 1)
    st = iconst(a[2]) if len(a) > 2 else 1
    if st is None: raise Unsup("symbolic range step")
    return Range(a[0], a[1], st)


def _bad(m): raise PyExc("TypeError", m)


def b_int(x=0, *a):
    if isinstance(x, str): return int(x, *a)
    if isinstance(x, SBool): return unie(int_of(b2n(x.node))) if int_of(b2n(x.node)) is not None else (1 if cur[0].branch(x.node) else 0)
    if isinstance(x, T):
        for d in x.shape:
            if iconst(nz(d)) != 1 and not cur[0].branch(icmp("==", d, 1)): raise PyExc("RuntimeError", "only one element tensors can be converted to Python scalars")
        if cat_(x.dtype) == 3: raise PyExc("TypeError", "can't convert complex to int")
    return as_int(x)


def b_float(x=0.0):
    if isinstance(x, (int, float, str)): return float(x)
    if isinstance(x, IE): return SNum(fint(x))
    if isinstance(x, SNum):
        if x.kind == "complex": raise PyExc("TypeError", "can't convert complex to float")
        return x
    if isinstance(x, T):
        v = item(x)
        return b_float(v) if not isinstance(v, SNum) else (v if v.kind == "float" else _bad("can't convert complex to float"))
    if isinstance(x, SBool): return SNum(b2n(x.node))
    if hasattr(x, "vfloat"): return x.vfloat()
    if x is None: _bad("float() argument must be a string or a real number")
    raise Unsup("float of %r" % (x,))


def b_complex(a=0, b=0):
    if isinstance(a, T): a = item(a)
    if isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)): return complex(a, b)
    return SNum(add(node_of(a), mul(I, node_of(b))), "complex")


def b_bool(x=False): 
    if isinstance(x, SBool): return x
    return INTERP[0].truth(x)


def b_str(x=""): return str(x) if isinstance(x, (int, float, str)) else "<str>"
b_str.isstr = True


def b_isinstance(x, t):
    if isinstance(t, tuple): return any(b_isinstance(x, y) for y in t)
    if t is TENSOR: return isinstance(x, T) and x.lib == "torch"
    if t is NDARRAY: return isinstance(x, T) and x.lib == "numpy"
    if t is b_int: return isinstance(x, (int, IE)) or isinstance(x, SBool)
    if t is b_float: return isinstance(x, float) or (isinstance(x, SNum) and x.kind == "float")
    if t is b_complex: return isinstance(x, complex) or (isinstance(x, SNum) and x.kind == "complex")
    if t is b_str: return isinstance(x, str)
    if t is b_bool: return isinstance(x, (bool, SBool))
    if t is b_list: return isinstance(x, L)
    if t is b_tuple: return isinstance(x, tuple)
    if t is b_dict: return isinstance(x, dict)
    if t is b_set: return isinstance(x, set)
    if isinstance(t, Cls): return isinstance(x, Inst) and x.cls.sub(t)
    if isinstance(t, ExcT): return isinstance(x, ExcI) and t.matches(x.t.name)
    if isinstance(t, Sym):
        if "Number" in t.name: return is_scalar(x)
        return False
    if isinstance(t, (Mod, DType)): return False
    raise Unsup("isinstance of %r" % (t,))


def b_type(x):
    if isinstance(x, T): return TENSOR if x.lib == "torch" else NDARRAY
    if isinstance(x, (bool, SBool)): return b_bool
    if isinstance(x, (int, IE)): return b_int
    if isinstance(x, float): return b_float
    if isinstance(x, SNum): return b_complex if x.kind == "complex" else b_float
    if isinstance(x, complex): return b_complex
    if isinstance(x, str): return b_str
    if isinstance(x, L): return b_list
    if isinstance(x, tuple): return b_tuple
    if isinstance(x, dict): return b_dict
    if isinstance(x, Inst): return x.cls
    return Sym("type(%s)" % type(x).__name__)


def b_list(x=()):
    if isinstance(x, L): return L(x.items) if x.concrete() else (L(None, x.length, x.getf))
    if isinstance(x, Range):
        n = nz(x.count())
        if n.is_const(): return L([unie(x.item(ie(q))) for q in range(max(0, n.c))])
        if not cur[0].branch(icmp("<=", 0, n)): return L([])
        return L(None, n, lambda j: unie(x.item(j)))
    if isinstance(x, T):
        n = iconst(nz(x.shape[0]))
        if n is None: return L(None, x.shape[0], lambda j: index_view(x, [j] + [slice(None)] * (x.ndim - 1)) if True else None)
    v = INTERP[0].iterate(x)
    if v is None: raise Unsup("list of symbolic sequence")
    return L(v)


def b_tuple(x=()):
    v = INTERP[0].iterate(x)
    if v is None: raise Unsup("tuple of symbolic sequence")
    return tuple(v)


def b_dict(*a, **k):
    d = {}
    for x in a:
        if isinstance(x, dict): d.update(x)
        else: d.update({k_: v_ for k_, v_ in INTERP[0].iterate(x)})
    d.update(k)
    return d


def b_set(x=()): return set(INTERP[0].iterate(x))


def b_minmax(kind):
    def g(*a, default=None, key=None):
        if len(a) == 1:
            v = a[0]
            if isinstance(v, T): return extremum("maxr" if kind == "max" else "minr")(v)
            a = INTERP[0].iterate(v)
            if a is None: raise Unsup("max of symbolic sequence")
        if all(isinstance(x, (int, float)) for x in a): return (max if kind == "max" else min)(a)
        if all(isinstance(x, (int, IE)) for x in a):
            r = ie(a[0])
            for x in a[1:]:
                c = dec(icmp("<=", r, ie(x)))
                if c is TRUE: r = ie(x) if kind == "max" else r
                elif c is FALSE: r = r if kind == "max" else ie(x)
                else: r = iop(kind, r, ie(x))
            return unie(r)
        r = a[0]
        for x in a[1:]:
            p = compare("Gt" if kind == "max" else "Lt", x, r)
            if isinstance(p, bool): r = x if p else r
            elif isinstance(x, T) or isinstance(r, T):
                r = x if INTERP[0].truth(p) else r
            else: r = SNum((max2 if kind == "max" else min2)(node_of(r), node_of(x)))
        return r
    return g


def b_abs(x):
    if isinstance(x, (int, float, complex)): return abs(x)
    if isinstance(x, T): return mew(absv, [x], absdt(x))
    if isinstance(x, IE):
        return unie(iop("max", x, ineg(x)))
    return SNum(absv(node_of(x)))


def b_sum(x, start=0):
    if isinstance(x, T): return tsum(x, 0)
    if isinstance(x, L) and x.items is None:
        s = x.getf(isym(fresh("bs")))
        n = x.length
        if isinstance(s, T):
            def f(i):
                v = fresh("bs")
                return ssum(v, 0, n, x.getf(isym(v)).at(*i))
            return T(s.shape, f, s.dtype)
        v = fresh("bs")
        return SNum(ssum(v, 0, n, node_of(x.getf(isym(v)))))
    r = start
    for v in INTERP[0].iterate(x): r = binop("Add", r, v)
    return r


def b_reversed(x):
    if isinstance(x, Range):
        n = x.count()
        return Range(x.item(isub(n, 1)), isub(x.a, x.s), -x.s)
    if isinstance(x, L) and not x.concrete():
        n = x.length
        return L(None, n, lambda j: x.getf(isub(isub(n, 1), j)))
    return L(list(reversed(INTERP[0].iterate(x))))


def b_sorted(x, key=None, reverse=False):
    v = INTERP[0].iterate(x)
    if v is None or not all(isinstance(i, (int, float, str)) for i in v): raise Unsup("sorted")
    return L(sorted(v, reverse=reverse))


def b_map(f, *its):
    seqs = [INTERP[0].iterate(i) for i in its]
    if any(s is None for s in seqs):
        x = its[0]
        if len(its) == 1 and isinstance(x, (L, Range)):
            n = x.length if isinstance(x, L) else x.count()
            g = x.getf if isinstance(x, L) else x.item
            return L(None, n, lambda j: INTERP[0].call(f, [unie(g(j)) if isinstance(x, Range) else g(j)], {}))
        raise Unsup("map over symbolic sequence")
    return L([INTERP[0].call(f, list(a), {}) for a in zip(*seqs)])


def b_getattr(o, k, *d):
    try: return INTERP[0].getattr(o, k)
    except PyExc as e:
        if e.cls == "AttributeError" and d: return d[0]
        raise
    except (AttributeError, Unsup):
        if d: return d[0]
        raise


def b_hasattr(o, k):
    try: INTERP[0].getattr(o, k); return True
    except PyExc: return False
    except AttributeError: return False


def b_allany(kind):
    def g(x):
        if isinstance(x, T): return allany(kind)(x)
        v = INTERP[0].iterate(x)
        if v is None: raise Unsup("all/any of symbolic sequence")
        for i in v:
            t = INTERP[0].truth(i)
            if kind == "all" and not t: return False
            if kind == "any" and t: return True
        return kind == "all"
    return g


def b_print(*a, **k): return None


def b_open(*a, **k): return INTERP[0].call_sym(Sym("open"), a, k)


def b_iter(x): return x


def b_pow(a, b): return binop("Pow", a, b)


def b_round(x, n=None):
    if isinstance(x, float): return round(x, n) if n is not None else round(x)
    if isinstance(x, int): return x
    if isinstance(x, IE): return x
    v = fn1("round", core.strip_detach(node_of(x)))
    return as_int(SNum(v))


def b_divmod(a, b): return (binop("FloorDiv", a, b), binop("Mod", a, b))


BUILTINS.update(super=SuperO, locals=object(), len=b_len, range=b_range, int=b_int, float=b_float, complex=b_complex, bool=b_bool, str=b_str, isinstance=b_isinstance, type=b_type,
                list=b_list, tuple=b_tuple, dict=b_dict, set=b_set, max=b_minmax("max"), min=b_minmax("min"), abs=b_abs, sum=b_sum, zip=lambda *a, **k: ZipO(a), enumerate=lambda x, start=0: EnumO(x, start),
                reversed=b_reversed, sorted=b_sorted, map=b_map, getattr=b_getattr, hasattr=b_hasattr, print=b_print, open=b_open, iter=b_iter, pow=b_pow, round=b_round, divmod=b_divmod,
                all=b_allany("all"), any=b_allany("any"), staticmethod=StaticM, classmethod=ClassM, property=Prop, NotImplemented=Sym("NotImplemented"), object=Cls("object", [], {}), callable=lambda f: isinstance(f, (Func, Bound)) or callable(f), id=id, repr=lambda x: "<repr>", slice=slice, Ellipsis=Ellipsis, next=lambda it: _bad("next"), setattr=lambda o, k, v: INTERP[0].setattr(o, k, v), issubclass=lambda a, b: a.sub(b), __name__="pymiediff", filter=lambda f, s: L([x for x in INTERP[0].iterate(s) if (INTERP[0].truth(x) if f is None else INTERP[0].truth(INTERP[0].call(f, [x], {})))]))
for _k in ExcT.H: BUILTINS[_k] = ExcT(_k)
BUILTINS["BaseException"] = ExcT("BaseException")


def new_loader(extra=None):
    m = dict(MODULES)
    if extra: m.update(extra)
    ld = Loader(m)
    INTERP[0] = Interp(ld, Mod("<driver>", {}))
    return ld


# torchgdm: only its dtypes are assumed (single precision, checked against the installed package by oracles/)
MODULES["torchgdm.constants"] = Mod("torchgdm.constants", dict(DTYPE_FLOAT=DType("f32"), DTYPE_COMPLEX=DType("c64")))
