"""Path context: assumptions + z3 decision procedure for integer / shape / branch conditions."""
import z3
from core import *

z3.set_param("smt.random_seed", 1)


class Ctx:
    """set of assumed facts; decide() is sound (True/False only when entailed)"""
    stats = {"queries": 0, "time": 0.0}

    def __init__(self):
        self.s = z3.Solver()
        self.s.set("timeout", 4000)
        self.facts = []
        self.ints, self.reals, self.bools = {}, {}, {}
        self.side_seen = set()
        self.cache = {}
        self.stack = []
        self.qinst = []          # quantified facts: fn(ctx, node) -> list of facts to add when atom met
        self.isubst = {}         # solved integer equalities sym -> IE

    # -- translation
    def zi(self, x):
        x = ie(x)
        r = z3.IntVal(x.c)
        for a, k in x.co:
            v = self.ints.get(a)
            if v is None:
                v = self.ints[a] = z3.Int("i%d_%s" % (len(self.ints), a if isinstance(a, str) else a[0]))
                self._iaxioms(a, v)
            r = r + k * v
        return r

    def _side(self, f):
        # permanent, valid everywhere: asserted at the bottom by re-adding on pop
        self.sides.append(f) if hasattr(self, "sides") else setattr(self, "sides", [f])
        self.s.add(f)

    def _iaxioms(self, a, v):
        if isinstance(a, str): return
        op = a[0]
        if op in ("fdiv", "mod"):
            x, y = self.zi(a[1]), self.zi(a[2])
            yc = iconst(a[2])
            if yc is not None and yc > 0:
                if op == "fdiv": self._side(z3.And(yc * v <= x, x < yc * v + yc))
                else:
                    d = self.zi(IE(((("fdiv", a[1], a[2]), 1),), 0))
                    self._side(v == x - yc * d)
        elif op in ("max", "min"):
            vs = [self.zi(y) for y in a[1:]]
            if op == "max": self._side(z3.And(z3.Or(*[v == y for y in vs]), *[v >= y for y in vs]))
            else: self._side(z3.And(z3.Or(*[v == y for y in vs]), *[v <= y for y in vs]))
        elif op == "trunc":
            y = self.zr(a[1]) if isinstance(a[1], Node) else None
            if y is not None:
                rv = z3.ToReal(v)
                self._side(z3.Implies(y >= 0, z3.And(rv <= y, y < rv + 1)))
                self._side(z3.Implies(y <= 0, z3.And(rv >= y, y > rv - 1)))
        elif op == "ite":
            c = self.zb(a[1])
            self._side(v == z3.If(c, self.zi(a[2]), self.zi(a[3])))
        elif op == "mul":
            vs = [self.zi(y) for y in a[1:]]
            self._side(z3.Implies(z3.And(*[y >= 1 for y in vs]), z3.And(*[v >= y for y in vs])))
            self._side(z3.Implies(z3.And(*[y >= 0 for y in vs]), v >= 0))
            self._side(z3.Implies(z3.Or(*[y == 0 for y in vs]), v == 0))
        elif op == "bucket":
            pass
        f = INT_AXIOMS.get(op)
        if f:
            for fact in f(self, a): self._side(self.zb(fact))

    def zr(self, t):
        op, a = t.op, t.a
        if op == "num":
            if a[1] != 0: return self._ropq(t)
            return z3.RealVal("%d/%d" % (a[0].numerator, a[0].denominator))
        if op == "int": return z3.ToReal(self.zi(a[0]))
        if op == "add" and t.real:
            r = self.zr(a[0])
            for x in a[1:]: r = r + self.zr(x)
            return r
        if op == "mul" and a[0].op == "num" and a[0].a[1] == 0:
            k, b = coef(t)
            return self.zr(num(k[0])) * self.zr(b)
        if op == "mul" and t.real:
            # product of roots of non-negative factors = root of the product
            es = {x.a[1] for x in a if x.op == "pow" and isinstance(x.a[1], Fr) and 0 < x.a[1] < 1 and nonneg(x.a[0])}
            if len(es) == 1:
                e = es.pop()
                fs = [x for x in a if x.op == "pow" and x.a[1] == e and nonneg(x.a[0])]
                if len(fs) > 1:
                    rest = [x for x in a if x not in fs]
                    r = mk("pow", mul(*[x.a[0] for x in fs]), e, real=True)
                    if not rest: return self._ropq(r)
                    return self._ropq(mk("mul", *rest, r, real=True))
        if op in ("detach", "rl", "nn"): return self.zr(a[0])
        if op == "ite" and t.real:
            return z3.If(self.zb(a[0]), self.zr(a[1]), self.zr(a[2]))
        if op == "max2":
            x, y = self.zr(a[0]), self.zr(a[1]); return z3.If(x >= y, x, y)
        if op == "min2":
            x, y = self.zr(a[0]), self.zr(a[1]); return z3.If(x <= y, x, y)
        if op == "round":
            v = self.ints.get(("round", a[0]))
            if v is None:
                v = self.ints[("round", a[0])] = z3.Int("rnd%d" % len(self.ints))
                y = self.zr(a[0])
                self._side(z3.And(z3.ToReal(v) <= y + z3.RealVal("1/2"), z3.ToReal(v) >= y - z3.RealVal("1/2")))
                for k, (w, yw) in getattr(self, "rounds", {}).items():
                    self._side(z3.And(z3.Implies(y <= yw, v <= w), z3.Implies(yw <= y, w <= v)))
                if not hasattr(self, "rounds"): self.rounds = {}
                self.rounds[a[0]] = (v, y)
            return z3.ToReal(v)
        if op == "abs" and a[0].real:
            x = self.zr(a[0])
            return z3.If(x >= 0, x, -x)
        return self._ropq(t)

    def _ropq(self, t):
        v = self.reals.get(t)
        if v is None:
            v = self.reals[t] = z3.Real("r%d_%s" % (len(self.reals), t.op))
            if t.op == "leaf" and t.a[0].endswith("++"): self._side(v > 0)
            elif nonneg(t): self._side(v >= 0)
            for f in REAL_AXIOMS:
                for fact in f(self, t): self._side(self.zb(fact))
        return v

    def zb(self, c):
        op, a = c.op, c.a
        if op == "true": return z3.BoolVal(True)
        if op == "false": return z3.BoolVal(False)
        if op == "i==": return self.zi(a[0]) == 0
        if op == "i<=": return self.zi(a[0]) <= 0
        if op == "not": return z3.Not(self.zb(a[0]))
        if op == "and": return z3.And(*[self.zb(x) for x in a])
        if op in ("f==", "f<", "f<=") and a[0].real and a[1].real:
            x, y = self.zr(a[0]), self.zr(a[1])
            return x == y if op == "f==" else (x < y if op == "f<" else x <= y)
        v = self.bools.get(c)
        if v is None: v = self.bools[c] = z3.Bool("b%d_%s" % (len(self.bools), op))
        return v

    # -- facts
    def push(self):
        self.stack.append((len(self.facts), dict(self.isubst)))
        self.s.push()

    def pop(self):
        n, self.isubst = self.stack.pop()
        self.s.pop()
        for f in getattr(self, "sides", []): self.s.add(f)
        self.facts = self.facts[:n]

    def assume(self, c):
        if c is TRUE: return
        if c.op == "and":
            for x in c.a: self.assume(x)
            return
        if c in self.facts: return
        self.facts.append(c)
        self.s.add(self.zb(c))
        if c.op == "i==":
            old = self.isubst
            self._solve_eq(c.a[0])
            if self.isubst != old:           # what is known about terms at the solved index
                for f in self.facts: self._solved(f)
        else: self._solved(c)

    def _solved(self, f):
        if not self.isubst or f.op in ("i==", "i<="): return
        g = subst(f, self.isubst)
        if g is not f: self.s.add(self.zb(g))

    def _solve_eq(self, d):
        d = isubst(d, self.isubst)
        for a, k in d.co:
            if isinstance(a, str) and abs(k) == 1 and not a.startswith("@"):
                rest = iscale(isub(d, iscale(isym(a), k)), -k)
                if a in ie_syms(rest): continue
                m = {a: rest}
                self.isubst = {s: isubst(v, m) for s, v in self.isubst.items()}
                self.isubst[a] = rest
                return

    def _check(self, extra):
        import time
        t0 = time.time()
        Ctx.stats["queries"] += 1
        self.s.push()
        ns = len(getattr(self, "sides", []))
        self.s.add(extra)
        r = self.s.check()
        self.s.pop()
        for f in getattr(self, "sides", [])[ns:]: self.s.add(f)
        Ctx.stats["time"] += time.time() - t0
        return r

    def decide(self, c):
        if c is TRUE: return True
        if c is FALSE: return False
        if self.isubst: c = subst(c, self.isubst)
        if c is TRUE: return True
        if c is FALSE: return False
        key = (tuple(self.facts), c)
        if key in self.cache: return self.cache[key]
        z = self.zb(c)
        if self._check(z3.Not(z)) == z3.unsat: r = True
        elif self._check(z) == z3.unsat: r = False
        else: r = None
        if r is None and not self._inq:
            b = c.a[0] if c.op == "not" else c
            if b.op == "forall":
                if self._forall(b): r = b is c
        self.cache[key] = r
        return r

    _inq = False

    def _forall(self, q):
        """prove a universally quantified condition at fresh indices, with the known ones instantiated there"""
        self._inq = True
        self.push()
        try:
            sk, body = [], q
            while body.op == "forall":
                s = fresh("sk"); sk.append(isym(s))
                v, lo, hi, bd = body.a
                self.assume(icmp("<=", lo, isym(s))); self.assume(icmp("<", isym(s), hi))
                body = subst(bd, {v: isym(s)})
            for f in [f for f in self.facts if f.op == "forall"]:
                self.instantiate(f, sk)
            return self.decide(body) is True
        finally:
            self.pop()
            self._inq = False

    def instantiate(self, f, ix):
        """add the instance of a known forall at the given indices (innermost last) when they are in range"""
        if not ix: return
        k = 0
        g = f
        while g.op == "forall": k += 1; g = g.a[3]
        for use in ([ix] if len(ix) == k else [ix[:k]] if len(ix) > k else []):
            b, ok = f, []
            for i in use:
                v, lo, hi, bd = b.a
                ok += [icmp("<=", lo, i), icmp("<", i, hi)]
                b = subst(bd, {v: i})
            self.s.add(z3.Implies(z3.And(*[self.zb(x) for x in ok]), self.zb(b)))

    def feasible(self, c=TRUE):
        return self._check(self.zb(c)) != z3.unsat

    def model(self, syms=()):
        if self.s.check() != z3.sat: return {}
        m = self.s.model()
        out = {}
        for a, v in self.ints.items():
            if isinstance(a, str):
                x = m.eval(v, model_completion=True)
                out[a] = x.as_long()
        return out


INT_AXIOMS = {}      # atom op -> f(ctx, atom) -> [facts]
REAL_AXIOMS = []     # f(ctx, node) -> [facts]
