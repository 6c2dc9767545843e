"""Loops whose trip count is symbolic: one generic iteration is executed, the recurrences it
defines are solved by an inductive closed form (base + step discharged), no unrolling bound."""
import ast
from core import *
import core
from tensor import *
from interp import *
import interp
from prove import prove_all, threshold, eval_terms, resolve
import prove
import pit
from pit import World, Unresolved, Unsupported

MAXCONST = 3
DEBUG = False


class LoopMut(Exception): pass


def exec_for(ip, s, env, it):
    R = cur[0]
    seq = ip.iterate(it)
    if seq is not None:
        for x in seq:
            ip.assign(s.target, x, env)
            try: ip.exec_body(s.body, env)
            except ContinueX: continue
            except BreakX: return
        ip.exec_body(s.orelse, env)
        return
    n, item = sym_iter(it)
    run_loop(ip, s, env, ie(n), lambda t: ip.assign(s.target, item(t), env), s.body, lambda t: iteritem(item, t), target=s.target)
    ip.exec_body(s.orelse, env)


def iteritem(item, t):
    try: v = item(t)
    except (PyExc, Unsup): return None
    return v if isinstance(v, (IE, int)) else None


def sym_iter(it):
    """(length, item(t)) of a symbolic iterable"""
    import torchmod
    if isinstance(it, Range): return nz(it.count()), lambda t: unie(it.item(t))
    if isinstance(it, L):
        g, n = it.getf, nz(it.length)
        return n, g
    if isinstance(it, EnumO):
        n, g = sym_iter(it.it)
        return n, lambda t: (unie(iadd(it.start, t)), g(t))
    if isinstance(it, ZipO):
        subs = [sym_or_conc(x) for x in it.its]
        n = subs[0][0]
        for m, _ in subs[1:]:
            if not same(n, m): 
                R = cur[0]
                if R.branch(icmp("<=", m, n)): n = m
        return n, lambda t: tuple(g(t) for _, g in subs)
    if isinstance(it, T):
        return nz(it.shape[0]), lambda t: torchmod.getitem(it, unie(ie(t)))
    raise Unsup("loop over %r" % (it,))


def sym_or_conc(x):
    v = INTERP[0].iterate(x)
    if v is not None: return ie(len(v)), lambda t: pick(v, ie(t))
    return sym_iter(x)


# ------------------------------------------------------------------ the symbolic loop
def assigned(body):
    out = []
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id not in out: out.append(x.id)
    return out


def mutated_names(body):
    out = set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "insert", "extend", "appendleft") and isinstance(x.func.value, ast.Name): out.add(x.func.value.id)
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name): out.add(x.value.id)
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name): out.add(x.target.id)
    return out


class SymLoop:
    def __init__(self, R, cfg, a, b, tname, seg):
        self.R, self.cfg, self.a, self.b, self.tname, self.seg = R, cfg, a, b, tname, seg
        self.t = isym(tname)
        self.startid = R.ids
        self.lists, self.stores = {}, {}

    def restart(self, why=""):
        self.cfg.tries += 1
        if DEBUG: print("restart", why, self.seg, self.a, self.b, self.cfg.splits)
        if self.cfg.tries > 60: raise Unsup("loop summary does not stabilise (%s)" % why)
        raise Restart()

    def open_cond(self, c):
        b = c
        while b.op == "not": b = b.a[0]
        if b.op == "and":
            for x in b.a:
                if self.tname in freesyms(x):
                    if self.R.ctx.decide(x) is None: self.open_cond(x)
        th = threshold(b, self.tname) if b.op in ("i==", "i<=") else None
        if th is None:
            for x in self.R.opts.get("cuts", ()):          # hint of the contract: consider the iterations before and after separately
                if not any(x is y for y in self.cfg.splits): self.split_at(x, "hint")
        if th is None: raise Unsup("loop condition not linear in the iteration: " + show(c)[:200])
        new = [x for x in th if not any(x is y for y in self.cfg.splits)]
        if not new: raise Unsup("loop split does not decide " + show(c)[:200])
        self.cfg.splits.extend(new)
        self.restart("split")

    def split_at(self, x, why):
        if any(x is y for y in self.cfg.splits): raise Unsup(why)
        self.cfg.splits.append(x)
        self.restart(why)

    def store_mutated(self, st):
        if st.id > self.startid or st.id in self.stores: return
        if st.id not in self.cfg.stores: self.cfg.stores = self.cfg.stores | {st.id}; self.restart("store")
        return

    def list_mutated(self, l):
        if l.id > self.startid: return
        if l.id not in self.cfg.lists: self.cfg.lists = self.cfg.lists | {l.id}; self.restart("list")

    def attr_set(self, o, k): raise Unsup("attribute assignment in a symbolic loop")


def run_loop(ip, s, env, n, bind, body, itemint, target=None):
    R = cur[0]
    occ = R.loopcount.get(id(s), 0)
    R.loopcount[id(s)] = occ + 1
    key = (id(s), occ, tuple(R.dec[:R.pos]))
    cfg = R.cfgs.get(key)
    if cfg is None:
        cfg = R.cfgs[key] = LoopCfg()
        cfg.stores, cfg.lists = set(), set()
        cfg.kinds = {}
        cfg.breaks = set()
    for nm in mutated_names(body):
        v = env.d.get(nm)
        if isinstance(v, L): cfg.lists.add(v.id)
    if not R.branch(icmp("<=", 1, n)): return
    cfg.nst = {i: R.objs[i].nst for i in cfg.lists if isinstance(R.objs.get(i), L)}
    # order the split points
    cuts = [ie(0)]
    pts = list(cfg.splits)
    ordered = []
    for x in pts:
        x = nz(x)
        if R.branch(icmp("<=", x, 0)): continue
        if not R.branch(icmp("<", x, n)):
            e = icmp("==", n, x)
            if e not in (TRUE, FALSE) and R.ctx.decide(e) is True: R.ctx.assume(e); n = nz(n)
            continue
        k = 0
        dup = False
        while k < len(ordered):
            if x is ordered[k] or R.branch(icmp("==", x, ordered[k])): dup = True; break
            if R.branch(icmp("<", x, ordered[k])): break
            k += 1
        if not dup: ordered.insert(k, x)
    bounds = [ie(0)] + ordered + [n]
    for seg, (a, b) in enumerate(zip(bounds, bounds[1:])):
        ln = iconst(nz(isub(b, a)))
        brk = repr(a) in cfg.breaks
        if brk or (ln is not None and ln <= MAXCONST):
            for q in range(1 if brk else ln):
                bind(nz(iadd(a, q)))
                try: ip.exec_body(body, env)
                except ContinueX: continue
                except BreakX: return
            if brk: raise Unsup("loop exit depends on data")
            continue
        segment(ip, R, cfg, env, nz(a), nz(b), seg, bind, body, itemint, target, s)


def mkleaf(name, dt, iargs): return leaf(name, cat(dt) != 3, iargs, ())


class Unknown:
    """sequence computed by the loop.  kind 'state': value at start of iteration t; kind 'abs': value stored at position j"""
    def __init__(self, kind, name, nd, dt, shape=None):
        self.kind, self.name, self.nd, self.dt = kind, name, nd, dt
        self.qs = [fresh("q") for _ in range(nd)]
        # a dimension of length one is always read at index 0
        self.q = tuple(ie(0) if shape is not None and iconst(nz(shape[k])) == 1 else isym(x) for k, x in enumerate(self.qs))
        self.done = False


def segment(ip, R, cfg, env, a, b, seg, bind, body, itemint, target, s):
    tname = fresh("t")
    lp = SymLoop(R, cfg, a, b, tname, seg)
    t = lp.t
    uid = R.newid()
    names = [x for x in assigned(body)]
    tn = {x.id for x in ast.walk(target) if isinstance(x, ast.Name)} if target is not None else set()
    carried = {}
    e = env
    for x in names:
        if x in tn: continue
        if x in env.d: carried[x] = env.d[x]
    unknowns = []
    pre = {}
    skey = lambda x: (seg, x)

    def mkstate(path, v, k=0):
        if isinstance(v, T):
            dt = cfg.dtypes.get((repr(a), path), v.dtype)
            U = Unknown("state", "S%d_%s" % (uid, path), v.ndim, dt, v.shape)
            rd = v.reader()
            U.init = rd(U.q)
            U.init_reader = rd
            unknowns.append(U)
            U.path = path
            x = T(v.shape, lambda idx, U=U: mkleaf(U.name, U.dt, (t,) + idx), dt, lib=v.lib)
            x.U = U
            return x
        if isinstance(v, bool) or v is None or isinstance(v, str): return v
        if isinstance(v, (int, IE)):
            kk = cfg.ind.get((repr(a), path), 0)
            return unie(iadd(v, iscale(isub(t, a), kk)))
        if isinstance(v, (float, complex, SNum)):
            kind = "complex" if isinstance(v, complex) or getattr(v, "kind", "") == "complex" else "float"
            U = Unknown("state", "S%d_%s" % (uid, path), 0, "c128" if kind == "complex" else "f64")
            U.init = node_of(v); U.path = path
            U.init_reader = lambda idx, v=v: node_of(v)
            unknowns.append(U)
            x = SNum(mkleaf(U.name, U.dt, (t,)), kind)
            x.U = U
            return x
        if isinstance(v, tuple): return tuple(mkstate("%s.%d" % (path, q), y) for q, y in enumerate(v))
        return v

    for x, v in carried.items():
        pre[x] = mkstate(x, v)
        env.d[x] = pre[x]
    # registered lists / storages
    lstates, mstates = [], []
    for lid in sorted(cfg.lists):
        l = R.objs.get(lid)
        if isinstance(l, L) and lid <= lp.startid:
            ls = LState(lp, l, uid)
            lstates.append(ls); lp.lists[lid] = ls
            l.loop = ls
    for sid in sorted(cfg.stores):
        st = R.objs.get(sid)
        if st is not None and not isinstance(st, L) and sid <= lp.startid:
            ms = MState(lp, st, uid)
            mstates.append(ms); lp.stores[sid] = ms
            st.set(ms.leaf)
    R.loops.append(lp)
    ended = None
    pushed = R.scope((tname,), icmp("<=", a, t), icmp("<", t, b))
    try:
        with pushed:
            bind(t)
            try: ip.exec_body(body, env)
            except ContinueX: pass
            except (BreakX, ReturnX):
                cfg.breaks.add(repr(a)); lp.restart("break")
            # ---- collect post state (still under the assumption a <= t < b)
            posts = {}

            def post_of(path, v0, pv, nv):
                U = getattr(pv, "U", None)
                if U is not None and isinstance(pv, T):
                    if not isinstance(nv, T) or nv.ndim != pv.ndim or not all(same(x, y) for x, y in zip(nv.shape, pv.shape)):
                        lp.split_at(nz(iadd(a, 1)), "carried value '%s' changes shape" % path)
                    if nv.dtype != pv.dtype:
                        cfg.dtypes[(repr(a), path)] = nv.dtype; lp.restart("dtype")
                    U.post = nv.at(*U.q)
                    U.shape = nv.shape
                    U.proto = nv
                    return
                if U is not None:
                    if not is_scalar(nv) : lp.split_at(nz(iadd(a, 1)), "carried value '%s' changes type" % path)
                    U.post = node_of(nv); U.shape = (); U.proto = nv
                    return
                if isinstance(v0, (int, IE)) and not isinstance(v0, bool):
                    if not isinstance(nv, (int, IE)) or isinstance(nv, bool): lp.split_at(nz(iadd(a, 1)), "carried value '%s' changes type" % path)
                    k = isub(nv, pv)
                    kc = iconst(nz(k))
                    if kc is None: 
                        # value determined by the iteration only (not accumulated): treat as temporary
                        if tname in ie_syms(ie(nv)) or True:
                            posts[path] = ("temp", nv); return
                    if kc != cfg.ind.get((repr(a), path), 0):
                        if (repr(a), path) in cfg.ind:
                            posts[path] = ("temp", nv); return
                        cfg.ind[(repr(a), path)] = kc; lp.restart("induction")
                    return
                if isinstance(v0, tuple) and isinstance(nv, tuple) and len(v0) == len(nv):
                    for q in range(len(v0)): post_of("%s.%d" % (path, q), v0[q], pv[q], nv[q])
                    return
                if same_val(pv, nv): return
                if v0 is None or isinstance(v0, (bool, str)) or type(v0) != type(nv): lp.split_at(nz(iadd(a, 1)), "carried value '%s' changes type" % path)
                raise Unsup("carried value '%s' (%s) changes in a symbolic loop" % (path, type(v0).__name__))

            for x, v0 in carried.items(): post_of(x, v0, pre[x], env.d.get(x))
            for ls in lstates: ls.collect(unknowns)
            for ms in mstates: ms.collect(unknowns)
            tempvals = {x: env.d[x] for x in names if x in env.d and x not in carried}
            for x in tn:
                if x in env.d: tempvals[x] = env.d[x]
    finally:
        R.loops.pop()
        for ls in lstates: ls.l.loop = None
    solve(R, lp, unknowns, itemint, "%s:%d" % (R.callstack[-1] if R.callstack else "?", getattr(s, "lineno", 0)))
    # ---- final state
    last = nz(isub(b, 1))

    def final(path, v0, pv):
        U = getattr(pv, "U", None)
        if U is not None and isinstance(pv, T):
            return T(U.shape, lambda idx, U=U: mkleaf(U.name, U.dt, (b,) + idx), U.dt, lib=pv.lib)
        if U is not None: return SNum(mkleaf(U.name, U.dt, (b,)), pv.kind)
        if isinstance(v0, tuple): return tuple(final("%s.%d" % (path, q), v0[q], pv[q]) for q in range(len(v0)))
        if isinstance(v0, (int, IE)) and not isinstance(v0, bool):
            if path in posts: return unie(isubst(ie(posts[path][1]), {tname: last}))
            return unie(iadd(v0, iscale(isub(b, a), cfg.ind.get((repr(a), path), 0))))
        return v0
    for x, v0 in carried.items(): env.d[x] = final(x, v0, pre[x])
    for x, v in tempvals.items(): env.d[x] = at_last(v, tname, last)
    for ls in lstates: ls.finish()
    for ms in mstates: ms.finish()


def same_val(x, y):
    if x is y: return True
    try: return type(x) == type(y) and not isinstance(x, (T, L)) and x == y
    except Exception: return False


def at_last(v, tname, last):
    m = {tname: last}
    if isinstance(v, T):
        rd = v.reader()
        return T([isubst(nz(d), m) for d in v.shape], lambda idx: subst(rd(idx), m), v.dtype, lib=v.lib)
    if isinstance(v, IE): return unie(isubst(v, m))
    if isinstance(v, SNum): return SNum(subst(v.node, m), v.kind)
    if isinstance(v, SBool): return SBool(subst(v.node, m))
    if isinstance(v, tuple): return tuple(at_last(x, tname, last) for x in v)
    return v


# ------------------------------------------------------------------ lists
class LState:
    def __init__(self, lp, l, uid):
        self.lp, self.l, self.R = lp, l, lp.R
        self.name = "LST%d_%d" % (uid, l.id)
        self.len0 = nz(l.length) if l.items is None else ie(len(l.items))
        self.items, self.getf = (list(l.items) if l.items is not None else None), l.getf
        self.app, self.sts, self.ins = [], [], []
        self.key = (repr(lp.a), l.id)
        if ("mode",) + self.key not in lp.cfg.sample and l.nst > lp.cfg.nst.get(l.id, l.nst):
            # earlier iterations, executed one by one, stored into the list: assume that these do, too
            lp.cfg.sample[("mode",) + self.key] = "store"
            lp.cfg.sample[("k",) + self.key] = 0
            self.tmpl = None
            self.settmpl(l.lastst, False)
        if self.mode() == "front":
            if self.items is not None: self.items = self.items[::-1]
            else: self.getf = reversed_get(l.length, l.getf)
        self.k = lp.cfg.sample.get(("k",) + self.key, 1)
        self.tmpl = lp.cfg.sample.get(("tmpl",) + self.key)
        if self.tmpl is None and self.items and isinstance(self.items[-1], T):
            v = self.items[-1]
            self.tmpl = (v.shape, v.dtype, v.lib)

    def curlen(self):
        return unie(nz(iadd(self.curlen0(), len(self.app))))

    def curlen0(self): return iadd(self.len0, iscale(isub(self.lp.t, self.lp.a), self.k))

    def orig(self, j):
        if self.items is not None:
            j = nz(j)
            return self.items[j.c] if j.is_const() else pick(self.items, j)
        return self.getf(j)

    def elem(self, j):
        if self.tmpl is None: raise Unsup("element of a list under construction read before its shape is known")
        sh, dt, lib = self.tmpl
        if sh == "num": return SNum(mkleaf(self.name, dt, (j,)), "complex" if cat(dt) == 3 else "float")
        return T(sh, lambda idx: mkleaf(self.name, dt, (j,) + idx), dt, lib=lib)

    def read(self, j):
        R = self.R
        n = ie(self.curlen())
        j = nz(j)
        if j.is_const() and j.c < 0: j = nz(iadd(j, n))
        elif not j.is_const() and R.branch(icmp("<", j, 0)): j = nz(iadd(j, n))
        if not R.branch(band(icmp("<=", 0, j), icmp("<", j, n))): raise PyExc("IndexError", "list index out of range")
        if self.mode() == "front": j = nz(isub(isub(n, 1), j))
        for (k, v) in reversed(self.sts):
            d = R.ctx.decide(icmp("==", j, k))
            if d is True: return v
            if d is None: raise Unsup("list read overlapping a store")
        if self.k and self.app:
            q = iconst(nz(isub(j, self.curlen0())))
            if q is not None and q >= 0: return self.app[q]
        if self.mode() != "store" and self.items is not None and j.is_const() and j.c < len(self.items): return self.items[j.c]
        if self.mode() != "store" and R.ctx.decide(icmp("<", j, self.len0)) is True: return self.orig(j)
        return self.elem(j)

    def mode(self): return self.lp.cfg.sample.get(("mode",) + self.key, "app")

    def append(self, v):
        if self.mode() == "front": raise Unsup("append and insert in one symbolic loop")
        self.push(v)

    def push(self, v): self.app.append(v)

    def insert(self, j, v):
        """insertion at the front: the list is built in reverse"""
        if iconst(nz(ie(j))) != 0: raise Unsup("list.insert in a symbolic loop")
        if self.mode() != "front":
            if self.mode() != "app" or self.app or self.sts: raise Unsup("list.insert in a symbolic loop")
            self.lp.cfg.sample[("mode",) + self.key] = "front"
            self.lp.restart("insert")
        self.push(v)

    def store(self, j, v):
        if self.mode() != "store":
            self.lp.cfg.sample[("mode",) + self.key] = "store"
            self.lp.cfg.sample[("k",) + self.key] = 0
            self.settmpl(v, False)
            self.lp.restart("store")
        n = self.len0
        j = nz(j)
        if not self.R.branch(band(icmp("<=", 0, j), icmp("<", j, n))):
            if self.R.branch(band(icmp("<=", ineg(n), j), icmp("<", j, 0))): j = nz(iadd(j, n))
            else: raise PyExc("IndexError", "list assignment index out of range")
        self.sts.append((j, v))

    def settmpl(self, v, check=True):
        if isinstance(v, T): tm = (tuple(nz(d) for d in v.shape), v.dtype, v.lib)
        elif is_scalar(v): tm = ("num", scalar_dtype(v), None)
        else: raise Unsup("list of %s built in a symbolic loop" % type(v).__name__)
        old = self.tmpl
        ok = old is not None and (old[0] == "num") == (tm[0] == "num") and old[1] == tm[1]
        if ok and tm[0] != "num":
            ok = len(old[0]) == len(tm[0]) and all(same(x, y) for x, y in zip(old[0], tm[0]))
        if not ok:
            if self.lp.tname in set().union(*[ie_syms(d) for d in tm[0]] if tm[0] != "num" and tm[0] else [set()]): raise Unsup("list element shape depends on the iteration")
            self.lp.cfg.sample[("tmpl",) + self.key] = tm
            self.tmpl = tm
            if check: self.lp.restart("template")

    def collect(self, unknowns):
        lp = self.lp
        self.U = None
        if self.sts:
            if len(self.sts) > 1: raise Unsup("several list stores per iteration")
            j, v = self.sts[0]
            d = dict(j.co)
            k = d.get(lp.tname, 0)
            if abs(k) != 1: raise Unsup("list store index not affine in the iteration")
            self.settmpl(v)
            # j = k t + c  ->  t = k (j - c)
            c = isub(j, iscale(lp.t, k))
            self.tinv = lambda x: iscale(isub(x, c), k)
        else:
            if len(self.app) != self.k:
                if ("k",) + self.key in lp.cfg.sample: raise Unsup("number of appends varies")
                lp.cfg.sample[("k",) + self.key] = len(self.app); lp.restart("appends")
            if self.mode() == "store":
                if lp.cfg.sample.get(("k",) + self.key) != 0 or ("no store",) + self.key in lp.cfg.sample: raise Unsup("list store pattern")
                lp.cfg.sample[("no store",) + self.key] = True
                lp.cfg.sample[("mode",) + self.key] = "app"
                lp.restart("no store")
            if self.k == 0: return
            if self.k > 1: raise Unsup("several appends per iteration")
            v = self.app[0]
            self.settmpl(v)
            self.tinv = lambda x: iadd(isub(x, self.len0), lp.a)
        nd = 0 if self.tmpl[0] == "num" else len(self.tmpl[0])
        U = self.U = Unknown("abs", self.name, nd, self.tmpl[1], None if self.tmpl[0] == "num" else self.tmpl[0])
        U.jn = fresh("j")
        U.j = isym(U.jn)
        nd_ = v.at(*U.q) if isinstance(v, T) else node_of(v)
        U.val_t = nd_
        U.val = subst(nd_, {lp.tname: self.tinv(U.j)})
        U.tinv = self.tinv
        U.store = bool(self.sts)
        U.len0 = self.len0
        U.lst = self

        def base(j, q=U.q):
            v = self.orig(j)
            if v is None: return None
            return v.at(*q) if isinstance(v, T) else node_of(v)
        U.base = base
        unknowns.append(U)

    def finish(self):
        l, lp, R = self.l, self.lp, self.R
        l.loop = None
        if self.U is None: return
        l.items = None
        len0, b, a = self.len0, lp.b, lp.a
        if self.U.store:
            l.length = len0
            def g(j):
                tt = self.U.tinv(j)
                c = band(icmp("<=", a, tt), icmp("<", tt, b))
                d = R.ctx.decide(c)
                if d is True: return self.elem(j)
                if d is False: return self.orig(j)
                with R.under(bnot(c)):
                    if not R.ctx.feasible(): return self.elem(j)
                    o = self.orig(j)
                if o is None:
                    if R.branch(c): return self.elem(j)
                    return None
                return merge_vals(c, self.elem(j), o)
            l.getf = g
            return
        l.length = nz(iadd(len0, isub(b, a)))
        full = getattr(self.U, "full", False)

        def g(j):
            j = nz(j)
            if j.is_const() and self.items is not None and 0 <= j.c < len(self.items): return self.items[j.c]
            if full: return self.elem(j)
            c = icmp("<", j, len0)
            d = R.ctx.decide(c)
            if d is False: return self.elem(j)
            if d is True: return self.orig(j)
            if self.items is not None:
                r = self.elem(j)
                for q in range(len(self.items) - 1, -1, -1): r = merge_vals(icmp("==", j, q), self.items[q], r)
                return r
            return merge_vals(c, self.getf(j), self.elem(j))
        l.getf = reversed_get(l.length, g) if self.mode() == "front" else g


def reversed_get(n, g): return lambda j: g(nz(isub(isub(n, 1), j)))


# ------------------------------------------------------------------ tensors written in place
class MState:
    def __init__(self, lp, st, uid):
        self.lp, self.st, self.R = lp, st, lp.R
        self.name = "MEM%d_%d" % (uid, st.id)
        self.old = st.reader()
        self.key = (repr(lp.a), st.id)
        self.mode = lp.cfg.sample.get(("mmode",) + self.key, "abs")
        self.dt = "c128"

    def leaf(self, b):
        if self.mode == "abs": return leaf(self.name, False, b)
        return leaf(self.name, False, (self.lp.t,) + b)

    def collect(self, unknowns):
        lp, R = self.lp, self.R
        nd = self.st.nd
        if nd is None: raise Unsup("in-place write to an untracked tensor")
        if self.mode == "state":
            U = self.U = Unknown("state", self.name, nd, self.dt)
            U.path = "mem"
            U.init = self.old(U.q); U.init_reader = self.old
            U.post = self.st.get(U.q)
            U.shape = None
            unknowns.append(U)
            return
        q = [fresh("m") for _ in range(nd)]
        qi = tuple(isym(x) for x in q)
        node = self.st.get(qi)
        me = self.leaf(qi)
        if node is me: self.U = None; return
        ok = node.op == "ite" and node.a[2] is me
        tinv = None
        if ok:
            cs = node.a[0].a if node.a[0].op == "and" else (node.a[0],)
            rest = []
            for c in cs:
                if tinv is None and c.op == "i==" and lp.tname in ie_syms(c.a[0]):
                    k = dict(c.a[0].co).get(lp.tname, 0)
                    pos = [x for x in q if x in ie_syms(c.a[0])]
                    if abs(k) == 1 and len(pos) == 1 and abs(dict(c.a[0].co)[pos[0]]) == 1:
                        r = isub(c.a[0], iscale(lp.t, k))
                        tinv = (iscale(r, -k), pos[0]); continue
                rest.append(c)
            ok = tinv is not None and not any(lp.tname in freesyms(c) for c in rest)
        if not ok:
            if lp.cfg.sample.get(("mmode",) + self.key) is None:
                lp.cfg.sample[("mmode",) + self.key] = "state"; lp.restart("memory mode")
            raise Unsup("in-place write pattern in a symbolic loop")
        texp, p = tinv
        pi_ = q.index(p)
        # the written position as the sequence index
        self.U = U = Unknown("abs", self.name, nd, self.dt)
        U.qs, U.q = q, qi
        U.jn, U.j = p, isym(p)
        U.memidx = pi_
        U.val_t = node.a[1]
        U.val = subst(node.a[1], {lp.tname: texp})
        U.tinv = lambda x, texp=texp, p=p: isubst(texp, {p: x})
        U.store = True
        U.rest = band(*rest) if rest else TRUE
        old = self.old
        U.base = lambda j, qq=None: old(tuple(j if n_ == pi_ else x for n_, x in enumerate(qi)))
        unknowns.append(U)

    def finish(self):
        if self.U is None:
            self.st.set(self.old); return
        U, lp, old = self.U, self.lp, self.old
        if self.mode == "state":
            self.st.set(lambda b: leaf(self.name, False, (lp.b,) + b)); return

        def f(b):
            j = b[U.memidx]
            tt = U.tinv(j)
            c = band(icmp("<=", lp.a, tt), icmp("<", tt, lp.b), subst(U.rest, {n: x for n, x in zip(U.qs, b)}))
            d = self.R.ctx.decide(c) if self.R is cur[0] else None
            if d is True: return leaf(self.name, False, b)
            if d is False: return old(b)
            return ite(c, leaf(self.name, False, b), old(b))
        self.st.set(f)


# ------------------------------------------------------------------ solving
def refs(R, node, names):
    return {x.a[0] for x in walk(node) if x.op == "leaf" and x.a[0] in names}


def solve(R, lp, unknowns, itemint, where):
    todo = list(unknowns)
    progress = True
    names = {U.name: U for U in unknowns}
    while todo and progress:
        progress = False
        for U in list(todo):
            live = {V.name for V in todo}
            with R.scope((lp.tname,), icmp("<=", lp.a, lp.t), icmp("<", lp.t, lp.b)):
                ok = try_solve(R, lp, U, live, itemint, where)
            if ok: todo.remove(U); U.done = True; progress = True
        if todo and not progress:
            done = joint(R, lp, todo, itemint, where)
            for U in done: todo.remove(U); progress = True
    for U in todo: R.note("no closed form found for a loop-carried value at " + where)


def try_solve(R, lp, U, live, itemint, where):
    t, a = lp.t, lp.a
    if U.kind == "state":
        post = R.norm(U.post)
        rf = refs(R, post, live)
        me = mkleaf(U.name, U.dt, (t,) + U.q)
        if U.name not in rf:
            if not rf or all_copies(post, live):
                prev = subst(post, {lp.tname: isub(t, 1)})
                cond = icmp("==", t, a)
                initn = U.init
                R.sol[U.name] = closure(lp.tname, U.qs, ite(cond, initn, prev))
                return True
            return False
        if rf == {U.name} or True:
            d = sub(post, me)
            if U.name not in refs(R, d, {U.name}) and not (refs(R, d, live)):
                v = fresh("s")
                g = subst(d, {lp.tname: isym(v)})
                R.sol[U.name] = closure(lp.tname, U.qs, add(U.init, ssum(v, a, t, g)))
                return True
            if post.op in ("max2", "min2") and me in post.a:
                oth = [x for x in post.a if x is not me]
                if len(oth) == 1 and not refs(R, oth[0], live):
                    v = fresh("s")
                    rr = red("maxr" if post.op == "max2" else "minr", v, a, t, subst(oth[0], {lp.tname: isym(v)}))
                    R.sol[U.name] = closure(lp.tname, U.qs, ite(icmp("==", t, a), U.init, (max2 if post.op == "max2" else min2)(U.init, rr)))
                    return True
            if post.op == "ite" and me in (post.a[1], post.a[2]):
                # the value written by the last iteration whose mask holds
                keep = post.a[1] is me
                cond, val = (core.bnot(post.a[0]), post.a[2]) if keep else (post.a[0], post.a[1])
                if not refs(R, val, live) and not refs(R, cond, live):
                    v = fresh("s")
                    m = {lp.tname: isym(v)}
                    R.sol[U.name] = closure(lp.tname, U.qs, core.last(v, a, t, subst(cond, m), subst(val, m), U.init))
                    return True
            if rf == {U.name}:
                if family(R, lp, U, post, me, itemint, where): return True
            if not (rf - {U.name}):
                r = div(post, me)
                if not refs(R, r, live):
                    v = fresh("s")
                    R.sol[U.name] = closure(lp.tname, U.qs, mul(U.init, red("prod", v, a, t, subst(r, {lp.tname: isym(v)}))))
                    return True
        return False
    # abs
    val = R.norm(U.val)
    rf = refs(R, val, live)
    if not rf:
        R.sol[U.name] = closure(U.jn, U.qs, val, U)
        return True
    if rf == {U.name}: return family(R, lp, U, val, None, itemint, where)
    return False


def all_copies(post, live):
    return post.op == "leaf" and post.a[0] in live


def closure(jn, qs, node, U=None):
    mem = getattr(U, "memidx", None)

    def f(iargs):
        if mem is not None: m = dict(zip(qs, iargs))
        else: m = dict(zip([jn] + list(qs), iargs))
        return subst(node, m)
    return f


def arg_candidates(nodes, bad):
    """terms that can be arguments of special functions"""
    out, seen = [], set()

    def addc(x):
        if x.op in ("num", "int"): return
        for s in (x,):
            if s not in seen and not (freesyms(s) & bad) and not any(l.a[0].startswith(("LST", "MEM", "S")) and l.a[0][1:2].isdigit() for l in leaves(s)):
                seen.add(s); out.append(s)
    for nd in nodes:
        for x in walk(nd):
            if x.op == "pow" and x.a[1] == -1: addc(x.a[0])
            elif x.op == "leaf" and x.a[2]:
                for y in x.a[2]: addc(y)
            elif x.op in ("sin", "cos"): addc(x.a[0])
            elif x.op == "exp": addc(mul(num(0, -1), x.a[0])); addc(mul(num(0, Fr(-1, 2)), x.a[0]))
            elif x.op == "leaf" and not x.a[2] and len(x.a[1]) <= 4: addc(x)
            if x.op == "mul":
                negs = [y for y in x.a if y.op == "pow" and isinstance(y.a[1], Fr) and y.a[1] < 0]
                if negs:
                    addc(mkpow(mul(*negs), Fr(-1)))
                    if len(negs) > 1: addc(mkpow(mul(*[y for y in negs]), Fr(-1)))
    return out[:12]


def candidates(R, lp, U, nodes, itemint):
    """(family, order(jvar) , args)"""
    jn = lp.tname if U.kind == "state" else U.jn
    j = isym(jn)
    args = arg_candidates(nodes, {lp.tname, jn})
    orders = []
    if U.kind == "state":
        iv = itemint(lp.t)
        for b in ([ie(iv)] if iv is not None else []) + [lp.t]:
            for d in (0, -1, 1, -2, 2, 3, -3):
                o = iadd(b, d)
                if o not in orders: orders.append(o)
    else:
        for d in (0, 1, -1, 2, -2): orders.append(iadd(j, d))
        if not getattr(U, "store", False):
            iv = itemint(U.tinv(j))
            if iv is not None:
                for d in (0, 1, -1):
                    o = iadd(iv, d)
                    if o not in orders: orders.append(o)
    for g in R.opts.get("ghosts", ()):
        # ghost sequences of the specification, indexed by the iteration and the element position
        if U.nd == g[1]:
            for o in orders:
                class _G: name, minimal, scaled = g[0], False, False
                _G.f = staticmethod(lambda order, g=g: g[2](order, U.q))
                yield _G, o, ()
    for fam in R.families:
        if fam.nargs == 0: tup = [()]
        elif fam.nargs == 1: tup = [(x,) for x in args]
        elif fam.nargs == 2: tup = [(x, y) for x in args for y in args if x is not y]
        for o in orders:
            for ar in tup: yield fam, o, ar


def base_candidates(R, lp, U, itemint, nodes, limit=8):
    """closed forms agreeing with the start value(s)"""
    state = U.kind == "state"
    jn = lp.tname if state else U.jn
    bn = [R.norm(U.init)] if state else []
    if not state and U.store:
        limit = 40
        return [(fam.name, fam.f(order)) for fam, order, args in candidates(R, lp, U, [], itemint) if args == () and any(fam.name == g[0] for g in R.opts.get("ghosts", ())) and order is isym(U.jn)][:limit]
    if not state:
        if not U.lst.items: return []
        bn = [R.norm(U.base(ie(q))) for q in range(len(U.lst.items))]
    out = []
    for fam, order, args in candidates(R, lp, U, nodes + bn, itemint):
        try: F = fam.f(order, *args)
        except Exception: continue
        ok = True
        for q, b in enumerate(bn):
            g = subst(F, {jn: lp.a if state else ie(q)})
            if not (quick(R, g, b, ()) and prove_all(R, [(g, b)]) is True): ok = False; break
        if ok: out.append((fam.name, F))
        if len(out) >= limit: break
    return out


def joint(R, lp, todo, itemint, where):
    """two mutually dependent sequences"""
    import itertools
    live = {V.name for V in todo}
    val = {}
    for V in todo:
        v = R.norm(V.post if V.kind == "state" else V.val)
        val[V.name] = v
    rf = {V.name: refs(R, val[V.name], live) for V in todo}
    with R.scope((lp.tname,), icmp("<=", lp.a, lp.t), icmp("<", lp.t, lp.b)):
        for U, V in itertools.combinations(todo, 2):
            if not (rf[U.name] <= {U.name, V.name} and rf[V.name] <= {U.name, V.name}): continue
            nodes = [val[U.name], val[V.name]]
            cu, cv = base_candidates(R, lp, U, itemint, nodes), base_candidates(R, lp, V, itemint, nodes)
            for (nu, fu), (nv, fv) in itertools.product(cu, cv):
                ext = {}
                for W, F in ((U, fu), (V, fv)): ext[W.name] = closure(lp.tname if W.kind == "state" else W.jn, W.qs, domain(R, W, F), W)
                if all(in_domain(R, W, lambda: check_step(R, lp, W, val[W.name], F, lp.tname if W.kind == "state" else W.jn, "exact", [], ext)) for W, F in ((U, fu), (V, fv))):
                    for W, F, nm in ((U, fu, nu), (V, fv, nv)):
                        R.sol[W.name] = ext[W.name]
                        R.lemmas.append(("loop %s: %s = %s" % (where, getattr(W, "path", "list/array"), nm), "inv", "exact"))
                        W.done = True
                    return [U, V]
    return []


def domain(R, U, F):
    """closed form claimed on the elements the specification speaks about only (the step relates equal positions)"""
    dom = R.opts.get("ghost_domain")
    if dom is None or not getattr(U, "store", False) or len(U.q) != R.opts["ghosts"][0][1]: return F
    return ite(dom(U.q), F, leaf("undef" + U.name, False, U.q, ()))


def in_domain(R, U, fn):
    dom = R.opts.get("ghost_domain")
    if dom is None or not getattr(U, "store", False) or len(U.q) != R.opts["ghosts"][0][1]: return fn()
    with R.scope(tuple(U.qs), dom(U.q)): return fn()


def family(R, lp, U, val, me, itemint, where):
    """inductive closed form for a self-referential sequence"""
    state = U.kind == "state"
    jn = lp.tname if state else U.jn
    j = isym(jn)
    a, b = lp.a, lp.b
    if state: basenodes = [R.norm(U.init)]
    else:
        basenodes = []
        if not U.store and U.lst.items:
            for q in range(len(U.lst.items)):
                v = U.base(ie(q))
                if v is not None: basenodes.append(R.norm(v))
    kappa = None
    tested = {}
    for fam, order, args in candidates(R, lp, U, [val] + basenodes, itemint):
        kc = dict(order.co).get(jn, 0)
        try: F = fam.f(order, *args)
        except Exception: continue
        modes = ["exact"]
        if state: modes.append("ratio")      # scaled to the initial value
        if fam.minimal and (kc < 0 if state else backward(lp, U, kc)): modes.append("seeded")
        for mode in modes:
            G = F
            if mode == "ratio":
                f0 = subst(F, {jn: a})
                G = div(mul(F, basenodes[0]), f0)
            if mode == "seeded" and fam.scaled:
                G = mul(F, leaf("kappa" + U.name, False, U.q, ()))
            if check_step(R, lp, U, val, G, jn, mode, basenodes):
                R.sol[U.name] = closure(jn, U.qs, G, U)
                R.lemmas.append(("loop %s: %s = %s%s" % (where, U.path if hasattr(U, "path") else "list/array", fam.name, " (up to the start value)" if mode == "ratio" else ""), "inv", mode))
                if mode == "seeded":
                    R.note("backward recurrence from an arbitrary start value taken as its limit (%s)" % fam.name)
                    R.seeds = getattr(R, "seeds", [])
                    o0 = order if state else subst_ie(order, {jn: None})
                    R.seeds.append((fam.name, subst_order(order, jn, lp, U), where))
                return True
    return False


def subst_order(order, jn, lp, U):
    if U.kind == "state": return isubst(order, {jn: lp.a})
    return None


def subst_ie(o, m): return o


def backward(lp, U, kc):
    """iteration walks the positions downwards"""
    d = U.tinv(isym("@x"))
    return dict(d.co).get("@x", 0) * kc < 0


def check_step(R, lp, U, val, G, jn, mode, basenodes, ext=None):
    state = U.kind == "state"
    ctx = R.ctx
    name = U.name
    cl = closure(jn, U.qs, G, U)

    cls = {name: cl}
    if ext: cls.update(ext)

    def plug(x):
        return rewrite(x, lambda y: cls[y.a[0]](y.a[1]) if y.op == "leaf" and y.a[0] in cls else None)
    if state:
        lhs = subst(G, {jn: iadd(lp.t, 1)})
        rhs = R.norm(plug(val))
        facts = []
        if mode == "seeded": facts = [icmp("<", lp.a, lp.t)]
        if not quick(R, lhs, rhs, facts):
            return False
        R.ctx.push()
        for f in facts: R.ctx.assume(f)
        r = prove_all(R, [(lhs, rhs)])
        R.ctx.pop()
        if r is not True: return False
        if mode == "exact":
            return prove_all(R, [(subst(G, {jn: lp.a}), R.norm(U.init))]) is True
        return True
    # absolute sequences
    lhs = G
    v2 = R.norm(plug(val))
    tt = U.tinv(isym(jn))
    rng = [icmp("<=", lp.a, tt), icmp("<", tt, lp.b)]
    # look-back distances
    offs, consts = set(), set()
    with R.scope((jn, lp.tname), *rng):
        for y in walk(val):
            if y.op == "leaf" and y.a[0] == name:
                idx = y.a[1][U.memidx] if hasattr(U, "memidx") else y.a[1][0]
                tb = U.tinv(idx)
                off = iconst(nz(isub(tt, tb)))
                if off is None:
                    if nz(idx).is_const(): consts.add(nz(idx).c); continue
                    return False
                if off <= 0: return False      # reads a cell not yet written
                offs.add((off, isub(isym(jn), idx)))
        if not quick(R, lhs, v2, ()): return False
        if prove_all(R, [(lhs, v2)]) is not True: return False
    if mode == "seeded": return True
    # base: positions read at the first iterations
    full = True
    for off, dj in offs:
        for q in range(off):
            # position written at iteration a+q reads position j - dj
            # solve tinv(jpos) = a + q
            s0 = U.tinv(ie(0)); s1 = U.tinv(ie(1))
            k = iconst(isub(s1, s0))
            jpos = iscale(isub(iadd(lp.a, q), s0), k)
            rp = nz(isub(jpos, isubst(dj, {jn: jpos})))
            v = U.base(rp)
            if v is None: return False
            if prove_all(R, [(subst(G, {jn: rp}), R.norm(v))]) is not True: return False
    for c in consts:
        v = U.base(ie(c)) if not U.store else None
        if v is None: continue
        if prove_all(R, [(subst(G, {jn: ie(c)}), R.norm(v))]) is not True: return False
    if not U.store and U.lst.items is not None:
        for q in range(len(U.lst.items)):
            v = U.base(ie(q))
            try: ok = v is not None and prove_all(R, [(subst(G, {jn: ie(q)}), R.norm(v))]) is True
            except Exception: ok = False
            if not ok: full = False
        U.full = full
    return True


def quick(R, a, b, facts):
    """one cheap evaluation, to discard wrong candidates"""
    R.ctx.push()
    try:
        for f in facts: R.ctx.assume(f)
        conds = {}
        if R.ctx.isubst: a, b = subst(a, R.ctx.isubst), subst(b, R.ctx.isubst)
        for _ in range(30):
            try:
                x, y = eval_terms(R, [a, b], "quick", 0, conds)
                return x == y
            except Unresolved as u:
                d = resolve(R, u.cond, prove.bound_ranges([a, b]))
                if d is None:
                    d = False; R.ctx.assume(bnot(u.cond))      # one of the two possible cases
                conds[u.cond] = d
    except (Unsupported, ZeroDivisionError): return False
    finally: R.ctx.pop()
    return False


# ------------------------------------------------------------------ cumulative products / sums
def cumulative(t, dim, kind):
    R = cur[0]
    n = nz(t.shape[dim])
    rd = t.reader()
    c = iconst(n)
    if c is not None:
        def f(i):
            j = i[dim]
            if not j.is_const(): raise Unsup("symbolic position in a constant-length cumulative product")
            vs = [rd(i[:dim] + (ie(q),) + i[dim + 1:]) for q in range(j.c + 1)]
            return mul(*vs) if kind == "prod" else add(*vs)
        return T(t.shape, f, t.dtype, lib=t.lib)
    v = fresh("c")
    qs = [fresh("q") for _ in range(t.ndim)]
    q = tuple(isym(x) for x in qs)
    name = "CUM%d" % R.newid()
    j = q[dim]
    term = R.norm(rd(q))
    ini = subst(term, {qs[dim]: ie(0)})
    if kind == "sum":
        return T(t.shape, lambda i: ssum(v, ie(0), iadd(i[dim], 1), rd(i[:dim] + (isym(v),) + i[dim + 1:])), t.dtype, lib=t.lib)
    # product: look for G with G(j+1)/G(j) = term(j+1)
    if R.branch(icmp("<", 1, n)) is False:
        return T(t.shape, lambda i: rd(i), t.dtype, lib=t.lib)
    sol = None
    with R.scope((qs[dim],), icmp("<=", 0, j), icmp("<", iadd(j, 1), n)):
        nxt = subst(term, {qs[dim]: iadd(j, 1)})
        for fam in R.families:
            if fam.nargs != 1: continue
            for z in arg_candidates([term], {qs[dim]}):
                for d in (0, 1, -1, 2):
                    G = fam.f(iadd(j, d), z)
                    lhs, rhs = subst(G, {qs[dim]: iadd(j, 1)}), mul(G, nxt)
                    if quick(R, lhs, rhs, ()) and prove_all(R, [(lhs, rhs)]) is True:
                        sol = mul(div(G, subst(G, {qs[dim]: ie(0)})), ini)
                        R.lemmas.append(("cumulative product = %s ratio" % fam.name, "inv", "exact"))
                        break
                if sol is not None: break
            if sol is not None: break
    if sol is None:
        return T(t.shape, lambda i: red("prod", v, ie(0), iadd(i[dim], 1), rd(i[:dim] + (isym(v),) + i[dim + 1:])), t.dtype, lib=t.lib)
    return T(t.shape, lambda i: subst(sol, dict(zip(qs, i))), t.dtype, lib=t.lib)


# ------------------------------------------------------------------ while
def exec_while(ip, s, env):
    R = cur[0]
    for k in range(64):
        c = ip.ev(s.test, env)
        if isinstance(c, SBool):
            if k == 0 and c.node not in (TRUE, FALSE):
                try: return sym_while(ip, s, env)
                except WhileGuard: pass
            d = c.node if c.node in (TRUE, FALSE) else None
            if d is None:
                dd = R.ctx.decide(c.node)
                d = TRUE if dd is True else FALSE if dd is False else None
            if d is None: return sym_while(ip, s, env)
            v = d is TRUE
        else: v = ip.truth(c)
        if not v:
            ip.exec_body(s.orelse, env); return
        try: ip.exec_body(s.body, env)
        except ContinueX: continue
        except BreakX: return
    raise Unsup("while loop without a recognised bound")


class WhileGuard(Unsup): pass


def sym_while(ip, s, env):
    """while with a linear guard over integer induction variables -> counted loop"""
    R = cur[0]
    if not ip.truth(ip.ev(s.test, env)): 
        ip.exec_body(s.orelse, env); return
    occ = R.loopcount.get(("w", id(s)), 0)
    key = ("w", id(s), occ, tuple(R.dec[:R.pos]))
    ks = R.cfgs.setdefault(key, {})
    names = [x for x in assigned(s.body) if isinstance(env.d.get(x), (int, IE)) and not isinstance(env.d.get(x), bool)]
    if not ks:
        # step of every integer variable, read off the syntax: x += c / x -= c / x = x + c
        for x in s.body:
            for y in ast.walk(x):
                if isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name) and isinstance(y.value, ast.Constant):
                    ks[y.target.id] = y.value.value * (1 if isinstance(y.op, ast.Add) else -1)
                elif isinstance(y, ast.Assign) and isinstance(y.targets[0], ast.Name) and isinstance(y.value, ast.BinOp) and isinstance(y.value.left, ast.Name) and y.value.left.id == y.targets[0].id and isinstance(y.value.right, ast.Constant):
                    ks[y.targets[0].id] = y.value.right.value * (1 if isinstance(y.value.op, ast.Add) else -1)
    tn = fresh("w")
    saved = dict(env.d)
    for x in names:
        if x in ks and isinstance(ks[x], int): env.d[x] = unie(iadd(env.d[x], iscale(isym(tn), ks[x])))
    c = ip.ev(s.test, env)
    env.d.update(saved)
    if not isinstance(c, SBool) or c.node.op not in ("i<=", "not"): raise WhileGuard("while guard")
    node = c.node
    th = threshold(node.a[0] if node.op == "not" else node, tn) if (node.op == "i<=" or node.a[0].op in ("i<=", "i==")) else None
    if not th: raise WhileGuard("while guard not linear")
    n = nz(th[0])
    used = {x.id for x in ast.walk(s.test) if isinstance(x, ast.Name)}
    it = next((x for x in names if x in used and isinstance(ks.get(x), int)), None)
    run_loop(ip, s, env, n, lambda t: None, s.body, (lambda t: iadd(saved[it], iscale(ie(t), ks[it]))) if it else (lambda t: None))
    # the counted loop is the while loop: its variables moved as read off, and the guard ends there
    for x in names:
        if x in ks and isinstance(ks[x], int) and not same(env.d.get(x), iadd(saved[x], iscale(n, ks[x]))): raise Unsup("while loop variable '%s' does not move by %d" % (x, ks[x]))
    if ip.truth(ip.ev(s.test, env)): raise Unsup("while guard after the counted iterations")
    ip.exec_body(s.orelse, env)


# ------------------------------------------------------------------ comprehensions over symbolic ranges
class Local:
    """enumerates decisions on the bound index inside one expression and merges by ite"""
    def __init__(self, syms): self.syms, self.dec, self.pos, self.alts, self.path = syms, [], 0, [], []

    def branch(self, R, c):
        if not (set(self.syms) & freesyms(c)):
            old = R.local
            R.local = None
            try: return R.branch(c)
            finally: R.local = old
        if self.pos < len(self.dec): v = self.dec[self.pos]
        else:
            v = True
            self.alts.append(self.dec[:self.pos] + [False])
            self.dec.append(True)
        self.pos += 1
        f = c if v else bnot(c)
        R.ctx.assume(f)
        self.path.append(f)
        return v


def merged(R, syms, facts, fn):
    """value of fn() for all values of syms under facts, decisions on syms merged"""
    stack, out = [[]], []
    while stack:
        loc = Local(syms)
        loc.dec = stack.pop()
        old = R.local
        R.local = loc
        try:
            with R.scope(syms, *facts): v = fn()
        finally: R.local = old
        stack.extend(loc.alts)
        out.append((band(*loc.path) if loc.path else TRUE, v))
        if len(out) > 16: raise Unsup("too many cases in a comprehension")
    r = out[-1][1]
    for c, v in reversed(out[:-1]): r = merge_vals(c, v, r) if isinstance(v, T) else merge_any(c, v, r)
    return r


def merge_any(c, a, b):
    if isinstance(a, T): return merge_vals(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b): return tuple(merge_any(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (int, IE)) and isinstance(b, (int, IE)): 
        if ie(a) is ie(b): return a
        return IE(((("ite", c, ie(a), ie(b)), 1),), 0)
    if is_scalar(a) and is_scalar(b): return SNum(ite(c, node_of(a), node_of(b)))
    if a is b: return a
    raise Unsup("merge of %r and %r" % (a, b))


def substv(v, m):
    if isinstance(v, T):
        rd = v.reader()
        return T([isubst(nz(d), m) for d in v.shape], lambda idx: subst(rd(idx), m), v.dtype, lib=v.lib)
    if isinstance(v, IE): return unie(isubst(v, m))
    if isinstance(v, SNum): return SNum(subst(v.node, m), v.kind)
    if isinstance(v, SBool): return SBool(subst(v.node, m))
    if isinstance(v, tuple): return tuple(substv(x, m) for x in v)
    if isinstance(v, L):
        if v.concrete(): return L([substv(x, m) for x in v.items])
        g = v.getf
        return L(None, isubst(nz(v.length), m), lambda j: substv(g(j), m))
    if hasattr(v, "vsubst"): return v.vsubst(m)
    return v


def sym_comp(ip, e, env, it):
    R = cur[0]
    if len(e.generators) != 1: raise Unsup("nested comprehension over a symbolic range")
    g = e.generators[0]
    n, item = sym_iter(ip.ev(g.iter, env) if not isinstance(it, (L, Range, T, ZipO, EnumO)) else it)
    if not R.branch(icmp("<=", 1, n)): return L([])
    tn = fresh("e")
    t = isym(tn)

    def fn():
        e2 = Env(env, env.glob)
        ip.assign(g.target, item(t), e2)
        for c in g.ifs:
            if not ip.truth(ip.ev(c, e2)): raise Unsup("filtered comprehension over a symbolic range")
        return ip.ev(e.elt, e2)
    v = merged(R, (tn,), [icmp("<=", 0, t), icmp("<", t, n)], fn)
    return L(None, n, lambda j: substv(v, {tn: ie(j)}))
