"""Discharging term equalities: randomised identity testing under the path's facts.

prove_eq splits on undetermined conditions with the SMT context, so a True answer means
the equality holds (up to the documented error probability of the identity test) in every
case consistent with the path condition."""
from core import *
import core
from tensor import *
import pit, os
from pit import World, Unresolved, Retry, Unsupported

STATS = {"pit": 0, "queries": 0, "time": 0.0}


def bound_ranges(terms):
    """bound variable -> (lo, hi) for all binders in the terms"""
    out = {}
    seen = set()
    for t in terms:
        for x in walk(t, seen):
            if x.op in ("sum", "prod", "maxr", "minr", "forall", "exists", "last"): out.setdefault(x.a[0], (x.a[1], x.a[2]))
    return out


class SplitC(Exception):
    def __init__(self, c): self.cond = c


def eval_terms(R, terms, seed, k, conds):
    """evaluate terms at one random point; conds: dict of decided conditions (extended)"""
    att, lim = -1, 12
    while att + 1 < lim:
        att += 1
        w = World("%s/%d" % (seed, att), k, squares=R.opts.get("squares", ()), subst=R.ctx.isubst, conds=conds)
        setup = R.opts.get("world_setup")
        if setup: setup(w)
        try:
            STATS["pit"] += 1
            return [w.ev(t) for t in terms]
        except Retry:
            if w.pos: lim = 1500
            continue
    raise Unsupported("no admissible evaluation point")


def resolve(R, c, br):
    """truth of condition c (may contain bound variables) or None"""
    fs = freesyms(c)
    bs = [v for v in br if v in fs]
    if R.ctx.isubst: c2 = subst(c, R.ctx.isubst)
    else: c2 = c
    if c2 is TRUE: return True
    if c2 is FALSE: return False
    d = R.tiny(c2)
    if d is not None: return d
    if bs:
        R.ctx.push()
        try:
            for v in bs: R.ctx.assume(band(icmp("<=", br[v][0], isym(v)), icmp("<", isym(v), br[v][1])))
            return R.ctx.decide(c2)
        finally: R.ctx.pop()
    return R.ctx.decide(c2)


TRIALS = int(os.environ.get("VERIF_TRIALS", "3"))


def prove_all(R, pairs, trials=TRIALS, depth=0, info=None, seed="v"):
    """all pairs equal on this path?  True / False / None (undecided; reason in info)"""
    import time
    t0 = time.time()
    STATS["queries"] += 1
    try: return _prove(R, pairs, trials, depth, info if info is not None else {}, seed)
    finally: STATS["time"] += time.time() - t0


def resolve_last(R, t):
    """`last` terms whose last true index is known: R.region = (index, facts about a later index)"""
    reg = getattr(R, "region", None)
    if reg is None or not any(x.op == "last" for x in walk(t)): return t
    l, more = reg
    def f(x):
        if x.op != "last": return None
        v, lo, hi, cond, val, els = x.a
        inside = R.ctx.decide(band(icmp("<=", lo, l), icmp("<", l, hi)))
        if inside is None: return None
        before = inside is False             # the known index comes before the range: no write at all
        if before:
            if R.ctx.decide(icmp("<", l, lo)) is not True: return None
        elif R.ctx.decide(R.norm(subst(cond, {v: l}))) is not True: return None
        s = fresh("s")
        c = R.norm(subst(cond, {v: isym(s)}))
        R.ctx.push()
        try:
            for g in [icmp("<=", lo, isym(s)), icmp("<", l, isym(s)), icmp("<", isym(s), hi)] + list(more(isym(s))): R.ctx.assume(g)
            if R.ctx.decide(c) is not False: return None
        finally: R.ctx.pop()
        return resolve_last(R, els if before else R.norm(subst(val, {v: l})))
    return rewrite(t, f)


def implied_eqs(R):
    """turn inequalities that are forced to be tight into solved equalities"""
    new = False
    for f in list(R.ctx.facts):
        if f.op == "i<=":
            d = isubst(f.a[0], R.ctx.isubst)
            if d.is_const() or not any(isinstance(a, str) and abs(k) == 1 for a, k in d.co): continue
            e = icmp("==", d, 0)
            if e not in R.ctx.facts and R.ctx.decide(e) is True:
                R.ctx.assume(e)
                new = True
    return new


def _prove(R, pairs, trials, depth, info, seed):
    if not R.ctx.feasible(): return True
    ps = []
    for a, b in pairs:
        a, b = resolve_last(R, R.norm(a)), resolve_last(R, R.norm(b))
        if R.ctx.isubst: a, b = subst(a, R.ctx.isubst), subst(b, R.ctx.isubst)
        if a is not b: ps.append((a, b))
    if not ps: return True
    if implied_eqs(R): return _prove(R, ps, trials, depth, info, seed)
    terms = [t for p in ps for t in p]
    br = bound_ranges(terms)
    conds = {}
    try:
        for k in range(trials):
            while True:
                try:
                    vs = eval_terms(R, terms, seed, k, conds)
                    break
                except Unresolved as u:
                    d = resolve(R, u.cond, br)
                    if d is None:
                        if not u.soft: raise SplitC(u.cond)
                        conds[("open", u.cond)] = True
                        continue
                    conds[u.cond] = d
            for j in range(0, len(vs), 2):
                if vs[j] != vs[j + 1]:
                    al = align_sums(R, ps) if "aligned" not in info else None
                    if al:
                        info["aligned"] = True
                        try: return _prove(R, al, trials, depth, info, seed)
                        finally: info.pop("aligned", None)
                    info["differ"] = (show(ps[j // 2][0])[:600], show(ps[j // 2][1])[:600])
                    info["terms"] = ps[j // 2]
                    info["facts"] = [show(f) for f in R.ctx.facts]
                    return False
        return True
    except SplitC as s:
        if depth > 8:
            info["reason"] = "too many case splits: " + show(s.cond)[:200]
            return None
        if set(br) & freesyms(s.cond):
            c = s.cond
            sp = split_sum(R, ps, c, br)
            if sp is not None: return _prove(R, sp, trials, depth + 1, info, seed)
            info["reason"] = "condition on a bound variable: " + show(c)[:300]
            return None
        for c in (s.cond, bnot(s.cond)):
            R.ctx.push()
            R.ctx.assume(c)
            try: r = _prove(R, ps, trials, depth + 1, info, seed)
            finally: R.ctx.pop()
            if r is not True: return r
        return True
    except Unsupported as e:
        info["reason"] = "identity test: %s" % e
        return None


def offset(body, v):
    """smallest floor(c / k) over the body's index expressions k v + c + ..."""
    best = None
    for x in walk(body):
        for e in iechildren(x):
            k = dict((a, q) for a, q in e.co if isinstance(a, str)).get(v, 0)
            if k > 0: best = e.c // k if best is None else min(best, e.c // k)
    return best or 0


def iechildren(x):
    if x.op == "leaf": return list(x.a[1])
    return [y for y in x.a if isinstance(y, IE)]


def align_sums(R, ps):
    """index shifts of the sums normalised and, for sums with a common upper limit, the lower limits made equal
    by writing leading terms out; None when nothing changes"""
    ch = [False]
    rng = {}

    def shifted(x):
        v, lo, hi, body = x.a
        d = offset(body, v)
        return v, iadd(lo, d), iadd(hi, d), subst(body, {v: isub(isym(v), d)})
    for t in {t for p in ps for t in p}:
        for x in walk(t):
            if x.op == "sum": v, lo, hi, _ = shifted(x); rng.setdefault(hi, set()).add(lo)
    top = {}
    for hi, los in rng.items():
        if len(los) < 2: continue
        ls = sorted(los, key=lambda e: e.c)
        if any(not isub(e, ls[0]).is_const() for e in ls) or isub(ls[-1], ls[0]).c > 4: continue
        if R.ctx.decide(icmp("<=", ls[-1], hi)) is True: top[hi] = ls[-1]

    def lead(x):
        if x.op != "sum": return None
        v, lo, hi, body = shifted(x)
        if hi not in top or lo is top[hi]: return None
        n = isub(top[hi], lo).c
        if n <= 0: return None
        ch[0] = True
        return add(*[subst(body, {v: iadd(lo, i)}) for i in range(n)], ssum(v, top[hi], hi, body))
    out = [(rewrite(a, lead), rewrite(b, lead)) for a, b in ps]
    return out if ch[0] else None


def split_sum(R, ps, c, br):
    """c: linear condition on one bound variable; split every sum over that variable at the threshold"""
    bs = [v for v in br if v in freesyms(c)]
    if len(bs) != 1: return None
    v = bs[0]
    base = c.a[0] if c.op == "not" else c
    if base.op not in ("i==", "i<="): return None
    th = threshold(base, v)
    if th is None: return None
    done = [False]

    def f(x):
        if x.op == "sum" and x.a[0] == v:
            lo, hi, body = x.a[1], x.a[2], x.a[3]
            cuts = [lo]
            for t in th:
                d = R.ctx.decide(icmp("<=", t, cuts[-1]))
                if d is True: continue
                e = R.ctx.decide(icmp("<=", hi, t))
                if e is True: continue
                if d is None or e is None: return None
                cuts.append(t)
            cuts.append(hi)
            if len(cuts) == 2: return None
            done[0] = True
            return add(*[ssum(v, a, b, body) for a, b in zip(cuts, cuts[1:])])
        return None
    out = [(rewrite(a, f), rewrite(b, f)) for a, b in ps]
    return out if done[0] else None


def threshold(c, v):
    """i== / i<= condition linear in v with coefficient +-1 -> list of cut points (v < cut | v >= cut)"""
    d = c.a[0]
    k = dict((a, q) for a, q in d.co if isinstance(a, str)).get(v, 0)
    if abs(k) != 1: return None
    rest = isub(d, iscale(isym(v), k))
    if v in ie_syms(rest): return None
    if c.op == "i==":
        t = iscale(rest, -k)
        return [t, iadd(t, 1)]
    # k v + rest <= 0
    if k == 1: return [iadd(ineg(rest), 1)]        # v <= -rest
    return [rest]                                   # v >= rest
