"""run.py UNITS... : verify contracts (debugging aid)   run.py --prop C01 OUT.json : all contracts of a property"""
import sys, os, json, time, glob, importlib, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import base


def load():
    for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c_*.py"))):
        importlib.import_module(os.path.basename(f)[:-3])
    base.resolve_rests()


def clean(d):
    if isinstance(d, dict): return {k: str(v)[:1500] for k, v in d.items() if k != "terms"}
    return str(d)[:1500]


def preload():
    try:
        for m in (base.SP, base.MS, base.HP, base.MT, base.MN, base.TG): base.loader().load(m)
    except Exception: pass


def one(name):
    import verify, traceback, resource
    t0 = time.time()
    s = verify.S
    s.results, s.assumptions = [], set()
    func, fn, opts = base.REG[name]
    try: verify.unit(name, fn, opts)
    except Exception as e:
        s.results.append((name, "verifier accepts the function", False, "%s: %s %s" % (type(e).__name__, e, traceback.format_exc(limit=-5)[-1200:])))
    return dict(unit=name, function=func, obligations=[dict(name=r[1], ok=bool(r[2]), detail=None if r[2] else clean(r[3])) for r in s.results],
                assumptions=sorted(s.assumptions), wall=time.time() - t0, missing=False)


def relevant(prop, unit, ob):
    """frame obligations decide C12, gradient-path obligations C13; the rest belongs to the other properties"""
    own = unit in base.OWN.get(prop, ())
    if ob.startswith("frame: "): return prop == "C12"
    if ob.startswith("gradient path: "): return prop == "C13"
    if prop == "C13": return "gradient" in ob or "backward" in ob or subset(ob)
    if prop == "C12": return own or subset(ob)
    return True


def subset(ob): return ob.startswith(("no exception", "within the verified", "verifier accepts"))


def out_of_reach(o):
    """the verifier could not decide the obligation (as opposed to: it differs)"""
    d = o["detail"]
    return not o["ok"] and (o["name"].startswith(("within the verified", "verifier accepts")) or (isinstance(d, dict) and "reason" in d and "differ" not in d))


def stand_ins(rs):
    """a contract for all sizes that the verifier cannot follow through the current text: its bounded instances stand in, when every one of them is discharged (labelled bounded, never counted as proved)"""
    import fnmatch
    for u in rs:
        pats = base.REG[u["unit"]][2].get("fallback")
        bad = [o for o in u["obligations"] if not o["ok"]]
        if not pats or not bad or not all(map(out_of_reach, bad)): continue
        inst = [x for x in rs if x is not u and any(fnmatch.fnmatchcase(x["unit"], p) for p in pats)]
        if not inst or not all(o["ok"] for x in inst for o in x["obligations"]): continue
        u["bounded_stand_in"] = dict(contracts=[x["unit"] for x in inst], undecided=["%s: %s" % (o["name"], str(o["detail"])[:300]) for o in bad[:5]])
        u["obligations"] = []
    return rs


STOP, PROP, FIRST, GRACE = [False], [None], [False], 45.0


def stop(*a): STOP[0] = True


def work(name, q):
    import signal
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    q.put(one(name))


def run_all(names, jobs=int(os.environ.get("VERIF_JOBS", "7")), limit=float(os.environ.get("VERIF_LIMIT", "400"))):
    """each unit in its own process, with a time limit"""
    ctx = mp.get_context("fork")
    todo, live, out = list(names), {}, {}
    failed = None
    while todo or live:
        # a broken obligation is known: the rest of the proof is only finished while it is quick
        if STOP[0] or (failed and time.time() - failed > GRACE):
            for p, q, t0 in live.values(): p.kill(); p.join()
            return [out[n] for n in names if n in out]
        while todo and len(live) < jobs:
            n = todo.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=work, args=(n, q), daemon=True)
            p.start()
            live[n] = (p, q, time.time())
        time.sleep(0.02)
        for n, (p, q, t0) in list(live.items()):
            if not q.empty():
                out[n] = q.get(); p.join(5); del live[n]
                if FIRST[0] and any(not o["ok"] for o in out[n]["obligations"]): failed = 0.1
                if failed is None and PROP[0] and any(not o["ok"] and relevant(PROP[0], n, o["name"]) and not (base.REG[n][2].get("fallback") and out_of_reach(o)) for o in out[n]["obligations"]): failed = time.time()
            elif not p.is_alive():
                time.sleep(0.05)
                if not q.empty(): continue
                out[n] = dict(unit=n, function=base.REG[n][0], obligations=[dict(name="verifier accepts the function", ok=False, detail="verifier process ended (exit code %s)" % p.exitcode)], assumptions=[], wall=time.time() - t0); del live[n]
            elif time.time() - t0 > limit:
                p.kill(); p.join()
                out[n] = dict(unit=n, function=base.REG[n][0], obligations=[dict(name="verifier accepts the function", ok=False, detail="no answer within %d s" % limit)], assumptions=[], wall=time.time() - t0); del live[n]
    return [out[n] for n in names]


if __name__ == "__main__":
    load()
    if sys.argv[1] == "--prop":
        import signal
        PROP[0] = sys.argv[2]
        signal.signal(signal.SIGTERM, stop)
        preload()
        names = base.PROPS.get(sys.argv[2], [])
        r = run_all(names)
        for x in r: x["obligations"] = [o for o in x["obligations"] if relevant(sys.argv[2], x["unit"], o["name"])]
        json.dump(stand_ins(r), open(sys.argv[3], "w"), indent=1)
    else:
        if "--first" in sys.argv: FIRST[0] = True; sys.argv.remove("--first")
        if "-d" in sys.argv: base.loops.DEBUG = True; sys.argv.remove("-d")
        import fnmatch
        preload()
        names = [n for n in base.REG if any(fnmatch.fnmatch(n, p) for p in sys.argv[1:])]
        for r in (stand_ins(run_all(names)) if len(names) > 1 else [one(n) for n in names]):
            if r.get("bounded_stand_in"): print("%-34s bounded stand-in: %s" % (r["unit"], r["bounded_stand_in"]["undecided"][:1]))
            ok = sum(o["ok"] for o in r["obligations"])
            print("%-34s %3d/%3d %6.1fs" % (r["unit"], ok, len(r["obligations"]), r["wall"]))
            for o in r["obligations"]:
                if not o["ok"]:
                    print("   FAILED", o["name"])
                    d = o["detail"]
                    for k, v in (d.items() if isinstance(d, dict) else [("", d)]): print("      ", k, str(v)[:700])
            if len(names) == 1: print("\n".join("   note: " + a for a in r["assumptions"]))
