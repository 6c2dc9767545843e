"""Concrete runs of the real code against independent expectations.

  oracle.py run PROP TIER SEED OUT.json     run all cases of a property
  oracle.py replay FILE                     re-run the single case stored in a replay file

Runs under the repository's own python with /repo/src on the path.  Every case draws its inputs
from a generator seeded by (property, case, index, seed), so a replay file that names those four
values reproduces the failure exactly."""
import sys, os, json, time, random, traceback, warnings
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.filterwarnings("ignore")
import numpy as np
import torch

CASES = {}


def case(prop, quick, thorough=None):
    def deco(f):
        CASES.setdefault(prop, []).append((f.__name__, f, quick, thorough or quick * 6))
        return f
    return deco


class Fail(Exception): pass


class CK:
    """records inputs for the replay file and raises on the first failed expectation"""
    def __init__(self): self.inputs, self.n = {}, 0

    def put(self, **kw):
        for k, v in kw.items(): self.inputs[k] = js(v)

    def ok(self, cond, msg):
        self.n += 1
        if not bool(cond): raise Fail(msg)

    def close(self, got, exp, rtol, atol, msg):
        got = tonp(got); exp = tonp(exp)
        self.n += 1
        if got.shape != exp.shape: raise Fail("%s: shape %s, expected %s" % (msg, got.shape, exp.shape))
        if got.size == 0: return
        d = np.abs(got - exp)
        lim = atol + rtol * np.abs(exp)
        bad = ~(d <= lim)
        if bad.any():
            i = tuple(int(q) for q in np.argwhere(bad)[0])
            raise Fail("%s: at %s got %s expected %s" % (msg, i, got[i], exp[i]))

    def raises(self, f, msg, exc=Exception):
        self.n += 1
        try: r = f()
        except exc: return
        raise Fail("%s: no error raised, returned %s" % (msg, str(type(r))))


def tonp(x):
    if isinstance(x, torch.Tensor): return x.detach().cpu().resolve_conj().numpy()
    return np.asarray(x)


def js(v):
    if isinstance(v, torch.Tensor): v = v.detach().cpu().numpy()
    if isinstance(v, np.ndarray): v = v.tolist()
    if isinstance(v, complex): return [v.real, v.imag]
    if isinstance(v, (list, tuple)): return [js(x) for x in v]
    if isinstance(v, dict): return {str(k): js(x) for k, x in v.items()}
    if isinstance(v, (int, float, str, bool)) or v is None: return v
    return str(v)


def run_case(prop, name, idx, seed):
    f = [c for c in CASES[prop] if c[0] == name][0][1]
    ck = CK()
    rng = random.Random("%s/%s/%d/%d" % (prop, name, idx, seed))
    torch.manual_seed(rng.randrange(1 << 30))
    try:
        f(rng, ck, idx)
        return None, ck
    except Fail as e: return "%s: %s" % (name, e), ck
    except Exception as e:
        tb = traceback.format_exc(limit=-6)
        return "%s: unexpected %s: %s\n%s" % (name, type(e).__name__, str(e)[:300], tb[-1500:]), ck


def load():
    import cases_mie, cases_misc


def main():
    load()
    if sys.argv[1] == "run":
        prop, tier, seed, out = sys.argv[2], sys.argv[3], int(sys.argv[4]), sys.argv[5]
        t0 = time.time()
        budget = float(os.environ.get("ORACLE_BUDGET", "150" if tier == "quick" else "700"))
        fails, counts, nchk = [], {}, 0
        for name, f, q, th in CASES.get(prop, []):
            n = q if tier == "quick" else th
            for i in range(n):
                if time.time() - t0 > budget and i > 0: break
                msg, ck = run_case(prop, name, i, seed)
                nchk += ck.n
                counts[name] = counts.get(name, 0) + 1
                if msg:
                    fails.append(dict(property=prop, case=name, index=i, seed=seed, message=msg, inputs=ck.inputs))
                    break
        json.dump(dict(property=prop, fails=fails, cases=counts, comparisons=nchk, wall=time.time() - t0), open(out, "w"), indent=1)
        for x in fails: print("FAIL", x["property"], x["case"], x["index"], x["message"][:700])
        return 1 if fails else 0
    if sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2]))
        if "case" not in d:
            print(json.dumps(d, indent=1)[:4000]); return 1
        msg, ck = run_case(d["property"], d["case"], d["index"], d["seed"])
        print("inputs:", json.dumps(ck.inputs)[:3000])
        print("reproduced: " + msg if msg else "not reproduced: the case passes")
        return 1 if msg else 0


if __name__ == "__main__":
    # make the module importable as `oracle` from the case files
    sys.modules["oracle"] = sys.modules["__main__"]
    sys.exit(main())
