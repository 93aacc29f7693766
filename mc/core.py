"""Small explorer framework: exhaustive, deterministic enumeration of cases over worker processes.

A check module defines
    PROPERTY, RULE, ASSUMPTIONS, bounds(tier) -> dict
    cases(tier)            -> iterable of JSON-able cases (the whole bounded space, simplest first)
    run(case, out)         -> executes one case on the real code and compares it with the reference model:
                              out.fail(msg) for a violation, out.step(n) for implementation steps taken,
                              out.state(obj) for observed states (hashed), out.trace(n) for executions compared.
"""
import hashlib, json, os, signal, sys, time, traceback
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TORCHDYN_REPO", "/repo")


class Timeout(Exception):
    pass


class Stop(Exception):
    pass


class Out:
    """Collects what one worker observed."""

    def __init__(self):
        self.fails, self.states, self.steps, self.traces, self.execs = [], set(), 0, 0, 0
        self.case = None
        self.cur_fails = self.timeouts = 0

    def fail(self, msg, key=None):
        self.cur_fails += 1
        if self.cur_fails <= 3:
            self.fails.append({"case": self.case, "msg": str(msg)[:600], "key": key})

    def check(self, cond, msg, key=None):
        if not cond:
            self.fail(msg() if callable(msg) else msg, key)
        return bool(cond)

    def step(self, n=1):
        self.steps += n

    def trace(self, n=1):
        self.traces += n

    def state(self, *obj):
        self.states.add(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest())


def _alarm(*_):
    raise Timeout("no answer within the time limit of one case")


def run_one(mod, case, out, limit):
    import torch
    out.case, out.cur_fails = case, 0
    out.execs += 1
    torch.manual_seed(0)
    torch.set_grad_enabled(True)
    torch.set_default_dtype(torch.float32)
    import numpy as np
    np.random.seed(0)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        mod.run(case, out)
    except Timeout as e:
        out.timeouts += 1
        out.fail("does not terminate: %s" % e)
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:])
        out.fail("raised %s: %s (%s)" % (type(e).__name__, e, where))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


MAX_FAILS, MAX_TIMEOUTS = 6, 2
FIRST = bool(os.environ.get("VERIF_FIRST"))  # all workers stop at the first failure (for mutation testing)


def _worker(mod, tier, k, n, limit, q, ev):
    import warnings
    warnings.simplefilter("ignore")
    sys.stdout = open(os.devnull, "w")  # the library prints notices
    import torch
    torch.set_num_threads(1)
    out = Out()
    total = 0
    try:
        for i, case in enumerate(mod.cases(tier)):
            total += 1
            if i % n != k:
                continue
            if len(out.fails) < MAX_FAILS and out.timeouts < MAX_TIMEOUTS and not (FIRST and ev.is_set()):
                run_one(mod, case, out, limit)
                if FIRST and out.fails:
                    ev.set()
        q.put(("ok", k, total, out.fails, out.states, out.steps, out.traces, out.execs))
    except BaseException:
        q.put(("err", k, traceback.format_exc()))


def load_findings():
    found = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("finding: "):
                f = dict(x.split("=", 1) for x in line.split()[1:3])
                f["what"] = " ".join(line.split()[3:])
                found.append(f)
    return found


def main(mod, argv):
    t0 = time.time()
    prop = mod.PROPERTY
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    limit = getattr(mod, "CASE_LIMIT", 60)
    replay = None
    for i, a in enumerate(argv):
        if a in ("quick", "thorough"):
            tier = a
        if a == "--replay":
            replay = argv[i + 1]
    sys.stdout.flush()
    if replay:
        rec = json.load(open(replay))
        out = Out()
        import warnings
        warnings.simplefilter("ignore")
        import torch
        torch.set_num_threads(1)
        run_one(mod, rec["case"], out, limit)
        for f in out.fails:
            print("FAILS:", f["msg"])
        print("reproduced" if out.fails else "not reproduced")
        return 1 if out.fails else 0

    n = int(os.environ.get("VERIF_PROCS", "8"))
    ctx = mp.get_context("fork")
    q, ev = ctx.Queue(), ctx.Event()
    ps = [ctx.Process(target=_worker, args=(mod, tier, k, n, limit, q, ev)) for k in range(n)]
    for p in ps:
        p.start()
    res, dead = [], 0
    while len(res) < n:
        try:
            res.append(q.get(timeout=5))
        except Exception:
            if all(not p.is_alive() for p in ps) and q.empty():
                break
    for p in ps:
        p.join()
    errs = [r for r in res if r[0] == "err"]
    if errs or len(res) < n:
        for r in errs:
            print(r[2])
        print("ERROR: harness failure in %d worker(s) of check %s" % (n - len(res) + len(errs), prop))
        return 2
    res.sort(key=lambda r: r[1])
    states = set().union(*[r[4] for r in res])
    fails = [f for r in res for f in r[3]]
    steps, traces, execs = (sum(r[i] for r in res) for i in (5, 6, 7))
    total = res[0][2]
    known = [f for f in load_findings() if f["property"] == prop]
    new = []
    seen_known = set()
    for f in fails:
        m = [k for k in known if f["key"] is not None and k["key"] == f["key"]]
        if m:
            if m[0]["key"] not in seen_known:
                print("KNOWN-FINDING: property=%s %s" % (prop, m[0]["what"]))
            seen_known.add(m[0]["key"])
        else:
            new.append(f)
    rdir = os.path.join(VERIF, "out", "replay")
    os.makedirs(rdir, exist_ok=True)
    for j, f in enumerate(new[:5]):
        path = os.path.join(rdir, "%s-%d.json" % (prop, j))
        json.dump({"property": prop, "case": f["case"], "msg": f["msg"],
                   "replay": "bash mc/run.sh %s --replay %s" % (prop, path)}, open(path, "w"), indent=1)
        if j == 0:
            print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  case: %s\n  %s" % (json.dumps(f["case"])[:500], f["msg"]))
    samples = []
    for i, c in enumerate(mod.cases(tier)):
        if i in (0, total // 2, total - 1):
            samples.append(c)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": len(states), "transitions": steps, "traces_validated_against_impl": traces,
                       "executions": execs, "cases_in_bounded_space": total, "samples": samples,
                       "exhaustive": execs == total, "rule": mod.RULE, "bounds": mod.bounds(tier)},
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d cases, %d executions compared, %d implementation steps, %d distinct observed states, %d violations, %.1fs"
          % (prop, tier, total, traces, steps, len(states), len(new), time.time() - t0))
    if new:
        return 1
    if execs != total:
        print("ERROR: not all cases ran")
        return 2
    return 0
