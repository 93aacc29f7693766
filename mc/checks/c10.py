"""C10: hybrid solves of exactly solvable flows against an event-driven reference that follows every recorded row, over event systems, step histories, budgets and grids."""
import itertools, math
import torch
from torchdyn.numerics import odeint_hybrid
from torchdyn.numerics.utils import EventCallback
from mc.common import *

PROPERTY = "C10"
RULE = ("for every (flow, set of callbacks in both orders, jump budget, requested grid, priority, event tolerance, dtype, solver or script of accepted/rejected trial steps, rejected ones ending in states that would trigger events): the recorded "
        "rows are replayed by a reference that knows the exact flow, evaluates the conditions on every row and applies the jumps itself; calls of jump_map are matched with the events")
ASSUMPTIONS = ["forward time", "a condition that turns true stays true for longer than one accepted step (conditions may turn false again, with or without a jump)"]
CASE_LIMIT = 100


# ---------------------------------------------------------------- flows on states [pos, vel]
def drift_f(t, x):
    return torch.stack([x[..., 1], torch.zeros_like(x[..., 1])], -1)


def grav_f(t, x):
    return torch.stack([x[..., 1], -2. + 0 * x[..., 1]], -1)


def osc_f(t, x):
    return torch.stack([x[..., 1], -x[..., 0]], -1)


def exp_f(t, x):
    return torch.stack([x[..., 1] * x[..., 0], 0 * x[..., 1]], -1)


def tv_f(t, x):
    return torch.stack([x[..., 1] * 2 * t.reshape(()), 0 * x[..., 1]], -1)


FLOW = {
    "drift": (drift_f, lambda a, b, p, v: (p + v * (b - a), v)),
    "grav": (grav_f, lambda a, b, p, v: (p + v * (b - a) - (b - a) ** 2, v - 2 * (b - a))),
    "osc": (osc_f, lambda a, b, p, v: (p * math.cos(b - a) + v * math.sin(b - a), v * math.cos(b - a) - p * math.sin(b - a))),
    "exp": (exp_f, lambda a, b, p, v: (p * math.exp(v * (b - a)), v)),
    "tv": (tv_f, lambda a, b, p, v: (p + v * (b * b - a * a), v)),
}


class CB(EventCallback):
    def __init__(self, name, cond, jump, log, as_bool):
        super().__init__()
        self.name, self.cond, self.jump, self.log, self.as_bool = name, cond, jump, log, as_bool

    def check_event(self, t, x):
        c = self.cond(float(t), x.reshape(-1, 2)[0, 0], x.reshape(-1, 2)[0, 1])
        return bool(c) if self.as_bool else torch.as_tensor(c)

    def jump_map(self, t, x):
        self.log.append((self.name, float(t), x.detach().clone()))
        p, v = self.jump(x[..., 0], x[..., 1])
        return torch.stack([p, v], -1)


def ge(c):
    return lambda t, p, v: p >= c


def le(c):
    return lambda t, p, v: p <= c


REFL = lambda p, v: (p, -v)
RESET = lambda p, v: (0 * p, v)
KEEP = lambda p, v: (p + 0, v + 0)
FAST = lambda p, v: (p + 0, 2 * v)
HALF = lambda p, v: (p, -.5 * v)

# name: (flow, x0, T, callbacks, grids)
SYS = {
    "wrap": ("drift", (0., 1.), 2.5, [(ge(.7), RESET)]),
    "wrap2": ("drift", (.2, .8), 2., [(ge(.5), RESET), (ge(.9), KEEP)]),
    "pong": ("drift", (.3, 1.), 3., [(lambda t, p, v: (p >= 1) & (v > 0), REFL), (lambda t, p, v: (p <= 0) & (v < 0), REFL)]),
    "bounce": ("grav", (1., 0.), 3., [(lambda t, p, v: (p <= 0) & (v < 0), HALF)]),
    "once": ("drift", (0., 1.), 2., [(ge(.6), KEEP)]),
    "twosame": ("drift", (0., 1.), 2., [(ge(.6), FAST), (ge(.6), KEEP)]),
    "near": ("drift", (0., 1.), 2., [(ge(.60001), FAST), (ge(.6), FAST)]),
    "nested": ("drift", (0., 1.), 2., [(ge(1.4), KEEP), (ge(.5), lambda p, v: (p + 1., v))]),
    "three": ("drift", (0., 1.), 2., [(ge(.9), KEEP), (ge(.3), FAST), (ge(.5), HALF)]),
    "start": ("drift", (.8, 1.), 1.5, [(ge(.5), RESET)]),
    "startkeep": ("drift", (.8, -1.), 1.5, [(ge(.5), KEEP), (le(.2), REFL)]),
    "startboth": ("drift", (.8, 1.), 1.5, [(ge(.5), KEEP), (ge(.6), lambda p, v: (p - .5, v))]),
    "clock": ("drift", (0., 1.), 2., [(lambda t, p, v: torch.as_tensor(t >= .5 - 0 * float(p)), KEEP), (lambda t, p, v: torch.as_tensor(t >= 1.25), RESET)]),
    "osc": ("osc", (1., 0.), 4., [(lambda t, p, v: (p <= 0) & (v < 0), lambda p, v: (p, .5 * v)), (lambda t, p, v: (p >= 0) & (v > 0) , KEEP)]),
    "osckeep": ("osc", (1., 0.), 14., [(ge(.5), KEEP)]),
    "oscboth": ("osc", (0., 1.), 9., [(ge(.5), KEEP), (lambda t, p, v: v <= -.3, lambda p, v: (p, 1. * v))]),
    "hill": ("grav", (0., 3.), 3.3, [(ge(1.), KEEP), (le(.2), REFL)]),
    "exp": ("exp", (1., 1.), 2., [(ge(2.), lambda p, v: (p - 1, v))]),
    "decay": ("exp", (1., -1.), 3., [(le(.5), lambda p, v: (p + .5, v)), (le(.7), KEEP)]),
    "tv": ("tv", (0., 1.), 1.5, [(ge(.5), RESET), (ge(.25), KEEP)]),
    "never": ("drift", (0., 1.), 1., [(ge(5.), RESET)]),
    "none": ("drift", (0., 1.), 1., []),
    "last": ("drift", (0., 1.), 1., [(ge(.99995), RESET)]),
}
GRIDS = {"ends": [0., 1.], "mid": [0., .5, 1.], "many": [0., .1, .2, .3, .4, .5, .6, .7, .8, .9, 1.], "near": [0., .3, .3001, .6, .60001, 1.], "early": [0., 1e-3, 1.]}


def bounds(tier):
    return {"systems": len(SYS), "grids": GRIDS, "budgets": [1, 2, 3, 50], "script_depth": 3 if tier == "quick" else 5, "error_alphabet": [.1, 1., 2., 1000.]}


def cases(tier):
    deep = tier == "thorough"
    for s in SYS:
        for order in range(2 if len(SYS[s][3]) > 1 else 1):
            for g in GRIDS:
                for j in (1, 2, 3, 50):
                    for pr in ("jump", "flow"):
                        for et in (1e-4, 1e-2, 1e-6):
                            for solver in ("dopri5", "tsit5", "inst"):
                                for dt in ("f64", "f32"):
                                    w = (g not in ("ends", "many")) + (j not in (2, 50)) + (et != 1e-4) + (solver != "dopri5") + (dt != "f64") + (pr != "jump")
                                    if w <= (2 if deep else 1) and not (dt == "f32" and et < 1e-4):
                                        yield {"kind": "solve", "sys": s, "order": order, "grid": g, "j": j, "priority": pr, "tol": et, "solver": solver, "dtype": dt}
    for s in ("wrap", "wrap2", "twosame", "nested", "three", "pong", "once", "clock", "startkeep"):
        for g in ("ends", "mid", "many"):
            for order in range(2 if len(SYS[s][3]) > 1 else 1):
                for semi in (0, 1):
                    for a in (.1, 1., 2., 1000.):
                        for off in (0, 3., -3.) if a > 1 and not semi else (0,):
                            yield {"kind": "script", "sys": s, "grid": g, "order": order, "first": a, "depth": 3 if not deep else 5, "semi": semi, "off": off}


def run(case, out):
    if case["kind"] == "solve":
        solve(case, out, case["solver"], [], 3 if case["grid"] == "many" else 0)
    else:
        for rest in itertools.product((.1, 1., 2., 1000.), repeat=case["depth"] - 1):
            script = (case["first"],) + rest
            solve(dict(case, j=50, priority="jump", tol=1e-3, dtype="f64"), out, "script", script, 0)
            if out.cur_fails:
                return


def solve(case, out, solver, script, shape):
    flow, x0, T, cbs = SYS[case["sys"]]
    f, exact = FLOW[flow]
    dt = case["dtype"]
    log = []
    idx = list(range(len(cbs)))[:: -1 if case["order"] else 1]
    cb = [CB(k, cbs[k][0], cbs[k][1], log, as_bool=bool((case["j"] + k) % 2)) for k in idx]
    conds, jumps = [cbs[k][0] for k in idx], [cbs[k][1] for k in idx]
    x = tens(x0, dt) if shape == 0 else tens([x0], dt)
    ts = tens([v * T for v in GRIDS[case["grid"]]], dt)
    tol = 1e-9 if dt == "f64" else 1e-5
    kw = {}
    if solver == "script":
        sv = Scripted(script, default=.2, tol=(1e-2, 1e-2), horizon=4000, dtype=torch.float64)
        tol = 1e-2
        if case.get("semi"):
            class S2(Scripted):
                def error(self, i, x, xn):
                    e = super().error(i, x, xn).clone()
                    e[1:] = 1e6  # ignored components
                    return e
            sv = S2(script, default=.2, tol=(1e-2, 1e-2), horizon=4000, dtype=torch.float64)
            kw["seminorm"] = (True, 1)
        elif case.get("off"):
            class S3(Scripted):
                def step(self, f, x, t, dt, k1=None, args=None):
                    # trials rejected before the first accepted one end in states that would trigger events
                    i = len(self.calls)
                    f_new, x_new, e, st = super().step(f, x, t, dt, k1, args)
                    if i < len(script) and all(r > 1 for r in script[:i + 1]):
                        x_new = x_new + torch.tensor([case["off"], 0.], dtype=x.dtype)
                        e = self.error(i, x, x_new)
                        f_new = f(t + dt, x_new)
                    return f_new, x_new, e, st
            sv = S3(script, default=.2, tol=(1e-2, 1e-2), horizon=4000, dtype=torch.float64)
    elif solver == "inst":
        from torchdyn.numerics import DormandPrince45
        sv = DormandPrince45(dtype=DT[dt])
    else:
        sv = solver
    xk, tk = x.clone(), ts.clone()
    te, rows = odeint_hybrid(f, x, ts, case["j"], sv, cb, atol=tol, rtol=tol, event_tol=case["tol"], priority=case["priority"], **kw)
    out.step()
    out.trace()
    out.check(torch.equal(x, xk) and torch.equal(ts, tk), "inputs modified")
    if not out.check(te.shape == (len(rows),) and rows.shape[1:] == x.shape and te.dtype == ts.dtype and rows.dtype == x.dtype, "shapes %s %s" % (te.shape, rows.shape)):
        return
    R = [(float(a), float(b.reshape(-1)[0]), float(b.reshape(-1)[1])) for a, b in zip(te, rows)]
    eps = 1e-6 if dt == "f64" else 2e-4
    monitor(case, out, R, log, conds, jumps, idx, exact, x0, [float(v) for v in ts], eps)
    out.state(case["sys"], [(k, round(t, 3)) for k, t, _ in log], len(R) if solver == "script" else 0)


def C(cond, t, p, v, dt=torch.float64):
    return bool(cond(t, torch.tensor(p, dtype=dt), torch.tensor(v, dtype=dt)))


def J(jump, p, v):
    a, b = jump(torch.tensor(p, dtype=torch.float64), torch.tensor(v, dtype=torch.float64))
    return float(a), float(b)


def monitor(case, out, R, log, conds, jumps, names, exact, x0, ts, eps):
    near = lambda a, b, s=1.: abs(a - b) <= eps * s * max(1., abs(b))
    t0, T = ts[0], ts[-1]
    n, budget, used = len(conds), case["j"], 0
    dt = DT[case["dtype"]]
    ttol = case["tol"] * 1.01 + 1e-9 + (1e-6 if eps > 1e-5 else 0)
    p, v = x0
    ev = [False] * n
    start = [C(c, t0, p, v, dt) for c in conds]
    calls = []
    if case["priority"] == "jump":
        if any(start):
            i = start.index(True)
            calls.append((names[i], t0, (p, v)))
            p, v = J(jumps[i], p, v)
            used += 1
            ev = [C(c, t0, p, v, dt) and k == i for k, c in enumerate(conds)]
    else:
        ev = start
    if not out.check(near(R[0][0], t0) and near(R[0][1], p) and near(R[0][2], v), "first row %s, expected %s" % (R[0], (t0, p, v))):
        return
    t, k = t0, 1
    pend = [x for x in ts[1:]]
    fragile = False
    while k < len(R):
        if used >= budget:
            return out.fail("rows after the last allowed jump: %s" % (R[k:k + 3],))
        # an event is a pair of rows at equal times
        is_event = k + 1 < len(R) and R[k][0] == R[k + 1][0] and len(calls) < len(log) and log[len(calls)][1] == R[k][0]
        tn, pn, vn = R[k]
        if not out.check(tn > t or is_event and tn >= t, "times do not increase at row %d: %s" % (k, [r[0] for r in R[max(0, k - 2):k + 3]])):
            return
        pe, ve = exact(t, tn, p, v)
        if not out.check(near(pn, pe, 5.) and near(vn, ve, 5.), "row %d at %r is (%r, %r), the flow from the previous row gives (%r, %r)" % (k, tn, pn, vn, pe, ve)):
            return
        while pend and pend[0] < tn - 1e-12 * max(1, abs(tn)):
            q = pend.pop(0)
            if not out.check(any(r[0] == q for r in R[:k]), "requested time %r skipped" % q):
                return
        if pend and tn == pend[0]:
            pend.pop(0)
        if not is_event:
            now = [C(c, tn, pn, vn, dt) for c in conds]
            for c in range(n):
                if now[c] and not ev[c]:
                    return out.fail("condition %d is true at the accepted row %d (t=%r) without its event" % (c, k, tn))
            ev, t, p, v = now, tn, pn, vn
            k += 1
            continue
        # event: which conditions turn true within the tolerance
        name = log[len(calls)][0]
        i = names.index(name)
        if not out.check(not ev[i], "event of callback %d at %r whose condition was already true" % (i, tn)):
            return
        now = [C(c, tn, pn, vn, dt) for c in conds]
        if not out.check(now[i] and i == min(c for c in range(n) if now[c] and not ev[c]), "callback %d fired at %r, conditions there %s, before %s" % (i, tn, now, ev)):
            return
        back = tn - ttol
        if back > t:
            for c in range(n):
                if not ev[c] and C(conds[c], back, *exact(t, back, p, v)):
                    return out.fail("jump of callback %d at %r, but condition %d was true at %r already" % (i, tn, c, back))
        calls.append((name, tn, (pn, vn)))
        used += 1
        p2, v2 = J(jumps[i], pn, vn)
        if not out.check(near(R[k + 1][1], p2) and near(R[k + 1][2], v2), "row after the jump %s, expected %s" % (R[k + 1], (p2, v2))):
            return
        ev = [C(c, tn, R[k + 1][1], R[k + 1][2], dt) and (ev[q] or q == i) for q, c in enumerate(conds)]
        t, p, v = tn, R[k + 1][1], R[k + 1][2]
        k += 2
    out.check(used == budget or t == T, "solve ends at %r with %d of %d jumps, requested end %r" % (t, used, budget, T))
    for q in pend:
        out.check(used == budget, "requested time %r not reached" % q)
    out.check(len(log) == len(calls), "%d calls of jump maps, %d jumps in the result" % (len(log), len(calls)))
    for (a, ta, xa), (b, tb, (pb, vb)) in zip(log, calls):
        xa = xa.reshape(-1)
        out.check(a == b and near(ta, tb) and near(float(xa[0]), pb) and near(float(xa[1]), vb), "jump map %s called at %r with %s, expected %s at %r with %s" % (a, ta, xa.tolist(), b, tb, (pb, vb)))
