"""C05: interpolated rows against the quartic fitted to the recorded accepted steps, over all subsets of a set of requested times."""
import itertools
import torch
from torchdyn.numerics import odeint
from torchdyn.numerics.interpolators import FourthOrder
from torchdyn.numerics.solvers.ode import DormandPrince45, Tsitouras45
from mc.common import *

PROPERTY = "C05"
CASE_LIMIT = 150
RULE = ("all subsets of a set of intermediate times (inside steps, several per step, exactly at accepted step ends, next to the ends), for fields with and without "
        "rejections, both directions, layouts, dtypes and tolerances: recorded trials, final state and every row compared with the run over the end points and the "
        "quartic through both ends, both slopes and the midpoint formula of the containing step")
ASSUMPTIONS = ["the midpoint weights of the published 4th-order dense output (Shampine) are the reference"]

MID = [6025192743 / 30085553152 / 2, 0., 51252292925 / 65400821598 / 2, -2691868925 / 45128329728 / 2, 187940372067 / 1594534317056 / 2, -1776094331 / 19743644256 / 2, 11237099 / 235043384 / 2]
POLY = {"p%d" % d: Field("p%d" % d, (lambda d: lambda t, x: d * _t1(t, x) ** (d - 1) * torch.ones_like(x))(d), (lambda d: lambda t0, t, x: x + t ** d - t0 ** d)(d)) for d in (1, 2, 3, 4)}
POLY["pm"] = Field("pm", lambda t, x: (1 - 2 * _t1(t, x) + 3 * _t1(t, x) ** 2 - 2 * _t1(t, x) ** 3) * torch.ones_like(x), lambda t0, t, x: x + (t - t ** 2 + t ** 3 - t ** 4 / 2) - (t0 - t0 ** 2 + t0 ** 3 - t0 ** 4 / 2))


def _t1(t, x):
    return t.to(x.dtype).reshape(())


ALLF = {**{k: FIELDS[k] for k in ("cos", "decay", "tx", "kick", "growth", "const")}, **POLY}
SPANS = {"01": [0., 1.], "02": [0., 2.], "neg": [-1.5, -.5], "cross": [-.5, .75], "off": [10., 10.5], "short": [0., 1e-2], "long": [0., 6.]}
FRACS = [1e-7, .03, .2, .5, .51, .52, .9, 1 - 1e-7]
SHAPE = {"m": [[.5, .25], [.125, .75]], "v1": [.4], "t": [[[.5], [.25]]]}


def bounds(tier):
    return {"times": len(FRACS) + 2, "subsets": "all up to size %s, the full set and all its co-atoms" % (1 if tier == "quick" else 4), "fields": sorted(ALLF), "spans": SPANS}


def cases(tier):
    for fld in ALLF:
        for sp in SPANS:
            if SPANS[sp][0] > 5 and fld == "tx" or sp == "long" and fld in ("tx", "growth", "p4"):
                continue
            for rev in (0, 1):
                for tol in (1e-3, 1e-6) if tier == "quick" else (1e-2, 1e-3, 1e-5, 1e-8):
                    for shape in SHAPE:
                        yield {"field": fld, "span": sp, "rev": rev, "tol": tol, "shape": shape, "xdt": "f64", "k": 1 if tier == "quick" else 4}
                if fld in ("cos", "decay", "kick"):
                    yield {"field": fld, "span": sp, "rev": rev, "tol": 1e-3, "shape": "m", "xdt": "f32", "k": 1}


class Rec(DormandPrince45):
    def __init__(self, dtype):
        super().__init__(dtype)
        self.rec = []

    def step(self, f, x, t, dt, k1=None, args=None):
        r = super().step(f, x, t, dt, k1=k1, args=args)
        self.rec.append((t.clone(), dt.clone(), x.clone(), r[1].clone(), [s.clone() for s in r[3]], r[0].clone()))
        return r


def same(a, b, eps):
    return len(a) == len(b) and all(abs(float(p[0]) - float(q[0])) <= eps and abs(float(p[1]) - float(q[1])) <= eps and close(p[2], q[2], eps, eps) for p, q in zip(a, b))


def quartic(rec, tau):
    "value at tau of the quartic through both ends, both slopes and the midpoint of a recorded step"
    t, dt, x, x1, ks, f1 = rec
    t, h = float(t), float(dt)
    th = (tau - t) / h
    mid = x + h * sum(m * k for m, k in zip(MID, ks))
    A = torch.tensor([[1., 0, 0, 0, 0], [1., 1, 1, 1, 1], [0, 1, 0, 0, 0], [0, 1, 2, 3, 4], [1, .5, .25, .125, .0625]], dtype=torch.float64)
    rhs = torch.stack([x, x1, h * ks[0], h * f1, mid]).to(torch.float64)
    co = torch.linalg.solve(A, rhs.reshape(5, -1))
    return (torch.tensor([th ** i for i in range(5)], dtype=torch.float64) @ co).reshape(x.shape)


def run(case, out):
    fld = ALLF[case["field"]]
    a, b = SPANS[case["span"]]
    dt = DT[case["xdt"]]
    if case["rev"]:
        a, b = b, a
    a, b = torch.tensor([a, b], dtype=dt).tolist()
    x0 = torch.tensor(SHAPE[case["shape"]], dtype=dt)
    if case["field"] == "kick" and case["rev"]:
        x0 = x0 * .1
    tol = case["tol"]
    eps = 1e-10 if dt == torch.float64 else 2e-5
    times = [a + (b - a) * f for f in FRACS]

    def solve(ts, interp="4th", solver=None, allev=False, f=fld.f):
        s = Rec(dt) if solver is None else solver
        t, sol = odeint(f, x0, torch.tensor(ts, dtype=dt), s, atol=tol, rtol=tol, interpolator=interp, return_all_eval=allev)
        out.step(len(getattr(s, "rec", [])))
        out.trace()
        return t, sol, s
    t, sol, base = solve([a, b])
    ta, sola, _ = solve([a, b], allev=True)
    sg = -1. if case["rev"] else 1.
    # accepted steps: those whose end state appears in the full output, in order
    ends = ta.tolist()
    acc, j = [], 0
    for r in base.rec:
        if j + 1 < sola.shape[0] and torch.equal(sola[j], r[2]) and torch.equal(sola[j + 1], r[3]):
            acc.append(r)
            j += 1
    if not out.check(j + 1 == sola.shape[0], "returned evaluations are not the recorded accepted steps"):
        return
    if len(ends) > 2:
        mid = ends[len(ends) // 2]
        if all(abs(mid - s) > 1e-4 for s in times):
            times.append(mid)  # exactly at the end of an accepted step
    times = sorted(set(torch.tensor(times, dtype=dt).tolist()) - {a, b}, reverse=bool(case["rev"]))
    if dt == torch.float32:
        times = [s for s in times if abs(s - a) > 1e-4 and abs(s - b) > 1e-4]

    def expected(tau):
        for r, e0, e1 in zip(acc, ends, ends[1:]):
            if sg * tau <= sg * e1 or e1 == ends[-1]:
                if tau == e1:
                    return r[3].to(torch.float64)
                return quartic(r, sg * tau)
    want = {tau: expected(tau) for tau in times}
    subsets = [times] + [times[:i] + times[i + 1:] for i in range(len(times))] + [list(c) for k in range(1, case["k"] + 1) for c in itertools.combinations(times, k)]
    scale = max(1., float(sola.abs().max()))
    if "p" == case["field"][0]:
        t0 = torch.tensor(a, dtype=torch.float64)
        for tau in times:
            w = fld.flow(t0, torch.tensor(tau, dtype=torch.float64), x0.to(torch.float64))
            out.check(close(want[tau], w, 1e-9, 1e-9 * (1 + max(abs(a), abs(b)) ** 4)), lambda: "quartic solution not reproduced at %r: %s" % (tau, err(want[tau], w)))
    for i, sub in enumerate(subsets):
        ts = [a] + sub + [b]
        for allev in ((False, True) if i < 4 else (False,)):
            t, sol, s = solve(ts, allev=allev)
            ctx = "times %s%s" % (sub[:4], " all" if allev else "")
            if not same(base.rec, s.rec, eps):
                return out.fail(ctx + ": requesting intermediate times changed the steps taken (%d trials instead of %d)" % (len(s.rec), len(base.rec)))
            got = t.tolist()
            exp_times = ts if not allev else sorted(set(ts) | set(ends), reverse=bool(case["rev"]))
            if not out.check(got == exp_times, "%s: returned times %s" % (ctx, got[:6])):
                return
            for tau, row in zip(got, sol):
                w = want.get(tau)
                if w is None:
                    w = sola[ends.index(tau)].to(torch.float64)
                if not out.check(close(row.to(torch.float64), w, eps, eps * scale), lambda: "%s: row at %r is not the quartic of its step: %s" % (ctx, tau, err(row.to(torch.float64), w))):
                    return
            out.state(case["field"], case["span"], case["rev"], case["tol"], tuple(sub))
    # by name and with a shared instance of the interpolator
    ip = FourthOrder(dt)
    full = [a] + times + [b]
    _, ref, _ = solve(full)
    for _ in range(2):
        _, sol, _ = solve(full, interp=ip)
        out.check(torch.equal(sol, ref), "interpolator given as instance changes the result")
    t, sol = odeint(fld.f, x0, torch.tensor(full, dtype=dt), "dopri5", atol=tol, rtol=tol, interpolator="4th")
    out.check(close(sol, ref, eps, eps), "solver given by name changes the interpolated result")
    # fallback
    for solver in ("tsit5", "rk4", Tsitouras45(dt)):
        r1 = odeint(fld.f, x0, torch.tensor(full, dtype=dt), solver, interpolator="4th")
        r2 = odeint(fld.f, x0, torch.tensor(full, dtype=dt), solver)
        out.check(torch.equal(r1[1], r2[1]) and torch.equal(r1[0], r2[0]), "a solver without interpolation does not fall back to stepping")
