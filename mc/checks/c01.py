"""C01: adaptive solves return exactly the requested rows, under every accept/reject schedule."""
import itertools
import torch
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import DormandPrince45, Tsitouras45
from mc.common import *

PROPERTY = "C01"
CASE_LIMIT = 150
RULE = ("every accept/reject schedule (error ratio of each of the first N trial steps chosen from the alphabet, all combinations, "
        "default afterwards) dictated to the real adaptive loop through a plugged-in solver, for every span of the menu; then every "
        "combination of built-in pair, field, span, tolerance, dtype and output option; rows, times and the integrated-to time compared")
ASSUMPTIONS = ["error ratios away from 1 (boundary decisions are C02's), spans of 2-101 points"]

SPANS = {
    "unit": [0., 1.], "short": [0., .05], "four": [0., .1, .2, .3], "close": [0., .15, .16, .17, 1.], "eleven": [i / 10 for i in range(11)],
    "tiny": [0., 1e-3, 2e-3, 1.], "ulp": [0., 1e-9, 1.], "sym": [-1., 0., 1.], "neg": [-3., -2.5, -2.4], "off": [5., 6., 7.5],
    "big": [1000., 1000.25, 1001.], "bigneg": [-10000., -9999.5, -9999.], "long": [0., 3., 100.], "geom": [0.] + [2. ** k / 64 for k in range(8)],
    "geomdown": [0.] + [1 - 2. ** -k for k in range(1, 9)], "hundred": [i * .01 for i in range(101)], "cross": [-.3, -.1, 0., .1, .25],
    "tworight": [0., .9, 1.], "twoleft": [0., .1, 1.], "pair": [0., .5, .5 + 1e-6, 1.], "third": [0., 1 / 3, 2 / 3, 1.], "seven": [.1 + .2 * i for i in range(7)],
    "below": [0., .16, .17, .18, .34, .35], "endclose": [0., .5, 1., 1. + 1e-9], "endulp": [0., 1., 1. + 2. ** -20, 1. + 2. ** -20 + 2. ** -40],
}
LABELS = {"a": 0., "b": .25, "c": 4., "d": 100.}


def bounds(tier):
    return {"spans": len(SPANS), "schedule_depth": 4 if tier == "quick" else 6, "error_alphabet": sorted(LABELS.values()),
            "directions": ["increasing", "decreasing"], "t_dtype": ["f32", "f64"]}


def cases(tier):
    depth = 4 if tier == "quick" else 6
    for sp in SPANS:
        # all schedules under one prefix symbol are explored inside one case
        for rev in (0, 1):
            for allev in (0, 1):
                for first in LABELS:
                    d = min(depth, 5 if rev or allev else 6) - (tier == "quick" and (rev or allev)) - (sp == "hundred")
                    yield {"kind": "schedule", "span": sp, "rev": rev, "all": allev, "prefix": first, "depth": d, "tdt": "f64", "xdt": "f64"}
    for sp in SPANS:
        for rev in (0, 1):
            for tdt, xdt in (("f32", "f32"), ("f32", "f64"), ("f64", "f32")):
                yield {"kind": "schedule", "span": sp, "rev": rev, "all": 0, "prefix": "", "depth": 2 if tier == "quick" else 4, "tdt": tdt, "xdt": xdt}
    for sp in SPANS:
        for factors in ((.9, .5, 1.5), (.9, .5, 2.), (.5, .1, 50.)):
            yield {"kind": "schedule", "span": sp, "rev": 0, "all": 0, "prefix": "", "depth": 2 if tier == "quick" else 4, "tdt": "f64", "xdt": "f64", "factors": factors}
    tols = [1e-3, 1e-6] if tier == "quick" else [1e-2, 1e-3, 1e-4, 1e-6, 1e-8]
    for solver in ("dopri5", "tsit5"):
        for fld in FIELDS:
            for sp in SPANS:
                for rev in (0, 1):
                    for opt in ("plain", "all", "interp", "interp+all", "list", "tlist", "inst"):
                        if tier == "quick" and opt not in ("plain", "interp") and fld != {"list": "cos", "tlist": "decay", "inst": "tx", "all": "kick", "interp+all": "cos"}[opt]:
                            continue
                        yield {"kind": "real", "solver": solver, "field": fld, "span": sp, "rev": rev, "opt": opt, "tols": tols}


def feasible(field, span, rev):
    "leaves out combinations whose exact solution explodes or which are too stiff to be cheap"
    L = span[-1] - span[0]
    if field == "stiff":
        return L <= (.4 if rev else 3)
    if field == "tx":
        return max(abs(s) for s in span) <= 3
    if field in ("logi", "growth"):
        return L <= (1. if field == "logi" and rev else 4)
    return L <= 4 or not rev or field in ("const", "zero", "cos")


def span_tensor(name, rev, dt):
    v = list(reversed(SPANS[name])) if rev else SPANS[name]
    return tens(v, dt)


def check_rows(out, t_span, t, sol, allev, ctx, contain=None):
    if t.dim() != 1 or sol.shape[0] != t.shape[0]:
        out.fail("%s: %s times but rows %s" % (ctx, tuple(t.shape), tuple(sol.shape)))
        return None
    want, got = t_span.tolist(), t.to(t_span.dtype).tolist()
    if not allev:
        if want != got:
            out.fail("%s: requested times %s, returned %s" % (ctx, want[:6], got[:8]))
            return None
        return list(range(len(want)))
    s = 1 if want[-1] > want[0] else -1
    if any((b - a) * s <= 0 for a, b in zip(got, got[1:])):
        out.fail("%s: returned times not strictly monotone" % ctx)
        return None
    idx = []
    for w in want:
        if got.count(w) != 1:
            out.fail("%s: requested time %r appears %d times among the returned ones" % (ctx, w, got.count(w)))
            return None
        idx.append(got.index(w))
    out.check(got[0] == want[0] and got[-1] == want[-1], "%s: ends at %r, not %r" % (ctx, got[-1], want[-1]))
    return idx


def run(case, out):
    if case["kind"] == "schedule":
        t_span = span_tensor(case["span"], case["rev"], case["tdt"])
        if not (t_span[1:] != t_span[:-1]).all():
            return
        rest = case["depth"] - len(case["prefix"])
        factors = case.get("factors", (.9, .2, 10.))
        for tail in itertools.product(LABELS, repeat=rest):
            word = case["prefix"] + "".join(tail)
            s = Scripted([LABELS[w] for w in word], default=.25 if "factors" not in case else 0., safety=factors[0], min_factor=factors[1], max_factor=factors[2])
            x0 = tens([1., 2.], case["xdt"])
            before = t_span.clone()
            t, sol = odeint(lambda t, x: torch.ones_like(x), x0, t_span, s, atol=1e-3, rtol=1e-3, return_all_eval=bool(case["all"]))
            out.step(len(s.calls))
            out.trace()
            ctx = "schedule %s" % word
            if not torch.equal(before, t_span):
                out.fail(ctx + ": t_span was modified")
            idx = check_rows(out, t_span, t, sol, case["all"], ctx)
            if idx is None:
                continue
            if case["all"]:  # one row per accepted step, and the first
                acc = sum((LABELS[word[i]] if i < len(word) else s.default) <= 1 for i in range(len(s.calls)))
                out.check(len(t) == acc + 1, lambda: "%s: %d rows of %d accepted evaluations" % (ctx, len(t), acc))
            tol = (1e-4 if "f32" in (case["tdt"], case["xdt"]) else 1e-9) * max(1., float(t_span.abs().max()) * (10 if case["tdt"] == "f32" else 1))
            # the state integrates the constant field 1, hence tells the time actually integrated to
            tt = t.to(torch.float64)
            want = x0.to(torch.float64) + (tt - tt[0])[:, None]
            out.check(close(sol.to(torch.float64), want, 1e-9, tol), lambda: ctx + ": state does not belong to the reported time: " + err(sol, want))
            out.check(torch.equal(sol[0], x0), ctx + ": first row is not the initial state")
            out.state(case["span"], case["rev"], len(s.calls), tuple(round(float(c[0]), 9) for c in s.calls[:12]))
        return
    fld = FIELDS[case["field"]]
    for tol in case["tols"]:
        for xdt in (("f64",) if case["opt"] != "plain" else ("f64", "f32")):
            if not feasible(case["field"], SPANS[case["span"]], case["rev"]) or (xdt == "f32" or case["opt"] == "list") and tol < 1e-5:
                continue
            t_span = span_tensor(case["span"], case["rev"], "f64" if xdt == "f64" else "f32")
            x0 = tens([[.5, .25], [.125, .75]], xdt)
            opt = case["opt"]
            arg = t_span
            if opt == "list":
                arg = t_span.tolist()
                t_span = tens(arg, "f32")  # python floats become single precision times
            if opt == "tlist":
                arg = list(t_span)
            solver = {"dopri5": DormandPrince45, "tsit5": Tsitouras45}[case["solver"]](x0.dtype) if opt == "inst" else case["solver"]
            if not (t_span[1:] != t_span[:-1]).all():  # times that coincide in this precision
                continue
            cf = Counting(fld.f)
            t, sol = odeint(cf, x0, arg, solver, atol=tol, rtol=tol, interpolator="4th" if "interp" in opt else None, return_all_eval="all" in opt)
            out.step(cf.n)
            out.trace()
            ctx = "%s tol %g %s" % (opt, tol, xdt)
            idx = check_rows(out, t_span, t, sol, "all" in opt, ctx)
            if idx is None:
                continue
            out.check(torch.equal(sol[0], x0) and sol.shape[1:] == x0.shape and sol.dtype == x0.dtype, ctx + ": first row is not the initial state")
            if fld.flow is not None:
                tt = t.to(torch.float64)[:, None, None]
                want = fld.flow(tt[:1], tt, x0.to(torch.float64)[None])
                L = float((tt[-1] - tt[0]).abs())
                ok = close(sol.to(torch.float64), want, 1e-6 + 200 * tol * (1 + L), 200 * tol * (1 + L) + (1e-3 + 1e-5 * float(tt.abs().max()) if xdt == "f32" or opt == "list" else 0))
                out.check(ok, lambda: ctx + ": state does not belong to the reported time: " + err(sol.to(torch.float64), want))
            out.state(case["solver"], case["field"], case["span"], case["rev"], cf.n)
