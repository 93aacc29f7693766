"""C02: accept test, retry and step-size controller of the adaptive loops, against an executable model of the control rule."""
import itertools, math
import torch
from torchdyn.numerics import odeint, odeint_hybrid
from torchdyn.numerics.utils import EventCallback
from torchdyn.numerics.solvers.ode import DormandPrince45, Tsitouras45
from mc.common import *

PROPERTY = "C02"
CASE_LIMIT = 150
RULE = ("every sequence of error patterns (magnitudes around every branch of the controller; spatial patterns separating the RMS norm from "
        "max/mean/sum norms, old from new magnitude, leading from trailing components) of bounded length dictated to the real loop; each trial's "
        "(time, state, first stage, step) and each returned row compared with the model of the rule; plus recorded trials of the built-in pairs")
ASSUMPTIONS = ["the remainder policy after a step truncated at a requested time is not part of the property and only checked for progress"]

RATIOS = {"0": 0., "e": 1e-9, "q": .25, "s": .6, "n": .97, "1": 1., "o": 1.05, "r": 4., "R": 1e7}


def bounds(tier):
    return {"depth": 3 if tier == "quick" else 4, "ratios": sorted(RATIOS.values()), "patterns": sorted(PATTERNS),
            "controllers": CONTROLLERS, "orders": [1, 2, 4, 5]}


CONTROLLERS = [[4, .9, .2, 10.], [1, .9, .2, 10.], [5, .8, .5, 3.], [2, .95, .1, 1.5]]


def P_uniform(r):
    return lambda e, sc, lead: r * sc


def P_single(pos, r):
    def f(e, sc, lead):
        z = torch.zeros_like(sc).reshape(-1)
        z[pos] = 1.
        return r * math.sqrt(z.numel()) * z.reshape(sc.shape) * sc
    return f


def P_abs(v):
    "constant absolute error, so that atol, rtol and the two magnitudes decide"
    return lambda e, sc, lead: v * torch.ones_like(sc)


PATTERNS = {"u.8": P_uniform(.8), "u1.3": P_uniform(1.3), "u-.8": P_uniform(-.8), "u-1.3": P_uniform(-1.3), "first.8": P_single(0, .8), "last.8": P_single(-1, .8),
            "first1.3": P_single(0, 1.3), "last1.3": P_single(-1, 1.3), "lastneg2": P_single(-1, -2.), "abs1e-3": P_abs(1.3e-3), "abs5e-3": P_abs(5.2e-3), "0": P_uniform(0.)}
STATES = {"v4": [1., -3., .01, 20.], "m": [[.5, -.25, 4.], [1e-3, 8., -2.]], "v1": [.7], "v7": [0., 0., 1., 2., 3., -4., 5.], "t3": [[[1., 2.], [3., 4.]], [[.1, .2], [-.3, .4]]]}


def cases(tier):
    d = 3 if tier == "quick" else 4
    for c in CONTROLLERS:
        for a in RATIOS:
            for tdt in ("f64", "f32"):
                for fn in ("plain", "hybrid"):
                    yield {"kind": "ctrl", "ctrl": c, "first": a, "depth": d, "tdt": tdt, "fn": fn, "rev": 0}
            yield {"kind": "ctrl", "ctrl": c, "first": a, "depth": d, "tdt": "f64", "fn": "plain", "rev": 1}
            yield {"kind": "ctrl", "ctrl": c, "first": a, "depth": d, "tdt": "f64", "fn": "mid", "rev": 0}
    for st in STATES:
        for semi in ((None, 1, 2, 3)):
            for tols in ([1e-3, 1e-3], [1e-2, 0.], [1e-4, 1e-2]):
                for fn in ("plain", "hybrid"):
                    for p in PATTERNS:
                        for fld in ("const", "decay", "shrink") if tier == "quick" else ("const", "decay", "growth", "cos", "shrink"):
                            yield {"kind": "norm", "state": st, "semi": semi, "tols": tols, "fn": fn, "first": p, "field": fld, "depth": 1 if tier == "quick" else 3}
    for n in (1, 2, 4):
        for shape in ((n,), (n, 1), (1, n)):
            yield {"kind": "exact", "shape": shape}
    for solver in ("dopri5", "tsit5"):
        for fld in FIELDS:
            if fld == "zero":
                continue
            for tol in ([1e-3, 1e-3], [1e-6, 1e-6], [1e-2, 1e-5], [1e-7, 1e-3]) if tier == "thorough" else ([1e-3, 1e-3], [1e-7, 1e-3]):
                for st in ("m", "v4", "v1"):
                    for semi in (None, 1):
                        if semi and st == "v1":
                            continue
                        for fn in ("plain", "interp", "hybrid"):
                            yield {"kind": "real", "solver": solver, "field": fld, "tols": tol, "state": st, "semi": semi, "fn": fn}


class Never(EventCallback):
    def __init__(self):
        super().__init__()

    def check_event(self, t, x):
        return torch.tensor(False)

    def jump_map(self, t, x):
        raise AssertionError("jump without event")


F = {"const": FIELDS["const"].f, "decay": lambda t, x: -3. * x, "growth": lambda t, x: 2. * x, "cos": FIELDS["cos"].f, "shrink": lambda t, x: -9. * x}


def solve(fn, f, x0, t_span, s, tols, semi):
    if fn == "hybrid":
        return odeint_hybrid(f, x0, t_span, 3, s, [Never()], atol=tols[0], rtol=tols[1], seminorm=(semi is not None, semi))
    return odeint(f, x0, t_span, s, atol=tols[0], rtol=tols[1], return_all_eval=True, seminorm=(semi is not None, semi),
                  interpolator="4th" if fn == "interp" else None)


def ratio_of(e, x, x_new, tols, semi):
    if semi is not None:
        e, x, x_new = e[:semi], x[:semi], x_new[:semi]
    q = e.to(torch.float64) / (tols[0] + tols[1] * torch.maximum(x.abs(), x_new.abs()).to(torch.float64))
    return math.sqrt(float((q ** 2).mean()))


def check_trace(out, calls, f, x0, t_span, tols, semi, ctrl, ctx, eps, end_only=True):
    """replays the recorded trials against the control rule. Returns the accepted states, or None."""
    order, safety, lo, hi = ctrl
    t, x, k1 = float(t_span[0]), x0, f(t_span[:1], x0)
    req = t_span.tolist()[1:] if not end_only else [float(t_span[-1])]
    pred, acc, accT = None, [x0], [t]
    for i, (ct, cdt, cx, ck, cxn, cfn, ce, _) in enumerate(calls):
        ct, cdt = float(ct), float(cdt)
        c = "%s trial %d" % (ctx, i)
        if not req:
            return out.fail(c + ": step after the last requested time")
        if abs(ct - t) > eps * max(1, abs(t)):
            return out.fail("%s starts at t=%r, the last accepted step ended at %r" % (c, ct, t))
        if not torch.equal(cx, x):
            return out.fail("%s starts from a state other than the last accepted one: %s" % (c, err(cx, x)))
        if not close(ck, k1.to(ck), max(eps, 1e-9), max(eps, 1e-9) * (1 + float(k1.abs().max()))):
            return out.fail("%s is given a first stage other than the vector field at its start: %s" % (c, err(ck, k1)))
        if cdt <= 0:
            return out.fail("%s has step %r" % (c, cdt))
        room = req[0] - ct
        trunc = abs(cdt - room) <= eps * max(1., abs(req[0]))
        if cdt > room + eps * max(1., abs(req[0])):
            return out.fail("%s steps past a requested time" % c)
        if pred is not None and not trunc and abs(cdt - pred) > max(eps, 1e-6) * pred + 1e-15:
            return out.fail("%s uses step %.9g, the rule gives %.9g" % (c, cdt, pred))
        if pred is not None and trunc and pred < room * (1 - 1e-5) - eps * max(1., abs(req[0])) * 2:
            return out.fail("%s uses step %.9g, the rule gives %.9g" % (c, cdt, pred))
        r = ratio_of(ce, cx, cxn, tols, semi)
        accept = r <= 1 + 1e-12
        if r == 0:
            fac = hi
        else:
            fac = min(hi, max(safety * r ** (-1. / order), 1. if r < 1 else lo))
        if abs(r - 1) <= 1e-3:
            pred = None  # rounding of a ratio at the switch decides the factor's lower bound
        else:
            pred = cdt * fac
        if i and not last_accept and not cdt < last_dt:
            return out.fail("%s retries a rejected step with step %.9g, not smaller than %.9g" % (c, cdt, last_dt))
        last_accept, last_dt = accept, cdt
        if accept:
            # a step may also end a rounding error short of a requested time, which is then reached by one more tiny step
            landed = trunc and (float(calls[i + 1][0]) == req[0] if i + 1 < len(calls) else True)
            t, x, k1 = (req[0] if landed else ct + cdt), cxn, cfn
            acc.append(x)
            accT.append(t)
            if trunc:
                pred = None
            if landed:
                req.pop(0)
                pred = None
    if req:
        return out.fail(ctx + ": the solve ended before reaching %r" % req[0])
    return acc, accT


def compare(out, res, t, sol, ctx, eps):
    if res is None:
        return
    acc, accT = res
    if sol.shape[0] != len(acc) or t.shape[0] != len(acc):
        return out.fail("%s: %d rows returned, %d accepted steps" % (ctx, sol.shape[0] - 1, len(acc) - 1))
    for i, (a, ta) in enumerate(zip(acc, accT)):
        if not torch.equal(sol[i], a.reshape(sol[i].shape)):
            return out.fail("%s: row %d is not the accepted state: %s" % (ctx, i, err(sol[i], a)))
        if abs(float(t[i]) - ta) > eps * max(1, abs(ta)):
            return out.fail("%s: row %d has time %r, the accepted step ended at %r" % (ctx, i, float(t[i]), ta))


def run(case, out):
    if case["kind"] == "ctrl":
        order, safety, lo, hi = case["ctrl"]
        for tail in itertools.product(RATIOS, repeat=case["depth"] - 1):
            word = case["first"] + "".join(tail)
            s = Scripted([RATIOS[w] for w in word], default=.25 if safety > .85 or order < 4 else 0., order=order, safety=safety, min_factor=lo, max_factor=hi)
            x0 = tens([1., 2., -.5])
            t_span = tens([0., .3, .9] if case["fn"] == "mid" else [0., 1.], case["tdt"])
            f = F["cos"]
            if case["rev"]:
                g = lambda t, x: f(-t, x) * -1
                t, sol = odeint(g, x0, -t_span, s, return_all_eval=True)
                t = -t
            else:
                t, sol = solve(case["fn"], f, x0, t_span, s, [1e-3, 1e-3], None)
            eps = 1e-5 if case["tdt"] == "f32" else 1e-11
            ctx = "ratios %s" % word
            out.step(len(s.calls))
            out.trace()
            compare(out, check_trace(out, s.calls, f, x0, t_span, [1e-3, 1e-3], None, case["ctrl"], ctx, eps, case["fn"] != "mid"), t, sol, ctx, eps)
            out.state(case["ctrl"], tuple(round(float(c[1]), 10) for c in s.calls[:6]))
    elif case["kind"] == "norm":
        x0 = tens(STATES[case["state"]])
        n = x0.shape[0] if x0.dim() else 1
        semi = case["semi"]
        if semi is not None and semi > n:
            return
        for tail in itertools.product(PATTERNS, repeat=case["depth"] - 1):
            word = (case["first"],) + tail
            tols = case["tols"]

            class S(Scripted):
                def error(self, i, x, x_new):
                    sc = tols[0] + tols[1] * torch.maximum(x.abs(), x_new.abs())
                    return (PATTERNS[word[i]] if i < len(word) else P_uniform(.2))(None, sc, semi)
            s = S([])
            t_span = tens([0., 1.])
            f = F[case["field"]]
            if not (tols[1] == 0. and case["field"] == "growth"):
                t, sol = solve(case["fn"], f, x0, t_span, s, tols, semi)
                ctx = "error patterns %s" % "+".join(word)
                out.step(len(s.calls))
                out.trace()
                compare(out, check_trace(out, s.calls, f, x0, t_span, tols, semi, (4, .9, .2, 10.), ctx, 1e-11), t, sol, ctx, 1e-11)
                out.state(case["state"], semi, tols, word, tuple(round(float(c[1]), 10) for c in s.calls[:4]))
    elif case["kind"] == "exact":
        class S1(Scripted):
            def error(self, i, x, x_new):
                return torch.full_like(x, .5 if i < 3 else .1)
        s = S1([])
        x0 = torch.ones(case["shape"], dtype=torch.float64)
        t, sol = odeint(lambda t, x: torch.ones_like(x), x0, tens([0., 50.]), s, atol=.5, rtol=0., return_all_eval=True)
        out.trace()
        out.step(len(s.calls))
        out.check(all(float(b[0]) > float(a[0]) for a, b in zip(s.calls[:3], s.calls[1:4])), "a step whose scaled error is exactly one was rejected")
        out.state(case["shape"], len(s.calls))
    else:
        base = {"dopri5": DormandPrince45, "tsit5": Tsitouras45}[case["solver"]]
        calls = []

        class Rec(base):
            def step(self, f, x, t, dt, k1=None, args=None):
                r = super().step(f, x, t, dt, k1=k1, args=args)
                calls.append((t.clone(), dt.clone(), x.clone(), (k1 if k1 is not None else f(t, x)).clone(), r[1].clone(), r[0].clone(), r[2].clone(), args))
                if len(calls) > 50000:
                    raise Horizon("too many steps")
                return r
        s = Rec(torch.float64)
        x0 = tens(STATES[case["state"]]) * (.05 if case["field"] == "logi" else 1.)
        t_span = tens([0., .7])
        fn = case["fn"]
        if fn == "interp" and case["solver"] == "tsit5":
            fn = "plain"
        f = FIELDS[case["field"]].f
        t, sol = solve(fn, f, x0, t_span, s, case["tols"], case["semi"])
        out.step(len(calls))
        out.trace()
        if any(abs(ratio_of(c[6], c[2], c[4], case["tols"], case["semi"]) - 1) < 1e-9 for c in calls):
            return
        eps = 1e-10
        compare(out, check_trace(out, calls, f, x0, t_span, case["tols"], case["semi"], (5, .9, .2, 10.), "built-in", eps), t, sol, "built-in", eps)
        out.state(case["solver"], case["field"], case["tols"], case["state"], case["semi"], len(calls))
