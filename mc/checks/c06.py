"""C06: every decreasing-time solve against the explicitly mirrored increasing-time solve, over all methods, spans, options and entry points."""
import itertools
import torch
from torchdyn.numerics import odeint, odeint_symplectic
from torchdyn.core import ODEProblem, NeuralODE
from torchdyn.numerics.solvers.ode import SOLVER_DICT
from torchdyn.numerics.solvers.hyper import HyperEuler, HyperRungeKutta4
from mc.common import *

PROPERTY = "C06"
CASE_LIMIT = 150
RULE = ("all combinations of method, decreasing span (all grids over a small alphabet plus special ones), field, layout, dtype, option and entry point: rows, times and "
        "the evaluation times/states recorded by the vector field compared with the mirrored system solved forward; every scripted accept/reject schedule of "
        "bounded length mirrored too; round trips")
ASSUMPTIONS = ["the forward solve is decided by the other properties", "loose tolerance for evaluation order: the set of evaluations is compared in order"]

SPANS = {"10": [1., 0.], "pm": [1., -1.], "off": [-2., -2.25, -3.], "grid": [1., .9, .5, .45, 0.], "uni": [.5 - .05 * i for i in range(11)], "far": [100., 99.5], "tiny": [.01, 0.],
         "fine": [1 - i / 64 for i in range(65)], "zero": [0., -.5, -.75], "pair": [.3, .3 - 1e-6, 0.], "two": [2., 1.]}
FIXED = ["euler", "midpoint", "rk4", "ieuler", "hyper"]
ADAPT = ["dopri5", "tsit5"]
SHAPE = {"m": [[.5, .25], [.125, .75]], "v": [.4, .3, .2], "i": [[[[.5, .1], [.2, .3]]]]}


def bounds(tier):
    return {"spans": sorted(SPANS), "small_grids": 4 if tier == "quick" else 5, "schedule_depth": 4 if tier == "quick" else 6, "methods": FIXED + ADAPT + ["alf", "scripted"]}


def cases(tier):
    for m in FIXED + ADAPT:
        for fld in ("cos", "decay", "tx", "kick"):
            for sp in SPANS:
                if fld == "tx" and sp == "far" or m == "ieuler" and sp in ("fine", "uni", "far"):
                    continue
                for shape in SHAPE:
                    for xdt in ("f64", "f32"):
                        opts = ("plain", "list", "args", "inst") + (("all", "interp", "semi", "tol") if m in ADAPT else ("save", "savelist"))
                        for opt in opts:
                            if opt not in ("plain", "save") and (shape != "m" or xdt == "f32") and tier == "quick":
                                continue
                            yield {"kind": "mirror", "m": m, "field": fld, "span": sp, "shape": shape, "xdt": xdt, "opt": opt}
    for m in ("euler", "rk4", "dopri5", "tsit5"):
        for fld in ("cos", "decay", "tx"):
            for sp in SPANS:
                if fld == "tx" and sp == "far":
                    continue
                for how in ("problem", "neural", "traj", "adjoint", "iadjoint", "plainlambda"):
                    yield {"kind": "class", "m": m, "field": fld, "span": sp, "how": how}
    for n in range(1, (4 if tier == "quick" else 5) + 1):
        for inc in itertools.product([.1, .25, 1.], repeat=n):
            yield {"kind": "grid", "inc": list(inc)}
    for sp in SPANS:
        for first in ("0", "q", "r", "R"):
            for allev in (0, 1):
                yield {"kind": "script", "span": sp, "first": first, "all": allev, "depth": 4 if tier == "quick" else (5 if sp == "fine" else 6)}
        for opt in ("plain", "save", "inst", "list"):
            yield {"kind": "alf", "span": sp, "opt": opt}
    for m in FIXED + ADAPT:
        for al in ("self", "view", "buffer", "part"):
            for up in (0, 1):
                yield {"kind": "alias", "m": m, "alias": al, "up": up}
    for m in FIXED + ADAPT:
        for fld in ("cos", "decay", "tx"):
            for sp in ("10", "pm", "two", "zero"):
                yield {"kind": "round", "m": m, "field": fld, "span": sp}


class Net(torch.nn.Module):
    def forward(self, t, x):
        return .3 * x + torch.as_tensor(t).to(x.dtype).reshape(-1)[:1]


def build(m, dt):
    return HyperRungeKutta4(Net(), dt) if m == "hyper" else m


class Recorder:
    def __init__(self, f, sign=1.):
        self.f, self.ev, self.args, self.sign = f, [], [], sign

    def __call__(self, t, x, args=None):
        self.ev.append((float(t), x.detach().clone()))
        self.args.append(args)
        return self.f(t, x)


def cmp_runs(out, ctx, grid, r1, r2, rec1, rec2, eps, exact_times=True):
    (t1, s1), (t2, s2) = r1, r2
    out.step(len(rec1.ev))
    out.trace()
    if not out.check(t1.shape == t2.shape and torch.equal(t1, -t2), lambda: "%s: times %s, mirrored solve has %s" % (ctx, t1.tolist()[:6], (-t2).tolist()[:6])):
        return
    if grid is not None:
        out.check(torch.equal(t1.to(grid), grid), lambda: "%s: returned times %s are not the requested ones" % (ctx, t1.tolist()[:6]))
    sc = max(1., float(s2.detach().abs().max()))
    out.check(close(s1, s2, eps, eps * sc), lambda: "%s: rows differ from the mirrored solve: %s" % (ctx, err(s1, s2)))
    e1, e2 = rec1.ev, rec2.ev
    if not out.check(len(e1) == len(e2), "%s: %d evaluations, mirrored solve makes %d" % (ctx, len(e1), len(e2))):
        return
    for (ta, xa), (tb, xb) in zip(e1, e2):
        if not (abs(ta + tb) <= eps * max(1, abs(tb)) and close(xa, xb, eps, eps * sc)):
            return out.fail("%s: evaluated at t=%r where the mirrored solve evaluates at %r" % (ctx, ta, -tb))


def run(case, out):
    k = case["kind"]
    eps0 = 1e-10
    if k == "mirror":
        dt = DT[case["xdt"]]
        eps = eps0 if dt == torch.float64 else 1e-4
        grid = tens(SPANS[case["span"]], "f64" if dt == torch.float64 else "f32")
        x0 = torch.tensor(SHAPE[case["shape"]], dtype=dt)
        fld, opt, m = FIELDS[case["field"]], case["opt"], case["m"]
        r1 = Recorder(fld.f)
        r2 = Recorder(lambda t, x: -fld.f(-t, x))
        kw1, kw2, g = {}, {}, grid
        if opt == "all":
            kw1 = kw2 = {"return_all_eval": True}
        if opt == "interp":
            kw1 = kw2 = {"interpolator": "4th"}
        if opt == "semi":
            kw1 = kw2 = {"seminorm": (True, 1)}
        if opt == "tol":
            kw1 = kw2 = {"atol": 1e-7, "rtol": 1e-5}
        if opt == "args":
            kw1 = kw2 = {"args": {"a": 1}}
        if opt in ("save", "savelist"):
            sel = [0, len(grid) - 1] if len(grid) < 4 else [1, len(grid) - 2]
            sv = grid[sel]
            kw1, kw2 = {"save_at": sv if opt == "save" else sv.tolist()}, {"save_at": -sv if opt == "save" else (-sv).tolist()}
        arg1, arg2 = (list(grid), list(-grid)) if opt == "list" else (grid, -grid)
        s = lambda: SOLVER_DICT[m](dt) if opt == "inst" and m != "hyper" else build(m, dt)
        keep, keepx = grid.clone(), x0.clone()
        a = odeint(r1, x0, arg1, s(), **kw1)
        out.check(torch.equal(grid, keep) and torch.equal(x0, keepx), "inputs modified")
        if m == "hyper":
            # the correction belongs to the step in both directions: mirrored system, same network seen by the step
            b = odeint(r2, x0, arg2, s(), **kw2)
        else:
            b = odeint(r2, x0, arg2, s(), **kw2)
        cmp_runs(out, opt, None if opt in ("all", "save", "savelist") else grid, a, b, r1, r2, eps)
        if opt in ("save", "savelist"):
            out.check(torch.equal(a[0].to(sv), sv), lambda: "saving times %s returned as %s" % (sv.tolist(), a[0].tolist()))
        if m not in ADAPT:
            lo, hi = min(grid.tolist()), max(grid.tolist())
            tolt = 1e-9 if dt == torch.float64 else 1e-5 * max(1, abs(hi))
            bad = [t for t, _ in r1.ev if t < lo - tolt or t > hi + tolt]
            out.check(not bad, lambda: "vector field evaluated at t=%r outside [%r, %r]" % (bad[0], lo, hi))
        out.state(case["m"], case["field"], case["span"], case["shape"], opt, len(r1.ev))
    elif k == "class":
        grid = tens(SPANS[case["span"]])
        x0 = tens(SHAPE["m"])
        fld, how, m = FIELDS[case["field"]], case["how"], case["m"]

        class M(torch.nn.Module):
            def __init__(self, f):
                super().__init__()
                self.rec = Recorder(f)
                self.p = torch.nn.Parameter(torch.zeros(1, dtype=torch.float64))

            def forward(self, t, x, args={}):
                return self.rec(t, x)
        A, B = M(fld.f), M(lambda t, x: -fld.f(-t, x))

        def go(v, g):
            if how in ("problem", "adjoint", "iadjoint"):
                return ODEProblem(v, m, sensitivity={"problem": "autograd", "adjoint": "adjoint", "iadjoint": "interpolated_adjoint"}[how])(x0, g)
            if how == "plainlambda":
                return ODEProblem(lambda t, x: v.rec(t, x), m)(x0, g)
            ode = NeuralODE(v, m, sensitivity="autograd")
            return ode(x0, g) if how == "neural" else (g, ode.trajectory(x0, g))
        a, b = go(A, grid), go(B, -grid)
        cmp_runs(out, how, None if how == "iadjoint" else grid, a, b, A.rec, B.rec, eps0)
        out.state(case["m"], case["field"], case["span"], how, len(A.rec.ev))
    elif k == "alias":
        # fields handing out the state they are given, a view of it, or a tensor of their own: solved as if they handed out copies
        m, x0 = case["m"], tens(SHAPE["m"])
        buf, par = tens([[.4, -.3], [.2, .6]]), torch.nn.Parameter(tens([[.4, -.3], [.2, .6]]))
        fs = {"self": lambda t, x: x, "view": lambda t, x: x.view(x.shape), "buffer": lambda t, x: buf, "part": lambda t, x: x.flip(0) if float(t) < .4 else x[:]}
        f = fs[case["alias"]]
        for sp in SPANS:
            if m == "ieuler" and sp in ("fine", "uni", "far"):
                continue
            grid = tens(SPANS[sp])
            grid = -grid if case["up"] else grid
            for how in ("odeint", "inst", "problem", "all"):
                if how == "all" and m not in ADAPT:
                    continue
                keep, kb = x0.clone(), buf.clone()
                s = lambda: SOLVER_DICT[m](torch.float64) if how == "inst" and m != "hyper" else build(m, torch.float64)
                go = lambda v: (ODEProblem(v, s())(x0, grid) if how == "problem" else odeint(v, x0, grid, s(), **({"return_all_eval": True} if how == "all" else {})))
                r1, r2 = Recorder(f), Recorder(lambda t, x: f(t, x.clone()).clone())
                (t1, s1), (t2, s2) = go(lambda t, x: r1(t, x)), go(lambda t, x: r2(t, x))
                out.trace()
                out.step(len(r1.ev))
                out.check(torch.equal(x0, keep) and torch.equal(buf, kb), "%s on %s: initial state or the field's own tensor modified" % (how, sp))
                if not out.check(torch.equal(t1, t2) and close(s1, s2, 1e-12, 1e-12) and len(r1.ev) == len(r2.ev) and all(a[0] == b[0] and close(a[1], b[1], 1e-12, 1e-12) for a, b in zip(r1.ev, r2.ev)), lambda: "%s on %s: a field returning its argument is solved differently from one returning a copy: %s" % (how, sp, err(s1, s2) if s1.shape == s2.shape else "rows")):
                    return
                out.state(m, case["alias"], sp, how, len(r1.ev))
    elif k == "grid":
        ts = [.7]
        for d in case["inc"]:
            ts.append(ts[-1] - d)
        grid, x0 = tens(ts), tens(SHAPE["v"])
        for m in ("euler", "rk4", "midpoint", "dopri5", "tsit5"):
            r1, r2 = Recorder(FIELDS["tx"].f), Recorder(lambda t, x: -FIELDS["tx"].f(-t, x))
            cmp_runs(out, m, grid, odeint(r1, x0, grid, m), odeint(r2, x0, -grid, m), r1, r2, eps0)
            out.state(m, case["inc"], len(r1.ev))
    elif k == "script":
        R = {"0": 0., "q": .25, "r": 4., "R": 100.}
        grid, x0 = tens(SPANS[case["span"]]), tens(SHAPE["v"])
        f = FIELDS["cos"].f
        for tail in itertools.product(R, repeat=case["depth"] - 1):
            w = [R[c] for c in (case["first"],) + tail]
            r1, r2 = Recorder(f), Recorder(lambda t, x: -f(-t, x))
            a = odeint(r1, x0, grid, Scripted(w), return_all_eval=bool(case["all"]))
            b = odeint(r2, x0, -grid, Scripted(w), return_all_eval=bool(case["all"]))
            cmp_runs(out, "schedule", None if case["all"] else grid, a, b, r1, r2, eps0)
            out.state(case["span"], tail, len(r1.ev))
    elif k == "alf":
        grid = tens(SPANS[case["span"]])
        x0 = tens([[.5, .25, .1, -.3], [.2, -.4, .6, .9]])
        f = lambda t, x: torch.sin(x) + torch.as_tensor(t).to(x).reshape(-1)[:1]
        r1, r2 = Recorder(f), Recorder(lambda t, x: -f(-t, x))
        r1.order = r2.order = 1
        kw1 = kw2 = {}
        if case["opt"] == "save":
            kw1, kw2 = {"save_at": grid[:2]}, {"save_at": -grid[:2]}
        s = lambda: SOLVER_DICT["alf"](dtype=torch.float64)
        g1, g2 = (list(grid), list(-grid)) if case["opt"] == "list" else (grid, -grid)
        flip = tens([1., 1., -1., -1.])    # the second half of the state is a velocity: it is mirrored too
        t2, s2 = odeint_symplectic(r2, x0 * flip, g2, s(), **kw2)
        cmp_runs(out, "alf", None if case["opt"] == "save" else grid, odeint_symplectic(r1, x0, g1, s(), **kw1), (t2, s2 * flip), r1, r2, eps0)
        out.state("alf", case["span"], case["opt"])
    else:
        m, fld, (b, a) = case["m"], FIELDS[case["field"]], (SPANS[case["span"]][0], SPANS[case["span"]][-1])
        x0 = tens(SHAPE["m"])
        n = 41
        kw = dict(atol=1e-9, rtol=1e-9) if m in ADAPT else {}
        for s, e in ((a, b), (b, a)):
            g = torch.linspace(s, e, 2 if m in ADAPT else n, dtype=torch.float64)
            _, fw = odeint(fld.f, x0, g, build(m, torch.float64) if m != "hyper" else "rk4", **kw)
            _, bw = odeint(fld.f, fw[-1].detach(), g.flip(0), build(m, torch.float64) if m != "hyper" else "rk4", **kw)
            h = abs(e - s) / (n - 1)
            tol = {"euler": 8 * h, "ieuler": 12 * h, "midpoint": 10 * h ** 2, "rk4": 50 * h ** 4, "hyper": 50 * h ** 4}.get(m, 1e-5) * max(1., float(fw.detach().abs().max()))
            want = fld.flow(tens(s), tens(e), x0)
            out.check(close(fw[-1], want, tol, tol), lambda: "solve from %g to %g is off: %s" % (s, e, err(fw[-1], want)))
            out.check(close(bw[-1], x0, tol, tol), lambda: "forward and back does not recover the initial state: " + err(bw[-1], x0))
            out.trace(2)
            out.step(2 * n)
            out.state(m, case["field"], case["span"], s)
