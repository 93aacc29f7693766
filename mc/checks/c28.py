"""C28: jagged batches of fixed-step solves for every tuple of sub-grids of a lattice, against one solve per problem; dense outputs of every trajectory of a family on every grid, against the interpolant's definition."""
import importlib, itertools
import torch
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import Euler, Midpoint, RungeKutta4
from torchdyn.numerics.utils import dense_output
from mc.common import *

PROPERTY = "C28"
RULE = ("all tuples of up to three increasing sub-grids of a time lattice x methods x fields x shapes: every sub-problem against its own solve, in number of rows and in value; grids with steps from 3e-8 to hundreds, both directions, both precisions; "
        "all grids of a lattice x all polynomial trajectories from an alphabet x batch sizes: values at rows, between rows, per channel and sample")
ASSUMPTIONS = ["jagged: three-dimensional stacked states; time-varying fields only for methods evaluating them at the step times"]
L = [0., .2, .5, 1.25]
GRIDS = [list(c) for n in range(2, len(L) + 1) for c in itertools.combinations(L, n)]
METHODS = {"euler": Euler, "midpoint": Midpoint, "rk4": RungeKutta4}
COL = lambda t, x: t.reshape(-1, *(1,) * (x.dim() - 1)) if t.dim() else t
FS = {"lin": lambda t, x: -x + .5, "sin": lambda t, x: torch.sin(x), "tv": lambda t, x: COL(t, x) * torch.cos(x), "clock": lambda t, x: COL(t, x) + 0 * x}


def bounds(tier):
    return {"sub_grids": len(GRIDS), "steps": STEPS, "late_grids": len(FAR), "problems": [1, 2, 3], "dense_grids": "all sublists of a 6-point lattice", "degree": 1}


def cases(tier):
    deep = tier == "thorough"
    for m in METHODS:
        for f in FS:
            if f in ("tv", "clock") and m != "euler":
                continue
            for n in (1, 2, 3):
                for g in range(len(GRIDS)):
                    yield {"kind": "jagged", "method": m, "field": f, "n": n, "grid": g, "deep": deep}
        for n in (1, 2):
            for dt in ("f32", "f64"):
                for rev in (0, 1):
                    yield {"kind": "steps", "method": m, "n": n, "dtype": dt, "rev": rev}
    for b in (1, 3):
        for d in (1, 2):
            for neg in (0, 1):
                for scale in (1., 1e-5, 1e4):
                    if scale == 1. or (b == 3 and d == 2) or tier == "thorough":
                        yield {"kind": "dense", "batch": b, "dim": d, "neg": neg, "scale": scale}


def run(case, out):
    globals()["run_" + case["kind"]](case, out)


def run_jagged(case, out):
    jagged = getattr(importlib.import_module("torchdyn.numerics.odeint"), "_jagged_fixed_odeint")
    f = FS[case["field"]]
    rest = itertools.product(range(len(GRIDS)), repeat=case["n"] - 1)
    for shape in ((2, 3), (1, 1)) if case["deep"] else ((2, 2),):
        for r in (rest if shape != (1, 1) else [(1,) * (case["n"] - 1)]):
            gs = [GRIDS[k] for k in (case["grid"],) + r]
            ts = [torch.tensor(g, dtype=torch.float64) for g in gs]
            x = torch.cos(torch.arange(len(gs) * shape[0] * shape[1], dtype=torch.float64) * 1.3).reshape(len(gs), *shape)
            keep = x.clone()
            got = jagged(f, x, ts, METHODS[case["method"]](torch.float64))
            out.step(max(len(g) for g in gs) - 1)
            out.trace()
            out.check(torch.equal(x, keep), "states modified")
            if not out.check(len(got) == len(gs), "%d solutions for %d problems" % (len(got), len(gs))):
                return
            for k, (g, t) in enumerate(zip(got, ts)):
                want = odeint(f, x[k], t, case["method"])[1]
                if not out.check(close(g, want, 1e-10, 1e-10), lambda: "problem %d of grids %s: %s" % (k, gs, err(g, want))):
                    return
            out.state(case["method"], case["field"], tuple((case["grid"],) + r))


STEPS = [3e-8, 4e-7, 1e-3, .3]
STARTS = {"f64": [0., -.25], "f32": [0.]}
FAR = [[i * .0137, 100. + i * .31] for i in range(1, 400, 3)]


def run_steps(case, out):
    "grids with very small and very large steps, late times, one problem much shorter than the other; both directions"
    jagged = getattr(importlib.import_module("torchdyn.numerics.odeint"), "_jagged_fixed_odeint")
    f, dt = FS["lin"], DT[case["dtype"]]
    grids = []
    for a in STARTS[case["dtype"]]:
        for n in (1, 2, 3):
            for st in itertools.product(STEPS, repeat=n):
                g = [a]
                for h in st:
                    g.append(g[-1] + h)
                grids.append(g)
    far = lambda g: g[-1] - g[0] > 50
    grids += FAR
    sgn = -1. if case["rev"] else 1.
    for k, g in enumerate(grids):
        gs = [g] if case["n"] == 1 else [g, grids[(k * 7 + 3) % len(grids)]]
        ts = [torch.tensor([sgn * v for v in h], dtype=dt) for h in gs]
        if any((t.diff() == 0).any() for t in ts):
            continue
        # large steps: a slow field, so that values stay of order one
        c = 1e-3 if any(far(h) for h in gs) else 1.
        fk = lambda t, x: c * f(t, x)
        x = torch.cos(torch.arange(len(gs) * 2, dtype=dt) * 1.3).reshape(len(gs), 2, 1)
        got = jagged(fk, x, ts, METHODS[case["method"]](dt))
        out.step(max(len(h) for h in gs) - 1)
        out.trace()
        out.check(len(got) == len(gs), "%d solutions for %d problems" % (len(got), len(gs)))
        for y, t, x0 in zip(got, ts, x):
            rows = [x0]
            for a, b in zip(t[:-1], t[1:]):
                rows.append(rk_step(*{"euler": EULER, "midpoint": MIDPOINT, "rk4": RK4}[case["method"]], fk, a, rows[-1], b - a)[0])
            want = torch.stack(rows)
            tol = 1e-13 if dt == torch.float64 else 1e-5
            if not out.check(y.shape == want.shape and close(y, want, tol, tol), lambda: "grids %s: %s" % ([q.tolist() for q in ts], err(y, want) if y.shape == want.shape else "%d rows for %d times" % (len(y), len(want)))):
                return
        # steps that vanish in the values still move the state
        out.state(case["method"], case["dtype"], case["rev"], k)


def run_dense(case, out):
    pts = [0., .1, .3, .35, .8, 2.] if not case["neg"] else [-2., -1.1, -.3, 0., .4, .5]
    B, D = case["batch"], case["dim"]
    for mask in range(2 ** len(pts)):
        ts = [p for i, p in enumerate(pts) if mask >> i & 1]
        if len(ts) < 2:
            continue
        ts = [p * case["scale"] for p in ts]
        t = torch.tensor(ts, dtype=torch.float64)
        for coef in itertools.product((-1., 0., 2.), repeat=2):
            for deg in (1, 3):
                k = torch.arange(B * D, dtype=torch.float64).reshape(B, D)
                fn = lambda s: coef[0] + k * .5 + (coef[1] + k) * (s / case["scale"]) + (0 if deg == 1 else torch.sin(3 * (s / case["scale"]) + k))
                sol = torch.stack([fn(s) for s in t])
                keep = sol.clone()
                te = torch.cat([t, torch.linspace(ts[0], ts[-1], 9, dtype=torch.float64)])
                y, spline = dense_output(sol, t, te, return_spline=True)
                z = dense_output(sol, t, te)
                out.step()
                out.trace()
                out.check(torch.equal(sol, keep) and torch.equal(y, z), "trajectory modified, or the spline changes the output")
                if not out.check(y.shape == (len(te), B, D) and close(y[:len(ts)], sol, 1e-9, 1e-9), lambda: "rows at %s: %s" % (ts, err(y[:len(ts)], sol))):
                    return
                out.check(close(spline.evaluate(te[-3]), y[-3], 1e-12, 1e-12), "returned spline")
                if deg == 1:
                    want = torch.stack([fn(s) for s in te])
                    if not out.check(close(y, want, 1e-9, 1e-9), lambda: "linear trajectory on %s: %s" % (ts, err(y, want))):
                        return
                if B > 1:
                    one = dense_output(sol[:, 1:2], t, te)
                    out.check(close(y[:, 1:2], one, 1e-10, 1e-10), "samples are not independent")
            out.state(B, D, mask, coef)
