"""C04: fixed-step solves are exactly one step per grid interval, for every grid over a small alphabet of intervals and every state layout."""
import itertools
import torch
from torchdyn.numerics import odeint
from torchdyn.core import ODEProblem, NeuralODE
from torchdyn.numerics.solvers.ode import SOLVER_DICT, Euler, str_to_solver
from mc.common import *

PROPERTY = "C04"
RULE = ("all grids up to a length with intervals from a small alphabet (plus long, huge, negative and decreasing grids), every state layout (tensor 0-d to 4-d, "
        "dictionaries, dtypes), options and entry points; the sequence of (t, dt, state, args) given to a plugged-in one-step map and every returned row compared "
        "with the left-to-right composition; built-in methods compared with chained single steps of a fresh instance")
ASSUMPTIONS = ["the one-step map itself is decided by C03/C22/C23/C24"]
INC = [.1, .25, 1.]
SPECIAL = {"long": [i * .01 for i in range(1001)], "irr": [0., .5, .75, .76, 2., 2.000001, 3.], "bigt": [1e4, 1e4 + .5, 1e4 + .75], "neg": [-5., -4.9, -3., 0., 2.],
           "geom": [2. ** -k for k in range(12, -1, -1)], "alt": [0., 1., 1.001, 2.001, 2.002, 3.002], "tail": [0., 1., 2., 3., 3.0001], "head": [0., 1e-5, 1., 2., 3.],
           "c17": [i / 16 for i in range(17)], "c33": [i / 32 for i in range(33)], "c65": [i / 64 for i in range(65)], "c100": [i / 99 for i in range(100)]}
SHAPES = {"0d": (), "1": (1,), "3": (3,), "b2": (4, 2), "b1": (1, 2), "e": (2, 1), "3d": (2, 3, 2), "img": (2, 1, 3, 3), "5d": (1, 2, 1, 2, 1)}
OPTS = {"": {}, "tol": {"atol": 1e-8, "rtol": 1e-9}, "interp": {"interpolator": "4th"}, "all": {"return_all_eval": True}, "verbose": {"verbose": True}, "semi": {"seminorm": (True, 1)},
        "stops": {"t_stops": None}, "zero": {"atol": 0., "rtol": 0.}, "big": {"atol": 1e6, "rtol": 1e6}}


def bounds(tier):
    return {"grid_intervals": 5 if tier == "quick" else 7, "interval_alphabet": INC, "special_grids": sorted(SPECIAL), "state_layouts": sorted(SHAPES) + ["dict1", "dict2", "dict3"]}


def grids(tier):
    for n in range(1, (5 if tier == "quick" else 7) + 1):
        for inc in itertools.product(INC, repeat=n):
            yield list(inc)


def cases(tier):
    for g in grids(tier):
        yield {"kind": "grid", "inc": g}
    for name in SPECIAL:
        for shape in list(SHAPES) + ["dict1", "dict2", "dict3"]:
            for rev in (0, 1):
                for dts in (("f64", "f64"), ("f32", "f32"), ("f32", "f64"), ("f64", "c128")):
                    yield {"kind": "special", "grid": name, "shape": shape, "rev": rev, "dts": dts}
    for opt in OPTS:
        for shape in list(SHAPES) + ["dict1", "dict2", "dict3"]:
            for args in (None, {}, {"a": 2., "b": "x"}):
                for rev in (0, 1):
                    yield {"kind": "opts", "opt": opt, "shape": shape, "args": args, "rev": rev}
    for solver in ("euler", "midpoint", "rk4", "rk-4", "RungeKutta4", "ieuler"):
        for fld in ("cos", "decay", "tx", "logi"):
            for grid in list(SPECIAL):
                for shape in SHAPES:
                    for rev in (0, 1):
                        for how in ("odeint", "list", "problem", "neural") if solver != "ieuler" else ("odeint",):
                            if tier == "quick" and (solver in ("rk-4", "RungeKutta4") or shape in ("e", "5d") or grid == "long") and not (fld == "cos" and how == "odeint"):
                                continue
                            if solver == "ieuler" and (grid in ("long", "c65", "c100", "c33", "bigt", "geom") or shape not in ("3", "b2") or tier == "quick" and fld != "cos"):
                                continue
                            if how == "neural" and shape == "0d":  # layers take batched states
                                continue
                            if fld == "tx" and grid in ("bigt", "neg") or fld == "logi" and (rev or grid == "neg"):
                                continue
                            yield {"kind": "real", "solver": solver, "field": fld, "grid": grid, "shape": shape, "rev": rev, "how": how}


class Hash(torch.nn.Module):
    "one-step map whose composition depends on order, number, times and lengths of the steps"
    order, stepping_class = 1, "fixed"

    def __init__(self, field=False):
        super().__init__()
        self.calls, self.field, self.tableau = [], field, None

    def sync_device_dtype(self, x, t_span):
        return x, t_span

    @staticmethod
    def one(x, t, dt):
        return .5 * x + t * .01 + 3 * dt + .1

    def step(self, f, x, t, dt, k1=None, args=None):
        self.calls.append((t.detach().clone(), dt.detach().clone(), args))
        if isinstance(x, dict):
            return None, {k: self.one(v, t, dt) + (i if i else 0) for i, (k, v) in enumerate(x.items())}, None
        return None, self.one(x, t, dt), None


def state(shape, dt):
    if shape == "dict1":
        return {"x": torch.tensor([1., 2.], dtype=DT[dt])}
    if shape == "dict2":
        return {"pos": torch.tensor([[1., 2.], [3., 4.]], dtype=DT[dt]), "vel": torch.tensor([.5], dtype=DT[dt])}
    if shape == "dict3":
        return {"z": torch.tensor([[1.], [2.]], dtype=DT[dt]), "a": torch.tensor(.5, dtype=DT[dt]), "m": torch.tensor([[[.25, -1.]]], dtype=DT[dt])}
    n = 1
    for s in SHAPES[shape]:
        n *= s
    v = torch.linspace(.1, .9, n, dtype=torch.float64) if n > 1 else torch.tensor([.3], dtype=torch.float64)
    return v.reshape(SHAPES[shape]).to(DT[dt])


def expect(x, ts):
    rows = [x]
    for a, b in zip(ts, ts[1:]):
        d = b - a
        x = {k: Hash.one(v, a, d) + (i if i else 0) for i, (k, v) in enumerate(x.items())} if isinstance(x, dict) else Hash.one(x, a, d)
        rows.append(x)
    return rows


def check(out, case, ts, tdt, xdt, shape, rev, opts, args, how=odeint):
    x0 = state(shape, xdt)
    keep = {k: v.clone() for k, v in x0.items()} if isinstance(x0, dict) else x0.clone()
    grid = tens(list(reversed(ts)) if rev else ts, tdt)
    s = Hash()
    kw = dict(opts)
    if args is not None:
        kw["args"] = dict(args)
    t, sol = odeint(lambda *a, **k: None, x0, grid, s, **kw)
    out.step(len(s.calls))
    out.trace()
    out.state(ts[:8], len(ts), shape, rev, tdt, xdt, tuple(round(float(c[1]), 9) for c in s.calls[:6]))
    if not out.check(torch.equal(t.to(grid), grid), lambda: "returned times %s for grid %s" % (t.tolist()[:8], grid.tolist()[:8])):
        return
    fwd = (-grid if rev else grid)
    tol = (1e-5 * (1 + float(fwd.abs().max()))) if "f32" in (tdt, xdt) else 1e-9
    rows = expect(keep, fwd.to(torch.float64).tolist() if xdt != "f32" or tdt == "f64" else fwd.to(torch.float64).tolist())
    if not out.check(len(s.calls) == len(ts) - 1, "%d steps for %d intervals" % (len(s.calls), len(ts) - 1)):
        return
    for i, (ct, cdt, cargs) in enumerate(s.calls):
        a, b = float(fwd[i]), float(fwd[i + 1])
        tt = 1e-11 * max(1, abs(a)) if tdt == "f64" else 3e-6 * max(1, abs(a))
        if abs(float(ct) - a) > tt or abs(float(cdt) - (b - a)) > tt:
            return out.fail("step %d is given t=%r dt=%r, the grid interval is [%r, %r]" % (i, float(ct), float(cdt), a, b))
        if args and not (isinstance(cargs, dict) and cargs == args):
            return out.fail("step %d is given arguments %r instead of %r" % (i, cargs, args))
    if isinstance(x0, dict):
        if not out.check(isinstance(sol, dict) and list(sol) == list(x0), "dictionary state lost"):
            return
        for k in x0:
            want = torch.stack([r[k] for r in rows])
            out.check(close(sol[k], want, tol, tol) and torch.equal(sol[k][0], keep[k]), lambda: "rows of %r: %s" % (k, err(sol[k], want)))
            out.check(torch.equal(x0[k], keep[k]), "initial state modified")
    else:
        want = torch.stack(rows)
        out.check(close(sol, want, tol, tol), lambda: "rows: " + err(sol, want))
        out.check(torch.equal(sol[0], keep) and torch.equal(x0, keep), "first row is not the initial state")


def run(case, out):
    k = case["kind"]
    if k == "grid":
        for t0 in (0., -1.75):
            ts = [t0]
            for d in case["inc"]:
                ts.append(ts[-1] + d)
            check(out, case, ts, "f64", "f64", "3", 0, {}, None)
            check(out, case, ts, "f64", "f64", "b2", 1, {}, None)
        check(out, case, ts, "f32", "f32", "3", 0, {}, None)
    elif k == "special":
        check(out, case, SPECIAL[case["grid"]], *case["dts"], case["shape"], case["rev"], {}, None)
    elif k == "opts":
        check(out, case, SPECIAL["irr"], "f64", "f64", case["shape"], case["rev"], OPTS[case["opt"]], case["args"])
    else:
        ts = SPECIAL[case["grid"]]
        fld = FIELDS[case["field"]]
        x0 = state(case["shape"], "f64")
        grid = tens(list(reversed(ts)) if case["rev"] else ts)
        how = case["how"]
        if how == "list":
            grid = tens(grid.tolist(), "f32")
            t, sol = odeint(fld.f, x0, [float(v) for v in grid], case["solver"])
        elif how == "odeint":
            t, sol = odeint(fld.f, x0, grid, case["solver"])
        elif how == "problem":
            m = Mod(fld.f)
            t, sol = ODEProblem(m, case["solver"], sensitivity="autograd").odeint(x0, grid)
        else:
            t, sol = NeuralODE(Mod(fld.f), solver=case["solver"], sensitivity="autograd")(x0, grid)
        s = str_to_solver(case["solver"], torch.float64)
        rows, x = [x0], x0
        sg = -1. if case["rev"] else 1.
        f = (lambda t, x: -fld.f(-t, x)) if case["rev"] else fld.f
        g = sg * grid
        for a, b in zip(g[:-1], g[1:]):
            x = s.step(f, x, a, b - a)[1].detach()
            rows.append(x)
        out.step(len(rows) - 1)
        out.trace()
        want = torch.stack(rows)
        tol = 1e-9 if how != "list" else 1e-4 * float(1 + grid.abs().max())
        if case["solver"] == "ieuler":
            tol = 1e-6
        out.check(torch.equal(t.to(grid), grid), "returned times differ from the grid")
        big = float(want.abs().max())
        if big < 1e6:
            out.check(close(sol, want, tol, tol * max(1., big)), lambda: "rows: " + err(sol, want))
        out.state(case["solver"], case["field"], case["grid"], case["shape"], case["rev"])


class Mod(torch.nn.Module):
    def __init__(self, f):
        super().__init__()
        self.f = f
        self.p = torch.nn.Parameter(torch.zeros(1))

    def forward(self, t, x, args={}):
        return self.f(t, x)
