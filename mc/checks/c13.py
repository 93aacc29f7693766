"""C13: every selection of saving times, through every entry point, against the rows of the full solve."""
import itertools
import torch
from torchdyn.numerics import odeint, odeint_symplectic
from torchdyn.numerics.sdeint import sdeint
from torchdyn.core import ODEProblem, NeuralODE, SDEProblem
from torchdyn.core.defunc import SDEFunc
from torchdyn.core.neuralde import NeuralSDE
from torchdyn.numerics.solvers.ode import SOLVER_DICT
from mc.common import *

PROPERTY = "C13"
RULE = ("all non-empty selections (subsets, plus all ordered selections with repetition up to length 3) of the times of every small grid, as list of floats, list of "
        "tensors, tuple, tensor, range of dtypes, through every entry point and fixed-step method; returned times and rows compared with the full solve; all refused "
        "perturbations of grid times; adaptive methods unaffected")
ASSUMPTIONS = ["saving times are matched up to rounding (relative 1e-6), perturbations tried are 2e-5 (relative) and more"]

GRIDS = {"u5": [0., .25, .5, .75, 1.], "irr": [0., .1, .15, .8, 2.], "two": [0., 1.], "neg": [-1., -.5, .5], "thirds": [0., 1 / 3, 2 / 3, 1.], "off": [10., 10.25, 10.5, 11.], "big": [1000., 1000.5, 1001.5],
         "dec": [1., .75, .3, 0.], "pm": [1., 0., -1.], "close": [0., .01, .02, .03], "tenths": [0., .1, .2, .3, .4]}
LONG = {"l11": [i / 10 for i in range(11)], "l101": [i / 100 for i in range(101)], "l7": [i * .7 for i in range(7)]}
FORMS = ["list", "tensor", "tlist", "tuple", "t1list", "t32"]
ENTRY = ["euler", "midpoint", "rk4", "ieuler", "inst", "dict", "problem", "adjoint", "iadjoint", "neural", "neural_adj", "lambda", "args", "alf"]
SDE = ["em", "heun", "mil", "sdeproblem", "neuralsde", "plain"]


def bounds(tier):
    return {"grids": sorted(GRIDS) + sorted(LONG), "forms": FORMS, "entry_points": ENTRY + SDE, "ordered_selections_up_to": 2 if tier == "quick" else 3}


def selections(n, tier):
    for k in range(1, n + 1):
        for c in itertools.combinations(range(n), k):
            yield list(c)
    for k in range(2, (2 if tier == "quick" else 3) + 1):
        for c in itertools.product(range(n), repeat=k):
            if list(c) != sorted(set(c)):
                yield list(c)


def cases(tier):
    for e in ENTRY + SDE:
        for g in list(GRIDS) + list(LONG):
            if e in SDE and g in ("dec", "pm"):
                continue
            for form in FORMS:
                for tdt in ("f64", "f32"):
                    if tier == "quick" and e not in ("euler", "em") and (tdt == "f32" and form != "list" or form in ("t1list", "t32")):
                        continue
                    yield {"kind": "sel", "entry": e, "grid": g, "form": form, "tdt": tdt, "tier": tier}
        for g in list(GRIDS) + ["l11"]:
            if e in SDE and g in ("dec", "pm"):
                continue
            yield {"kind": "refuse", "entry": e, "grid": g}
    for m in ("dopri5", "tsit5"):
        for g in GRIDS:
            for how in ("odeint", "problem", "adjoint", "neural"):
                yield {"kind": "adaptive", "m": m, "grid": g, "how": how}


class F(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.tensor([-.6], dtype=torch.float64))

    def forward(self, t, x, args={}):
        return self.w * x + torch.as_tensor(t).to(x).reshape(-1)[:1].cos()


class Path:
    "deterministic Brownian path"
    def __call__(self, a, b):
        w = lambda s: torch.sin(3 * s) + .3 * s ** 2 / (1 + s.abs())
        a, b = torch.as_tensor(a).to(torch.float64), torch.as_tensor(b).to(torch.float64)
        return (w(b) - w(a)) * torch.tensor([[1., -.5], [.25, 2.]], dtype=torch.float64)


def solver_fn(entry):
    "callable (grid, save_at) -> (times, rows)"
    x = tens([[.5, 1.], [-.3, .7]])
    f = F()
    if entry in ("euler", "midpoint", "rk4", "ieuler"):
        return lambda g, s: odeint(f, x, g, entry, save_at=s)
    if entry == "inst":
        sol = SOLVER_DICT["rk4"](torch.float64)
        return lambda g, s: odeint(f, x, g, sol, save_at=s)
    if entry == "args":
        return lambda g, s: odeint(f, x, g, "euler", save_at=s, args={"a": 1})
    if entry == "dict":
        from mc.checks.c04 import Hash
        return lambda g, s: odeint(None or (lambda *a: None), {"a": x, "b": 2 * x[0]}, g, Hash(), save_at=s)
    if entry in ("problem", "adjoint", "iadjoint"):
        p = ODEProblem(f, "rk4", sensitivity={"problem": "autograd", "adjoint": "adjoint", "iadjoint": "interpolated_adjoint"}[entry])
        return lambda g, s: p.odeint(x, g, s)
    if entry == "lambda":
        p = ODEProblem(lambda t, x: -x + t, "midpoint")
        return lambda g, s: p(x, g, s)
    if entry in ("neural", "neural_adj"):
        p = NeuralODE(f, "euler", sensitivity="autograd" if entry == "neural" else "adjoint")
        return lambda g, s: p(x, g, s)
    if entry == "alf":
        h = lambda t, y: torch.sin(y) - t
        h.order = 1
        return lambda g, s: odeint_symplectic(h, torch.cat([x, x.flip(0)], -1), g, SOLVER_DICT["alf"](dtype=torch.float64), save_at=s)
    drift, diff = (lambda t, x: -x + t), (lambda t, x: .3 * x + .1)
    bm = Path()
    if entry == "plain":
        class S:
            noise_type, sde_type = "diagonal", "ito"
            f = staticmethod(lambda t, x: drift(t, x))
            g = staticmethod(lambda t, x: diff(t, x))
        return lambda g, s: sdeint(S(), x, g, "euler", bm, save_at=s)
    name, typ = {"em": ("euler", "ito"), "heun": ("eulerHeun", "stratonovich"), "mil": ("milstein_ito", "ito"), "sdeproblem": ("euler", "ito"), "neuralsde": ("euler", "ito")}[entry]
    sde = SDEFunc(drift, diff, noise_type="diagonal", sde_type=typ)
    if entry == "sdeproblem":
        p = SDEProblem(sde, name)
        return lambda g, s: p.sdeint(x, g, bm, s)
    if entry == "neuralsde":
        p = NeuralSDE(drift, diff, solver=name, bm=bm)
        return lambda g, s: p(x, g, s)
    return lambda g, s: sdeint(sde, x, g, name, bm, save_at=s)


def make(form, vals, g):
    t = g[vals]
    return {"list": t.tolist(), "tensor": t, "tlist": list(t), "tuple": tuple(t.tolist()), "t1list": [v.reshape(1) for v in t], "t32": t.to(torch.float32)}[form]


def rows_of(sol, idx):
    return {k: v[idx] for k, v in sol.items()} if isinstance(sol, dict) else sol[idx]


def same(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(close(a[k], b[k], 1e-12, 1e-12) for k in b)
    return close(a, b, 1e-12, 1e-12)


def run(case, out):
    g = tens({**GRIDS, **LONG}[case["grid"]], case.get("tdt", "f64"))
    if case["kind"] == "adaptive":
        x, f, m, how = tens([[.5, 1.]]), F(), case["m"], case["how"]

        def go(s):
            if how == "odeint":
                return odeint(f, x, g, m, save_at=s)
            p = NeuralODE(f, m, sensitivity="autograd") if how == "neural" else ODEProblem(f, m, sensitivity="autograd" if how == "problem" else "adjoint")
            return p(x, g, s)
        t0, s0 = go(())
        for sel in (g[:1], g[[0, -1]].tolist(), [.123456, 77.], g.flip(0)):
            t, s = go(sel)
            out.trace()
            out.step(len(g))
            out.check(torch.equal(t, t0) and close(s, s0, 1e-12, 1e-12), "an adaptive solve is affected by saving times: times %s" % t.tolist()[:5])
        out.state(m, case["grid"], how)
        return
    solve = solver_fn(case["entry"])
    t_full, full = solve(g, ())
    if not out.check(torch.equal(t_full.to(g), g), "without saving times the returned times are %s" % t_full.tolist()[:6]):
        return
    if case["kind"] == "refuse":
        vals = g.tolist()
        span = abs(vals[1] - vals[0])
        bad = [vals[0] - span, vals[-1] + span, (vals[0] + vals[1]) / 2, vals[0] - .02 * span, vals[-1] + .02 * span] + [v + d * span for v in vals for d in (.02, -.02)] + [1e9, -1e9] + [v + d * max(1., abs(v)) for v in vals for d in (3e-5, -3e-5)]
        for b in bad:
            if min(abs(b - v) for v in vals) < 2e-5 * max(1., abs(b)):
                continue
            for form in ([b], [vals[0], b], [b, vals[-1]], tens([vals[-1], b, vals[0]]), vals + [b]):
                out.trace()
                try:
                    t, s = solve(g, form)
                except Exception:
                    continue
                return out.fail("saving time %r is not a grid time but was accepted (returned times %s)" % (b, t.tolist()[:5]))
        out.state(case["entry"], case["grid"], len(bad))
        return
    n = len(g)
    sels = selections(n, case["tier"]) if n <= 5 else [[0], [n - 1], [n // 2], [1, n - 2], list(range(n)), list(range(0, n, 2)), list(range(n - 1, -1, -1)), [3, 1], list(range(n)) + [0], [0] * 3]
    for sel in sels:
        s = make(case["form"], sel, g)
        if case["form"] == "t32" and case["tdt"] == "f64" and abs(float(g.abs().max())) > 100:
            s = s.to(torch.float32)
        keep = s.clone() if torch.is_tensor(s) else list(s)
        t, rows = solve(g, s)
        out.trace()
        out.step(n - 1)
        if not out.check(t.dim() == 1 and close(t.to(torch.float64), g[sel].to(torch.float64), 1e-6, 1e-6), lambda: "saving times %s: returned times %s" % (g[sel].tolist()[:6], t.tolist()[:6])):
            return
        if not out.check(same(rows, rows_of(full, sel)), lambda: "saving times %s: rows are not those of the full solution at these times" % g[sel].tolist()[:6]):
            return
        out.check(torch.equal(s, keep) if torch.is_tensor(s) else all(float(a) == float(b) for a, b in zip(s, keep)), "saving times were modified")
        out.state(case["entry"], case["grid"], tuple(sel))
