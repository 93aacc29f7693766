"""Vector fields with parameters, an accurate differentiable reference solve and the comparison used by the gradient checks."""
import torch
import torch.nn as nn
import torch.nn.functional as F
from mc.common import *


def P(v, frozen=False):
    return nn.Parameter(torch.tensor(v, dtype=torch.float64), requires_grad=not frozen)


W2 = [[-.4, .7], [-.6, -.2]]


class Lin(nn.Module):
    def __init__(self):
        super().__init__()
        self.W = P(W2)

    def forward(self, t, x):
        return x @ self.W


class Tv(nn.Module):
    "time-varying, parameters of different shapes"
    def __init__(self):
        super().__init__()
        self.b, self.W = P([.3, -.5]), P(W2)

    def forward(self, t, x):
        return torch.cos(2 * t) * (x @ self.W) + t * self.b


class Tanh(nn.Module):
    def __init__(self):
        super().__init__()
        self.l1, self.l2 = nn.Linear(2, 3).double(), nn.Linear(3, 2).double()
        for i, p in enumerate(self.parameters()):
            p.data = torch.cos(torch.arange(p.numel(), dtype=torch.float64) * 1.3 + i).reshape(p.shape) * .7

    def forward(self, t, x):
        return self.l2(torch.tanh(self.l1(x)))


class Unused(Tanh):
    "an unused parameter registered before and one after the used ones"
    def __init__(self):
        nn.Module.__init__(self)
        self.dead = P([[1., 2.]])
        super().__init__() if False else None
        self.l1, self.l2 = nn.Linear(2, 3).double(), nn.Linear(3, 2).double()
        self.dead2 = P([.5, .5, .5])
        for i, p in enumerate([*self.l1.parameters(), *self.l2.parameters()]):
            p.data = torch.cos(torch.arange(p.numel(), dtype=torch.float64) * 1.1 + i).reshape(p.shape) * .7


class Frozen(Tanh):
    "frozen first and third parameters"
    def __init__(self):
        super().__init__()
        self.l1.weight.requires_grad_(False)
        self.l2.weight.requires_grad_(False)


class AllFrozenBias(Tv):
    def __init__(self):
        super().__init__()
        self.W.requires_grad_(False)


class Scalar(nn.Module):
    "scalar (0-dimensional) parameter and nonlinearity in the state"
    def __init__(self):
        super().__init__()
        self.a, self.c = P(.8), P([1.2])

    def forward(self, t, x):
        return self.a * torch.sin(self.c * x) - .1 * x ** 2


class Shared(nn.Module):
    "one layer used twice"
    def __init__(self):
        super().__init__()
        self.l = nn.Linear(2, 2).double()
        self.m = self.l
        for i, p in enumerate(self.parameters()):
            p.data = torch.sin(torch.arange(p.numel(), dtype=torch.float64) * 2. + 1 + i).reshape(p.shape) * .6

    def forward(self, t, x):
        return self.m(torch.tanh(self.l(x))) - .3 * x


class TimeParam(nn.Module):
    "parameters only in the explicit time dependence: no gradient through the state"
    def __init__(self):
        super().__init__()
        self.w = P([.9])

    def forward(self, t, x):
        return torch.sin(self.w * t) + 0 * x


class NoTimeNoPar(nn.Module):
    def forward(self, t, x):
        return -.7 * x + .2 * torch.sin(x)


class ParamOnly(nn.Module):
    "does not depend on the state at all"
    def __init__(self):
        super().__init__()
        self.w = P([.9, -.4])

    def forward(self, t, x):
        return (self.w ** 2 * t).expand_as(x)


class Mix(nn.Module):
    "couples samples of the batch"
    def __init__(self):
        super().__init__()
        self.W = P(W2)

    def forward(self, t, x):
        return torch.tanh(x @ self.W) - .3 * x.mean(0, keepdim=True)


class Twins(nn.Module):
    "two parameters of one shape and one value, doing different things"
    def __init__(self):
        super().__init__()
        self.a, self.b = nn.Parameter(tens([.3, -.5])), nn.Parameter(tens([.3, -.5]))

    def forward(self, t, x):
        return self.a * x.roll(1, -1) - torch.sin(x) * (1 + self.b)


class XOnly(nn.Module):
    def __init__(self):
        super().__init__()
        self.W = P(W2)

    def forward(self, x):
        return torch.sin(x @ self.W)


VF = {"lin": Lin, "tv": Tv, "tanh": Tanh, "unused": Unused, "frozen": Frozen, "frozenW": AllFrozenBias, "scalar": Scalar, "twins": Twins, "shared": Shared,
      "timepar": TimeParam, "nopar": NoTimeNoPar, "paronly": ParamOnly, "mix": Mix, "xonly": XOnly}

LOSSES = {"none": None, "sq": lambda t, x: (x ** 2).sum(-1), "tx": lambda t, x: torch.cos(t) * torch.sin(x).sum(-1), "one": lambda t, x: x[..., 0]}

X0 = {"m": [[.5, -.4], [.3, .9], [-.7, .2]], "b1": [[.5, -.4]], "v": [.5, -.4], "t3": [[[.5, -.4], [.1, .2]], [[.3, .9], [-.6, .4]]], "t4": [[[[.5, -.4]], [[.3, .9]]]]}


def call(f, t, x):
    return f(x) if isinstance(f, XOnly) else f(t, x)


def ref_solve(f, x, ts, g=None, n=40):
    "classical RK4 with n substeps per interval, the integral of g as last output"
    rows, acc, accs = [x], torch.zeros((), dtype=x.dtype), []
    G = (lambda t, y: g(t, y).sum()) if g is not None else (lambda t, y: 0.)
    accs.append(acc)
    for a, b in zip(ts[:-1], ts[1:]):
        h = (b - a) / n
        for i in range(n):
            t = a + i * h
            k1, q1 = call(f, t, x), G(t, x)
            x2 = x + h / 2 * k1
            k2, q2 = call(f, t + h / 2, x2), G(t + h / 2, x2)
            x3 = x + h / 2 * k2
            k3, q3 = call(f, t + h / 2, x3), G(t + h / 2, x3)
            x4 = x + h * k3
            k4, q4 = call(f, t + h, x4), G(t + h, x4)
            x = x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
            acc = acc + h / 6 * (q1 + 2 * q2 + 2 * q3 + q4)
        rows.append(x)
        accs.append(acc)
    return torch.stack(rows), accs


def weights(shape, i):
    n = 1
    for s in shape:
        n *= s
    return torch.cos(torch.arange(n, dtype=torch.float64) * 1.7 + 2.3 * i).reshape(shape) * (1 + .5 * i)


def ref_grads(f, x0, ts, g=None, n=20, only=None):
    """per-row gradients of <weights_i, row_i> and of the integral loss w.r.t. (x0, trainable parameters)"""
    x = x0.detach().clone().requires_grad_(True)
    ps = [p for p in f.parameters() if p.requires_grad]
    rows, accs = ref_solve(f, x, ts, g, n)
    out = []
    for i, r in enumerate(rows):
        if only is not None and i not in only:
            out.append(None)
            continue
        l = (weights(r.shape, i) * r).sum()
        gr = torch.autograd.grad(l, [x] + ps, retain_graph=True, allow_unused=True) if l.requires_grad else [None] * (1 + len(ps))
        out.append([torch.zeros_like(p) if v is None else v for p, v in zip([x] + ps, gr)])
    integral = None
    if g is not None:
        gr = torch.autograd.grad(accs[-1], [x] + ps, retain_graph=True, allow_unused=True)
        integral = [torch.zeros_like(p) if v is None else v for p, v in zip([x] + ps, gr)]
    return rows.detach(), out, integral


def total(per_row, subset, integral=None, coef=None):
    tot = None
    for i in subset:
        c = 1. if coef is None else coef[i]
        tot = [c * v for v in per_row[i]] if tot is None else [a + c * v for a, v in zip(tot, per_row[i])]
    if integral is not None:
        tot = list(integral) if tot is None else [a + b for a, b in zip(tot, integral)]
    return tot


# ---- forward and adjoint solvers and tolerances of their own: for linear systems the adjoint state does not depend on the forward solution ----
TOL_SETS = {
    # forward solver, forward (atol, rtol), adjoint solver, adjoint (atol, rtol), scale of the loss, relative agreement to be reached
    "tight": ("dopri5", (1e-1, 1e-1), None, (1e-10, 1e-10), 1., 1e-6),
    "other": ("tsit5", (1e-1, 1e-1), "dopri5", (1e-10, 1e-10), 1., 1e-6),
    "coarse_forward": ("euler", (1e-3, 1e-3), "dopri5", (1e-10, 1e-10), 1., 1e-6),
    "fine_grid_forward": ("rk4", (1e-3, 1e-3), "tsit5", (1e-10, 1e-10), 1., 1e-6),
    "absolute": ("dopri5", (1e-1, 1e-1), "dopri5", (1e-2, 1e-13), 1e6, 1e-6),
    "relative": ("dopri5", (1e-1, 1e-1), "tsit5", (1e-14, 1e-6), 1e-6, 1e-4),
}


class LinField(nn.Module):
    def __init__(self):
        super().__init__()
        self.A = nn.Parameter(tens([[0., 3.], [-2., -.5]]))

    def forward(self, t, x):
        return x @ self.A.T


def tol_cases():
    for k in TOL_SETS:
        for e in ("problem", "neural", "shooting"):
            for rev in (0, 1) if e != "shooting" else (0,):
                yield {"kind": "tols", "set": k, "entry": e, "rev": rev}


def run_tols_of(sens, case, out):
    from torchdyn.core import ODEProblem, NeuralODE, MultipleShootingLayer
    s, (fa, fr), sa, (aa, ar), scale, rel = TOL_SETS[case["set"]]
    f = LinField()
    ts = torch.linspace(0, 2, 9 if s in ("euler", "rk4") else 4, dtype=torch.float64)
    ts = ts.flip(0) if case["rev"] else ts
    if case["entry"] == "shooting":
        ts = torch.linspace(0, 2, 6, dtype=torch.float64)
        m = MultipleShootingLayer(f, "zero", maxiter=5, fine_steps=4, solver_adjoint=sa, atol_adjoint=aa, rtol_adjoint=ar, sensitivity=sens)
    else:
        m = (NeuralODE if case["entry"] == "neural" else ODEProblem)(f, solver=s, atol=fa, rtol=fr, solver_adjoint=sa, atol_adjoint=aa, rtol_adjoint=ar, sensitivity=sens)
    w = [scale * tens([[.7, -.4], [1.1, .2]]), scale * tens([[-.3, .5], [.2, .9]])]
    for rows in ([ts[-1]], [ts[1]], [ts[0], ts[2]]):
        x = tens([[1., -.5], [.3, .8]]).requires_grad_(True)
        t, sol = m(x, ts)
        idx = [int((t == v).nonzero()[0]) for v in rows]
        loss = sum((w[k] * sol[j]).sum() for k, j in enumerate(idx))
        got = torch.autograd.grad(loss, x)[0]
        want = sum(w[k] @ torch.matrix_exp(f.A.detach() * (v - ts[0])) for k, v in enumerate(rows))
        out.step()
        out.check(bool((got - want).norm() <= rel * want.norm()), lambda: "%s, loss at times %s: gradient %s, the adjoint's tolerances ask for %s" % (case["set"], [float(v) for v in rows], got.tolist(), want.tolist()))
        out.trace()
    out.state(case["set"], case["entry"], case["rev"])


def scaled_cases(deep):
    for fld in VF:
        for s in ("rk4", "euler", "midpoint"):
            for e in ("problem", "neural"):
                for rev in (0, 1):
                    if deep or (s != "rk4") + (e != "problem") + rev <= 1:
                        yield {"kind": "scaled", "field": fld, "solver": s, "entry": e, "rev": rev}


def run_scaled_of(sens, case, out):
    "backward passes of fixed-step solves are linear in the weights of the loss, whatever their size"
    from torchdyn.core import ODEProblem, NeuralODE
    f = VF[case["field"]]()
    m = (NeuralODE if case["entry"] == "neural" else ODEProblem)(f, solver=case["solver"], solver_adjoint=case["solver"], sensitivity=sens)
    ts = torch.linspace(.1, .9, 6, dtype=torch.float64)
    ts = ts.flip(0) if case["rev"] else ts
    ps = [p for p in f.parameters() if p.requires_grad]
    x0 = tens(X0["m"])

    def grads(coef):
        x = x0.clone().requires_grad_(True)
        sol = m(x, ts)[1]
        g = torch.autograd.grad(sum((c * weights(sol[i].shape, i) * sol[i]).sum() for i, c in coef.items()), [x] + ps, allow_unused=True)
        out.step()
        return [torch.zeros_like(p) if v is None else v for v, p in zip(g, [x] + ps)]
    one = {i: grads({i: 1.}) for i in (0, 2, 5)}
    for rows in ((0,), (2,), (5,), (0, 2), (2, 5), (0, 2, 5)):
        for sc in (1e-12, 1e-9, 1e-5, -1., 1e5, 1e9):
            coef = {i: sc * (1 + k) for k, i in enumerate(rows)}
            for k, g in enumerate(grads(coef)):
                want = sum(c * one[i][k] for i, c in coef.items())
                big = sum(abs(c) * one[i][k].abs().max() for i, c in coef.items())
                out.trace()
                if not out.check(bool(((g - want).abs() <= 1e-6 * big + 1e-300).all()), lambda: "loss over rows %s scaled by %g: gradient %d is %s, by linearity %s" % (rows, sc, k, g.tolist(), want.tolist())):
                    return
    out.state(case["field"], case["solver"], case["entry"], case["rev"])
