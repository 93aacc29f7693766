"""C23: implicit Euler steps and solves for every field of a family (linear basis systems, stiff, time-varying, nonlinear), grid, state shape and start, against the implicit equation and its exact linear solution."""
import itertools
import torch
import torch.nn as nn
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import ImplicitEuler
from torchdyn.core import NeuralODE, ODEProblem
from mc.common import *

PROPERTY = "C23"
RULE = ("all matrices of a lattice (2x2) and their time-varying versions x step sizes x start times x starts x shapes: residual of the implicit equation at the end of the step and the exact "
        "linear solution; all increasing grids over a lattice and their reverses, by name, alias and instance; decay for all rates and steps; call pairs on one instance")
ASSUMPTIONS = ["systems for which the implicit equation has a single solution"]
CASE_LIMIT = 120


def mats(deep):
    v = (-2., -1., 0., 1.) if deep else (-2., 0., 1.)
    return [[[a, b], [c, d]] for a, b, c, d in itertools.product(v, repeat=4)]


NONLIN = {
    "cub": lambda t, x: -x ** 3,
    "sin": lambda t, x: torch.sin(x) * .5 - x + torch.cos(torch.as_tensor(t).to(x).reshape(())),
    "rate": lambda t, x: -(1 + torch.as_tensor(t).to(x).reshape(())) ** 2 * x,
    "force": lambda t, x: torch.sin(3 * torch.as_tensor(t).to(x).reshape(())) + 0 * x,
    "stiff": lambda t, x: -50 * (x - torch.cos(torch.as_tensor(t).to(x).reshape(()))),
    "vdp": lambda t, x: torch.stack([x[..., 1] - x[..., 0], -x[..., 0] - x[..., 1] * (1 + x[..., 0] ** 2)], -1),
}


def bounds(tier):
    return {"matrices": len(mats(tier == "thorough")), "steps": [.01, .1, .5, 1., -.1], "nonlinear": sorted(NONLIN), "decay_rates": [.1, 1., 10., 100., 1000.], "multirate_dims": "2..%d, 8, 12" % (6 if tier == "thorough" else 5), "grids": "all sublists of a 5-point lattice"}


def cases(tier):
    deep = tier == "thorough"
    for A in mats(deep):
        for tv in (0, 1):
            yield {"kind": "linear", "A": A, "tv": tv}
    for f in NONLIN:
        for shape in ([2], [1, 2], [3, 2], [2, 2, 2]):
            for dt in ("f64", "f32"):
                yield {"kind": "step", "f": f, "shape": shape, "dtype": dt}
        for how in ("ieuler", "implicit_euler", "inst", "problem", "neural"):
            yield {"kind": "grid", "f": f, "how": how, "deep": deep}
    for rate in (.1, 1., 10., 100., 1000.):
        yield {"kind": "decay", "rate": rate}
    yield {"kind": "pairs"}
    for d in range(2, 7 if deep else 6):
        for top in (10., 100., 1000., 5000.):
            yield {"kind": "spread", "dim": d, "top": top}
    for d in (8, 12):
        for top in (10., 100., 1000.):
            yield {"kind": "spread", "dim": d, "top": top}


def run(case, out):
    globals()["run_" + case["kind"]](case, out)


STEPS = (.01, .1, .5, 1., -.1)


def run_linear(case, out):
    A = torch.tensor(case["A"], dtype=torch.float64)
    I = torch.eye(2, dtype=torch.float64)
    s = ImplicitEuler(torch.float64)
    g = lambda t: 1 + t if case["tv"] else 1.
    for h in STEPS:
        for t in (0., .75):
            M = I - h * g(t + h) * A
            sv = torch.linalg.svdvals(M)
            if float(sv[-1]) < .05 or float(sv[0] / sv[-1]) > 100:
                continue
            for x0 in ([[1., -2.]], [[0., 0.], [3., .5]]):
                x = torch.tensor(x0, dtype=torch.float64)
                b = torch.tensor([.5, -1.], dtype=torch.float64)
                f = lambda tt, y: g(torch.as_tensor(tt).to(y).reshape(())) * (y @ A.t()) + b * torch.as_tensor(tt).to(y).reshape(())
                y = s.step(f, x, torch.tensor(t, dtype=torch.float64), torch.tensor(h, dtype=torch.float64))[1].detach()
                want = torch.linalg.solve(M, (x + h * b * (t + h)).t()).t()
                out.step()
                out.trace()
                if not out.check(close(y, want, 1e-4, 1e-4), lambda: "t %g h %g from %s: %s" % (t, h, x0, err(y, want))):
                    return
                out.state(case["A"], case["tv"], h, t, len(x0))


def resid(f, x, y, t, h):
    return float((y - x - h * f(t + h, y)).abs().max())


def run_step(case, out):
    dt, f = DT[case["dtype"]], NONLIN[case["f"]]
    tol = 1e-4 if dt == torch.float64 else 3e-3
    n = 1
    for q in case["shape"]:
        n *= q
    for k in range(3):
        x = (torch.sin(torch.arange(n, dtype=dt) + k).reshape(case["shape"]) * (1, .1, 2)[k])
        keep = x.clone()
        s = ImplicitEuler(dt)
        for h in (.05, .3, 1., 4.):
            for t in (0., .5, 2.):
                tt, hh = torch.tensor(t, dtype=dt), torch.tensor(h, dtype=dt)
                y = s.step(f, x, tt, hh)[1]
                r = resid(f, x, y.detach(), tt, hh)
                out.step()
                out.trace()
                scale = 1 + float(y.detach().abs().max()) + h * (50 if case["f"] == "stiff" else 1)
                if not out.check(y.shape == x.shape and y.dtype == dt and r <= tol * scale, lambda: "t %g h %g: residual %g" % (t, h, r)):
                    return
                out.check(torch.equal(x, keep), "state modified")
                out.state(case["f"], case["shape"], h, t, k)


PTS = [0., .1, .4, 1., 2.5]


def run_grid(case, out):
    f = NONLIN[case["f"]]
    x0 = torch.tensor([[.8, -.4], [.2, 1.1]], dtype=torch.float64)
    for mask in range(1, 2 ** len(PTS)):
        ts = [p for i, p in enumerate(PTS) if mask >> i & 1]
        if len(ts) < 2:
            continue
        tt = torch.tensor(ts, dtype=torch.float64)
        how = case["how"]
        F = lambda t, x: f(t, x)
        if how in ("ieuler", "implicit_euler"):
            t, sol = odeint(f, x0, tt, how)
        elif how == "inst":
            t, sol = odeint(f, x0, tt, ImplicitEuler(torch.float64))
        elif how == "problem":
            t, sol = ODEProblem(F, "ieuler").odeint(x0, tt)
        else:
            t, sol = NeuralODE(F, "implicit_euler")(x0, tt)
        sol = sol.detach()
        out.step(len(ts) - 1)
        out.trace()
        out.check(close(t, tt) and sol.shape[0] == len(ts) and torch.equal(sol[0], x0), "times or first row")
        for i in range(len(ts) - 1):
            h = tt[i + 1] - tt[i]
            r = resid(f, sol[i], sol[i + 1], tt[i], h)
            if not out.check(r <= 2e-4 * (1 + float(h) * (50 if case["f"] == "stiff" else 1)), lambda: "grid %s, step %d: residual %g of the implicit equation" % (ts, i, r)):
                return
        out.state(case["f"], how, mask)
    # reversed time: implicit Euler of the mirrored system
    if case["f"] in ("force", "sin"):
        tt = torch.tensor([.5, .4, .1, 0.], dtype=torch.float64)
        t, sol = odeint(f, x0, tt, "ieuler")
        sol = sol.detach()
        for i in range(3):
            out.check(resid(f, sol[i], sol[i + 1], tt[i], tt[i + 1] - tt[i]) <= 2e-4, "reversed time")


def run_decay(case, out):
    r = case["rate"]
    for h in (.001, .1, 1., 10., 1000.):
        for x in ([[1., -.5]], [[.3, 0.], [-2., 1.]]):
            x = torch.tensor(x, dtype=torch.float64)
            tt = torch.arange(5, dtype=torch.float64) * h
            _, sol = odeint(lambda t, y: -r * y, x, tt, "ieuler")
            sol = sol.detach()
            n = sol.norm(dim=-1)
            out.step(4)
            out.trace()
            out.check(bool((n[1:] <= n[:-1] * (1 + 1e-9) + 1e-7).all()), lambda: "norms %s grow with rate %g step %g" % (n.reshape(-1).tolist(), r, h))
            want = torch.stack([x / (1 + r * h) ** k for k in range(5)])
            out.check(close(sol, want, 1e-3, 1e-5), lambda: "rate %g step %g: %s" % (r, h, err(sol, want)))
            out.state(r, h, len(x))


def run_spread(case, out):
    "rotated systems whose decay rates lie between 1 and a top rate"
    d, top = case["dim"], case["top"]
    q = torch.linalg.qr(torch.sin(torch.arange(d * d, dtype=torch.float64) ** 2 * .7 + 1).reshape(d, d))[0]
    k = torch.logspace(0, 1, d, base=top, dtype=torch.float64)
    f = lambda t, x: -(x @ q * k) @ q.t()
    I = torch.eye(d, dtype=torch.float64)
    M = q @ torch.diag(k) @ q.t()
    for h in (.01, .1, 1.):
        for n in range(3):
            x = torch.cos(torch.arange((1 + n) * d, dtype=torch.float64) * 1.7 + n).reshape(1 + n, d)
            y = ImplicitEuler(torch.float64).step(f, x, torch.tensor(0., dtype=torch.float64), torch.tensor(h, dtype=torch.float64))[1].detach()
            want = torch.linalg.solve(I + h * M, x.t()).t()
            r = resid(f, x, y, torch.tensor(0., dtype=torch.float64), h)
            out.step()
            out.trace()
            out.state(d, top, h, n)
            if not out.check(r <= 1e-3 and close(y, want, 1e-3, 1e-3), lambda: "rates 1..%g, step %g, %d rows: residual %g, %s" % (top, h, 1 + n, r, err(y, want))):
                return


def run_pairs(case, out):
    "an instance used before gives the same steps"
    fs = list(NONLIN.items())
    x = torch.tensor([[.8, -.4]], dtype=torch.float64)
    for (a, f), (b, g) in itertools.product(fs, fs):
        s = ImplicitEuler(torch.float64)
        odeint(f, x * .5, torch.tensor([0., .3, .4], dtype=torch.float64), s)
        y1 = odeint(g, x, torch.tensor([0., .2, 1.], dtype=torch.float64), s)[1].detach()
        y2 = odeint(g, x, torch.tensor([0., .2, 1.], dtype=torch.float64), ImplicitEuler(torch.float64))[1].detach()
        out.check(torch.equal(y1, y2), "instance used on %s before differs on %s" % (a, b))
        out.trace()
        out.step(2)
        out.state(a, b)
    # parameters of a network are not touched by the solver's own optimisation
    net = nn.Sequential(nn.Linear(2, 3), nn.Tanh(), nn.Linear(3, 2)).double()
    with torch.no_grad():
        for p in net.parameters():
            p.copy_(torch.sin(torch.arange(p.numel(), dtype=torch.float64)).reshape(p.shape) * .5)
    before = [p.detach().clone() for p in net.parameters()]
    odeint(lambda t, y: net(y), x, torch.tensor([0., .2, 1.], dtype=torch.float64), "ieuler")
    out.check(all(torch.equal(p, q) for p, q in zip(before, net.parameters())) and all(p.grad is None or float(p.grad.abs().sum()) == 0 for p in net.parameters()), "parameters or their gradients changed by a solve")
