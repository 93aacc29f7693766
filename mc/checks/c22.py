"""C22: hypersolver steps and solves for every base method, correction, field, step and state shape, against base step + dt^(order+1) * correction; call histories with shared and trained networks."""
import itertools
import torch
import torch.nn as nn
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.hyper import HyperEuler, HyperMidpoint, HyperRungeKutta4
from torchdyn.core import NeuralODE, ODEProblem
from mc.common import *

PROPERTY = "C22"
RULE = ("all (base method, correction network, field, step sign/size, start time, state shape, dtype): one step against base step + dt^(p+1)*correction(t, x) with exact arguments recorded; all grids "
        "up to a length: solve against the composition; all histories (solves, training updates, solver copies sharing the network, other methods) up to a depth; gradients")
ASSUMPTIONS = ["correction networks take (t, x)"]
HYP = {"euler": (HyperEuler, EULER, 1), "midpoint": (HyperMidpoint, MIDPOINT, 2), "rk4": (HyperRungeKutta4, RK4, 4)}
NETS = ["zero", "one", "x", "tx", "lin", "mlp", "int"]
DTS = [.5, .1, -.3, 1., 0.]
SHAPES = [[2], [1, 2], [3, 2], [2, 3, 2]]


class Net(nn.Module):
    def __init__(self, kind, dt):
        super().__init__()
        self.kind, self.seen = kind, []
        self.w = nn.Parameter(torch.tensor([[.7, -.2], [.4, .9]], dtype=dt))
        self.b = nn.Parameter(torch.tensor([.3, -.5], dtype=dt))

    def pure(self, t, x, w=None, b=None):
        w, b, k = self.w if w is None else w, self.b if b is None else b, self.kind
        t = torch.as_tensor(t).to(x).reshape(())
        return {"zero": lambda: 0 * x, "one": lambda: torch.ones_like(x), "x": lambda: x, "tx": lambda: t * x + 1, "lin": lambda: x @ w + b * t, "mlp": lambda: torch.tanh(x @ w + b) @ w.t() * torch.cos(t),
                "int": lambda: b * x ** 2}[k]()

    def forward(self, t, x):
        self.seen.append((float(t), x.detach().clone()))
        return self.pure(t, x)


def bounds(tier):
    return {"corrections": NETS, "fields": ["const", "decay", "tx", "cos", "logi"], "steps": DTS, "shapes": SHAPES, "grids": "all increasing sublists of a 6-point lattice, and their reverses", "history_depth": 2 if tier == "quick" else 4}


def cases(tier):
    for m in HYP:
        for net in NETS:
            for dt in ("f64", "f32"):
                for f in ("const", "decay", "tx", "cos", "logi"):
                    yield {"kind": "step", "m": m, "net": net, "dtype": dt, "field": f}
                    if dt == "f64" or tier != "quick":
                        yield {"kind": "solve", "m": m, "net": net, "dtype": dt, "field": f}
            yield {"kind": "grad", "m": m, "net": net}
        for net in ("lin", "mlp"):
            for op in range(6):
                yield {"kind": "hist", "m": m, "net": net, "first": op, "depth": 2 if tier == "quick" else 4}


def run(case, out):
    globals()["run_" + case["kind"]](case, out)


def state(shape, dt, k=0.):
    n = 1
    for s in shape:
        n *= s
    return torch.sin(torch.arange(n, dtype=dt) * 1.7 + .6 + k).reshape(shape) * .8


def hyper_step(tab, p, f, net, t, x, h):
    return rk_step(*tab, f, t, x, h)[0] + h ** (p + 1) * net.pure(t, x)


def run_step(case, out):
    cls, tab, p = HYP[case["m"]]
    dt = DT[case["dtype"]]
    tol = 1e-11 if dt == torch.float64 else 2e-5
    f = FIELDS[case["field"]].f
    net = Net(case["net"], dt)
    s = cls(net, dt)
    out.check(s.stepping_class == "fixed" and s.order == p, "order %s, stepping %s" % (s.order, s.stepping_class))
    for shape in SHAPES:
        x0 = state(shape, dt)
        keep = x0.clone()
        for h in DTS:
            for t in (0., .7, -1.3):
                hh, tt = torch.tensor(h, dtype=dt), torch.tensor(t, dtype=dt)
                for k1 in (None, f(tt, x0)):
                    net.seen.clear()
                    x, ts = s.sync_device_dtype(x0, torch.stack([tt, tt + hh]))
                    r = s.step(f, x, tt, hh, k1=k1)
                    want = hyper_step(tab, p, f, net, tt, x0, hh)
                    out.step()
                    out.trace()
                    if not out.check(r[1].dtype == dt and close(r[1], want, tol, tol), lambda: "t %g h %g shape %s: %s" % (t, h, shape, err(r[1], want))):
                        return
                    out.check(all(a == float(tt) and torch.equal(b, x0) for a, b in net.seen) and net.seen, lambda: "correction evaluated at %s" % [a for a, _ in net.seen])
                    out.check(torch.equal(x0, keep), "state modified by the step")
                out.state(case["m"], case["net"], case["field"], shape, h, t)


GRID = [0., .2, .25, .6, 1., 1.5]


def run_solve(case, out):
    cls, tab, p = HYP[case["m"]]
    dt = DT[case["dtype"]]
    tol = 1e-9 if dt == torch.float64 else 1e-4
    f = FIELDS[case["field"]].f
    net = Net(case["net"], dt)
    s = cls(net, dt)
    x0 = state([3, 2], dt)
    for mask in range(1, 2 ** len(GRID)):
        ts = [g for i, g in enumerate(GRID) if mask >> i & 1]
        if len(ts) < 2:
            continue
        for rev in (0, 1):
            tt = torch.tensor(ts[::-1] if rev else ts, dtype=dt)
            _, sol = odeint(f, x0, tt, s)
            rows = [x0]
            ft, sg = (f, 1.) if not rev else ((lambda t, x: -f(-t, x)), -1.)
            for a, b in zip(tt[:-1], tt[1:]):
                # reversed time: the corrected step of the mirrored system
                rows.append(hyper_step(tab, p, ft, net, sg * a, rows[-1], sg * (b - a)))
            want = torch.stack(rows)
            out.step(len(ts) - 1)
            out.trace()
            if not out.check(close(sol, want, tol, tol), lambda: "grid %s: %s" % (tt.tolist(), err(sol, want))):
                return
            if case["net"] == "zero":
                _, base = odeint(f, x0, tt, case["m"])
                out.check(close(sol, base, tol, tol), lambda: "zero correction differs from the base method: " + err(sol, base))
            out.state(case["m"], case["net"], case["field"], mask, rev)


def run_grad(case, out):
    cls, tab, p = HYP[case["m"]]
    net = Net(case["net"], torch.float64)
    for f in (FIELDS["logi"].f, FIELDS["tx"].f, FIELDS["decay"].f):
        for ts in ([0., .5], [0., .2, 1.], [1., .4, 0.]):
            for shape in ([2], [3, 2]):
                tt = torch.tensor(ts, dtype=torch.float64)
                s = cls(net, torch.float64)
                x1, x2 = [state(shape, torch.float64).requires_grad_(True) for _ in range(2)]
                rev = ts[0] > ts[1]
                ft, sg = (f, 1.) if not rev else ((lambda t, x: -f(-t, x)), -1.)
                sol = odeint(f, x1, tt, s)[1]
                rows = [x2]
                for a, b in zip(tt[:-1], tt[1:]):
                    rows.append(hyper_step(tab, p, ft, net, sg * a, rows[-1], sg * (b - a)))
                for i in range(len(ts)):
                    a = torch.autograd.grad((sol[i] * state(shape, torch.float64, 2.)).sum(), [x1, net.w, net.b], retain_graph=True, allow_unused=True)
                    r = torch.autograd.grad((rows[i] * state(shape, torch.float64, 2.)).sum(), [x2, net.w, net.b], retain_graph=True, allow_unused=True)
                    for k, (u, v) in enumerate(zip(a, r)):
                        u, v = [torch.zeros(1, dtype=torch.float64).expand_as(([x1, net.w, net.b])[k]) if q is None else q for q in (u, v)]
                        out.check(close(u, v, 1e-9, 1e-9), lambda: "row %d gradient %d: %s" % (i, k, err(u, v)))
                out.step(len(ts) - 1)
                out.trace()
                out.state(case["m"], case["net"], ts, shape)
    names = [n for n, _ in cls(net).named_parameters()]
    out.check(len(names) == 2, "correction parameters visible in the solver: %s" % names)


def run_hist(case, out):
    "solver by solver, network trained and shared: each solve is that of the current weights, other solvers are unaffected"
    cls, tab, p = HYP[case["m"]]
    f = FIELDS["logi"].f
    ts = torch.tensor([0., .3, 1.], dtype=torch.float64)
    x0 = state([3, 2], torch.float64)
    base = {n: odeint(f, x0, ts, n)[1] for n in ("euler", "midpoint", "rk4")}
    for rest in itertools.product(range(6), repeat=case["depth"] - 1):
        net = Net(case["net"], torch.float64)
        s, s2 = cls(net, torch.float64), HYP["euler"][0](net, torch.float64)
        model = NeuralODE(nn.Linear(2, 2).double(), s)
        for op in (case["first"],) + rest:
            if op == 0:
                odeint(f, state([1, 2], torch.float64), ts, s)
            elif op == 1:  # training step on the network
                l = (odeint(f, x0, ts, s)[1] ** 2).sum()
                g = torch.autograd.grad(l, [net.w, net.b], allow_unused=True)
                with torch.no_grad():
                    for q, gr in zip((net.w, net.b), g):
                        q.sub_(.05 * gr)
            elif op == 2:
                odeint(f, x0.float(), ts.float(), cls(Net("x", torch.float32)))
            elif op == 3:
                odeint(f, x0, ts, s2)
            elif op == 4:
                model(x0, ts)
            else:
                odeint(f, x0, torch.tensor([1., 0.], dtype=torch.float64), s)
            for sol, tb, pp in ((odeint(f, x0, ts, s)[1], tab, p), (odeint(f, x0, ts, s2)[1], EULER, 1)):
                rows = [x0]
                for a, b in zip(ts[:-1], ts[1:]):
                    rows.append(hyper_step(tb, pp, f, net, a, rows[-1], b - a))
                want = torch.stack(rows)
                out.check(close(sol, want, 1e-9, 1e-9), lambda: "after %s: %s" % ((case["first"],) + rest, err(sol, want)))
            for n in base:
                out.check(torch.equal(odeint(f, x0, ts, n)[1], base[n]), "base method %s changed" % n)
            out.step()
        out.trace()
        out.state(case["m"], case["net"], case["first"], rest)
