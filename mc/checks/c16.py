"""C16: divergence channel of continuous normalizing flows against explicit Jacobians: exact trace, every sign vector of Hutchinson's estimator, noise handling over call histories."""
import itertools
import torch
import torch.nn as nn
from torchdyn.models import CNF
from torchdyn.models.cnf import autograd_trace, hutch_trace
from torchdyn.core import NeuralODE
from torchdyn.nn import DataControl, DepthCat, Augmenter
from torchdyn.numerics import odeint
from mc.common import *

PROPERTY = "C16"
RULE = ("all networks of a family x dimensions 1..4 x batches 1..3 x first-channel values: the exact trace and, for all sign vectors per sample (all assignments to the batch for small "
        "dimensions), Hutchinson's quadratic form and its exact average; all sequences of model calls with different batch sizes under a scripted noise distribution; gradients")
ASSUMPTIONS = ["samples are processed independently by the wrapped network"]
CASE_LIMIT = 60


class Net(nn.Module):
    def __init__(self, kind, d, dt):
        super().__init__()
        self.kind = kind
        a = torch.arange(d * d, dtype=dt).reshape(d, d)
        self.W = nn.Parameter(torch.sin(1.7 * a + .3))
        self.V = nn.Parameter(torch.cos(.9 * a + .1))
        self.b = nn.Parameter(torch.linspace(-.5, .5, d, dtype=dt))

    def forward(self, x):
        k = self.kind
        if k == "lin":
            return x @ self.W
        if k == "aff":
            return x @ self.W.t() + self.b
        if k == "mlp":
            return torch.tanh(x @ self.W + self.b) @ self.V
        if k == "elem":
            return torch.sin(x) * self.b + x
        if k == "quad":
            return (x @ self.W) * x
        if k == "cyc":  # strictly coupling, zero trace unless d = 1
            return torch.roll(x, 1, -1) ** 2 + self.b + 0 * x
        return x * (x * x).sum(-1, keepdim=True) - self.V.sum() * x


NETS = ["lin", "aff", "mlp", "elem", "quad", "cyc", "rad"]


def bounds(tier):
    return {"networks": NETS, "dims": [1, 2, 3, 4], "batches": [1, 2, 3], "sign_vectors": "all 2^d per sample", "call_sequences": "length %d over 3 batch sizes" % (2 if tier == "quick" else 4)}


def cases(tier):
    for net in NETS:
        for d in (1, 2, 3, 4):
            for b in (1, 2, 3):
                for dt in ("f64", "f32"):
                    for est in ("default", "autograd", "hutch"):
                        yield {"kind": "field", "net": net, "d": d, "b": b, "dtype": dt, "est": est}
        for d, b in ((9, 2), (17, 1), (3, 40), (2, 70)):
            for est in ("default", "autograd", "hutch"):
                yield {"kind": "field", "net": net, "d": d, "b": b, "dtype": "f64", "est": est}
        for d in (1, 2, 3, 4):
            for est in ("autograd", "hutch"):
                for solver in ("rk4", "euler", "dopri5"):
                    for sens in ("autograd", "adjoint"):
                        if solver != "rk4" and tier == "quick" and (d != 2 or sens == "adjoint"):
                            continue
                        yield {"kind": "node", "net": net, "d": d, "est": est, "solver": solver, "sens": sens, "depth": 2 if tier == "quick" else 4}
    for comp in ("control", "both", "augmented", "depth"):
        for est in ("autograd", "hutch"):
            for d in (1, 2, 3):
                yield {"kind": "comp", "comp": comp, "est": est, "d": d}
    yield {"kind": "refuse"}


def jac(net, x):
    "per-sample Jacobians [b, d, d] (i: output, j: input), differentiable"
    f = lambda v: net(v[None])[0]
    return torch.stack([torch.autograd.functional.jacobian(f, v, create_graph=True) for v in x])


class Dist:
    def __init__(self, noise):
        self.noise, self.asked, self.i = noise, [], 0

    def sample(self, shape):
        self.asked.append(tuple(shape))
        e = self.noise(len(self.asked) - 1, shape[0])
        return e


def run(case, out):
    globals()["run_" + case["kind"]](case, out)


def pts(b, d, dt):
    return torch.cos(torch.arange(b * d, dtype=dt) * 1.9 + .4).reshape(b, d)


def run_field(case, out):
    dt, d, b = DT[case["dtype"]], case["d"], case["b"]
    tol = 1e-9 if dt == torch.float64 else 1e-4
    net = Net(case["net"], d, dt)
    xs = pts(b, d, dt)
    J = jac(net, xs).detach()
    tr = torch.einsum("bii->b", J)
    signs = [torch.tensor(s, dtype=dt) for s in itertools.product((1., -1.), repeat=d)] if d < 9 else hadamard(d, dt)
    firsts = [0., 1., -3.5]
    if case["est"] != "hutch":
        m = CNF(net) if case["est"] == "default" else CNF(net, trace_estimator=autograd_trace)
        for first in firsts:
            for mode in ("grad", "no_grad", "leaf"):
                x = torch.cat([torch.full((b, 1), first, dtype=dt), xs], 1)
                if mode == "leaf":
                    x.requires_grad_(True)
                with torch.set_grad_enabled(mode != "no_grad"):
                    y = m(x)
                want = torch.cat([-tr[:, None], net(xs)], 1)
                out.check(y.dtype == dt and close(y, want, tol, tol), lambda: "first channel %g: %s" % (first, err(y, want)))
                out.step()
                out.trace()
                out.state(case["net"], d, b, [round(v, 4) for v in y.reshape(-1).tolist()[:3]])
        gradients(case, out, m, net, xs, None, dt, tol)
        return
    m = CNF(net, trace_estimator=hutch_trace, noise_dist=Dist(None))
    combos = list(itertools.product(range(len(signs)), repeat=b)) if len(signs) ** b <= 64 else [tuple((i + 3 * q) % len(signs) for q in range(b)) for i in range(len(signs))]
    acc = torch.zeros(b, dtype=dt)
    for ci, c in enumerate(combos):
        e = torch.stack([signs[i] for i in c])
        m.noise = e
        x = torch.cat([torch.full((b, 1), firsts[ci % 3], dtype=dt), xs], 1)
        y = m(x)
        want = torch.cat([-torch.einsum("bi,bij,bj->b", e, J, e)[:, None], net(xs)], 1)
        if not out.check(close(y, want, tol, tol), lambda: "noise %s: %s" % (e.tolist(), err(y, want))):
            return
        acc += y[:, 0].detach()
        out.step()
        out.trace()
        out.state(case["net"], d, b, c)
    out.check(close(-acc / len(combos), tr, tol * 10, tol * 10), lambda: "average over all sign vectors: " + err(-acc / len(combos), tr))
    for e in (torch.stack([signs[i % len(signs)] for i in range(b)]), torch.sin(torch.arange(b * d, dtype=dt) + 1).reshape(b, d) * 2):
        m.noise = e
        gradients(case, out, m, net, xs, e, dt, tol)


def gradients(case, out, m, net, xs, e, dt, tol):
    b, d = xs.shape
    ps = list(net.parameters())
    m.train(b % 2 == 1)
    x1 = torch.cat([torch.full((b, 1), .5, dtype=dt), xs], 1).requires_grad_(True)
    y = m(x1)
    x2 = xs.clone().requires_grad_(True)
    J = jac(net, x2)
    dv = -torch.einsum("bii->b", J) if e is None else -torch.einsum("bi,bij,bj->b", e, J, e)
    w = torch.cat([dv[:, None], net(x2)], 1)
    for row in range(b) if b < 9 else (0, b - 1):
        for col in range(d + 1) if d < 9 else (0, d):
            a = torch.autograd.grad(y[row, col], [x1] + ps, retain_graph=True, allow_unused=True)
            r = torch.autograd.grad(w[row, col], [x2] + ps, retain_graph=True, allow_unused=True) if w[row, col].requires_grad else [None] * (1 + len(ps))
            r = [torch.cat([torch.zeros(b, 1, dtype=dt), torch.zeros_like(x2) if r[0] is None else r[0]], 1)] + list(r[1:])
            for k, (u, v) in enumerate(zip(a, r)):
                u, v = [torch.zeros_like(([x1] + ps)[k]) if z is None else z for z in (u, v)]
                if not out.check(close(u, v, tol * 10, tol * 10), lambda: "derivative of channel %d of sample %d w.r.t. %s: %s" % (col, row, "state" if k == 0 else "parameter %d" % (k - 1), err(u, v))):
                    return


def hadamard(d, dt):
    "sign vectors whose outer products average to the identity"
    H = torch.ones(1, 1, dtype=dt)
    while len(H) < d:
        H = torch.cat([torch.cat([H, H], 1), torch.cat([H, -H], 1)])
    return list(H[:, :d])


def noise_script(d):
    def f(i, b):
        return torch.sign(torch.sin(torch.arange(b * d, dtype=torch.float64) * 2.3 + i * 1.1 + .2)).reshape(b, d)
    return f


def ref_field(net, e):
    def f(t, z):
        x = z[:, 1:]
        J = jac(net, x)
        dv = -torch.einsum("bii->b", J) if e is None else -torch.einsum("bi,bij,bj->b", e, J, e)
        return torch.cat([dv[:, None], net(x)], 1)
    return f


def run_node(case, out):
    d = case["d"]
    net = Net(case["net"], d, torch.float64)
    with torch.no_grad():
        for p in net.parameters():
            p.mul_(.5)
    h = case["est"] == "hutch"
    ts = torch.linspace(0, .5, 4, dtype=torch.float64)
    ps = list(net.parameters())
    tol = dict(atol=1e-7, rtol=1e-7)
    for seq in itertools.product((1, 2, 3), repeat=case["depth"]):
        if case["depth"] > 2 and case["solver"] != "euler" and seq[0] != 2:
            continue
        dist = Dist(noise_script(d))
        cnf = CNF(net, trace_estimator=hutch_trace if h else autograd_trace, noise_dist=dist if h else None)
        m = NeuralODE(cnf, case["solver"], sensitivity=case["sens"], atol_adjoint=1e-8, rtol_adjoint=1e-8, **tol)
        for i, b in enumerate(seq):
            z = torch.cat([torch.zeros(b, 1, dtype=torch.float64), .5 * pts(b, d, torch.float64) + .1 * (i % 3)], 1)
            z1, z2 = z.clone().requires_grad_(True), z.clone().requires_grad_(True)
            if i % 3 == 2:
                sol = m.trajectory(z1, ts)
            else:
                t, sol = m(z1, ts)
            if h:
                out.check(dist.asked == [(q,) for q in seq[:i + 1]], "noise drawn with shapes %s for calls with batches %s" % (dist.asked, seq[:i + 1]))
            e = noise_script(d)(i, b) if h else None
            _, want = odeint(ref_field(net, e), z2, ts, case["solver"], **(tol if case["solver"] == "dopri5" else {}))
            if not out.check(close(sol, want, 1e-6, 1e-6), lambda: "call %d of %s: %s" % (i, seq, err(sol, want))):
                return
            w = torch.cos(torch.arange(sol.numel(), dtype=torch.float64)).reshape(sol.shape)
            a = torch.autograd.grad((sol * w).sum(), [z1] + ps, allow_unused=True)
            r = torch.autograd.grad((want * w).sum(), [z2] + ps, allow_unused=True)
            gt = {"rk4": 5e-3, "euler": .3, "dopri5": 1e-4}[case["solver"]] if case["sens"] == "adjoint" and i % 3 != 2 else 1e-5
            for k, (u, v) in enumerate(zip(a, r)):
                u, v = [torch.zeros_like(([z1] + ps)[k]) if q is None else q for q in (u, v)]
                out.check(close(u, v, gt, gt), lambda: "gradient %d of call %d of %s: %s" % (k, i, seq, err(u, v)))
            out.step(len(ts) - 1)
            out.trace()
            out.state(case["net"], d, seq[:i + 1], case["est"])
        if out.cur_fails:
            return


def run_comp(case, out):
    "flows with data control, depth concatenation and augmentation of the divergence channel"
    d, comp, h = case["d"], case["comp"], case["est"] == "hutch"
    W = torch.sin(torch.arange(2 * d * d, dtype=torch.float64) + .5).reshape(2 * d, d) * .5
    Wt = torch.sin(torch.arange((d + 1) * d, dtype=torch.float64) + .5).reshape(d + 1, d) * .5

    class L(nn.Module):
        def __init__(self, w):
            super().__init__()
            self.w = nn.Parameter(w.clone())

        def forward(self, x):
            return torch.tanh(x @ self.w)
    if comp in ("control", "both"):
        net = nn.Sequential(DataControl(), L(W))
    elif comp == "depth":
        net = nn.Sequential(DepthCat(1), L(Wt))
    else:
        net = L(Wt[:d])
    for seq in itertools.product((1, 3), repeat=2):
        dist = Dist(noise_script(d))
        cnf = CNF(net, trace_estimator=hutch_trace if h else autograd_trace, noise_dist=dist if h else None)
        m = NeuralODE(cnf, "rk4", integral_loss=(lambda t, z: (z[:, 1:] ** 2).sum(1)) if comp == "both" else None)
        model = nn.Sequential(Augmenter(1, 1), m) if comp == "augmented" else m
        for i, b in enumerate(seq):
            x = pts(b, d, torch.float64) + .1 * i
            lead = 2 if comp == "both" else 1
            z = torch.cat([torch.zeros(b, lead, dtype=torch.float64), x], 1)
            ts = torch.linspace(0, 1, 5, dtype=torch.float64)
            if comp == "augmented":
                t, sol = model(x)
                ts = t
            else:
                t, sol = model(z, ts)
            e = noise_script(d)(i, b) if h else None

            def f(t, q):
                y = q[:, lead:]
                if comp in ("control", "both"):
                    g = lambda v, c: torch.tanh(torch.cat([v, c]) @ W)
                    ctl = x
                elif comp == "depth":
                    g = lambda v, c: torch.tanh(torch.cat([v, torch.as_tensor(t).to(v).reshape(1)]) @ Wt)
                    ctl = x
                else:
                    g, ctl = (lambda v, c: torch.tanh(v @ Wt[:d])), x
                J = torch.stack([torch.autograd.functional.jacobian(lambda s: g(s, c), v) for v, c in zip(y, ctl)])
                F = torch.stack([g(v, c) for v, c in zip(y, ctl)])
                dv = -torch.einsum("bii->b", J) if e is None else -torch.einsum("bi,bij,bj->b", e, J, e)
                cols = [dv[:, None], F]
                if comp == "both":
                    cols = [(y ** 2).sum(1)[:, None]] + cols
                return torch.cat(cols, 1)
            _, want = odeint(f, z, ts.double(), "rk4")
            out.check(close(sol, want, 1e-6, 1e-6), lambda: "call %d of %s: %s" % (i, seq, err(sol, want)))
            out.step(len(ts) - 1)
            out.trace()
            out.state(comp, d, seq, i)


def run_refuse(case, out):
    try:
        CNF(Net("lin", 2, torch.float64), trace_estimator=hutch_trace)
        out.fail("Hutchinson's estimator without noise distribution accepted")
    except AssertionError:
        pass
    out.step()
    out.trace()
    # a real noise distribution: redrawn for every call
    d = 2
    cnf = CNF(Net("mlp", d, torch.float32), trace_estimator=hutch_trace, noise_dist=torch.distributions.MultivariateNormal(torch.zeros(d), torch.eye(d)))
    m = NeuralODE(cnf, "rk4")
    z = torch.cat([torch.zeros(3, 1), pts(3, d, torch.float32)], 1)
    a, b = m(z)[1][-1], m(z)[1][-1]
    out.check(close(a[:, 1:], b[:, 1:], 1e-6, 1e-6) and not close(a[:, 0], b[:, 0], 1e-6, 1e-6), "noise not redrawn between calls or state affected by it")
