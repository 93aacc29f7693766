"""C14: every sequence of operations (calls, trajectories, pending backward passes, updates, loads, casts, copies, mode switches) up to a depth on one neural ODE, compared with fresh models and a pure reference."""
import copy, io, itertools
import torch
import torch.nn as nn
from torchdyn.core import NeuralODE, NeuralSDE, MultipleShootingLayer
from torchdyn.nn import DataControl, DepthCat, GalLinear, Fourier
from torchdyn.models import CNF
from torchdyn.models.cnf import hutch_trace
from torchdyn.numerics import odeint
from mc.common import *

PROPERTY = "C14"
RULE = ("all sequences (also after a whole training step, with all parameters trained or one frozen) over {forward on batches of different and of equal size, forward on a decreasing span, trajectory, forward without gradients, backward of the oldest pending result, parameter update, "
        "state-dict round trip, load of other parameters, mode switch, configured span, deep copy, dtype cast, freezing, second model on the same network} up to a depth, for every "
        "(network, solver, sensitivity): every output against a pure functional solve, every gradient against a freshly built model, evaluation counter against a count")
ASSUMPTIONS = ["parameters are not modified between a call and its backward pass", "deep copies only of networks with leaf tensors"]
CASE_LIMIT = 120

OPS = ["fA", "fB", "fr", "tr", "ng", "bw", "up", "rt", "ld", "md", "sp", "cp", "dt", "fz", "ot"]
NETS = ["mlp", "ctl", "gal", "time", "loss", "ord2", "cnf"]


ORDER = [("euler", "autograd"), ("euler", "adjoint"), ("dopri5", "autograd"), ("dopri5", "adjoint"), ("tsit5", "autograd"), ("tsit5", "adjoint"), ("rk4", "interpolated_adjoint"),
         ("dopri5", "interpolated_adjoint")]


def bounds(tier):
    return {"operations": OPS, "depth": 2 if tier == "quick" else 3, "networks": NETS, "other_models": ["/".join(o) for o in OTHERS], "solvers": ["rk4", "euler", "dopri5", "tsit5"], "sensitivities": ["autograd", "adjoint", "interpolated_adjoint"]}


SOPS = ["fA", "fC", "fB", "fs", "ng", "bw", "up", "rt", "ld", "md", "sp", "cp"]
OTHERS = [("sde", s) for s in ("euler", "eulerHeun", "milstein_ito", "milstein_stratonovich")] + [("ms", a, b) for a in ("zero", "backward", "ieuler") for b in ("autograd", "adjoint", "interpolated_adjoint")]


def cases(tier):
    for o in OTHERS:
        if o[0] == "ms" and o[1] == "ieuler" and o[2] != "adjoint":
            continue
        yield {"net": o, "prefix": ["fA", "bw"], "depth": 4 if tier == "thorough" else 3}
        for first in SOPS:
            yield {"net": o, "prefix": [first], "depth": 2 if tier == "quick" else 3}
    for net in NETS:
        for solver, sens in (("rk4", "autograd"), ("rk4", "adjoint"), ("dopri5", "autograd"), ("tsit5", "adjoint"), ("euler", "autograd"), ("dopri5", "adjoint"), ("euler", "adjoint"),
                             ("rk4", "interpolated_adjoint"), ("dopri5", "interpolated_adjoint"), ("tsit5", "autograd")):
            if sens == "interpolated_adjoint" and net in ("loss", "cnf"):
                continue
            if tier == "quick" and (solver, sens) not in (("rk4", "autograd"), ("rk4", "adjoint")) and not (net == "ctl" and solver in ("rk4", "dopri5")) and (NETS.index(net) + ORDER.index((solver, sens))) % 7 > 0:
                continue
            # after a whole training step, and after one with a frozen parameter
            yield {"net": net, "solver": solver, "sens": sens, "prefix": ["fA", "bw"], "depth": 3 if tier == "quick" else 4}
            yield {"net": net, "solver": solver, "sens": sens, "prefix": ["fz", "fA", "bw"], "depth": 4}
            for first in OPS:
                if tier == "quick" or solver in ("tsit5", "euler") or (solver, sens) == ("dopri5", "interpolated_adjoint"):
                    yield {"net": net, "solver": solver, "sens": sens, "prefix": [first], "depth": 2}
                else:
                    for second in OPS:
                        yield {"net": net, "solver": solver, "sens": sens, "prefix": [first, second], "depth": 3}


def alike(a, b, tol):
    """equal up to rounding, with NaN where the recomputation has NaN: what is judged is independence of the history"""
    return close(torch.nan_to_num(a.detach(), 12345.), torch.nan_to_num(b.detach(), 12345.), tol, tol)


class TimeNet(nn.Module):
    def __init__(self):
        super().__init__()
        self.W, self.b = nn.Parameter(torch.zeros(2, 2)), nn.Parameter(torch.zeros(2))

    def forward(self, t, x):
        return torch.sin(t) * torch.tanh(x @ self.W) + t * self.b


def build(net):
    if net in ("mlp", "loss"):
        return nn.Sequential(nn.Linear(2, 3), nn.Tanh(), nn.Linear(3, 2))
    if net == "ctl":
        return nn.Sequential(DataControl(), DepthCat(1), nn.Linear(5, 3), nn.Tanh(), DepthCat(1), nn.Linear(4, 2))
    if net == "gal":
        return nn.Sequential(DepthCat(1), GalLinear(2, 2, expfunc=Fourier(3), dilation=False, shift=False), nn.Tanh(), nn.Linear(2, 2))
    if net == "time":
        return TimeNet()
    if net == "ord2":
        return nn.Sequential(DataControl(), nn.Linear(8, 3), nn.Tanh(), nn.Linear(3, 2))
    return nn.Sequential(DataControl(), nn.Linear(4, 3), nn.Tanh(), nn.Linear(3, 2))


def values(ps, k):
    return [torch.sin(torch.arange(p.numel(), dtype=torch.float64) * 1.3 + i + .7 * k).reshape(p.shape) * .6 for i, p in enumerate(ps)]


def rate(t, x):
    return torch.cos(t) * (x ** 2).sum(-1)


def lead(net, sens):
    return 1 if net == "cnf" or (net == "loss" and sens == "autograd") else 0


def pure(net, ps, x0, sens, noise):
    "vector field as a pure function of explicit parameters, initial data and noise"
    F = torch.nn.functional
    k = lead(net, sens)
    c = x0[:, k:].detach()

    def core(t, x):
        col = torch.as_tensor(t).to(x).reshape(1, 1) * torch.ones_like(x[:, :1])
        if net in ("mlp", "loss"):
            return F.linear(torch.tanh(F.linear(x, ps[0], ps[1])), ps[2], ps[3])
        if net == "ctl":
            h = torch.tanh(F.linear(torch.cat([x, c, col], 1), ps[0], ps[1]))
            return F.linear(torch.cat([h, col], 1), ps[2], ps[3])
        if net == "gal":
            n = torch.tensor([0., 1.5, 3.]).to(x)
            s = torch.as_tensor(t).to(x).reshape(())
            w = (ps[0][:, :, 0] * torch.cos(n * s)).sum(1) + (ps[0][:, :, 1] * torch.sin(n * s)).sum(1)
            return F.linear(torch.tanh(F.linear(x, w[:4].reshape(2, 2), w[4:])), ps[1], ps[2])
        if net == "time":
            s = torch.as_tensor(t).to(x).reshape(())
            return torch.sin(s) * torch.tanh(x @ ps[0]) + s * ps[1]
        return F.linear(torch.tanh(F.linear(torch.cat([x, c], 1), ps[0], ps[1])), ps[2], ps[3])

    def f(t, z):
        if net == "ord2":
            return torch.cat([z[:, 2:], core(t, z)], 1)
        if net == "cnf":
            x = z[:, 1:]
            J = []
            for i in range(x.shape[0]):
                W1, W2 = ps[0][:, :2], ps[2]
                h = torch.tanh(F.linear(torch.cat([x[i], c[i]]), ps[0], ps[1]))
                J.append(W2 @ torch.diag(1 - h ** 2) @ W1)
            J = torch.stack(J)
            return torch.cat([-torch.einsum("bi,bij,bj->b", noise, J, noise)[:, None], core(t, x)], 1)
        if k:
            return torch.cat([rate(t, z[:, 1:])[:, None], core(t, z[:, 1:])], 1)
        return core(t, z)
    return f


class Noise:
    def __init__(self, dt):
        self.n, self.dt, self.offset = 0, dt, 0

    def value(self, k, b):
        return torch.sign(torch.sin(torch.arange(2 * b, dtype=torch.float64) * 2.3 + 1.1 * k + .2)).reshape(b, 2).to(self.dt)

    def sample(self, shape):
        self.n += 1
        return self.value(self.n - 1 + self.offset, shape[0])


CACHE = {}


class Run:
    def __init__(self, case, out, seq):
        self.case, self.out, self.seq = case, out, seq
        self.dt = torch.float64
        self.k, self.span, self.frozen, self.training = 0, None, False, True
        self.model, self.noise, self.calls = self.fresh()
        self.pending, self.at = [], ""

    def fresh(self):
        net = build(self.case["net"]).to(self.dt)
        if self.case["net"] == "gal":
            net[1].coeffs.data = net[1].coeffs.data.to(self.dt)
        noise = Noise(self.dt)
        calls = [0]

        def hook(m, a):
            calls[0] += 1
        net.register_forward_pre_hook(hook)
        core = net
        if self.case["net"] == "cnf":
            net = CNF(net, trace_estimator=hutch_trace, noise_dist=noise)
        s, sens = self.case["solver"], self.case["sens"]
        kw = dict(atol=1e-5, rtol=1e-3, atol_adjoint=1e-4, rtol_adjoint=1e-3, order=2 if self.case["net"] == "ord2" else 1,
                  solver_adjoint="rk4" if s == "dopri5" and sens == "adjoint" else None)
        if self.case["net"] == "loss":
            kw["integral_loss"] = rate
        m = NeuralODE(net, s, sensitivity=sens, **kw)
        ps = self.params(m)
        for p, v in zip(ps, values(ps, self.k)):
            p.data = v.reshape(p.shape).to(self.dt)
        if self.frozen:
            ps[-1].requires_grad_(False)
        m.train(self.training)
        return m, noise, calls

    def params(self, m):
        return [p for n, p in m.named_parameters() if "dummy" not in n]

    def x(self, which):
        n = {"A": 3, "B": 1, "C": 3}[which]
        d = 4 if self.case["net"] == "ord2" else 2
        x = torch.cos(torch.arange(n * d, dtype=torch.float64) * 1.1 + n + (2.5 if which == "C" else 0)).reshape(n, d)
        k = lead(self.case["net"], self.case["sens"])
        return torch.cat([torch.zeros(n, k, dtype=torch.float64), x], 1).to(self.dt)

    def key(self, *more):
        c = self.case
        return (c["net"], c["solver"], c["sens"], self.dt, self.k, None if self.span is None else tuple(self.span.tolist()), self.frozen, self.training) + more

    def reference(self, which, x, span, noise, nk):
        k = self.key("ref", which, tuple(span.tolist()), span.dtype, nk)
        if k not in CACHE:
            CACHE[k] = self.reference_(x, span, noise)
        return CACHE[k]

    def reference_(self, x, span, noise):
        ps = [p.detach() for p in self.params(self.model)]
        f = pure(self.case["net"], ps, x, self.case["sens"], noise)
        s = self.case["solver"]
        if s in ("rk4", "euler"):
            rows = [x]
            for a, b in zip(span[:-1].to(self.dt), span[1:].to(self.dt)):
                rows.append(rk_step(*{"rk4": RK4, "euler": EULER}[s], f, a, rows[-1], b - a)[0])
            return torch.stack(rows)
        return odeint(f, x, span, s, atol=1e-5, rtol=1e-3, **({} if self.case["sens"] != "interpolated_adjoint" else {}))[1]

    def tol(self):
        return 1e-9 if self.dt == torch.float64 else (2e-4 if self.case["solver"] in ("rk4", "euler") else 3e-3)

    def forward(self, which, span=None, grad=True, how="call"):
        x = self.x(which).requires_grad_(grad and which != "B")  # training as usual: only parameters need gradients
        n0, c0, k0 = float(self.model.vf.nfe), self.calls[0], self.noise.n
        with torch.set_grad_enabled(grad):
            if how == "traj":
                sol, t = self.model.trajectory(x, span), None
            else:
                r = self.model(x) if span is None else self.model(x, span)
                t, sol = r
        want_span = span if span is not None else (self.span if self.span is not None else torch.linspace(0, 1, 2))
        noise = self.noise.value(k0 + self.noise.offset, x.shape[0])
        if self.case["net"] == "cnf":
            self.out.check(self.noise.n == k0 + 1, lambda: "%s: noise drawn %d times in one call" % (self.at, self.noise.n - k0))
        self.out.check(float(self.model.vf.nfe) - n0 == self.calls[0] - c0, lambda: "%s: counter went up by %g for %d evaluations" % (self.at, float(self.model.vf.nfe) - n0, self.calls[0] - c0))
        self.out.step()
        if self.case["sens"] != "interpolated_adjoint" or how == "traj" or self.case["solver"] in ("rk4", "euler"):
            want = self.reference(which, x.detach(), want_span, noise, (k0 + self.noise.offset) if self.case["net"] == "cnf" else 0)
            tol = max(self.tol(), 1e-6 if want_span.dtype == torch.float32 else 0.)
            self.out.check(close(sol, want, tol, tol), lambda: "%s: output %s" % (self.at, err(sol, want)))
            if t is not None:
                self.out.check(close(torch.as_tensor(t).double(), want_span.double(), 1e-6, 1e-6), lambda: "%s: times %s" % (self.at, t))
        elif t is not None:
            ref = self.fresh_result(which, span, noise_index=k0 + self.noise.offset)[0]
            self.out.check(close(sol, ref, self.tol(), self.tol()), lambda: "%s: output %s" % (self.at, err(sol, ref)))
        self.out.state(self.case["net"], self.case["solver"], self.k, self.dt, which, how, [round(v, 3) for v in sol.detach().double().reshape(-1).tolist()[-4:]])
        if grad:
            self.pending.append((which, span, how, x, sol, k0 + self.noise.offset))
        return sol

    def fresh_result(self, which, span, how="call", noise_index=0):
        m, nz, _ = self.fresh()
        nz.offset = noise_index
        if self.span is not None:
            m.t_span = self.span.clone()
        x = self.x(which).requires_grad_(True)
        sol = m.trajectory(x, span) if how == "traj" else (m(x) if span is None else m(x, span))[1]
        return sol, x, m

    @staticmethod
    def loss(sol):
        return (sol * torch.cos(torch.arange(sol.numel(), dtype=sol.dtype) + .3).reshape(sol.shape)).sum()

    def grads(self, m, x):
        return [x.grad] + [p.grad for p in self.params(m)]

    def backward(self):
        if not self.pending:
            return
        which, span, how, x, sol, nz = self.pending.pop(0)
        ps = self.params(self.model)
        for p in ps:
            p.grad = None
        n0, c0 = float(self.model.vf.nfe), self.calls[0]
        self.loss(sol).backward()
        self.out.check(float(self.model.vf.nfe) - n0 == self.calls[0] - c0, lambda: "%s: counter in the backward pass" % self.at)
        span_, self.span = self.span, getattr(sol, "_span", self.span)
        key = self.key("grad", which, None if span is None else tuple(span.tolist()), how, nz)
        if key not in CACHE:
            rsol, rx, rm = self.fresh_result(which, span, how, nz)
            self.loss(rsol).backward()
            CACHE[key] = self.grads(rm, rx)
        self.span = span_
        self.out.trace()
        for i, (a, b) in enumerate(zip(self.grads(self.model, x), CACHE[key])):
            if i == 0 and not x.requires_grad:
                continue
            if (a is None) != (b is None):
                if a is None or float(a.abs().sum()) == 0:
                    continue
                self.out.fail("%s: gradient %d is %s" % (self.at, i, "present" if b is None else "missing"))
                continue
            if a is not None:
                t = self.tol() * 10 if self.dt == torch.float64 else 2e-2
                if not self.out.check(alike(a, b, t), lambda: "%s: gradient %d of pending %s: %s" % (self.at, i, which, err(a, b))):
                    return

    def set(self, k):
        self.k, self.pending = k, []

    def do(self, op):
        m = self.model
        if op == "fA":
            self.forward("A")._span = self.span
        elif op == "fB":
            self.forward("B")._span = self.span
        elif op == "fr":
            self.forward("B", torch.tensor([1., .4, 0.], dtype=self.dt))
        elif op == "tr":
            self.forward("C", torch.tensor([.2, .5, 1.], dtype=self.dt), how="traj")
        elif op == "ng":
            self.forward("C", grad=False)
        elif op == "bw":
            self.backward()
        elif op == "up":
            self.set(self.k + 1)
            ps = self.params(m)
            with torch.no_grad():
                for p, v in zip(ps, values(ps, self.k)):
                    p.add_(v.reshape(p.shape).to(self.dt) - p)
        elif op == "rt":
            buf = io.BytesIO()
            torch.save(m.state_dict(), buf)
            buf.seek(0)
            with torch.no_grad():
                for p in self.params(m):
                    p.add_(.3)
            m.load_state_dict(torch.load(buf))
            self.set(self.k)
        elif op == "ld":
            self.set(self.k + 5)
            src, _, _ = self.fresh()
            m.load_state_dict(src.state_dict())
        elif op == "md":
            self.training = not self.training
            m.train(self.training)
        elif op == "sp":
            self.span = torch.tensor([0., .3, .8], dtype=self.dt)
            m.t_span = self.span.clone()
        elif op == "cp":
            if self.case["net"] == "gal" or (self.case["net"] == "ctl" and self.case["solver"] in ("dopri5", "tsit5")):
                return  # these hold tensors with a graph after a call
            self.pending = []
            self.model = copy.deepcopy(m)
            self.rehook()
        elif op == "dt":
            self.pending = []
            self.dt = torch.float32 if self.dt == torch.float64 else torch.float64
            m.to(self.dt)
            if self.span is not None:
                self.span = self.span.to(self.dt)
                m.t_span = self.span.clone()
            self.noise.dt = self.dt
            ps = self.params(m)
            with torch.no_grad():  # casting back does not restore the digits
                for p, v in zip(ps, values(ps, self.k)):
                    p.copy_(v)
            self.set(self.k)
        elif op == "fz":
            self.frozen = not self.frozen
            self.params(m)[-1].requires_grad_(not self.frozen)
            self.pending = []
        elif op == "ot":
            # another model around the same network, called on another batch
            inner = [q for q in m.vf.modules() if isinstance(q, (nn.Sequential, TimeNet, CNF))][0]
            k = lead(self.case["net"], self.case["sens"])
            kw = dict(integral_loss=rate) if self.case["net"] == "loss" else {}
            o = NeuralODE(inner, "rk4", sensitivity=self.case["sens"], order=2 if self.case["net"] == "ord2" else 1, **kw)
            n = self.noise.n
            o(self.x("A")[:2] + .1, torch.tensor([0., .5], dtype=self.dt))
            self.noise.n = n

    def rehook(self):
        "counting hook and noise of a copied model"
        self.calls = [0]
        calls = self.calls
        for q in self.model.vf.modules():
            if isinstance(q, CNF):
                self.noise = q.noise_dist
        core = [q for q in self.model.vf.modules() if isinstance(q, (nn.Sequential, TimeNet))][0]
        core._forward_pre_hooks.clear()

        def hook(mm, a):
            calls[0] += 1
        core.register_forward_pre_hook(hook)

    def go(self):
        seq = list(self.seq) + ["fA", "fr", "bw", "bw"]
        for i, op in enumerate(seq):
            self.at = "after %s, %s" % (seq[:i], op)
            self.do(op)
            if self.out.cur_fails:
                return
        while self.pending:
            self.at = "after %s, remaining backward" % seq
            self.backward()


def W(t):
    t = torch.as_tensor(t).double().reshape(())
    return torch.stack([torch.sin(3 * t), t * torch.cos(2 * t)])[None]


class Other(Run):
    "neural SDEs with a control in drift and diffusion, multiple shooting layers"
    def fresh(self):
        calls = [0]

        def hook(m, a):
            calls[0] += 1
        if self.case["net"][0] == "sde":
            name = self.case["net"][1]
            d, g = nn.Sequential(DataControl(), nn.Linear(4, 2), nn.Tanh()).double(), nn.Sequential(nn.Linear(2, 2), nn.Tanh(), DataControl(), nn.Linear(4, 2)).double()
            for n in (d, g):
                n.register_forward_pre_hook(hook)
            m = NeuralSDE(d, g, solver=name, bm=lambda a, b: W(b) - W(a), sde_type="ito" if name in ("euler", "milstein_ito") else "stratonovich")
        else:
            net = nn.Sequential(nn.Linear(2, 3), nn.Tanh(), nn.Linear(3, 2)).double()
            net.register_forward_pre_hook(hook)
            m = MultipleShootingLayer(net, self.case["net"][1], sensitivity=self.case["net"][2], maxiter=2, fine_steps=3, solver_adjoint="dopri5", atol_adjoint=1e-4, rtol_adjoint=1e-4)
        ps = self.params(m)
        for p, v in zip(ps, values(ps, self.k)):
            p.data = v.reshape(p.shape)
        m.train(self.training)
        return m, None, calls

    def counter(self):
        return float(self.model.defunc.nfe if self.case["net"][0] == "sde" else self.model.vf.nfe)

    def x(self, which):
        n = {"A": 3, "B": 1, "C": 3}[which]
        return torch.cos(torch.arange(n * 2, dtype=torch.float64) * 1.1 + n + (2.5 if which == "C" else 0)).reshape(n, 2)

    def reference(self, x, span):
        "the scheme's recursion with explicit parameters and control"
        lin = torch.nn.functional.linear
        ps = [p.detach() for p in self.params(self.model)]
        f = lambda z: torch.tanh(lin(torch.cat([z, x], 1), ps[0], ps[1]))
        g = lambda z: lin(torch.cat([torch.tanh(lin(z, ps[2], ps[3])), x], 1), ps[4], ps[5])
        name, rows = self.case["net"][1], [x]
        for a, b in zip(span[:-1], span[1:]):
            z, dt, dw = rows[-1], b - a, W(b) - W(a)
            if name == "euler":
                z = z + f(z) * dt + g(z) * dw
            elif name == "eulerHeun":
                z = z + f(z) * dt + .5 * (g(z) + g(z + g(z) * dw)) * dw
            else:
                q = z + f(z) * dt + g(z) * dt.sqrt()
                z = z + f(z) * dt + g(z) * dw + (g(q) - g(z)) / (2 * dt.sqrt()) * (dw ** 2 - (dt if name == "milstein_ito" else 0))
            rows.append(z)
        return torch.stack(rows)

    def call(self, m, x, span):
        return (m(x) if span is None else m(x, span))[1]

    def forward(self, which, span=None, grad=True):
        if span is None and self.case["net"][0] == "ms":
            span = torch.linspace(0, 1, 4, dtype=torch.float64)
        x = self.x(which).requires_grad_(grad and which != "B")
        n0, c0 = self.counter(), self.calls[0]
        with torch.set_grad_enabled(grad):
            sol = self.call(self.model, x, span)
        used = span if span is not None else (self.span if self.span is not None else torch.linspace(0, 1, 2))
        self.out.check(self.counter() - n0 == self.calls[0] - c0, lambda: "%s: counter went up by %g for %d evaluations" % (self.at, self.counter() - n0, self.calls[0] - c0))
        self.out.step()
        if self.case["net"][0] == "sde":
            want = self.reference(x.detach(), used.double())
        else:
            with torch.set_grad_enabled(grad):
                want = self.call(self.fresh()[0], self.x(which).requires_grad_(grad), span).detach()
        self.out.check(close(sol.detach(), want, 1e-6, 1e-6), lambda: "%s: output %s" % (self.at, err(sol, want)))
        self.out.state(self.case["net"], self.k, which, [round(v, 3) for v in sol.detach().reshape(-1).tolist()[-4:]])
        if grad:
            self.pending.append((which, span, self.span, x, sol))

    def backward(self):
        if not self.pending:
            return
        which, span, conf, x, sol = self.pending.pop(0)
        ps = self.params(self.model)
        for p in ps:
            p.grad = None
        if not sol.requires_grad:
            return
        self.loss(sol).backward()
        m, _, _ = self.fresh()
        if conf is not None:
            m.t_span = conf.clone()
        rx = self.x(which).requires_grad_(True)
        self.loss(self.call(m, rx, span)).backward()
        self.out.trace()
        for i, (a, b) in enumerate(zip(self.grads(self.model, x), self.grads(m, rx))):
            if i == 0 and not x.requires_grad:
                continue
            if a is None or b is None:
                a, b = [torch.zeros((), dtype=torch.float64) if v is None else v.abs().sum() for v in (a, b)]
            self.out.check(alike(a, b, 1e-8), lambda: "%s: gradient %d of pending %s: %s" % (self.at, i, which, err(a, b)))

    def do(self, op):
        if op == "fC":
            self.forward("C")
        elif op in ("fA", "fB"):
            self.forward(op[1])
        elif op == "fs":
            self.forward("C", torch.tensor([.5, .75, 1.], dtype=torch.float64))
        elif op == "sp":
            self.span = torch.tensor([0., .25, .5, .75], dtype=torch.float64)
            self.model.t_span = self.span.clone()
        elif op == "cp":
            self.pending = []
            if self.case["net"][0] == "sde":  # the noise path is a function and not copied
                self.model.bm, bm = None, self.model.bm
                self.model = copy.deepcopy(self.model)
                self.model.bm = bm
                nets = [self.model.defunc.f_func, self.model.defunc.g_func]
            else:
                self.model = copy.deepcopy(self.model)
                nets = [q for q in self.model.vf.modules() if isinstance(q, nn.Sequential)]
            calls = self.calls = [0]

            def hook(m, a):
                calls[0] += 1
            for n in nets:
                n._forward_pre_hooks.clear()
                n.register_forward_pre_hook(hook)
        else:
            super().do(op)

    def go(self):
        seq = list(self.seq) + ["fA", "fs", "bw", "bw"]
        for i, op in enumerate(seq):
            self.at = "after %s, %s" % (seq[:i], op)
            self.do(op)
            if self.out.cur_fails:
                return
        while self.pending:
            self.at = "after %s, remaining backward" % seq
            self.backward()


def run(case, out):
    other = not isinstance(case["net"], str)
    for rest in itertools.product(SOPS if other else OPS, repeat=case["depth"] - len(case["prefix"])):
        r = (Other if other else Run)(case, out, case["prefix"] + list(rest))
        r.go()
        if out.cur_fails:
            return
