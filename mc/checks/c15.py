"""C15: every composition of depth, control and linear blocks up to a length, with orders, integral losses, spans, batches and call pairs, against explicitly written systems; every augmentation setting."""
import itertools
import torch
import torch.nn as nn
import torch.nn.functional as F
from torchdyn.core import NeuralODE
from torchdyn.models import CNF
from torchdyn.models.cnf import autograd_trace, hutch_trace
from torchdyn.nn import DataControl, DepthCat, Augmenter
from torchdyn.numerics import odeint
from mc.common import *

PROPERTY = "C15"
RULE = ("all block sequences up to a length over {depth concatenation, data control, linear+tanh} x order 1..3 (1..6 for short sequences) x integral loss (none, two shapes) x solver x sensitivity x span x pairs of "
        "batches: rows and gradients compared with the explicitly written first-order system; recorded time and control of every evaluation; all augmentation settings on all ranks; "
        "all triples of chained models")
ASSUMPTIONS = ["the control is not differentiated (it is detached by design)", "states of rank >= 2 with channels in dimension 1"]

SPANS = [[0., 1.], [0., .3, .5, 1.], [1., .4, 0.], [-.5, 0., .25]]


def seqs(n):
    return ["".join(s) for k in range(n + 1) for s in itertools.product("tcl", repeat=k)]


def bounds(tier):
    return {"block_sequences": len(seqs(3 if tier == "quick" else 4)), "orders": "1..6", "losses": ["none", "[b]", "[b,1]"], "spans": SPANS, "batches": "pairs of 1,2,3",
            "augmentation": "ranks 1..4, every dimension, 1..3 channels, both sides, with and without function"}


def cases(tier):
    deep = tier == "thorough"
    for i, s in enumerate(seqs(4 if deep else 3)):
        for order in (1, 2, 3):
            for loss in ("none", "flat", "col"):
                for solver, sens in (("rk4", "autograd"), ("euler", "autograd"), ("dopri5", "autograd"), ("rk4", "adjoint"), ("midpoint", "autograd"), ("rk4", "interpolated_adjoint")):
                    if sens != "autograd" and loss != "none":
                        continue
                    if not deep and (solver, sens) != ("rk4", "autograd") and (len(s) > 2 or order == 3):
                        continue
                    yield {"kind": "blocks", "s": s, "order": order, "loss": loss, "solver": solver, "sens": sens, "dtype": "f64" if (i + order) % 3 else "f32"}
        if len(s) <= 2:
            for order in (4, 5, 6):
                for loss in ("none", "flat"):
                    for sens in ("autograd", "adjoint"):
                        if loss == "none" or sens == "autograd":
                            yield {"kind": "blocks", "s": s, "order": order, "loss": loss, "solver": "rk4", "sens": sens, "dtype": "f64"}
    for shape in ([3, 2], [1, 2, 3], [2, 2, 3, 2], [2, 1, 4, 4]):
        for idx in range(1, len(shape)):
            for neg in (0, 1):
                for span in range(len(SPANS)):
                    yield {"kind": "cat", "shape": shape, "idx": idx - len(shape) if neg else idx, "span": span}
    for shape in ([4], [3, 2], [1, 1], [2, 3, 2], [1, 2, 3, 2]):
        for dt in ("f32", "f64"):
            yield {"kind": "augment", "shape": shape, "dtype": dt}
    for solver in ("rk4", "dopri5", "euler"):
        for n in (2, 3):
            yield {"kind": "chain", "solver": solver, "n": n}
    for sens in ("autograd", "adjoint"):
        for solver in ("rk4", "tsit5", "dopri5", "euler"):
            yield {"kind": "record", "sens": sens, "solver": solver}
    for est in ("autograd", "hutch", "default"):
        for loss in (0, 1):
            for sens in ("autograd", "adjoint") if not loss else ("autograd",):
                for solver in ("rk4", "dopri5"):
                    yield {"kind": "flow", "est": est, "loss": loss, "sens": sens, "solver": solver}


class Block(nn.Module):
    def __init__(self, i, o, k, act=True):
        super().__init__()
        self.l, self.act = nn.Linear(i, o), act
        for j, p in enumerate(self.l.parameters()):
            p.data = torch.sin(torch.arange(p.numel(), dtype=torch.float32) * 1.7 + k + 2 * j).reshape(p.shape) * .5

    def forward(self, x):
        y = self.l(x)
        return torch.tanh(y) if self.act else y


def compose(s, d, order):
    "blocks acting on a state of d*order channels, result d channels"
    w, ms = d * order, []
    for k, c in enumerate(s):
        if c == "t":
            ms.append(DepthCat(1))
            w += 1
        elif c == "c":
            ms.append(DataControl())
            w += d * order
        else:
            ms.append(Block(w, 3, k))
            w = 3
    ms.append(Block(w, d, 9, act=False))
    return nn.Sequential(*ms)


def explicit(net, s, order, d, loss):
    def core(t, x, c):
        h = x
        for k, ch in enumerate(s):
            if ch == "t":
                h = torch.cat([h, torch.as_tensor(t).to(x).reshape(1, 1).expand(x.shape[0], 1)], 1)
            elif ch == "c":
                h = torch.cat([h, c], 1)
            else:
                h = torch.tanh(F.linear(h, net[k].l.weight, net[k].l.bias))
        return F.linear(h, net[-1].l.weight, net[-1].l.bias)

    def field(c):
        def f(t, z):
            x = z[:, 1:] if loss else z
            y = core(t, x, c)
            y = torch.cat([x[:, d:], y], 1)
            return torch.cat([LOSS(t, x)[:, None], y], 1) if loss else y
        return f
    return field


def LOSS(t, x):
    return torch.cos(torch.as_tensor(t).to(x).reshape(())) * (x ** 2).sum(1) + x[:, 0]


def solve(f, x, ts, solver, tol=None):
    if solver in ("dopri5", "tsit5"):
        return odeint(f, x, ts, solver, **tol)[1]
    tab = {"rk4": RK4, "euler": EULER, "midpoint": MIDPOINT}[solver]
    rows = [x]
    for a, b in zip(ts[:-1], ts[1:]):
        rows.append(rk_step(*tab, f, a, rows[-1], b - a)[0])
    return torch.stack(rows)


def run(case, out):
    globals()["run_" + case["kind"]](case, out)


def data(b, d, dt, k=0.):
    return (torch.cos(torch.arange(b * d, dtype=torch.float64) * 1.3 + .5 + k).reshape(b, d) * .8).to(dt)


def run_blocks(case, out):
    dt, s, order, d = DT[case["dtype"]], case["s"], case["order"], 2
    tol = 1e-9 if dt == torch.float64 else 1e-4
    net = compose(s, d, order).to(dt)
    loss = case["loss"] != "none"
    kw = {}
    if loss:
        kw["integral_loss"] = LOSS if case["loss"] == "flat" else (lambda t, x: LOSS(t, x)[:, None])
    tols = dict(atol=1e-5, rtol=1e-5)
    m = NeuralODE(net, case["solver"], order=order, sensitivity=case["sens"], **(tols if case["solver"] == "dopri5" else {}), **kw)
    field = explicit(net, s, order, d, loss)
    if case["solver"] == "dopri5":
        tol = max(tol, 1e-8 if dt == torch.float64 else 2e-3)
    ps = list(net.parameters())
    calls = [(b1, b2) for b1 in (1, 2, 3) for b2 in (1, 3)]
    for (b1, b2), span in zip(calls, itertools.cycle(SPANS)):
        ts = torch.tensor(span, dtype=dt)
        for i, b in enumerate((b1, b2)):
            x = data(b, d * order, dt, .3 * i)
            z = (torch.cat([torch.full((b, 1), .25 * i, dtype=dt), x], 1) if loss else x.clone()).requires_grad_(True)
            sol = m.trajectory(z, ts) if (b1, b2) == (2, 1) else m(z, ts)[1]
            want = solve(field(x), z, ts, case["solver"], tols)
            out.step(len(ts) - 1)
            out.trace()
            if not out.check(close(sol, want, tol, tol), lambda: "batch %d (call %d), span %s: %s" % (b, i, span, err(sol, want))):
                return
            out.state(s, order, case["loss"], b, i, [round(v, 3) for v in sol.detach().double().reshape(-1).tolist()[-3:]])
            if loss and case["solver"] != "dopri5":
                plain = solve(explicit(net, s, order, d, False)(x), x, ts, case["solver"])
                out.check(close(sol[..., 1:], plain, tol, tol), lambda: "integral loss alters the state: " + err(sol[..., 1:], plain))
            if case["sens"] == "autograd" and case["solver"] != "dopri5":
                v = torch.cos(torch.arange(sol.numel(), dtype=dt)).reshape(sol.shape)
                a = torch.autograd.grad((sol * v).sum(), ps + [z], allow_unused=True)
                r = torch.autograd.grad((want * v).sum(), ps + [z], allow_unused=True)
                for g, h, n in zip(a, r, ["parameter"] * len(ps) + ["initial state (the control is a constant)"]):
                    out.check(close(g, h, tol * 20, tol * 20), lambda: "%s gradient: " % n + err(g, h))


class Mixer(nn.Module):
    "linear along one dimension back to the number of channels"
    def __init__(self, n, idx):
        super().__init__()
        self.idx = idx
        self.w = torch.sin(torch.arange(n * (n + 1), dtype=torch.float64) + .4).reshape(n, n + 1) * .6

    def forward(self, x):
        return torch.tanh(torch.movedim(torch.movedim(x, self.idx, -1) @ self.w.t().to(x), -1, self.idx))


def run_cat(case, out):
    shape, idx = case["shape"], case["idx"]
    for dt in (torch.float64, torch.float32):
        mix = Mixer(shape[idx], idx)
        m = NeuralODE(nn.Sequential(DepthCat(idx), mix), "rk4")
        n = 1
        for q in shape:
            n *= q
        x = torch.cos(torch.arange(n, dtype=dt) * .9 + .2).reshape(shape)

        def f(t, y):
            sh = list(y.shape)
            sh[idx] = 1
            return mix(torch.cat([y, torch.full(sh, float(t), dtype=y.dtype)], idx))
        ts = torch.tensor(SPANS[case["span"]], dtype=dt)
        sol, want = m(x, ts)[1], solve(f, x, ts, "rk4")
        out.step(len(ts) - 1)
        out.trace()
        out.check(sol.dtype == dt and close(sol, want, 1e-5 if dt == torch.float32 else 1e-10, 1e-5 if dt == torch.float32 else 1e-10), lambda: err(sol, want))
        out.state(shape, idx, str(dt), case["span"])
        # the layer alone
        layer = DepthCat(idx)
        for t in (0., -1.5, .3, torch.tensor(.7), torch.tensor([.7]), torch.tensor(.7, dtype=torch.float64)):
            layer.t = t
            y = layer(x)
            k = shape[idx]
            a, b = torch.split(y, [k, 1], idx)
            out.check(y.dtype == dt and torch.equal(a, x) and close(b, torch.full_like(b, float(t)), 1e-6, 1e-6), lambda: "depth %s not concatenated along dimension %d" % (t, idx))
            out.step()


def run_augment(case, out):
    shape, dt = case["shape"], DT[case["dtype"]]
    n = 1
    for q in shape:
        n *= q
    x = torch.cos(torch.arange(n, dtype=dt) + .1).reshape(shape)
    keep = x.clone()
    for idx in list(range(len(shape))) + [-1]:
        for dims in (1, 2, 3):
            for order in ("first", "last"):
                a = Augmenter(idx, dims, order=order)
                y = a(x)
                e = list(shape)
                e[idx] += dims
                sizes = [dims, shape[idx]] if order == "first" else [shape[idx], dims]
                ok = out.check(list(y.shape) == e and y.dtype == dt, lambda: "shape %s, dtype %s for %s" % (tuple(y.shape), y.dtype, (idx, dims, order)))
                if ok:
                    p = torch.split(y, sizes, idx)
                    body, aug = (p[1], p[0]) if order == "first" else (p[0], p[1])
                    out.check(torch.equal(body, keep) and float(aug.abs().sum()) == 0, "data changed or augmentation not zero for %s" % ((idx, dims, order),))
                x2 = x * 2
                out.check(close(a(x2).sum(), x2.sum(), 1e-5, 1e-5) and torch.equal(a(x), y), "second use differs")
                out.check(torch.equal(x, keep), "input modified")
                # differentiable in the data
                xg = x.clone().requires_grad_(True)
                out.check(torch.equal(torch.autograd.grad(a(xg).sum(), xg)[0], torch.ones_like(x)), "not the identity on the data for gradients")
                out.step()
                out.trace()
                out.state(shape, idx, dims, order)
        for order in ("first", "last"):
            for k in (1, 2, 3):
                fn = nn.Linear(shape[-1], k).to(dt) if idx in (-1, len(shape) - 1) else None
                g = fn if fn is not None else (lambda v: torch.sin(torch.cat([v] * k, idx)))
                a = Augmenter(augment_idx=idx, augment_func=g, order=order)
                y, w = a(x), g(x)
                e = torch.cat([w, x] if order == "first" else [x, w], idx)
                out.check(y.dtype == dt and torch.equal(y, e), "function augmentation %s" % ((idx, order, k),))
                if fn is not None:
                    gr = torch.autograd.grad(y.sum(), fn.weight)[0]
                    er = torch.autograd.grad(e.sum(), fn.weight)[0]
                    out.check(close(gr, er, 1e-5, 1e-5) and dict(a.named_parameters()), "augmentation function is not trained")
                out.trace()
                out.step()


def run_chain(case, out):
    "models in sequence: each one is controlled by its own input"
    nets = [compose(s, 2, 1).double() for s in ("lct", "tc", "clt")][:case["n"]]
    ts = torch.linspace(0, 1, 2)
    for pat in itertools.product((0, 1), repeat=case["n"]):
        ms = [NeuralODE(n, case["solver"], return_t_eval=False) for n in nets]
        layers = []
        for m, p in zip(ms, pat):
            layers += [m, Last()] + ([Affine()] if p else [])
        model = nn.Sequential(*layers)
        for b in (1, 3, 2):
            x = data(b, 2, torch.float64, .1 * b)
            y = model(x)
            w = x
            for n, s, p in zip(nets, ("lct", "tc", "clt"), pat):
                w = solve(explicit(n, s, 1, 2, False)(w), w, ts, case["solver"], dict(atol=1e-3, rtol=1e-3))[-1]
                w = 2 * w - .1 if p else w
            out.step(case["n"])
            out.trace()
            out.check(close(y, w, 1e-6, 1e-6), lambda: "pattern %s batch %d: %s" % (pat, b, err(y, w)))
            out.state(case["solver"], pat, b)


class Last(nn.Module):
    def forward(self, x):
        return x[-1]


class Affine(nn.Module):
    def forward(self, x):
        return 2 * x - .1


def run_record(case, out):
    "time and control seen at every evaluation, forward and backward"
    seen = []

    class Probe(nn.Module):
        def __init__(self):
            super().__init__()
            self.w = nn.Parameter(torch.tensor([.3, -.2], dtype=torch.float64))

        def forward(self, t, x):
            seen.append((float(t), float(cat.t), float(cat2.t), x.detach().clone(), ctl._control.detach().clone()))
            return self.w * torch.tanh(ctl(cat(x))[:, :2] + cat2(x)[:, 2:])
    p = Probe()
    cat, cat2, ctl = DepthCat(1), DepthCat(1), DataControl()
    p.cat, p.cat2, p.ctl = cat, cat2, ctl
    m = NeuralODE(p, case["solver"], sensitivity=case["sens"], atol=1e-3, rtol=1e-3)
    for k, (b, train, span) in enumerate(itertools.product((1, 2), (1, 0), SPANS)):  # consecutive calls of one batch size and mode
        m.train(bool(train))
        if True:
            seen.clear()
            x = (data(b, 2, torch.float64) + .1 * k).requires_grad_(True)
            _, sol = m(x, torch.tensor(span, dtype=torch.float64))
            n = len(seen)
            sol[-1].sum().backward()
            out.check(n > 0 and all(abs(t - a) < 1e-12 and abs(t - a2) < 1e-12 for t, a, a2, _, _ in seen), "a layer sees another time than the vector field")
            out.check(all(torch.equal(c, x.detach()) for *_, c in seen), "control is not the initial condition of the call")
            lo, hi = min(span), max(span)
            out.check(all(lo - 1e-9 <= t <= hi + 1e-9 for t, *_ in seen), lambda: "evaluated at %s outside %s" % (sorted({round(t, 4) for t, *_ in seen if not lo - 1e-9 <= t <= hi + 1e-9}), span))
            out.check(torch.equal(seen[0][3], x.detach()) and abs(seen[0][0] - span[0]) < 1e-12, "first evaluation is not at the start")
            out.step(len(seen))
            out.trace()
            out.state(case["sens"], case["solver"], span, b, n, len(seen))


def run_flow(case, out):
    "depth and control layers inside a continuous normalizing flow: the control has neither the loss nor the divergence channel"
    seen = []

    class Probe(nn.Module):
        def __init__(self):
            super().__init__()
            self.w = nn.Parameter(torch.tensor([.3, -.2], dtype=torch.float64))
            self.cat, self.ctl = DepthCat(1), DataControl()

        def forward(self, x):
            seen.append((float(self.cat.t), self.ctl._control.detach().clone()))
            y = self.ctl(self.cat(x))
            if not out.check(y.shape[1] == 5, lambda: "depth, state and control have %d channels for 1 + 2 + 2" % y.shape[1]):
                raise ValueError("wrong width")
            return self.w * torch.tanh(y[:, :2] * y[:, 2:3] + y[:, 3:])
    noise = torch.distributions.MultivariateNormal(torch.zeros(2, dtype=torch.float64), torch.eye(2, dtype=torch.float64))
    est = {"autograd": dict(trace_estimator=autograd_trace), "hutch": dict(trace_estimator=hutch_trace, noise_dist=noise), "default": {}}[case["est"]]
    m = NeuralODE(CNF(Probe(), **est), case["solver"], sensitivity=case["sens"], atol=1e-3, rtol=1e-3, integral_loss=(lambda t, z: z[:, 1:].pow(2).sum(1)) if case["loss"] else None)
    lead = 2 if case["loss"] else 1
    for k, (b, train, span) in enumerate(itertools.product((1, 2), (1, 0), SPANS)):
        m.train(bool(train))
        seen.clear()
        x = data(b, 2, torch.float64) + .1 * k
        z = torch.cat([torch.zeros(b, lead, dtype=torch.float64), x], 1).requires_grad_(True)
        _, sol = m(z, torch.tensor(span, dtype=torch.float64))
        n = len(seen)
        sol[-1].sum().backward()
        lo, hi = min(span), max(span)
        out.check(n > 0 and (case["sens"] == "autograd" or len(seen) > n) and all(lo - 1e-9 <= t <= hi + 1e-9 for t, _ in seen), lambda: "depths %s seen over %s" % (sorted({round(t, 4) for t, _ in seen}), span))
        out.check(all(torch.equal(c, x) for _, c in seen), "control is not the data of the call")
        out.step(len(seen))
        out.trace()
        out.state(case["est"], case["loss"], case["sens"], case["solver"], span, b, train, len(seen))
