"""C17: energy models on every monomial energy (a basis of the polynomials up to degree 3), every state of a lattice and batch composition, against hand-derived fields."""
import itertools
import torch
import torch.nn as nn
from torchdyn.models import HNN, GNF, LNN, ConservativeLinearSNF
from torchdyn.core import NeuralODE
from torchdyn.numerics import odeint
from mc.common import *

PROPERTY = "C17"
RULE = ("all monomials up to degree 3 (plus dense combinations) as energies x phase dimensions x batches over a state lattice x gradient and training modes: model output compared with the "
        "symbolically differentiated field, its derivatives w.r.t. state and energy coefficients, and solves through the neural ODE; Lagrangians: mass matrices x monomials")
ASSUMPTIONS = ["Lagrangians with regular mass matrix"]
CASE_LIMIT = 60
LAT = [-1., 0., .5, 2.]


def monos(d, deg):
    return [e for e in itertools.product(range(deg + 1), repeat=d) if 0 < sum(e) <= deg]


def bounds(tier):
    return {"phase_dims": [2, 4], "monomials": {d: len(monos(d, 3)) for d in (1, 2, 3, 4)}, "state_lattice": LAT, "batches": [1, 2, 3]}


def cases(tier):
    deep = tier == "thorough"
    for model in ("hnn", "gnf"):
        for d in ((2, 4) if model == "hnn" else (1, 2, 3)):
            ms = monos(d, 3)
            for k in range(len(ms)):
                for dt in ("f64", "f32"):
                    for form in ("col", "flat", "many"):
                        if dt == "f32" and form != "col" and not deep:
                            continue
                        yield {"kind": "mono", "model": model, "d": d, "k": k, "dtype": dt, "form": form}
            if deep:
                for a, b in itertools.combinations(range(len(ms)), 2):
                    yield {"kind": "mono", "model": model, "d": d, "k": a, "k2": b, "dtype": "f64", "form": "col"}
            for k in range(4):
                for o in ("rk4", "dopri5"):
                    yield {"kind": "node", "model": model, "d": d, "k": k, "solver": o}
    for d in (1, 2, 3, 4):
        for k in range(len(monos(d, 3))):
            for dt in ("f64", "f32"):
                for flat in (1, 0):
                    if d < 4 or deep or (k % 3 == flat and dt == "f64"):
                        yield {"kind": "snf", "d": d, "k": k, "dtype": dt, "flat": flat}
    for n in (1, 2):
        for mass in range(5):
            for k in range(len(monos(2 * n, 3))):
                for dt in ("f64", "f32"):
                    if dt == "f32" and mass and (not deep or mass > 2):
                        continue
                    yield {"kind": "lnn", "n": n, "mass": mass, "k": k, "dtype": dt}


class Poly(nn.Module):
    "sum of coefficients times monomials over the last dimension"
    def __init__(self, exps, coef, form="col", dt=torch.float64):
        super().__init__()
        self.exps, self.form = exps, form
        self.c = nn.Parameter(torch.tensor(coef, dtype=dt))

    def terms(self, x):
        out = []
        for e in self.exps:
            m = torch.ones_like(x[..., 0])
            for i, p in enumerate(e):
                for _ in range(p):
                    m = m * x[..., i]
            out.append(m)
        return torch.stack(out, -1)

    def forward(self, x):
        v = self.terms(x) * self.c
        if self.form == "flat":
            return v.sum(-1)
        if self.form == "many":
            return torch.stack([.25 * v.sum(-1), .75 * v.sum(-1)], -1)
        return v.sum(-1, keepdim=True)


def d_poly(exps, c, x, i):
    "derivative with respect to coordinate i, by the power rule"
    tot = 0 * x[..., 0] * c[0]
    for e, a in zip(exps, c):
        if e[i] == 0:
            continue
        m = a * e[i] * torch.ones_like(x[..., 0])
        for j, p in enumerate(e):
            for _ in range(p - (j == i)):
                m = m * x[..., j]
        tot = tot + m
    return tot


def d2_poly(exps, c, x, i, j):
    ders, cs = [], []
    for k, e in enumerate(exps):
        if e[i]:
            ders.append(tuple(p - (q == i) for q, p in enumerate(e)))
            cs.append(c[k] * e[i])
    if not ders:
        return 0 * x[..., 0]
    return d_poly(ders, cs, x, j)


def field(model, exps, c, x):
    d = x.shape[-1]
    g = [d_poly(exps, c, x, i) for i in range(d)]
    if model == "gnf":
        return -torch.stack(g, -1)
    n = d // 2
    return torch.stack(g[n:] + [-v for v in g[:n]], -1)


def states(d, dt):
    pts = list(itertools.product(LAT, repeat=d))
    if d > 2:
        pts = pts[::7] if d == 4 else pts[::2]
    return torch.tensor(pts, dtype=dt)


def run(case, out):
    globals()["run_" + case["kind"]](case, out)


MODEL = {"hnn": HNN, "gnf": GNF, "lnn": LNN}


def run_mono(case, out):
    dt, d = DT[case["dtype"]], case["d"]
    ms = monos(d, 3)
    exps = [ms[case["k"]], ms[case.get("k2", (case["k"] * 5 + 1) % len(ms))], (2,) + (0,) * (d - 1)]
    tol = 1e-9 if dt == torch.float64 else 2e-4
    for coef in ([1., 0., 0.], [1.5, -.5, .25]):
        net = Poly(exps, coef, case["form"], dt)
        m = MODEL[case["model"]](net)
        pts = states(d, dt)
        for mode in ("grad", "no_grad", "leaf"):
            for bs in (1, 2, 3, len(pts)):
                for start in range(0, len(pts), bs) if bs > 3 or mode == "grad" else (0, 1):
                    x = pts[start:start + bs].clone()
                    if mode == "leaf":
                        x.requires_grad_(True)
                    with torch.set_grad_enabled(mode != "no_grad"):
                        y = m(x)
                    w = field(case["model"], exps, coef, pts[start:start + bs])
                    out.step()
                    out.trace()
                    if not out.check(y.dtype == dt and close(y, w, tol, tol), lambda: "states %s: %s" % (x.tolist()[:2], err(y, w))):
                        return
                    # energy is conserved / never increases along the field
                    g = torch.stack([d_poly(exps, coef, pts[start:start + bs], i) for i in range(d)], -1)
                    rate = (g * y.detach()).sum(-1)
                    out.check(bool((rate.abs() <= 1e-6 * (1 + g.norm() ** 2)).all()) if case["model"] == "hnn" else bool((rate <= 1e-6).all()), "energy rate %s" % rate.tolist()[:3])
        out.state(case["model"], d, case["k"], coef, [round(v, 4) for v in y.reshape(-1).tolist()[:4]])
        # derivatives of the field, also with only one sample of the batch read
        x1, x2 = pts[:5].clone().requires_grad_(True), pts[:5].clone().requires_grad_(True)
        c2 = torch.tensor(coef, dtype=dt, requires_grad=True)
        y1, y2 = m(x1), field(case["model"], exps, c2, x2)
        if case["k"] % 2:
            m.eval()
            y1 = m(x1)
            m.train()
        for row in range(len(x1)):
            for col in range(d):
                a = torch.autograd.grad(y1[row, col], [x1, net.c], retain_graph=True, allow_unused=True)
                b = torch.autograd.grad(y2[row, col], [x2, c2], retain_graph=True, allow_unused=True)
                for k, (u, v) in enumerate(zip(a, b)):
                    u, v = [torch.zeros_like([x1, c2][k]) if z is None else z for z in (u, v)]
                    if not out.check(close(u, v, tol, tol), lambda: "derivative of output %d of sample %d w.r.t. %s: %s" % (col, row, ("states", "energy coefficients")[k], err(u, v))):
                        return


class Inter(nn.Module):
    "state-dependent interconnection matrices, flattened or not"
    def __init__(self, d, flat, dt):
        super().__init__()
        self.d, self.flat = d, flat
        self.a = nn.Parameter(torch.cos(1.7 * torch.arange(d * d, dtype=dt)).reshape(d, d))
        self.b = nn.Parameter(torch.sin(2.3 * torch.arange(d ** 3, dtype=dt) + .4).reshape(d, d, d))

    def forward(self, x):
        m = self.a + torch.einsum("bi,ijk->bjk", x, self.b)
        return m.reshape(len(x), -1) if self.flat else m


def run_snf(case, out):
    "conservative linear flow: the skew-symmetric part of the interconnection applied to the gradient; energy is conserved"
    d, dt = case["d"], DT[case["dtype"]]
    ms = monos(d, 3)
    exps, coef = [ms[case["k"]], ms[(case["k"] * 5 + 1) % len(ms)], (2,) + (0,) * (d - 1)], [1.5, -.5, .25]
    tol = 1e-9 if dt == torch.float64 else 5e-4
    net, J = Poly(exps, coef, "col", dt), Inter(d, case["flat"], dt)
    m = ConservativeLinearSNF(net, J)
    pts = states(d, dt)

    def ref(x, c, a, b):
        M = a + torch.einsum("bi,ijk->bjk", x, b)
        g = torch.stack([d_poly(exps, c, x, i) for i in range(d)], -1)
        rows = []
        for k in range(d):
            rows.append(sum(.5 * (M[:, j, k] - M[:, k, j]) * g[:, j] for j in range(d)))
        return torch.stack(rows, -1), g
    for mode in ("grad", "no_grad", "eval"):
        m.train(mode != "eval")
        for bs in (1, 2, 3, len(pts)):
            for start in range(0, len(pts), bs) if bs > 3 or mode == "grad" and d < 4 else (0, 1):
                x = pts[start:start + bs].clone()
                with torch.set_grad_enabled(mode != "no_grad"):
                    y = m(x)
                w, g = ref(pts[start:start + bs], coef, J.a.detach(), J.b.detach())
                out.step()
                out.trace()
                if not out.check(y.shape == x.shape and y.dtype == dt and close(y, w, tol, tol), lambda: "states %s: %s" % (x.tolist()[:2], err(y, w))):
                    return
                rate = (g * y.detach()).sum(-1)
                out.check(bool((rate.abs() <= 1e-5 * (1 + g.norm() ** 2) * (1e-4 if dt == torch.float64 else 1)).all()), lambda: "energy rate %s" % rate.tolist()[:3])
    m.train(case["k"] % 2 == 0)
    x1, x2 = pts[:4].clone().requires_grad_(True), pts[:4].clone().requires_grad_(True)
    c2, a2, b2 = torch.tensor(coef, dtype=dt, requires_grad=True), J.a.detach().clone().requires_grad_(True), J.b.detach().clone().requires_grad_(True)
    y1, y2 = m(x1), ref(x2, c2, a2, b2)[0]
    for row in range(len(x1)):
        for col in range(d):
            a = torch.autograd.grad(y1[row, col], [x1, net.c, J.a, J.b], retain_graph=True, allow_unused=True)
            b = torch.autograd.grad(y2[row, col], [x2, c2, a2, b2], retain_graph=True, allow_unused=True)
            for k, (u, v) in enumerate(zip(a, b)):
                u, v = [torch.zeros_like([x1, c2, a2, b2][k]) if z is None else z for z in (u, v)]
                if not out.check(close(u, v, tol, tol), lambda: "derivative of output %d of sample %d w.r.t. input %d: %s" % (col, row, k, err(u, v))):
                    return
    out.state("snf", d, case["k"], case["flat"], [round(v, 4) for v in y1.detach().reshape(-1).tolist()[:4]])


def run_node(case, out):
    d = case["d"]
    ms = monos(d, 3)
    exps = [(2,) + (0,) * (d - 1), (0,) * (d - 1) + (2,), ms[(case["k"] * 3 + 1) % len(ms)], (1,) * min(d, 2) + (0,) * (d - min(d, 2))]
    coef = [.5, .6, .1, .2]
    net = Poly(exps, coef)
    model = MODEL[case["model"]](net)
    x0 = torch.tensor(list(itertools.product([-.5, .4, .7], repeat=d))[::max(1, 3 ** (d - 2))][:4], dtype=torch.float64)
    kw = dict(atol=1e-8, rtol=1e-8) if case["solver"] == "dopri5" else {}
    for ts in (torch.linspace(0, 1, 9, dtype=torch.float64), torch.linspace(1, 0, 5, dtype=torch.float64)):
        for sens in ("autograd", "adjoint"):
            if case["model"] == "gnf" and ts[0] > ts[-1]:
                continue
            x = x0.clone().requires_grad_(True)
            m = NeuralODE(model, case["solver"], sensitivity=sens, atol=1e-8, rtol=1e-8, atol_adjoint=1e-8, rtol_adjoint=1e-8)
            m.train(sens == "autograd" or case["k"] % 2 == 0)
            _, sol = m(x, ts)
            c2 = torch.tensor(coef, dtype=torch.float64, requires_grad=True)
            x2 = x0.clone().requires_grad_(True)
            _, want = odeint(lambda t, y: field(case["model"], exps, c2, y), x2, ts, case["solver"], **kw)
            out.check(close(sol, want, 1e-7, 1e-7), lambda: "%s: %s" % (sens, err(sol, want)))
            w = torch.cos(torch.arange(sol.numel(), dtype=torch.float64)).reshape(sol.shape)
            a = torch.autograd.grad((sol * w).sum(), [x, net.c], allow_unused=True)
            b = torch.autograd.grad((want * w).sum(), [x2, c2], allow_unused=True)
            gt = 1e-6 if sens == "autograd" else 1e-3 if case["solver"] == "rk4" else 2e-5
            for u, v in zip(a, b):
                out.check(u is not None and close(u, v, gt, gt), lambda: "%s gradient: %s" % (sens, "missing" if u is None else err(u, v)))
            E = net(sol.detach()).reshape(len(ts), -1)
            if case["model"] == "hnn":
                out.check(bool(((E - E[:1]).abs() < (1e-5 if case["solver"] == "dopri5" else 1e-4)).all()), "energy drifts by %s" % float((E - E[:1]).abs().max()))
            else:
                out.check(bool((E.diff(dim=0) <= 1e-9).all()), "energy increases along the flow")
            out.step(len(ts))
            out.trace()
            out.state(case["model"], d, sens, [round(v, 5) for v in sol[-1].reshape(-1).tolist()[:3]])
    traj = m.trajectory(x0, ts)
    out.check(close(traj, sol.detach() if case["model"] == "hnn" else traj, 1e-7, 1e-7), "trajectory differs from the forward call")


MASS = {1: [[[1.]], [[2.]], [[-.5]], [[.02]], [[300.]]], 2: [[[1., 0.], [0., 1.]], [[2., .5], [.5, 1.]], [[1., -.3], [-.3, -2.]], [[50., .1], [.1, .02]], [[400., 0.], [0., 1.]]]}


def run_lnn(case, out):
    n, dt = case["n"], DT[case["dtype"]]
    d = 2 * n
    M = MASS[n][case["mass"]]
    exps, coef = [], []
    for i in range(n):
        for j in range(n):
            e = [0] * d
            e[n + i] += 1
            e[n + j] += 1
            exps.append(tuple(e))
            coef.append(.5 * M[i][j])
    exps.append(monos(d, 3)[case["k"]])
    coef.append(.125)
    net = Poly(exps, coef, "flat", dt)
    m = LNN(net)
    pts = torch.tensor(list(itertools.product([-.5, .25, 1.], repeat=d))[:: 1 if n == 1 else 5], dtype=dt)

    def ref(c, x):
        H = torch.stack([torch.stack([d2_poly(exps, c, x, n + i, n + j) for j in range(n)], -1) for i in range(n)], -2)
        mix = torch.stack([torch.stack([d2_poly(exps, c, x, n + i, j) for j in range(n)], -1) for i in range(n)], -2)
        dq = torch.stack([d_poly(exps, c, x, i) for i in range(n)], -1)
        rhs = dq - (mix @ x[:, n:, None])[..., 0]
        return torch.cat([x[:, n:], torch.linalg.solve(H, rhs[..., None])[..., 0]], 1), H
    _, H = ref(coef, pts)
    ok = torch.linalg.det(H).abs() > .05
    if case["mass"] > 2:  # badly scaled mass matrices: condition numbers up to some thousand
        ok = (torch.linalg.det(H).abs() > .2 * torch.linalg.det(torch.tensor(M, dtype=dt)).abs()) & (torch.linalg.cond(H) < 1e5)
    pts = pts[ok]
    tol = 1e-8 if dt == torch.float64 else 5e-4
    for bs in (1, 2, 5):
        for s in range(0, len(pts), bs):
            x = pts[s:s + bs].clone()
            y, w = m(x), ref(coef, pts[s:s + bs])[0]
            out.step()
            out.trace()
            if not out.check(close(y, w, tol, tol), lambda: "states %s: %s" % (x.tolist()[:2], err(y, w))):
                return
    out.state(n, case["mass"], case["k"], [round(v, 4) for v in y.reshape(-1).tolist()])
    if dt == torch.float64:
        x1, x2 = pts[:3].clone().requires_grad_(True), pts[:3].clone().requires_grad_(True)
        c2 = torch.tensor(coef, dtype=dt, requires_grad=True)
        m.train(case["k"] % 2 == 0)
        y1, y2 = m(x1), ref(c2, x2)[0]
        for row in range(3):
            for col in range(d):
                a = torch.autograd.grad(y1[row, col], [x1, net.c], retain_graph=True, allow_unused=True)
                b = torch.autograd.grad(y2[row, col], [x2, c2], retain_graph=True, allow_unused=True)
                for k, (u, v) in enumerate(zip(a, b)):
                    u, v = [torch.zeros_like([x1, c2][k]) if z is None else z for z in (u, v)]
                    if not out.check(close(u, v, 1e-7, 1e-7), lambda: "derivative of output %d of sample %d w.r.t. %s: %s" % (col, row, ("states", "energy coefficients")[k], err(u, v))):
                        return
