"""C11: every iteration cap on every grid: shooting states against the parareal / Newton recursion and the sequential fine solution computed by a reference."""
import itertools
import torch
import torch.nn as nn
from torchdyn.numerics import odeint_mshooting
from torchdyn.numerics.solvers.ode import MSZero, MSBackward, ParallelImplicitEuler
from torchdyn.core import MultipleShootingProblem, MultipleShootingLayer
from mc.common import *

PROPERTY = "C11"
RULE = ("all (grid size, iteration cap 0 .. past the grid size, coarse/fine method pair, fine step count, vector field, state layout, initial guess, entry point, dtype): rows compared "
        "with the reference recursion, exact prefix with the sequential fine solution, gradients of the converged rows with those of the sequential solution")
ASSUMPTIONS = ["autonomous vector fields, uniform grids (as documented)", "the initial guess starts at the initial state"]
CASE_LIMIT = 100
M = {"euler": EULER, "midpoint": MIDPOINT, "rk4": RK4}


class Aff(nn.Module):
    def __init__(self):
        super().__init__()
        self.W, self.b = nn.Parameter(tens([[-.5, .8], [-.6, -.3]])), nn.Parameter(tens([.2, -.1]))

    def forward(self, t, x):
        return x @ self.W + self.b


class Non(nn.Module):
    def __init__(self):
        super().__init__()
        self.W = nn.Parameter(tens([[.9, -.8], [.6, .4]]))

    def forward(self, t, x):
        return torch.sin(x @ self.W) - .3 * x * x


class NonX(Non):
    def forward(self, x):
        return torch.sin(x @ self.W) - .3 * x * x


class Elem(nn.Module):
    def __init__(self):
        super().__init__()
        self.a = nn.Parameter(tens(.7))

    def forward(self, t, x):
        return self.a * x * (1 - x)


class Cub(nn.Module):
    def __init__(self):
        super().__init__()
        self.a = nn.Parameter(tens(.7))

    def forward(self, t, x):
        return -self.a * x - .3 * x ** 3 + .2


class Wild(nn.Module):
    "steep enough for neither correction to converge before it terminates"
    def forward(self, t, x):
        return 3 * torch.sin(2 * x) + .1 * x.roll(1, -1)


FLD = {"cub": Cub, "aff": Aff, "non": Non, "nonx": NonX, "elem": Elem}
X = {"m": [[.5, -.4], [.3, .9], [.1, .2]], "b1": [[.5, -.4]], "v": [.5, .2], "t3": [[[.5, -.4], [.1, .6]]]}
SPAN = {"u": (0., 1.), "neg": (-1., 1.), "off": (3., 3.5), "long": (0., 2.), "w9": (0., 4.), "w13": (0., 6.), "w18": (0., 8.5)}


def bounds(tier):
    return {"grid_sizes": "2..%d" % (6 if tier == "quick" else 9), "caps": "0..n+1", "fine_steps": [2, 3, 5], "fields": sorted(FLD), "methods": sorted(M)}


def cases(tier):
    deep = tier == "thorough"
    for n in range(2, 10 if deep else 7):
        for alg in ("zero", "backward"):
            for co in M:
                for fi in M:
                    for fs in (2, 3, 5):
                        for fld in FLD:
                            for x in X:
                                for e in ("fn", "inst", "problem", "layer"):
                                    for sp in ("u", "neg", "off", "long"):
                                        for dt in ("f64", "f32"):
                                            w = (x != "m") + (e != "fn") + (sp != "u") + (dt != "f64") + (fs != 3) + ((co, fi) != ("euler", "rk4")) + (fld != "non")
                                            if w > (2 if n <= 4 or deep else 1) or (e in ("fn", "problem", "layer") and (co, fi) != ("euler", "rk4")) or n > 6 and w > 1 or e == "fn" and fld == "nonx":
                                                continue
                                            yield {"kind": "rows", "n": n, "alg": alg, "coarse": co, "fine": fi, "fs": fs, "field": fld, "x": x, "entry": e, "span": sp, "dtype": dt}
    for n in (9, 13, 18) + ((24, 40) if deep else ()):
        for alg in ("zero", "backward"):
            for fld in FLD:
                for e in ("inst", "layer"):
                    if n > 13 and (alg == "backward" or e == "layer") and not deep:
                        continue
                    yield {"kind": "rows", "n": n, "alg": alg, "coarse": "euler", "fine": "rk4", "fs": 2, "field": fld, "x": "m" if n < 13 else "b1", "entry": e, "span": "u", "dtype": "f64"}
    for n in (9, 13, 18):
        for alg in ("zero", "backward"):
            for e in ("inst", "layer") if alg == "zero" or n == 9 else ():  # Newton iterates amplify rounding on the longer spans
                yield {"kind": "rows", "n": n, "alg": alg, "coarse": "euler", "fine": "rk4", "fs": 2, "field": "wild", "x": "b1", "entry": e, "span": "w%d" % n, "dtype": "f64"}
    for n in (2, 3, 4, 5):
        for alg in ("zero", "backward"):
            for fld in FLD:
                for g in (0, 1, 2):
                    yield {"kind": "grad", "n": n, "alg": alg, "field": fld, "guess": g}
        for fld in ("aff", "cub"):
            for x in ("m", "b1"):
                for grid in ("uni", "irr"):
                    for B in (0, 1):
                        yield {"kind": "pie", "n": n, "field": fld, "x": x, "grid": grid, "guess": B}
    for sens in ("adjoint", "interpolated_adjoint"):
        for alg in ("zero", "backward"):
            for fld in FLD:
                yield {"kind": "adj", "sens": sens, "alg": alg, "field": fld}


def run(case, out):
    globals()["run_" + case["kind"]](case, out)


def prop(m, f, x, h, steps):
    "steps-1 uniform steps over an interval of length h"
    c, A, b = M[m]
    k = h / (steps - 1)
    for _ in range(steps - 1):
        x, _ = rk_step(c, A, b, lambda t, y: f(y), 0., x, k)
    return x


def guess(kind, x, n, coarse, f, h):
    if kind == 0:
        B = [x]
        for _ in range(n - 1):
            B.append(prop(coarse, f, B[-1], h, 2))
        return torch.stack(B)
    if kind == 1:
        return torch.stack([x] + [x * 0 + .3 * i for i in range(1, n)])
    return torch.stack([x] * n)


def jac(F, b):
    return torch.autograd.functional.jacobian(F, b)


def reference(alg, f, B, h, coarse, fine, fs, iters):
    n = len(B)
    B = list(B)
    hist = [list(B)]
    for it in range(1, iters + 1):
        new = [B[0]]
        for m in range(1, n):
            fm = prop(fine, f, B[m - 1], h, fs)
            if alg == "zero":
                new.append(prop(coarse, f, new[-1], h, fs) - prop(coarse, f, B[m - 1], h, fs) + fm)
            else:
                d = new[-1] - B[m - 1]
                _, jv = torch.autograd.functional.jvp(lambda y: prop(fine, f, y, h, fs), B[m - 1], d)
                new.append(fm + jv)
        B = new
        hist.append(B)
    return hist


def solve(case, f, x, ts, maxiter, B0, dt):
    alg, fs, e = case["alg"], case["fs"], case["entry"]
    names = {"zero": ["mszero", "zero", "parareal"], "backward": ["msbackward", "backward", "discrete-adjoint"]}[alg]
    name = names[maxiter % 3]
    cls = MSZero if alg == "zero" else MSBackward
    if e == "fn":
        return odeint_mshooting(f, x, ts, name, B0, fine_steps=fs, maxiter=maxiter)
    s = cls(case["coarse"], case["fine"])
    if e == "inst":
        return odeint_mshooting(f, x, ts, s, B0, fine_steps=fs, maxiter=maxiter)
    C = MultipleShootingProblem if e == "problem" else MultipleShootingLayer
    m = C(f, name if maxiter % 2 else s, maxiter=maxiter, fine_steps=fs)
    return m(x, ts, B0)


def run_rows(case, out):
    dt = DT[case["dtype"]]
    f = dict(FLD, wild=Wild)[case["field"]]().to(dt)
    g = (lambda y: f(y)) if case["field"] == "nonx" else (lambda y: f(0., y))
    n, fs = case["n"], case["fs"]
    f64 = dict(FLD, wild=Wild)[case["field"]]()
    x = tens(X[case["x"]], case["dtype"])
    if case["entry"] == "inst" and case["field"] == "nonx":
        f_in = lambda t, y: f(y)
    else:
        f_in = f
    a, b = SPAN[case["span"]]
    ts = torch.linspace(a, b, n, dtype=dt)
    h = (b - a) / (n - 1)
    tol = 1e-9 if dt == torch.float64 else 2e-4
    if case["field"] == "wild":
        tol = 1e-6
    for gk in (None, 0, 1, 2) if n < 9 else (None, 1):
        B0 = None if gk is None else guess(gk, x, n, case["coarse"], lambda y: g(y).detach(), h).detach()
        with torch.no_grad():
            start = guess(0 if gk is None else gk, x, n, case["coarse"], g, h)
        hist = reference(case["alg"], lambda y: g(y), start.detach(), h, case["coarse"], case["fine"], fs, n - 1)
        seq = [x]
        for _ in range(n - 1):
            seq.append(prop(case["fine"], g, seq[-1], h, fs))
        seq = torch.stack(seq)
        for maxiter in range(0, n + 2) if n < 9 else (0, 1, n // 2, n - 3, n - 2, n + 1):
            xk, Bk = x.clone(), None if B0 is None else B0.clone()
            with torch.set_grad_enabled(maxiter % 2 == 0 or n == 2):
                t, B = solve(case, f_in, x, ts, maxiter, B0, dt)
            out.step()
            out.trace()
            it = min(maxiter + 1, n - 1)
            what = "n=%d maxiter=%d guess=%s" % (n, maxiter, gk)
            if not out.check(B.shape == seq.shape and B.dtype == dt and torch.equal(t, ts), "%s: result of shape %s" % (what, tuple(B.shape))):
                return
            out.check(torch.equal(x, xk) and (B0 is None or torch.equal(B0, Bk)), "%s: inputs modified" % what)
            # prefix exact after `it` corrections
            k = min(n, it + 1)
            out.check(close(B[:k], seq[:k], tol, tol), lambda: "%s: rows up to %d are not the fine solution: %s" % (what, k - 1, err(B[:k], seq[:k])))
            want = torch.stack(hist[it])
            out.check(close(B, want, tol, tol * 10), lambda: "%s: iterate %d: %s" % (what, it, err(B, want)))
            if case["coarse"] == case["fine"] and case["alg"] == "zero" or case["alg"] == "backward" and case["field"] == "aff":
                out.check(close(B, seq, tol, tol * 10), lambda: "%s: not exact although methods coincide / system affine: %s" % (what, err(B, seq)))
            out.state(n, maxiter, gk, case["coarse"], case["fine"], [round(v, 5) for v in B.reshape(-1).tolist()[-2:]])
            if out.cur_fails:
                return


def run_grad(case, out):
    f = FLD[case["field"]]()
    n = case["n"]
    g = (lambda y: f(y)) if case["field"] == "nonx" else (lambda y: f(0., y))
    x0 = tens(X["m"])
    ts = torch.linspace(0, 1, n, dtype=torch.float64)
    h = 1 / (n - 1)
    ps = list(f.parameters())
    for row in range(n):
        x = x0.clone().requires_grad_(True)
        seq = [x]
        for _ in range(n - 1):
            seq.append(prop("rk4", g, seq[-1], h, 3))
        w = torch.cos(torch.arange(x.numel(), dtype=torch.float64)).reshape(x.shape)
        want = torch.autograd.grad((seq[row] * w).sum(), [x] + ps, allow_unused=True)
        x = x0.clone().requires_grad_(True)
        m = MultipleShootingProblem(f, case["alg"], maxiter=n, fine_steps=3)
        B0 = None if case["guess"] == 0 else guess(case["guess"], x, n, "euler", g, h)
        _, B = m(x, ts, B0)
        got = torch.autograd.grad((B[row] * w).sum(), [x] + ps, allow_unused=True)
        for i, (a, b) in enumerate(zip(got, want)):
            a, b = [torch.zeros_like(x if i == 0 else ps[i - 1]) if v is None else v for v in (a, b)]
            out.check(close(a, b, 1e-9, 1e-9), lambda: "gradient %d of row %d: %s" % (i, row, err(a, b)))
        out.step()
        out.trace()
        out.state(case["field"], row, n)


def run_adj(case, out):
    from mc import adj
    f = FLD[case["field"]]()
    g = (lambda y: f(y)) if case["field"] == "nonx" else (lambda y: f(0., y))
    x0, ts = tens(X["m"]), torch.linspace(0, 1, 17, dtype=torch.float64)
    ps = list(f.parameters())
    for rows in ((16,), (0,), (5,), (3, 9, 16), tuple(range(17))):
        x = x0.clone().requires_grad_(True)
        seq = [x]
        for _ in range(16):
            seq.append(prop("rk4", g, seq[-1], 1 / 16, 3))
        want = torch.autograd.grad(sum((seq[r] * adj.weights(x.shape, r)).sum() for r in rows), [x] + ps, allow_unused=True)
        x = x0.clone().requires_grad_(True)
        m = MultipleShootingProblem(f, case["alg"], maxiter=17, fine_steps=3, sensitivity=case["sens"], solver_adjoint="dopri5", atol_adjoint=1e-8, rtol_adjoint=1e-8)
        _, B = m(x, ts)
        out.check(close(B, torch.stack(seq), 1e-9, 1e-9), lambda: "rows " + err(B, torch.stack(seq)))
        got = torch.autograd.grad(sum((B[r] * adj.weights(x.shape, r)).sum() for r in rows), [x] + ps, allow_unused=True)
        for i, (a, b) in enumerate(zip(got, want)):
            a, b = [torch.zeros_like(x if i == 0 else ps[i - 1]) if v is None else v for v in (a, b)]
            out.check(close(a, b, 2e-3, 2e-3), lambda: "gradient %d of rows %s: %s" % (i, rows, err(a, b)))
        out.step()
        out.trace()


def run_pie(case, out):
    f = FLD[case["field"]]()
    g = (lambda y: f(y)) if case["field"] == "nonx" else (lambda y: f(0., y))
    F = f if case["field"] != "nonx" else (lambda t, y: f(y))
    n, x = case["n"], tens(X[case["x"]])
    ts = torch.linspace(0, 1, n, dtype=torch.float64) if case["grid"] == "uni" else torch.tensor([0., .1, .4, .9, 1.2][:n], dtype=torch.float64)
    seq = [x]
    with torch.no_grad():
        for a, b in zip(ts[:-1], ts[1:]):
            y = seq[-1].clone()
            for _ in range(400):
                y = .5 * y + .5 * (seq[-1] + (b - a) * g(y))
            seq.append(y)
    want = torch.stack(seq)
    B0 = None if not case["guess"] else torch.stack([x] + [x * 0 + .1] * (n - 1))
    for s in ("ieuler", "parallel-implicit-euler", ParallelImplicitEuler()):
        t, B = odeint_mshooting(F, x, ts, s, B0)
        out.check(B.shape == want.shape and close(B, want, 1e-4, 1e-4), lambda: "implicit Euler trajectory: " + err(B, want))
        out.step()
        out.trace()
        out.state(case["field"], n, [round(v, 4) for v in B.detach().reshape(-1).tolist()[-2:]])
