"""C27: bundled dynamical systems at every state of a lattice, time, batch layout and history of calls and randomizations, against their written-out equations."""
import itertools, math
import torch
from torch.distributions import Uniform
from torchdyn.numerics import odeint
from torchdyn.numerics import systems as S
from mc.common import *

PROPERTY = "C27"
RULE = ("all states of a lattice x times x batch layouts for the systems with fixed equations; all sequences of {call with a scalar time, call with a vector of times, randomize, solve} up to a "
        "depth for the randomizable ones (dimensions, distributions): values recomputed from the public coefficients with scalar arithmetic, new coefficients in the support of their distributions")
ASSUMPTIONS = ["random draws are seeded: the histories are exhausted, the drawn coefficients are not"]

V = (-2., -.5, 0., 1., 3.)
LAYOUTS = {"vec": lambda r: r[0], "row": lambda r: r[:1], "batch": lambda r: r, "cube": lambda r: torch.stack([r, r.flip(0) * .5])}


def lorenz(t, x, o):
    return [10 * (x[1] - x[0]), x[0] * (28 - x[2]) - x[1], x[0] * x[1] - 8 / 3 * x[2]]


def rabinovich(t, x, o):
    return [x[1] * (x[2] - 1 + x[0] ** 2) + .87 * x[0], x[0] * (3 * x[2] + 1 - x[0] ** 2) + .87 * x[1], -2 * x[2] * (1.1 + x[0] * x[1])]


FIXED = {
    "Lorenz": ({}, 3, lorenz),
    "ODEProblem4": ({}, 3, rabinovich),
    "VanDerPol": ({}, 2, lambda t, x, o: [x[1], 10 * (1 - x[0] ** 2) * x[1] - x[0]]),
    "VanDerPol ": ({"alpha": .5}, 2, lambda t, x, o: [x[1], .5 * (1 - x[0] ** 2) * x[1] - x[0]]),
    "ODEProblem2": ({}, 2, lambda t, x, o: [.5 * v for v in x]),
    "ODEProblem3": ({}, 2, lambda t, x, o: [-.1 * v for v in x]),
    "SineSystem": ({}, 2, lambda t, x, o: [math.sin(t) for v in x]),
}
DRAWN = ["FourierSystem", "StiffFourierSystem", "CoupledFourierSystem", "LTISystem", "MatMulSystem", "MatMulBoundedSystem"]
OPS = ["s", "v", "r", "o"]


def bounds(tier):
    return {"lattice": V, "times": [0., -1.5, .7, 20.], "layouts": sorted(LAYOUTS), "operations": OPS, "depth": 3 if tier == "quick" else 5, "dims": [1, 2, 3]}


def cases(tier):
    deep = tier == "thorough"
    for name in FIXED:
        for lay in LAYOUTS:
            for dt in ("f64", "f32"):
                for t in (0., -1.5, .7, 20.):
                    yield {"kind": "fixed", "sys": name, "layout": lay, "dtype": dt, "t": t}
        for lay in LAYOUTS:
            yield {"kind": "far", "sys": name, "layout": lay}
        yield {"kind": "solve", "sys": name}
    for name in DRAWN:
        for d in (1, 2, 3, 6):
            for dist in (0, 1):
                for first in OPS:
                    yield {"kind": "hist", "sys": name, "dim": d, "dist": dist, "first": first, "depth": 5 if deep else 3}


def run(case, out):
    globals()["run_" + case["kind"]](case, out)


def run_fixed(case, out):
    kw, d, ref = FIXED[case["sys"]]
    f = getattr(S, case["sys"].strip())(**kw)
    dt = DT[case["dtype"]]
    tol = 1e-12 if dt == torch.float64 else 2e-5
    rows = list(itertools.product(V, repeat=d))
    t = torch.tensor(case["t"], dtype=dt)
    for i in range(0, len(rows), 3):
        pick = (rows[i:] + rows)[:3]
        x = LAYOUTS[case["layout"]](torch.tensor(pick, dtype=dt))
        keep = x.clone()
        y = f(t, x)
        want = torch.tensor([ref(float(t), r, f) for r in x.double().reshape(-1, d).tolist()], dtype=torch.float64).reshape(x.shape)
        out.step()
        out.trace()
        if not out.check(y.shape == x.shape and y.dtype == dt and close(y, want, tol, tol * 10), lambda: "at t=%g, %s: %s" % (case["t"], pick, err(y, want))):
            return
        out.check(torch.equal(x, keep) and torch.equal(f(t, x), y), "state modified, or a second call differs")
        out.state(case["sys"], case["layout"], case["t"], pick)


def run_far(case, out):
    "large states and batches"
    kw, d, ref = FIXED[case["sys"]]
    f = getattr(S, case["sys"].strip())(**kw)
    rows = list(itertools.product((-300., -12., 0., 7.5, 41.), repeat=d))
    x = LAYOUTS[case["layout"]](torch.tensor(rows, dtype=torch.float64)) if case["layout"] != "vec" else None
    for t in (-40., 1e3):
        for x in [x] if x is not None else [torch.tensor(r, dtype=torch.float64) for r in rows]:
            y = f(torch.tensor(t, dtype=torch.float64), x)
            want = torch.tensor([ref(t, r, f) for r in x.reshape(-1, d).tolist()], dtype=torch.float64).reshape(x.shape)
            out.step()
            out.trace()
            if not out.check(y.shape == x.shape and close(y, want, 1e-10, 1e-5), lambda: "at t=%g: %s" % (t, err(y, want))):
                return
            out.state(case["sys"], case["layout"], t, x.reshape(-1)[:3].tolist())


def run_solve(case, out):
    "the field an ODE solve sees is the same"
    kw, d, ref = FIXED[case["sys"]]
    f = getattr(S, case["sys"].strip())(**kw)
    x = torch.tensor([[.3, -.2, .5][:d], [1., .1, -.4][:d]], dtype=torch.float64)
    g = lambda t, z: torch.stack([torch.tensor(ref(float(t), r, f), dtype=torch.float64) for r in z.tolist()])
    for ts in ([0., .01, .03, .1], [.5, .4, .2]):
        ts = torch.tensor(ts, dtype=torch.float64)
        for s in ("euler", "rk4", "dopri5"):
            a, b = odeint(f, x, ts, s, atol=1e-3, rtol=1e-3)[1], odeint(g, x, ts, s, atol=1e-3, rtol=1e-3)[1]
            out.step(len(ts) - 1)
            out.trace()
            out.check(close(a, b, 1e-10, 1e-10), lambda: "solve with %s over %s: %s" % (s, ts.tolist(), err(a, b)))


def make(case):
    name, d = case["sys"], case["dim"]
    kw = {"dim": d}
    if "Fourier" in name and case["dist"]:
        kw.update(A_dist=Uniform(1., 2.), phi_dist=Uniform(3., 3.5), w_dist=Uniform(-.5, -.1))
    elif "MatMul" in name and case["dist"]:
        kw.update(hdim=4)
    return getattr(S, name)(**kw)


def fourier(f, s, d):
    A, w, p = f.A.double().tolist(), f.w.double().tolist(), f.phi.double().tolist()
    return [sum(A[i][k][j] * math.cos(w[i][k][j] * s + p[i][k][j]) for k in range(len(A[i])) for j in (0, 1)) for i in range(d)]


def value(f, name, s, x, d):
    "one row of the field"
    if "Fourier" in name:
        y = fourier(f, s, d)
        if name == "CoupledFourierSystem":
            W, b = f.mixing_l.weight.double().tolist(), f.mixing_l.bias.double().tolist()
            y = [sum(W[i][j] * y[j] for j in range(d)) + b[i] for i in range(d)]
        return y
    if name == "LTISystem":
        W, b = f.l.weight.double().tolist(), f.l.bias.double().tolist()
        return [sum(W[i][j] * x[j] for j in range(d)) + b[i] for i in range(d)]
    ls = [m for m in f.net.modules() if isinstance(m, torch.nn.Linear)]
    for k, m in enumerate(ls):
        W, b = m.weight.double().tolist(), m.bias.double().tolist()
        x = [sum(W[i][j] * x[j] for j in range(len(x))) + b[i] for i in range(len(b))]
        if k < len(ls) - 1 or name == "MatMulBoundedSystem":
            x = [math.tanh(v) for v in x]
    return x


def coeffs(f, name):
    if "Fourier" in name:
        return [f.A, f.w, f.phi] + (list(f.mixing_l.parameters()) if name.startswith("Coupled") else [])
    return list(f.parameters())


def run_hist(case, out):
    name, d = case["sys"], case["dim"]
    for k, rest in enumerate(itertools.product(OPS, repeat=case["depth"] - 1)):
        torch.manual_seed(k % 7)
        f = make(case)
        at = ""
        for op in (case["first"],) + rest:
            at += op
            cs = [c.detach().clone() for c in coeffs(f, name)]
            ok = True
            if "Fourier" in name:
                n = int(f.n_harmonics)
                lo, hi = (20, 100) if "Stiff" in name else (2, 20)
                ok = ok and lo <= n < hi and all(c.shape == (d, n, 2) for c in (f.A, f.w, f.phi))
                for c, dist in ((f.A, f.A_dist), (f.w, f.w_dist), (f.phi, f.phi_dist)):
                    ok = ok and bool((c >= dist.low).all() and (c <= dist.high).all())
                if not out.check(ok, "coefficients of %s after %s" % (name, at)):
                    return
            out.step()
            out.trace()
            x = torch.tensor([([.5, -1., 2.] * 2)[:d], ([0., .3, -.7] * 2)[:d], ([1., 1., 1.] * 2)[:d]])
            if op == "s":
                for s in (0., .37, -1.):
                    y = f(torch.tensor(s), x)
                    want = torch.tensor([value(f, name, s, r, d) for r in x.tolist()], dtype=torch.float64)
                    if "Fourier" in name:
                        want = want[:1]  # driven by time alone: one row for all samples
                    if not out.check(y.shape == want.shape and close(y, want, 1e-3, 1e-3), lambda: "%s at %g after %s: %s" % (name, s, at, err(y, want))):
                        return
            elif op == "v" and "Fourier" in name:
                ss = [0., .2, .9, -.4]
                y = f(torch.tensor(ss), x)
                want = torch.tensor([value(f, name, s, None, d) for s in ss], dtype=torch.float64)
                if not out.check(y.shape == want.shape and close(y, want, 1e-3, 1e-3), lambda: "%s at the times %s after %s: %s" % (name, ss, at, err(y, want))):
                    return
            elif op == "o":
                _, sol = odeint(f, x, torch.tensor([0., .01, .02]), "euler")
                y = x + .01 * torch.tensor([value(f, name, 0., r, d) for r in x.tolist()])
                out.check(close(sol[1], y, 1e-3, 1e-3), lambda: "%s: first Euler step after %s: %s" % (name, at, err(sol[1], y)))
            now = coeffs(f, name)
            if op != "r":
                out.check(all(torch.equal(a, b) for a, b in zip(cs, now)), "coefficients change in a call")
            else:
                f.randomize_parameters()
                now = coeffs(f, name)
                out.check(all(a.shape == b.shape and a.dtype == b.dtype and not torch.equal(a, b) for a, b in zip(cs, now)), lambda: "%s: coefficients not drawn anew after %s" % (name, at))
        out.state(name, d, case["dist"], at)
