"""C21: toy datasets for every combination of size, dimension, radii, class count and noise level on a set of random states, against the declared geometry."""
import itertools, math
import numpy as np
import torch
from torchdyn.datasets import ToyDataset
from torchdyn.datasets.static_datasets import (generate_concentric_spheres, generate_moons, generate_spirals, generate_gaussians, generate_gaussians_spiral, generate_diffeqml, randnsphere)
from mc.common import *

PROPERTY = "C21"
RULE = ("all combinations of sizes (small, odd, even), dimensions, radii, numbers of classes, spreads and noise levels x enumerated random states: counts, types, label counts, geometry per label, "
        "change with the noise level at the same random state, dispatcher against generator, repeatability after any other generator was used")
ASSUMPTIONS = ["the random number generators of torch and numpy are sound; random states are enumerated seeds, the argument space is exhausted"]
CASE_LIMIT = 60
SIZES = [2, 3, 4, 5, 8, 21, 50]
NOISES = [0., 1e-4, .05]


def bounds(tier):
    return {"sizes": SIZES, "noise": NOISES, "seeds": 3 if tier == "quick" else 12, "dims": "1..5 (spheres), 2..5 (gaussians)", "classes": [1, 2, 3, 7]}


def cases(tier):
    S = 3 if tier == "quick" else 12
    for n in SIZES + [1]:
        yield {"kind": "moons", "n": n, "S": S}
        yield {"kind": "spirals", "n": n, "S": S}
        if n > 1:
            for dim in (1, 2, 3, 5):
                yield {"kind": "spheres", "n": n, "dim": dim, "S": S}
        for dim in (2, 3, 5):
            for g in (1, 2, 3, 7):
                yield {"kind": "gaussians", "n": n, "dim": dim, "g": g, "S": S}
                for loop in (1, 3, 4):
                    yield {"kind": "gspiral", "n": n, "dim": dim, "g": g, "loop": loop, "S": S}
    for n in (1, 2, 7, 40):
        yield {"kind": "diffeqml", "n": n, "S": S}
    yield {"kind": "history", "depth": 2 if tier == "quick" else 3}
    yield {"kind": "sphere1", "S": S * 5}
    yield {"kind": "default"}


def seed(s):
    torch.manual_seed(s)
    np.random.seed(s)


def gen(fn, s, **kw):
    seed(s)
    X, y = fn(**kw)
    return X, y


def run(case, out):
    globals()["run_" + case["kind"]](case, out)


def basic(out, X, y, n, dim, what):
    ok = out.check(isinstance(X, torch.Tensor) and X.dtype == torch.float32 and tuple(X.shape) == (n, dim), lambda: "%s: points %s %s instead of %s" % (what, tuple(X.shape), X.dtype, (n, dim)))
    ok = ok and out.check(isinstance(y, torch.Tensor) and tuple(y.shape) == (n,), lambda: "%s: labels of shape %s" % (what, tuple(y.shape)))
    ok = ok and out.check(bool(torch.isfinite(X).all()), "%s: points not finite" % what)
    out.step()
    out.trace()
    return ok


def counts(y):
    return {int(k): int((y == k).sum()) for k in y.unique()}


def same_dispatch(out, name, fn, s, n, kw, X, y):
    seed(s)
    r = ToyDataset().generate(n, name, **kw)
    out.check(torch.equal(r[0], X) and (r[1] is y if y is None else torch.equal(r[1], y)), lambda: "dispatcher differs for %s" % name)
    a = gen(fn, s, n_samples=n, **kw)
    out.check(torch.equal(a[0], X), "not repeatable at the same random state")


def run_moons(case, out):
    n = case["n"]
    base = None
    for s in range(case["S"]):
        for noise in NOISES + [None]:
            kw = dict(noise=noise)
            X, y = gen(generate_moons, s, n_samples=n, **kw)
            if not basic(out, X, y, n, 2, "moons"):
                return
            out.check(y.dtype == torch.int64 and {k: v for k, v in {0: n // 2, 1: n - n // 2}.items() if v} == counts(y), lambda: "label counts %s" % counts(y))
            clean = []
            for lab, m in ((0, n // 2), (1, n - n // 2)):
                th = torch.linspace(0, math.pi, m, dtype=torch.float64) if m else torch.zeros(0)
                c = torch.stack([torch.cos(th), torch.sin(th)], 1) if lab == 0 else torch.stack([1 - torch.cos(th), .5 - torch.sin(th)], 1)
                clean.append((lab, c))
            amp = noise or 0.
            for lab, c in clean:
                P = X[y == lab].double()
                if len(P):
                    # nearest clean points up to the noise; with little noise every clean point is taken once
                    dlt = P[:, None] - c[None]
                    okk = ((dlt >= -1e-5) & (dlt <= amp + 1e-5)).all(-1)
                    out.check(bool(okk.any(1).all()) and bool(okk.any(0).all()), lambda: "points of label %d not on its moon (noise %s)" % (lab, noise))
            out.state("moons", n, s, noise, [round(v, 3) for v in X.reshape(-1)[:3].tolist()])
            if noise:
                same_dispatch(out, "moons", generate_moons, s, n, kw, X, y)
                Y, _ = gen(generate_moons, s + 100, n_samples=n, **kw)
                out.check(not torch.equal(X, Y), "noise does not depend on the random state")


def run_spirals(case, out):
    n = case["n"]
    for s in range(case["S"]):
        clean = gen(generate_spirals, s, n_samples=n, noise=0.)[0].double()
        r = clean.norm(dim=1)
        out.check(bool((r <= 780 * 2 * math.pi / 360 + 1e-4).all()), "spiral too long")
        for noise in NOISES:
            kw = dict(noise=noise)
            X, y = gen(generate_spirals, s, n_samples=n, **kw)
            if not basic(out, X, y, 2 * n, 2, "spirals"):
                return
            out.check(y.dtype == torch.int64 and counts(y) == {0: n, 1: n}, lambda: "label counts %s" % counts(y))
            if noise == 0.:
                for lab, sg in ((0, 1.), (1, -1.)):
                    P = X[y == lab].double() * sg
                    rr = P.norm(dim=1)
                    out.check(close(P, torch.stack([-torch.cos(rr) * rr, torch.sin(rr) * rr], 1), 1e-4, 1e-4), "points of label %d are not on its spiral arm" % lab)
            d = (X.double() - clean).abs()
            out.check(bool((d <= noise + 1e-5).all()), lambda: "noise %g moves points by %g" % (noise, float(d.max())))
            out.check(noise == 0. or float(d.max()) > noise / 100, "no noise added")
            out.state("spirals", n, s, noise, [round(v, 3) for v in X.reshape(-1)[:3].tolist()])
            same_dispatch(out, "spirals", generate_spirals, s, n, kw, X, y)


def run_spheres(case, out):
    n, dim = case["n"], case["dim"]
    for s in range(case["S"]):
        for (ri, ro) in ((.5, 1), (1., 3.), (2., .5)):
            clean = None
            for noise in NOISES:
                kw = dict(noise=noise, dim=dim, inner_radius=ri, outer_radius=ro)
                X, y = gen(generate_concentric_spheres, s, n_samples=n, **kw)
                if not basic(out, X, y, n, dim, "spheres"):
                    return
                out.check(counts(y) == {0: n - n // 2, 1: n // 2}, lambda: "label counts %s" % counts(y))
                if clean is None:
                    clean = X
                    for lab, r in ((1, ri), (0, ro)):
                        q = X[y == lab].double().norm(dim=1)
                        out.check(close(q, torch.full_like(q, r), 1e-5, 1e-5), lambda: "label %d not on the sphere of radius %g: %s" % (lab, r, q.tolist()[:3]))
                else:
                    for lab, r in ((1, ri), (0, ro)):
                        q = X[y == lab].double().norm(dim=1)
                        out.check(bool(((q - r).abs() <= 7 * noise * math.sqrt(dim)).all()), lambda: "noise %g: radius of label %d is off by %g" % (noise, lab, float((q - r).abs().max())))
                        out.check(bool(((q - r).abs() > 0).any()), "no noise added")
                out.state("spheres", n, dim, s, ri, noise, [round(v, 3) for v in X.reshape(-1)[:3].tolist()])
                same_dispatch(out, "spheres", generate_concentric_spheres, s, n, kw, X, y)
    if n >= 8 and dim > 1:
        X, y = gen(generate_concentric_spheres, 1, n_samples=n, noise=0., dim=dim)
        out.check(len(torch.unique(X, dim=0)) == n, "points repeated")


def run_gaussians(case, out):
    n, dim, g = case["n"], case["dim"], case["g"]
    ring(case, out, generate_gaussians, "gaussians", dict(n_gaussians=g), lambda kw, i: (kw["radius"], 2 * math.pi * (i + 1) / g, kw["std_gaussians"]),
         [dict(radius=r, std_gaussians=s) for r in (.5, 2.) for s in (1e-5, .1)])


def run_gspiral(case, out):
    g, loop = case["g"], case["loop"]
    lin = lambda a, b, i: a if g == 1 else a + (b - a) * i / (g - 1)
    ring(case, out, generate_gaussians_spiral, "gaussians_spiral", dict(n_gaussians=g, n_gaussians_per_loop=loop),
         lambda kw, i: (lin(kw["radius_start"], kw["radius_end"], i), 2 * math.pi * (i + 1) / loop, lin(kw["std_gaussians_start"], kw["std_gaussians_end"], i)),
         [dict(radius_start=a, radius_end=b, std_gaussians_start=s, std_gaussians_end=q) for a, b in ((1, .2), (.5, 3.)) for s, q in ((1e-5, 1e-5), (.3, .1), (.02, .8))])


def ring(case, out, fn, name, fixed, spec, grid):
    n, dim, g = case["n"], case["dim"], case["g"]
    for s in range(case["S"]):
        for opts in grid:
            for noise in NOISES:
                kw = dict(dim=dim, noise=noise, **fixed, **opts)
                X, y = gen(fn, s, n_samples=n, **kw)
                if not basic(out, X, y, n * g, dim, name):
                    return
                out.check(y.dtype == torch.int64 and counts(y) == {i: n for i in range(g)}, lambda: "label counts %s" % counts(y))
                for i in range(g):
                    r, a, std = spec(kw, i)
                    c = torch.zeros(dim, dtype=torch.float64)
                    c[0], c[1] = r * math.cos(a), r * math.sin(a)
                    P = X[y == i].double()
                    d = (P - c).abs().max()
                    if not out.check(float(d) <= 7 * std + 7 * noise + 2e-5, lambda: "label %d is %g away from its centre %s (std %g, noise %g)" % (i, float(d), c.tolist(), std, noise)):
                        return
                    if std > .05 and n >= 8:
                        sd = float((P - c).std())
                        out.check(.3 * std < sd < 2.5 * (std + noise), lambda: "label %d spreads by %g instead of %g" % (i, sd, std))
                    if std > .05 and n >= 2:
                        # spread is scaled by the declared deviation: the same random state with half the deviation gives half the offsets
                        if noise == 0.:
                            half = {k: v / 2 if k.startswith("std") else v for k, v in kw.items()}
                            H = gen(fn, s, n_samples=n, **half)[0][y == i].double()
                            out.check(close(2 * (H - c), P - c, 1e-4, 1e-4), "offsets are not scaled by the standard deviation")
                            same = {k: .2 if k.startswith("std") else v for k, v in kw.items()}
                            H = gen(fn, s, n_samples=n, **same)[0][y == i].double()
                            out.check(close((H - c) * std / .2, P - c, 1e-4, 1e-4), lambda: "offsets of label %d are not those of its own standard deviation %g" % (i, std))
                out.state(name, n, dim, g, s, sorted(kw.items()))
                same_dispatch(out, name, fn, s, n, kw, X, y)


def run_diffeqml(case, out):
    n = case["n"]
    def f(x):
        q = 1 - x[0] ** 2 - x[1] ** 2
        return np.array([-x[1] + x[0] * q, x[0] + x[1] * q])
    pts = [np.stack([2 * np.cos(np.linspace(0, 2 * np.pi, 4000)), 2 * np.sin(np.linspace(0, 2 * np.pi, 4000))], 1)]
    for x0 in ([0, 2], [-1.6, -1.2], [1.6, -1.2]):
        x, rows, h = np.array(x0, dtype=float), [], 3.2 / 2000
        for _ in range(2001):
            rows.append(x)
            k1 = f(x); k2 = f(x + h / 2 * k1); k3 = f(x + h / 2 * k2); k4 = f(x + h * k3)
            x = x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        pts.append(np.array(rows))
    C = torch.tensor(np.concatenate(pts))
    for s in range(case["S"]):
        for noise in NOISES:
            X, y = gen(generate_diffeqml, s, n_samples=n, noise=noise)
            out.check(y is None and tuple(X.shape) == (n, 2) and X.dtype == torch.float32, "shape or labels")
            d = torch.cdist(X.double(), C).min(1).values
            out.check(bool((d <= .01 * 7 + 7 * noise + .01).all()), lambda: "points %g away from the logo" % float(d.max()))
            out.step()
            out.trace()
            out.state("diffeqml", n, s, noise)
            seed(s)
            Y, z = ToyDataset().generate(n, "diffeqml", noise=noise)
            out.check(torch.equal(X, Y) and z is None, "dispatcher differs")


ALL = {"moons": generate_moons, "spirals": generate_spirals, "spheres": generate_concentric_spheres, "gaussians": generate_gaussians, "gaussians_spiral": generate_gaussians_spiral}


def run_history(case, out):
    "whatever was generated before, the data depend on the arguments and the random state only"
    d = ToyDataset()
    fresh = {k: gen(f, 5, n_samples=6) for k, f in ALL.items()}
    for seq in itertools.product(ALL, repeat=case["depth"]):
        for k in seq[:-1]:
            ALL[k](n_samples=4, noise=.3)
            d.generate(3, k)
        seed(5)
        X, y = d.generate(6, seq[-1])
        out.check(torch.equal(X, fresh[seq[-1]][0]) and torch.equal(y, fresh[seq[-1]][1]), lambda: "data after %s differ" % (seq,))
        X.zero_()
        y.zero_()
        out.step()
        out.trace()
        out.state(seq)


def run_sphere1(case, out):
    for s in range(case["S"]):
        for dim in range(1, 7):
            for r in (.5, 1, 2., 10.):
                seed(s)
                v = randnsphere(dim, r)
                out.check(tuple(v.shape) == (dim,) and abs(float(v.norm()) - r) < 1e-5 * r, lambda: "norm %g instead of %g" % (float(v.norm()), r))
                out.step()
                out.trace()
                out.state(dim, r, s)


def run_default(case, out):
    for k, (n, d) in {"moons": (100, 2), "spirals": (200, 2), "spheres": (100, 3), "gaussians": (700, 2), "gaussians_spiral": (700, 2)}.items():
        X, y = gen(ALL[k], 0)
        basic(out, X, y, n, d, k)
    X, y = gen(generate_concentric_spheres, 0)
    out.check(bool(((X[y == 1].norm(dim=1) - .5).abs() < .01).all()) and bool(((X[y == 0].norm(dim=1) - 1.).abs() < .01).all()), "default radii")
    X, y = gen(generate_gaussians, 0)
    c = torch.stack([X[y == i].mean(0) for i in range(7)]).norm(dim=1)
    out.check(bool(((c - .5).abs() < .1).all()), "default ring radius")
