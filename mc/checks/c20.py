"""C20: root finding on every affine system of a lattice and nonlinear families, every iteration limit, start, step length, tolerance set and batch composition; termination, contraction, secant equation and batch independence."""
import itertools
import torch
from torchdyn.numerics.solvers.root import root_find, BroydenFull, BroydenBad
from mc.common import *

PROPERTY = "C20"
RULE = ("all regular integer matrices of a lattice (2x2) and families in dimension 1 and 3, all right-hand sides and starts of a lattice, both quasi-Newton methods, step lengths, line searches, "
        "tolerance sets and all iteration limits 1..K: the iterates, the reported termination and the log against the definition; all pairs of increments for the inverse-Jacobian updates")
ASSUMPTIONS = ["regular Jacobian at the start", "g accepts single samples and batches (the library differentiates it per sample)"]
CASE_LIMIT = 60
METHODS = ["broyden", "broyden_fast"]
TOLS = [dict(f_tol=1e-2, f_rtol=1e-1, x_tol=1e-2, x_rtol=1.), dict(f_tol=1e-6, f_rtol=1e-3, x_tol=1e-3, x_rtol=1.), dict(f_tol=1e-3, f_rtol=.5, x_tol=1e-1, x_rtol=1e-3),
        dict(f_tol=.5, f_rtol=2., x_tol=5., x_rtol=50.), dict(f_tol=1e-9, f_rtol=1e-9, x_tol=1e-9, x_rtol=1e-6), dict(f_tol=1e6, f_rtol=1e-4, x_tol=1e6, x_rtol=1e6), dict(f_tol=1e6, f_rtol=1e6, x_tol=1e-4, x_rtol=1e6),
        dict(f_tol=1e6, f_rtol=1e6, x_tol=1e6, x_rtol=1e-4), dict(f_tol=1e-4, f_rtol=1e6, x_tol=1e6, x_rtol=1e6), dict(f_tol=1e6, f_rtol=.1, x_tol=1e6, x_rtol=1e6)]
NEVER = dict(f_tol=-1., f_rtol=1., x_tol=-1., x_rtol=1.)


def matrices(deep):
    vals = (-1., 0., 1., 2.) if deep else (-1., 0., 2.)
    for a in itertools.product(vals, repeat=4):
        if abs(a[0] * a[3] - a[1] * a[2]) > .5:
            yield [[a[0], a[1]], [a[2], a[3]]]
    yield [[.5]]
    yield [[-3.]]
    yield [[2., 1., 0.], [0., 1., -1.], [1., 0., 1.]]
    yield [[0., 0., 1.], [1., 0., 0.], [0., -2., 0.]]


NONLIN = {
    "quad": lambda z: z ** 2 - 2 + .1 * z.sum(-1, keepdim=True),
    "cub": lambda z: z ** 3 + z - 1,
    "rot": lambda z: torch.stack([z[..., 0] + .3 * torch.sin(z[..., -1]) - .5, z[..., -1] - .3 * torch.cos(z[..., 0])], -1),
    "sat": lambda z: z ** 3 / (1 + z ** 2),
    "exp": lambda z: torch.exp(.5 * z) - 1.5 + .05 * z.flip(-1) ** 2,
}


def bounds(tier):
    deep = tier == "thorough"
    return {"matrices": len(list(matrices(deep))), "nonlinear": sorted(NONLIN), "iteration_limits": "0..%d" % (14 if deep else 8), "tolerance_sets": len(TOLS), "alphas": [1., .5, .1],
            "line_searches": ["none", "naive", "armijo"]}


def cases(tier):
    deep = tier == "thorough"
    for A in matrices(deep):
        for me in METHODS:
            yield {"kind": "affine", "A": A, "method": me, "K": 14 if deep else 8}
    for f in NONLIN:
        for me in METHODS:
            for alpha in (1., .5, .1):
                for k in range(len(TOLS)):
                    for b in (1, 2, 3):
                        yield {"kind": "stop", "f": f, "method": me, "alpha": alpha, "tol": k, "b": b, "K": 25 if deep else 10}
            for k in range(len(TOLS)):
                for b in (1, 2):
                    for near in (1e-2, 1e-4, 1e-7):
                        yield {"kind": "stop", "f": f, "method": me, "alpha": .5, "tol": k, "b": b, "K": 25 if deep else 8, "near": near}
            for b in (2, 3, 4) if deep else (2, 3):
                for alpha in (1., .5):
                    yield {"kind": "batch", "f": f, "method": me, "b": b, "alpha": alpha}
            for search in ("none", "naive", "armijo") if f != "sat" else ():
                yield {"kind": "solve", "f": f, "method": me, "search": search}
    for me in METHODS:
        for d in (1, 2, 3):
            for b in (1, 2, 3):
                yield {"kind": "secant", "method": me, "d": d, "b": b, "n": 12 if deep else 6}


def quiet_find(*a, **k):
    return root_find(*a, **k)


def start(b, d, k=0):
    return torch.cos(torch.arange(b * d, dtype=torch.float64) * 2.1 + k).reshape(b, d) * .4 + 1.


def run(case, out):
    globals()["run_" + case["kind"]](case, out)


def run_affine(case, out):
    A = torch.tensor(case["A"], dtype=torch.float64)
    d, me = len(A), case["method"]
    starts = list(itertools.product((-2., 0., 3.), repeat=d))
    Z = torch.tensor(starts, dtype=torch.float64)
    for ci, c in enumerate(itertools.product((0., 1., -2.5), repeat=min(d, 2))):
        c = torch.tensor(list(c) + [.5] * (d - len(c)), dtype=torch.float64)
        g = lambda z: z @ A.t() - c
        root = torch.linalg.solve(A, c)
        for search, alpha in (("none", 1.), ("none", .5), ("none", .1), ("naive", .1), ("armijo", .1)):
            for K in range(1, case["K"]) if search == "none" else (3, 6):
                if ci and K % 3:
                    continue
                z, log = quiet_find(g, Z.clone(), alpha=alpha, maxiters=K, method=me, search_method=search, **NEVER)
                out.step(K)
                out.trace()
                if search == "none":
                    want = root + (1 - alpha) ** K * (Z - root)
                    rt = 1e-3 if me == "broyden_fast" else 1e-5
                    if not out.check(close(z, want, rt, rt) if alpha < 1 else close(z, want, 1e-6, 1e-6), lambda: "alpha %g, %d iterations: %s" % (alpha, K, err(z, want))):
                        return
                else:
                    want = root.expand_as(Z)
                    if not out.check(close(z, want, 1e-5, 1e-5), lambda: "line search %s, %d iterations: %s" % (search, K, err(z, want))):
                        return
                out.check(log.data["iteration"] == K, lambda: "%s iterations logged with limit %d" % (log.data["iteration"], K))
                out.check("termination_condition" not in log.data, "termination reported although the tolerances cannot be met")
                out.state(case["A"], me, search, alpha, K, ci)


def root_of(g, z):
    "Newton's method, one sample at a time"
    rows = []
    for v in z:
        for _ in range(80):
            v = v - torch.linalg.solve(torch.autograd.functional.jacobian(g, v) , g(v))
        rows.append(v)
    return torch.stack(rows)


def met(g0, gz, z, dz, tol):
    n = lambda v: v.norm(dim=1)
    vals = [(n(gz), torch.full_like(n(gz), tol["f_tol"])), (n(gz), tol["f_rtol"] * n(g0)), (n(dz), torch.full_like(n(gz), tol["x_tol"])), (n(dz), tol["x_rtol"] * n(z))]
    ok = all(bool((a <= b).all()) for a, b in vals)
    close_ = any(bool(((a - b).abs() <= 1e-9 * (a + b) + 1e-300).any()) for a, b in vals)
    return ok, close_


def run_stop(case, out):
    "all iteration limits: limited runs are prefixes; stops exactly at the first iterate meeting the tolerances; log is that of the returned point"
    g, tol = NONLIN[case["f"]], TOLS[case["tol"]]
    for k in range(3):
        z0 = start(case["b"], 2, k)
        if case["f"] == "sat":  # samples of very different sizes
            z0 = z0 * torch.tensor([[.3], [30.], [1.]], dtype=torch.float64)[[(k + i) % 3 for i in range(case["b"])]]
        if "near" in case:  # starts close to a root
            z0 = root_of(g, z0) + case["near"] * (start(case["b"], 2, k + 3) - 1.)
        free = []
        g0 = g(z0)
        for K in range(1, case["K"] + 1):
            z, log = quiet_find(g, z0.clone(), alpha=case["alpha"], maxiters=K, method=case["method"], search_method="none", **NEVER)
            free.append((z, log.data["dz"]))
            out.check(torch.equal(log.data["z"], z) and close(log.data["geval"], g(z), 1e-12, 1e-12), "log is not that of the returned point")
            prev = free[-2][0] if K > 1 else z0
            out.check(close(z, prev - case["alpha"] * log.data["dz"], 1e-10, 1e-10), "logged step is not the one taken")
        first = None
        for i, (z, dz) in enumerate(free):
            ok, tie = met(g0, g(z), z, dz, tol)
            if tie:
                first = "tie"
                break
            if ok:
                first = i + 1
                break
        if first == "tie":
            continue
        for K in range(1, case["K"] + 1):
            z, log = quiet_find(g, z0.clone(), alpha=case["alpha"], maxiters=K, method=case["method"], search_method="none", **tol)
            n = K if first is None else min(K, first)
            out.step(n)
            out.trace()
            out.check(torch.equal(z, free[n - 1][0]), lambda: "limit %d: returned point is not iterate %d" % (K, n))
            out.check(log.data["iteration"] == n, lambda: "limit %d: %s iterations instead of %d" % (K, log.data["iteration"], n))
            rep = log.data.get("termination_condition") is not None
            out.check(rep == (first is not None and K >= first), lambda: "limit %d: termination reported: %s, tolerances met at %s" % (K, rep, first))
            if rep:
                out.check(met(g0, g(z), z, log.data["dz"], tol)[0] and torch.equal(log.data["z"], z) and torch.equal(log.data["dz"], free[n - 1][1]), "reported termination at a point that does not meet the tolerances")
            out.state(case["f"], case["method"], case["alpha"], case["tol"], K, first)
        z, _ = quiet_find(g, z0.clone(), alpha=case["alpha"], maxiters=case["K"], method=case["method"], search_method="none", verbose=False, **tol)
        out.check(torch.equal(z, free[(first or case["K"]) - 1][0]), "silent run differs")
    z, _ = quiet_find(g, z0.clone(), maxiters=0, method=case["method"], search_method="none")
    out.check(torch.equal(z, z0), "no iterations: start not returned")


def run_batch(case, out):
    "iterates of a batch are those of its samples"
    g, b = NONLIN[case["f"]], case["b"]
    pool = start(4, 2, 3)
    for idx in itertools.product(range(4), repeat=b):
        z0 = pool[list(idx)]
        for K in (1, 3, 6):
            kw = dict(alpha=case["alpha"], maxiters=K, method=case["method"], search_method="none", **NEVER)
            z, log = quiet_find(g, z0.clone(), **kw)
            for i, j in enumerate(idx):
                w, l2 = quiet_find(g, pool[j:j + 1].clone(), **kw)
                if not out.check(close(z[i:i + 1], w, 1e-9, 1e-9) and close(log.data["dz"][i:i + 1], l2.data["dz"], 1e-9, 1e-9), lambda: "sample %d of batch %s after %d iterations: %s" % (i, idx, K, err(z[i:i + 1], w))):
                    return
            out.trace()
            out.step(K)
            out.state(case["f"], case["method"], idx, K)


def run_solve(case, out):
    "reported convergence only at roots, for every line search"
    g = NONLIN[case["f"]]
    for b in (1, 2, 3):
        for k in range(6):
            for ti, tol in enumerate(TOLS[:3] + TOLS[4:5]):
                z0 = start(b, 2, k)
                z, log = quiet_find(g, z0.clone(), alpha=1., maxiters=60, method=case["method"], search_method=case["search"], **tol)
                out.trace()
                out.step(int(log.data["iteration"]))
                rep = log.data.get("termination_condition") is not None
                if rep:
                    r = g(z).norm(dim=1)
                    out.check(bool((r <= tol["f_tol"] * (1 + 1e-9)).all()) and bool((r <= tol["f_rtol"] * g(z0).norm(dim=1) * (1 + 1e-9)).all()), lambda: "convergence reported with residuals %s" % r.tolist())
                elif ti < 2:
                    out.check(False, lambda: "no convergence on %s from %s" % (case["f"], z0.tolist()))
                out.check(torch.equal(log.data["z"], z) and close(log.data["geval"], g(z), 1e-12, 1e-12), "log is not that of the returned point")
                out.state(case["f"], case["method"], case["search"], b, k, int(log.data["iteration"]))


def run_secant(case, out):
    d, b = case["d"], case["b"]
    s = (BroydenFull if case["method"] == "broyden" else BroydenBad)()
    vec = lambda k: torch.sin(torch.arange(b * d, dtype=torch.float64) * 1.9 + k * 2.7 + .3).reshape(b, d) * (.1, 1., 3.)[k % 3]
    mat = lambda k: torch.cos(torch.arange(b * d * d, dtype=torch.float64) * 1.3 + k).reshape(b, d, d) + (k % 3) * torch.eye(d, dtype=torch.float64)
    for i, j, k in itertools.product(range(case["n"]), repeat=3):
        dg, dz, J = vec(i), vec(j + 20), mat(k)
        J0 = J.clone()
        new = s.update_jacobian(dg, dz, J)
        ap = lambda M, v: torch.einsum("bio,bo->bi", M, v)
        num = dz - ap(J, dg)
        den = torch.einsum("bi,bi->b", dz, ap(J, dg)) if case["method"] == "broyden" else (dg ** 2).sum(1)
        good = den.abs() > 1e-3
        r = ap(new, dg) - dz
        bound = num.norm(dim=1) * 2e-6 / den.abs().clamp(min=1e-9) + 1e-10 * (1 + new.abs().amax((1, 2)))
        out.check(bool((r.norm(dim=1) <= bound)[good].all()), lambda: "secant equation violated by %s" % r.norm(dim=1).tolist())
        # unchanged on the complement
        row = torch.einsum("bi,bio->bo", dz, J) if case["method"] == "broyden" else dg
        for q in range(d):
            v = torch.eye(d, dtype=torch.float64)[q].expand(b, d)
            nn_ = (row ** 2).sum(1, keepdim=True)
            ok = good & (nn_[:, 0] > 1e-6)
            v = v - row * (row * v).sum(1, keepdim=True) / nn_.clamp(min=1e-12)
            dlt = (ap(new, v) - ap(J, v)).norm(dim=1)
            out.check(bool((dlt <= 1e-8 * (1 + new.abs().amax((1, 2))))[ok].all()), "update changes directions it has no information about")
        out.check(torch.equal(J, J0), "the previous inverse Jacobian is modified")
        for q in range(b):
            one = s.update_jacobian(dg[q:q + 1], dz[q:q + 1], J[q:q + 1])
            out.check(close(one, new[q:q + 1], 1e-10, 1e-10), "update of a sample depends on the batch")
        out.step()
        out.trace()
        out.state(case["method"], d, b, i, j, k)
