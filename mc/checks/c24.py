"""C24: asynchronous leapfrog steps and solves for every field, step, start time, shape, velocity and grid, against the drift-reflection-drift map; reversibility over all grids; convergence order; refusals."""
import itertools
import torch
import torch.nn as nn
from torchdyn.numerics import odeint, odeint_symplectic
from torchdyn.numerics.solvers.ode import AsynchronousLeapfrog, RungeKutta4
from mc.common import *

PROPERTY = "C24"
RULE = ("all (field, step, start time, state shape, velocity, dtype): one step against the drift-reflection-drift map and back again with the opposite step; all grids (sublists of a lattice, both "
        "directions) with solver name, alias, instance, module or attributed callable: rows against the composition, way back to the start, saving times; convergence order on fields with exact flow")
ASSUMPTIONS = ["fixed-step use of the method"]
FN = ["const", "decay", "tx", "cos", "logi", "growth"]


def bounds(tier):
    return {"fields": FN, "steps": [.5, .1, -.3, 1., 0.], "starts": [0., .7, -1.3], "shapes": [[2], [1, 2], [3, 4], [2, 2, 2], [1, 6]], "grids": "all sublists of a %d-point lattice, both directions" % (5 if tier == "quick" else 7)}


def cases(tier):
    deep = tier == "thorough"
    for f in FN:
        for dt in ("f64", "f32"):
            yield {"kind": "step", "f": f, "dtype": dt}
            for how in ("alf", "AsynchronousLeapfrog", "inst", "module"):
                for shape in ([2], [3, 4], [2, 2, 2]):
                    yield {"kind": "solve", "f": f, "dtype": dt, "how": how, "shape": shape, "n": 7 if deep else 5}
        yield {"kind": "order", "f": f, "deep": deep}
    yield {"kind": "refuse"}
    yield {"kind": "hist", "depth": 3 if deep else 2}


class F:
    def __init__(self, f, order=1):
        self.f, self.seen = f, []
        if order is not None:
            self.order = order

    def __call__(self, t, x):
        self.seen.append((float(t), tuple(x.shape)))
        return self.f(t, x)


class FM(nn.Module):
    order = 1

    def __init__(self, f):
        super().__init__()
        self.f = f

    def forward(self, t, x):
        return self.f(t, x)


def alf(f, z, t, h):
    d = z.shape[-1] // 2
    x, v = z[..., :d], z[..., d:]
    x1 = x + h / 2 * v
    v1 = 2 * f(t + h / 2, x1) - v
    return torch.cat([x1 + h / 2 * v1, v1], -1)


def state(shape, dt, k=0.):
    n = 1
    for s in shape:
        n *= s
    return torch.sin(torch.arange(n, dtype=dt) * 1.7 + .6 + k).reshape(shape) * .8


def run(case, out):
    globals()["run_" + case["kind"]](case, out)


def run_step(case, out):
    dt = DT[case["dtype"]]
    tol = 1e-12 if dt == torch.float64 else 2e-5
    f = FIELDS[case["f"]].f
    s = AsynchronousLeapfrog(dtype=dt)
    for shape in ([2], [1, 2], [3, 4], [2, 2, 2], [1, 6]):
        for h in (.5, .1, -.3, 1., 0.):
            for t in (0., .7, -1.3):
                for consistent in (0, 1):
                    z = state(shape, dt)
                    hh, tt = torch.tensor(h, dtype=dt), torch.tensor(t, dtype=dt)
                    if consistent:
                        d = shape[-1] // 2
                        z = torch.cat([z[..., :d], f(tt, z[..., :d])], -1)
                    keep = z.clone()
                    y = s.step(f, z, tt, hh)[1]
                    want = alf(f, z, tt, hh)
                    out.step()
                    out.trace()
                    if not out.check(y.dtype == dt and close(y, want, tol, tol), lambda: "t %g h %g shape %s: %s" % (t, h, shape, err(y, want))):
                        return
                    back = s.step(f, y, tt + hh, -hh)[1]
                    out.check(close(back, keep, tol * 10, tol * 10), lambda: "step of %g not undone: %s" % (h, err(back, keep)))
                    out.check(torch.equal(z, keep), "state modified")
                    out.state(case["f"], shape, h, t, consistent)


GRID = [0., .2, .25, .6, 1., 1.5, 1.6]


def run_solve(case, out):
    dt = DT[case["dtype"]]
    tol = 1e-10 if dt == torch.float64 else 5e-4
    f = FIELDS[case["f"]].f
    how = case["how"]
    for mask in range(1, 2 ** case["n"]):
        ts = [g for i, g in enumerate(GRID[:case["n"]]) if mask >> i & 1]
        if len(ts) < 2:
            continue
        for rev in (0, 1):
            tt = torch.tensor(ts[::-1] if rev else ts, dtype=dt)
            z = state(case["shape"], dt)
            keep = z.clone()
            solver = how if how in ("alf", "AsynchronousLeapfrog") else AsynchronousLeapfrog(dtype=dt)
            vf = FM(f) if how == "module" else F(f)
            t, sol = odeint_symplectic(vf, z, tt, solver)
            rows = [z]
            for a, b in zip(tt[:-1], tt[1:]):
                rows.append(alf(f, rows[-1], a, b - a))
            want = torch.stack(rows)
            out.step(len(ts) - 1)
            out.trace()
            if not out.check(torch.equal(t, tt) and sol.dtype == dt and close(sol, want, tol, tol), lambda: "grid %s: %s" % (tt.tolist(), err(sol, want))):
                return
            out.check(torch.equal(z, keep), "state modified")
            if how != "module":
                d = case["shape"][-1] // 2
                lo, hi = min(ts), max(ts)
                out.check(all(sh[-1] == d and lo - 1e-6 <= q <= hi + 1e-6 for q, sh in vf.seen), lambda: "field evaluated at %s" % vf.seen[:4])
            # and back (blown-up solutions lose the digits the way back needs)
            if float(want.abs().max()) > (30 if dt == torch.float64 else 8):
                continue
            _, back = odeint_symplectic(vf, sol[-1], tt.flip(0), solver)
            out.check(close(back, sol.flip(0), tol * 10, tol * 10), lambda: "way back over %s: %s" % (tt.tolist(), err(back, sol.flip(0))))
            # saving times
            for keepmask in range(1, min(2 ** len(ts), 16)):
                idx = [i for i in range(len(ts)) if keepmask >> i & 1]
                ts_, sv = odeint_symplectic(vf, z, tt, solver, save_at=tt[idx])
                out.check(close(ts_, tt[idx], 1e-6, 1e-6) and close(sv, want[idx], tol, tol), lambda: "saving times %s" % tt[idx].tolist())
            out.state(case["f"], how, case["shape"], mask, rev)


def run_order(case, out):
    F_ = FIELDS[case["f"]]
    for x0 in ([.3], [.8, -.4], [-.2, .5, .1]):
        x = torch.tensor(x0, dtype=torch.float64)
        for T in ((.4, .9) if not case["deep"] else (.4, .9, -.7, 1.3)):
            grid = torch.linspace(.1, .1 + T, 50, dtype=torch.float64)
            if not all(float(F_.flow(grid[0], g, x).abs().max()) < 5 for g in grid[1:]):
                continue    # (nearly) blown up
            es = []
            for n in (16, 32, 64):
                tt = torch.linspace(.1, .1 + T, n + 1, dtype=torch.float64)
                z = torch.cat([x, F_.f(tt[0], x)])
                _, sol = odeint_symplectic(F(F_.f), z, tt, "alf")
                want = F_.flow(tt[0], tt[-1], x)
                es.append(float((sol[-1][:len(x0)] - want).abs().max()))
                out.step(n)
            out.trace()
            out.check(es[0] < 1e-10 or (es[1] < es[0] / 3 and es[2] < es[1] / 3), lambda: "errors %s with 16, 32, 64 steps over %g: not second order" % (es, T))
            out.state(case["f"], x0, T)


def run_refuse(case, out):
    f = FIELDS["decay"].f
    z, ts = state([2, 2], torch.float64), torch.tensor([0., .5, 1.], dtype=torch.float64)
    for rev in (0, 1):
        tt = ts.flip(0) if rev else ts
        for solver in ("alf", "AsynchronousLeapfrog", AsynchronousLeapfrog(dtype=torch.float64)):
            for order, ok in ((None, False), (2, False), (1, True)):
                try:
                    odeint_symplectic(F(f, order), z, tt, solver)
                    good = ok
                except RuntimeError:
                    good = not ok
                out.check(good, lambda: "order %s: %s" % (order, "accepted" if not ok else "refused"))
                out.step()
                out.trace()
                out.state(rev, str(solver), order)
        for solver in ("rk4", "euler", "midpoint"):
            try:
                odeint_symplectic(F(f, None), z, tt, solver)
                out.fail("undeclared order accepted with %s" % solver)
            except RuntimeError:
                pass
            # other methods: the ordinary solve of the field on the whole state
            _, a = odeint_symplectic(F(f, 2), z, tt, solver)
            _, b = odeint(f, z, tt, solver)
            out.check(close(a, b, 1e-12, 1e-12), "%s through the symplectic interface differs from odeint" % solver)
            out.trace()
    # list of times, order as module attribute
    _, a = odeint_symplectic(FM(f), z, [ts[0], ts[1], ts[2]], "alf")
    _, b = odeint_symplectic(FM(f), z, ts, "alf")
    out.check(torch.equal(a, b), "list of times")


def run_hist(case, out):
    "one instance on states of different size, span and type"
    f = FIELDS["logi"].f
    uses = [([2], [0., .5], "f64"), ([3, 4], [0., .1, .7], "f64"), ([2, 2, 2], [1., .3], "f64"), ([1, 6], [0., 1.], "f32"), ([4], [.5, .2, 0.], "f32")]
    for seq in itertools.product(range(len(uses)), repeat=case["depth"]):
        s = AsynchronousLeapfrog(dtype=torch.float64)
        for k in seq:
            shape, ts, dt = uses[k]
            tt, z = torch.tensor(ts, dtype=DT[dt]), state(shape, DT[dt])
            _, sol = odeint_symplectic(F(f), z, tt, s)
            rows = [z]
            for a, b in zip(tt[:-1], tt[1:]):
                rows.append(alf(f, rows[-1], a, b - a))
            tol = 1e-10 if dt == "f64" else 1e-4
            out.check(close(sol, torch.stack(rows), tol, tol), lambda: "uses %s: %s" % (seq, err(sol, torch.stack(rows))))
            out.step(len(ts) - 1)
        # gradients through a solve
        z = state([2, 4], torch.float64).requires_grad_(True)
        tt = torch.tensor([0., .4, 1.], dtype=torch.float64)
        _, sol = odeint_symplectic(F(f), z, tt, s)
        z2 = state([2, 4], torch.float64).requires_grad_(True)
        w = alf(f, alf(f, z2, tt[0], tt[1] - tt[0]), tt[1], tt[2] - tt[1])
        a, b = torch.autograd.grad((sol[-1] ** 2).sum(), z)[0], torch.autograd.grad((w ** 2).sum(), z2)[0]
        out.check(close(a, b, 1e-9, 1e-9), lambda: "gradient: " + err(a, b))
        out.trace()
        out.state(seq)
