"""C29: gradients of every row w.r.t. every requested time against complex-step derivatives of reference maps or the field along an accurate reference solve; the three sensitivities; times given as tensors and lists."""
import itertools
import torch
from torchdyn.core import MultipleShootingLayer, NeuralODE, ODEProblem
from torchdyn.numerics import odeint, odeint_symplectic
from torchdyn.numerics.solvers.ode import AsynchronousLeapfrog, DormandPrince45, Euler, Midpoint, RungeKutta4, Tsitouras45
from mc.adj import *

PROPERTY = "C29"
RULE = ("all (fixed-step method, vector field, grid, state shape, entry point): the Jacobian of every entry of every row and of every returned time w.r.t. every requested time, by autograd, against complex-step "
        "derivatives of a reference map; adaptive and adjoint solves: losses over every subset of the rows, with and without integral losses and dependence on the returned times, against the field along an accurate "
        "reference solve; all kinds of lists of times x sensitivities x solvers x entry points, values and gradients, against the same times in a tensor")
ASSUMPTIONS = ["the interpolated adjoint does not return gradients w.r.t. times (documented)", "adaptive solves: up to the tolerance of the solve"]
CASE_LIMIT = 120
SPANS = {"f2": [0., 1.], "f4": [0., .3, .5, 1.2], "r3": [1., .4, 0.], "neg": [-1., -.6, .1], "off": [2., 2.2, 3.], "r4": [.5, .2, -.3, -.6], "long": [.1 * i + .004 * (i % 3) for i in range(14)]}
FIX = {"euler": Euler, "midpoint": Midpoint, "rk4": RungeKutta4, "alf": AsynchronousLeapfrog}
ENTRIES = ("odeint", "inst", "problem", "neural", "traj", "save")


def f_net(t, x):
    return torch.tanh(x @ torch.tensor(W2, dtype=torch.float64).to(x.dtype) + .4 * torch.sin(2 * t)) + .3 * t * x


def f_poly(t, x):
    return -.4 * x + .3 * x * x * x - .6 * t * x.flip(-1)


def f_time(t, x):
    return torch.cos(2.2 * t) * .7 + 0 * x


def f_auto(t, x):
    return torch.sin(x) * .8 + .1 * x.flip(-1)


FS = {"net": f_net, "poly": f_poly, "time": f_time, "auto": f_auto}


class Vf(nn.Module):
    order = 1

    def __init__(self, name):
        super().__init__()
        self.f, self.p = FS[name], P([1.])

    def forward(self, t, x, args={}):
        return self.p * self.f(torch.as_tensor(t).to(x.dtype).reshape(-1)[0], x)


def bounds(tier):
    return {"fields": sorted(FS) + sorted(VF), "spans": SPANS, "methods": sorted(FIX) + ["dopri5", "tsit5"], "row_subsets": "all"}


def cases(tier):
    deep = tier == "thorough"
    for m in FIX:
        for fld in FS:
            for sp in SPANS:
                for sh in ("m", "v", "b1", "t3"):
                    for e in ENTRIES:
                        if m == "alf" and (e not in ("odeint", "save") or sh == "v" or fld == "net"):
                            continue
                        if deep or (sh != "m") + (e != "odeint") + (sp not in ("f4", "r3")) <= 1:
                            yield {"kind": "fix", "m": m, "f": fld, "span": sp, "x": sh, "entry": e}
    for fld in VF:
        for sp in SPANS:
            for x in ("m", "b1", "v", "t3"):
                for s in ("dopri5", "tsit5", "rk4"):
                    for loss in LOSSES:
                        for e in ("problem", "neural"):
                            for sens in ("adjoint", "autograd"):
                                if sens == "autograd" and loss != "none" or s == "rk4" and sp != "f2":
                                    continue
                                w = (x != "m") + (s != "dopri5") + (loss != "none") + (e != "problem") + (sp not in ("f4", "r3"))
                                if w <= (2 if deep else 1 if fld in ("tv", "tanh", "paronly", "mix") else 0):
                                    yield {"kind": "row", "f": fld, "span": sp, "x": x, "solver": s, "loss": loss, "entry": e, "sens": sens}
        for sp in ("f4", "r3") if deep or fld in ("tv", "tanh") else ("f4",):
            yield {"kind": "row", "f": fld, "span": sp, "x": "m", "solver": "interp", "loss": "none", "entry": "problem", "sens": "autograd"}
    for fld in ("tanh", "scalar", "shared"):
        yield {"kind": "shooting", "f": fld}
    for sens in ("autograd", "adjoint", "interpolated_adjoint"):
        for s in ("euler", "rk4", "dopri5", "tsit5"):
            for e in ("problem", "neural"):
                for fld in ("tv", "tanh", "xonly"):
                    for sp in ("f2", "f4", "r3", "neg"):
                        yield {"kind": "list", "sens": sens, "solver": s, "entry": e, "f": fld, "span": sp}


def run(case, out):
    globals()["run_" + case["kind"]](case, out)


def reference(m, f, tt, x):
    rows = [x]
    for a, b in zip(tt[:-1], tt[1:]):
        h, z = b - a, rows[-1]
        if m == "alf":
            d = z.shape[-1] // 2
            x1 = z[..., :d] + h / 2 * z[..., d:]
            v1 = 2 * f(a + h / 2, x1) - z[..., d:]
            y = torch.cat([x1 + h / 2 * v1, v1], -1)
        else:
            y = rk_step(*{"euler": EULER, "midpoint": MIDPOINT, "rk4": RK4_TABLE}[m], f, a, z, h)[0]
        rows.append(y)
    return torch.stack(rows)


RK4_TABLE = RK4


def pick_rk4():
    "which classical tableau rk4 uses is not a matter of this property"
    f = lambda t, x: torch.sin(t * x) + x * x
    x, tt = tens([.4, .9]), tens([.1, .8])
    y = odeint(f, x, tt, "rk4")[1][-1]
    for T in (RK4, RK4_38):
        if close(rk_step(*T, f, tt[0], x, tt[1] - tt[0])[0], y, 1e-12, 1e-12):
            return T
    return RK4


def run_fix(case, out):
    global RK4_TABLE
    RK4_TABLE = pick_rk4()
    m, e, f = case["m"], case["entry"], Vf(case["f"])
    x = tens(X0[case["x"]])
    if m == "alf":
        x = torch.cat([x, .5 * x.flip(-1) + .1], -1)
    tt = tens(SPANS[case["span"]]).requires_grad_(True)
    if m == "alf":
        t, sol = odeint_symplectic(f, x, tt, m, **({"save_at": tt[1:]} if e == "save" else {}))
    elif e in ("odeint", "inst", "save"):
        t, sol = odeint(f, x, tt, FIX[m](torch.float64) if e == "inst" else m, **({"save_at": tt[1:]} if e == "save" else {}))
    elif e == "problem":
        t, sol = ODEProblem(f, m, sensitivity="autograd")(x, tt)
    else:
        model = NeuralODE(f, m, sensitivity="autograd")
        t, sol = model(x, tt) if e == "neural" else (tt, model.trajectory(x, tt))
    ref = lambda v: reference(m, lambda s, z: FS[case["f"]](s, z), v, x.to(v.dtype))[1 if e == "save" else 0:]
    tc = tt.detach().to(torch.complex128)
    out.step(len(tt) - 1)
    if not out.check(sol.shape == ref(tc).shape and close(sol.detach(), ref(tc).real, 1e-9, 1e-9), "rows"):
        return
    flat, n = sol.reshape(-1), len(tt)
    J = torch.stack([torch.autograd.grad(v, tt, retain_graph=True)[0] for v in flat[x.numel() if e != "save" else 0:]])
    for j in range(n):
        v = tc.clone()
        v[j] += 1e-30j
        want = (ref(v).imag / 1e-30).reshape(-1)[x.numel() if e != "save" else 0:]
        out.trace()
        sc = max(1., float(want.abs().max()))
        if not out.check(close(J[:, j], want, 1e-9, 1e-9 * sc), lambda: "derivative of the rows w.r.t. requested time %d: %s" % (j, err(J[:, j], want))):
            return
    if e != "save":
        out.check(torch.equal(torch.stack([torch.autograd.grad(t[i], tt, retain_graph=True)[0] for i in range(n)]), torch.eye(n, dtype=torch.float64)), "returned times are not the requested ones to differentiation")
    out.state(str(case))


def subsets(n):
    return [s for k in range(1, n + 1) for s in itertools.combinations(range(n), k)]


def expected(f, x0, ts, rows, per, integral, g, sub, tc):
    "derivatives of sum of <weights_i, row_i> over the subset, of the integral loss and of sum tc_i t_i"
    with torch.no_grad():
        want = torch.tensor(tc, dtype=torch.float64)
        v = torch.zeros_like(x0)
        for i in sub:
            if i:
                want[i] += (weights(rows[i].shape, i) * call(f, ts[i], rows[i])).sum()
                v = v + per[i][0]
        if g is not None:
            want[0] -= g(ts[0], rows[0]).sum()
            want[-1] += g(ts[-1], rows[-1]).sum()
            v = v + integral[0]
        want[0] -= (v * call(f, ts[0], x0)).sum()
    return want


def run_row(case, out):
    f, g = VF[case["f"]](), LOSSES[case["loss"]]
    x0, ts = tens(X0[case["x"]]), tens(SPANS[case["span"]])
    tol, s = 1e-5, case["solver"]
    if s == "rk4":
        ts, tol = torch.linspace(ts[0], ts[-1], 9, dtype=torch.float64), 2e-3
    kw = {"interpolator": "4th"} if s == "interp" else {}
    m = (NeuralODE if case["entry"] == "neural" else ODEProblem)(f, "dopri5" if s == "interp" else s, atol=1e-9, rtol=1e-9, atol_adjoint=1e-9, rtol_adjoint=1e-9, sensitivity=case["sens"], integral_loss=g, **kw)
    rows, per, integral = ref_grads(f, x0, ts, g)
    ps = [p for p in f.parameters() if p.requires_grad]
    subs = subsets(len(ts)) if len(ts) <= 4 else [(0,), (3,), (len(ts) - 1,), (1, 4), tuple(range(len(ts)))]
    for sub in subs:
        for both in (0, 1):
            x = x0.clone().requires_grad_(bool(both))
            tt = ts.clone().requires_grad_(True)
            tc = [0.] * len(ts) if not both else [.3 * (i - 1.5) for i in range(len(ts))]
            t, sol = m(x, tt)
            loss = sum((weights(sol[i].shape, i) * sol[i]).sum() for i in sub) + sum(c * v for c, v in zip(tc, t))
            out.step(len(ts) - 1)
            if not loss.requires_grad:
                if g is None and sub == (0,) or not out.fail("the solution does not require gradients"):
                    continue
            got = torch.autograd.grad(loss, [tt] + ([x] + ps if both else []), allow_unused=True)
            want = expected(f, x0, ts, rows, per, integral, g, sub, tc)
            a = torch.zeros_like(tt) if got[0] is None else got[0]
            sc = max(1., float(want.abs().max()))
            out.trace()
            if not out.check(a.shape == tt.shape and close(a, want, tol, tol * sc), lambda: "loss over rows %s: gradient w.r.t. the times %s, want %s" % (sub, a.tolist(), want.tolist())):
                return
            # nothing changes for the other quantities
            if both:
                for k, (a, b) in enumerate(zip(got[1:], total(per, sub, integral))):
                    a = torch.zeros_like(b) if a is None else a
                    if not out.check(close(a, b, tol * 10, tol * 10 * sc), lambda: "loss over rows %s: gradient %d: %s" % (sub, k, err(a, b))):
                        return
            out.state(case["f"], case["span"], case["x"], case["sens"], sub, both)


def run_shooting(case, out):
    f, ts, x0 = VF[case["f"]](), torch.linspace(.2, 1., 6, dtype=torch.float64), tens(X0["m"])
    rows, per, _ = ref_grads(f, x0, ts)
    for sens in ("adjoint",):
        m = MultipleShootingLayer(f, "zero", maxiter=6, fine_steps=6, atol_adjoint=1e-9, rtol_adjoint=1e-9, sensitivity=sens)
        for sub in ((5,), (1, 3), (2, 5), (0, 4)):
            tt = ts.clone().requires_grad_(True)
            sol = m(x0.clone().requires_grad_(True), tt)[1]
            got = torch.autograd.grad(sum((weights(sol[i].shape, i) * sol[i]).sum() for i in sub), tt)[0]
            want = expected(f, x0, ts, rows, per, None, None, sub, [0.] * 6)
            out.trace()
            out.step()
            if not out.check(got.shape == tt.shape and close(got, want, 1e-4, 1e-4), lambda: "loss over rows %s: gradient w.r.t. the times %s, want %s" % (sub, got.tolist(), want.tolist())):
                return
            out.state(case["f"], sub)


def run_list(case, out):
    "floats, 0-d and 1-d tensors of both precisions, mixtures"
    f = VF[case["f"]]()
    x0, sp = tens(X0["m"]), SPANS[case["span"]]
    ps = [p for p in f.parameters() if p.requires_grad]
    m = (NeuralODE if case["entry"] == "neural" else ODEProblem)(f, case["solver"], sensitivity=case["sens"], atol=1e-6, rtol=1e-6)

    def go(t):
        x = x0.clone().requires_grad_(True)
        keep = list(t) if isinstance(t, list) else t.clone()
        te, sol = m(x, t)
        out.check(len(keep) == len(t) and all(float(a) == float(b) for a, b in zip(keep, t)), "times modified")
        g = torch.autograd.grad(sum((weights(r.shape, i) * r).sum() for i, r in enumerate(sol)), [x] + ps, allow_unused=True)
        out.step()
        return te, sol, g
    forms = {"floats": (sp, torch.float32), "f64": ([torch.tensor(v, dtype=torch.float64) for v in sp], torch.float64), "one": ([torch.tensor([v], dtype=torch.float64) for v in sp], torch.float64),
             "items": (list(tens(sp)), torch.float64), "mixed": ([torch.tensor(sp[0], dtype=torch.float64)] + [torch.tensor([v], dtype=torch.float64) for v in sp[1:]], torch.float64)}
    for name, (lst, dt) in forms.items():
        a, b = go(list(lst)), go(torch.tensor(sp, dtype=dt))
        out.trace()
        ok = a[0].shape == b[0].shape and a[1].shape == b[1].shape and close(a[0], b[0], 1e-12, 1e-12) and close(a[1], b[1], 1e-12, 1e-12)
        if not out.check(ok and all((u is None) == (v is None) and (u is None or close(u, v, 1e-10, 1e-10)) for u, v in zip(a[2], b[2])), lambda: "times given as a list (%s) are not solved like the tensor" % name):
            return
        out.state(str(case), name)
