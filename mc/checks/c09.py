"""C09: interpolated-adjoint gradients against derivatives of an accurate reference solve, for losses reading subsets of all returned rows."""
import itertools
import torch
from torchdyn.core import ODEProblem, NeuralODE
from mc.adj import *

PROPERTY = "C09"
RULE = ("for every (vector field, span, batch, solver pair, entry, integral loss): backward passes of losses reading every non-empty subset of the requested rows, every single "
        "intermediate row and groups of them; gradients w.r.t. initial state and all trainable parameters compared with those of an independent accurate solve over the returned times")
ASSUMPTIONS = ["states are [batch, dim]", "agreement up to the accuracy of a natural cubic spline through the returned rows (1e-3 for 8 rows, 2e-4 for 17 and more)"]
CASE_LIMIT = 120
SPANS = {"f2": [0., 1.], "f4": [0., .3, .5, 1.2], "r3": [1., .4, 0.], "neg": [-1., -.6, .1], "off": [2., 2.2, 3.], "r4": [.5, .2, -.3, -.6]}
STATES = ("m", "b1")


def bounds(tier):
    return {"fields": sorted(VF), "spans": SPANS, "states": {k: X0[k] for k in STATES}, "row_subsets": "all of the requested rows, all single returned rows", "losses": sorted(LOSSES)}


def cases(tier):
    deep = tier == "thorough"
    for fld in VF:
        for sp in SPANS:
            for x in STATES:
                for s in (("dopri5",), ("tsit5",), ("dopri5", "rk4"), ("tsit5", "dopri5")):
                    for loss in LOSSES:
                        for e in ("problem", "neural"):
                            w = (x != "m") + (s[0] != "dopri5" or len(s) > 1) + (loss != "none") + (e != "problem") + (sp not in ("f4", "r3"))
                            if w <= (3 if deep else 1) - (not deep and (fld not in ("tv", "tanh", "unused") or sp not in ("f4", "r3"))):
                                yield {"kind": "grad", "field": fld, "span": sp, "x": x, "solver": s, "loss": loss, "entry": e, "req": "both"}
        for req in ("x", "p"):
            yield {"kind": "grad", "field": fld, "span": "f4", "x": "m", "solver": ("dopri5",), "loss": "none", "entry": "problem", "req": req}
        for sp in ("f2", "r3"):
            for s in ("rk4", "dopri5"):
                yield {"kind": "grid", "field": fld, "span": sp, "x": "m", "solver": s, "entry": "problem" if s == "rk4" else "neural"}
        yield {"kind": "repeat", "field": fld, "x": "m"}
    yield from tol_cases()
    yield from scaled_cases(deep)


def build(case, f, tol=1e-9):
    s = case["solver"]
    kw = dict(solver=s[0], solver_adjoint=s[1] if len(s) > 1 else None, atol=tol, rtol=tol, atol_adjoint=1e-7, rtol_adjoint=1e-7, sensitivity="interpolated_adjoint",
              integral_loss=LOSSES[case.get("loss", "none")])
    return (NeuralODE if case["entry"] == "neural" else ODEProblem)(f, **kw)


def compare(out, got, want, what, tol):
    for k, (a, b) in enumerate(zip(got, want)):
        a = torch.zeros_like(b) if a is None else a
        out.check(a.shape == b.shape and close(a, b, tol, tol), lambda: "%s: gradient %s: %s" % (what, "w.r.t. initial state" if k == 0 else "of parameter %d" % (k - 1), err(a, b)))


def run(case, out):
    globals()["run_" + case["kind"]](case, out)


def subsets(n):
    return [s for k in range(1, n + 1) for s in itertools.combinations(range(n), k)]


def grads(m, x, ts, pick, wrt):
    t, sol = m(x, ts)
    idx = pick(t)
    loss = sum((weights(sol[j].shape, k) * sol[j]).sum() for k, j in enumerate(idx))
    return t, sol, idx, torch.autograd.grad(loss, wrt(), allow_unused=True)


def run_grad(case, out):
    f = VF[case["field"]]()
    x0, ts = tens(X0[case["x"]]), tens(SPANS[case["span"]])
    req = case["req"]
    if req == "x":
        for p in f.parameters():
            p.requires_grad_(False)
    ps = [p for p in f.parameters() if p.requires_grad]
    if req == "p" and not ps:
        return
    m = build(case, f)
    with torch.no_grad():
        t_all, sol = m(x0, ts)
    n = len(t_all)
    d = t_all.diff()
    if not out.check(bool((d > 0).all() | (d < 0).all()) and all(bool((t_all == v).any()) for v in ts), "returned times %s do not contain the requested ones monotonically" % (t_all.tolist()[:5],)):
        return
    req_idx = [int((t_all == v).nonzero()[0]) for v in ts]
    groups = [tuple(req_idx[i] for i in s) for s in subsets(len(ts)) if case["loss"] == "none" or len(s) in (1, len(ts))]
    if case["x"] == "m" and case["loss"] == "none":
        groups += [(1,), (n // 2,), (n - 2,), (1, n // 2, n - 1)]
    need = {j for g in groups for j in g}
    rows, per, integral = ref_grads_w(f, x0, t_all, LOSSES[case["loss"]], groups)
    out.check(close(sol, rows, 1e-6, 1e-6), lambda: "rows: " + err(sol, rows))
    for gi, g in enumerate(groups):
        x = x0.clone().requires_grad_(req != "p")
        t, sol = m(x, ts)
        out.step()
        loss = sum((weights(sol[j].shape, k) * sol[j]).sum() for k, j in enumerate(g))
        got = torch.autograd.grad(loss, ([x] if req != "p" else []) + ps, allow_unused=True)
        want = per[gi]
        compare(out, got if req != "p" else (want[0],) + tuple(got), want, "loss over rows %s of %d" % (g, n), 0.2 if case["field"] in ("paronly", "timepar") and case["loss"] != "none" else 1e-3)
        out.trace()
        out.state(case["field"], case["span"], case["x"], g, [round(float(v.sum()), 5) for v in want])


def ref_grads_w(f, x0, t_all, g, groups):
    x = x0.detach().clone().requires_grad_(True)
    ps = [p for p in f.parameters() if p.requires_grad]
    rows, accs = ref_solve(f, x, t_all, g, 2)
    res = []
    for gr in groups:
        l = sum((weights(rows[j].shape, k) * rows[j]).sum() for k, j in enumerate(gr))
        if g is not None:
            l = l + accs[-1]
        v = torch.autograd.grad(l, [x] + ps, retain_graph=True, allow_unused=True)
        res.append([torch.zeros_like(p) if a is None else a for p, a in zip([x] + ps, v)])
    return rows.detach(), res, None


def run_grid(case, out):
    "a dense grid of requested times; saving times of fixed-step solves"
    f = VF[case["field"]]()
    ends = SPANS[case["span"]]
    x0, ts = tens(X0["m"]), torch.linspace(ends[0], ends[-1], 17, dtype=torch.float64)
    fixed = case["solver"] == "rk4"
    m = build(dict(case, solver=(case["solver"],)), f)
    ps = [p for p in f.parameters() if p.requires_grad]
    for save in ((None, [0], [16], [7], [16, 0], [5, 11, 16]) if fixed else (None,)):
        for sub in ([(0,), (16,), (8,), (2, 9, 10, 15)] if save is None else subsets(len(save))):
            x = x0.clone().requires_grad_(True)
            t, sol = m(x, ts) if save is None else m(x, ts, save_at=ts[save])
            idx = list(range(17)) if save is None else save
            if fixed:
                if not out.check(close(t, ts[idx], 0, 0), "times %s saved at %s" % (t.tolist(), save)):
                    return
                pos = list(range(len(t)))
            else:
                if not out.check(all(bool((t == v).any()) for v in ts), "requested times missing"):
                    return
                pos = [int((t == v).nonzero()[0]) for v in ts]
            loss = sum((weights(sol[pos[i]].shape, k) * sol[pos[i]]).sum() for k, i in enumerate(sub))
            got = torch.autograd.grad(loss, [x] + ps, allow_unused=True)
            _, want, _ = ref_grads_w(f, x0, ts, None, [tuple(idx[i] for i in sub)])
            compare(out, got, want[0], "saved %s, rows %s" % (save, sub), 2e-3 if fixed else 2e-4)
            out.step(17)
            out.trace()


def run_tols(case, out):
    run_tols_of("interpolated_adjoint", case, out)


def run_repeat(case, out):
    f = VF[case["field"]]()
    m = build(dict(case, solver=("dopri5",), entry="problem"), f, 1e-8)
    ps = [p for p in f.parameters() if p.requires_grad]
    xs = [tens(X0["m"]), tens(X0["b1"]) * 2]
    tss = [tens(SPANS["f4"]), tens(SPANS["r3"])]
    for order in itertools.product((0, 1), repeat=3):
        vs = [x.clone().requires_grad_(True) for x in xs]
        sols = [m(v, t) for v, t in zip(vs, tss)]
        for j, k in enumerate(order):
            n = len(sols[k][0])
            g = [(n - 1,), (1, n // 2), (n // 3, n - 1)][j]
            loss = sum((weights(sols[k][1][i].shape, q) * sols[k][1][i]).sum() for q, i in enumerate(g))
            got = torch.autograd.grad(loss, [vs[k]] + ps, allow_unused=True, retain_graph=True)
            _, want, _ = ref_grads_w(f, xs[k], sols[k][0].detach(), None, [g])
            compare(out, got, want[0], "order %s, backward %d" % (order, j), 1e-3)
            out.step()
        out.trace()
        out.state(order)


def run_scaled(case, out):
    run_scaled_of("interpolated_adjoint", case, out)
