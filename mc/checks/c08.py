"""C08: adjoint gradients against derivatives of an accurate reference solve, for losses reading every subset of the returned rows."""
import itertools
import torch
from torchdyn.core import ODEProblem, NeuralODE
from mc.adj import *

PROPERTY = "C08"
RULE = ("for every (vector field, span, state shape, solver pair, entry, integral loss): backward passes of losses reading every non-empty subset of the returned rows; the "
        "gradients w.r.t. initial state and all trainable parameters are compared with those of an independent accurate solve; repeated and interleaved backward passes")
ASSUMPTIONS = ["tolerances of 1e-9 for the adaptive solves, 1e-6 agreement", "fixed-step solves: agreement up to the order of the method on a fine grid"]
CASE_LIMIT = 120
SPANS = {"f2": [0., 1.], "f4": [0., .3, .5, 1.2], "r3": [1., .4, 0.], "neg": [-1., -.6, .1], "off": [2., 2.2, 3.], "r4": [.5, .2, -.3, -.6]}


def bounds(tier):
    return {"fields": sorted(VF), "spans": SPANS, "states": X0, "row_subsets": "all", "losses": sorted(LOSSES)}


def cases(tier):
    deep = tier == "thorough"
    for fld in VF:
        for sp in SPANS:
            for x in X0:
                for s in (("dopri5",), ("tsit5",), ("dopri5", "tsit5")):
                    for loss in LOSSES:
                        for e in ("problem", "neural"):
                            w = (x != "m") + (s[0] != "dopri5" or len(s) > 1) + (loss != "none") + (e != "problem") + (sp not in ("f4", "r3"))
                            if w <= (3 if deep else 1 if sp in ("f4", "r3") or fld in ("lin", "tv") else 0) or (fld in ("tv", "tanh") and w <= 2 and not deep and sp in ("f4", "r3") and (x in ("m", "v") and loss in ("none", "tx"))):
                                yield {"kind": "grad", "field": fld, "span": sp, "x": x, "solver": s, "loss": loss, "entry": e, "req": "both"}
        for req in ("x", "p", "none"):
            yield {"kind": "grad", "field": fld, "span": "f4", "x": "m", "solver": ("dopri5",), "loss": "none", "entry": "problem", "req": req}
        for sp in ("f2", "r3"):
            for s, e in (("rk4", "problem"), ("rk4", "neural"), ("midpoint", "problem"), ("midpoint", "neural")):
                if deep or s == "rk4" and (e == "problem") == (sp == "f2"):
                    yield {"kind": "fixed", "field": fld, "span": sp, "x": "m", "solver": s, "entry": e}
        yield {"kind": "repeat", "field": fld, "x": "m"}
        yield {"kind": "f32", "field": fld}
    yield from tol_cases()
    yield from scaled_cases(deep)
    for fld in ("lam_tx", "lam_x"):
        for e in ("problem", "neural"):
            yield {"kind": "opt", "form": fld, "entry": e}


def build(case, f, tol=1e-9):
    s = case["solver"]
    g = LOSSES[case.get("loss", "none")]
    kw = dict(solver=s[0], solver_adjoint=s[1] if len(s) > 1 else None, atol=tol, rtol=tol, atol_adjoint=tol, rtol_adjoint=tol, sensitivity="adjoint", integral_loss=g)
    return (NeuralODE if case["entry"] == "neural" else ODEProblem)(f, **kw)


def compare(out, got, want, what, tol):
    for k, (a, b) in enumerate(zip(got, want)):
        a = torch.zeros_like(b) if a is None else a
        out.check(a.shape == b.shape and close(a, b, tol, tol), lambda: "%s: gradient %s: %s" % (what, "w.r.t. initial state" if k == 0 else "of parameter %d" % (k - 1), err(a, b)))


def run(case, out):
    globals()["run_" + case["kind"]](case, out)


def subsets(n):
    return [s for k in range(1, n + 1) for s in itertools.combinations(range(n), k)]


def run_grad(case, out):
    f = VF[case["field"]]()
    x0, ts = tens(X0[case["x"]]), tens(SPANS[case["span"]])
    req = case["req"]
    if req == "x":
        for p in f.parameters():
            p.requires_grad_(False)
    m = build(case, f)
    rows, per, integral = ref_grads(f, x0, ts, LOSSES[case["loss"]])
    ps = [p for p in f.parameters() if p.requires_grad]
    if req == "p" and not ps:
        return
    for sub in subsets(len(ts)):
        if case["loss"] != "none" and len(sub) not in (1, len(ts)):
            continue
        x = x0.clone().requires_grad_(req in ("both", "x"))
        if req == "none":
            with torch.no_grad():
                t, sol = m(x, ts)
            out.check(close(sol, rows, 1e-6, 1e-6), lambda: "rows: " + err(sol, rows))
            return
        t, sol = m(x, ts)
        out.step()
        out.check(close(t, ts, 0, 0) and close(sol, rows, 1e-6, 1e-6), lambda: "rows: " + err(sol, rows))
        loss = sum((weights(sol[i].shape, i) * sol[i]).sum() for i in sub)
        wrt = ([x] if req != "p" else []) + ps
        if not loss.requires_grad:
            return out.fail("solution does not require gradients")
        got = torch.autograd.grad(loss, wrt, allow_unused=True)
        want = total(per, sub, integral)
        compare(out, got if req != "p" else (want[0],) + got, want, "loss over rows %s" % (sub,), 1e-6)
        out.trace()
        out.state(case["field"], case["span"], case["x"], sub, [round(float(v.sum()), 6) for v in want])


SAVES = [None, [0], [16], [7], [16, 0], [5, 11, 16], [0, 8], [9, 3]]


def run_fixed(case, out):
    f = VF[case["field"]]()
    ends = SPANS[case["span"]]
    x0, ts = tens(X0["m"]), torch.linspace(ends[0], ends[-1], 17, dtype=torch.float64)
    case = dict(case, solver=(case["solver"],))
    tol = 1e-5 if case["solver"][0] == "rk4" else 5e-3
    m = build(case, f)
    rows, per, _ = ref_grads(f, x0, ts, n=2, only={i for s in SAVES if s for i in s} | {0, 8, 2, 9, 10, 15})
    ps = [p for p in f.parameters() if p.requires_grad]
    for save in SAVES:
        for sub in ([(0,), (16,), (8,), (2, 9, 10, 15)] if save is None else subsets(len(save))):
            for st in ("tensor", "list") if save is not None and len(sub) == len(save) else ("tensor",):
                x = x0.clone().requires_grad_(True)
                t, sol = m(x, ts) if save is None else m(x, ts, save_at=ts[save] if st == "tensor" else [ts[i] for i in save])
                idx = list(range(17)) if save is None else save
                out.step(17)
                if not out.check(close(t, ts[idx], 0, 0) and close(sol, rows[idx], tol, tol), lambda: "rows saved at %s: got times %s" % (save, t.tolist())):
                    return
                loss = sum((weights(sol[i].shape, idx[i]) * sol[i]).sum() for i in sub)
                got = torch.autograd.grad(loss, [x] + ps, allow_unused=True)
                compare(out, got, total(per, [idx[i] for i in sub]), "saved %s, rows %s" % (save, sub), tol * 20)
                out.trace()


def run_repeat(case, out):
    "one graph differentiated repeatedly, two graphs in both orders, gradients accumulated by backward()"
    f = VF[case["field"]]()
    case = dict(case, solver=("dopri5",), entry="problem")
    m = build(case, f, 1e-8)
    ps = [p for p in f.parameters() if p.requires_grad]
    xs = [tens(X0["m"]), tens(X0["b1"]) * 2]
    tss = [tens(SPANS["f4"]), tens(SPANS["r3"])]
    per = [ref_grads(f, x, t)[1] for x, t in zip(xs, tss)]
    for order in itertools.product((0, 1), repeat=3):
        vs = [x.clone().requires_grad_(True) for x in xs]
        sols = [m(v, t)[1] for v, t in zip(vs, tss)]
        for j, k in enumerate(order):
            sub = [(1,), (0, 2), (2,)][j]
            loss = sum((weights(sols[k][i].shape, i) * sols[k][i]).sum() for i in sub)
            got = torch.autograd.grad(loss, [vs[k]] + ps, allow_unused=True, retain_graph=True)
            compare(out, got, total(per[k], sub), "order %s, backward %d" % (order, j), 1e-5)
            out.step()
        out.trace()
        out.state(order)
    # accumulation in .grad, both in one backward
    for p in ps:
        p.grad = None
    vs = [x.clone().requires_grad_(True) for x in xs]
    loss = 0
    for k in (0, 1):
        sol = m(vs[k], tss[k])[1]
        loss = loss + sum((weights(r.shape, i) * r).sum() for i, r in enumerate(sol))
    loss.backward()
    loss2 = m(vs[0], tss[0])[1]
    ((weights(loss2[1].shape, 1) * loss2[1]).sum()).backward()
    w0, w1, w2 = total(per[0], range(len(tss[0]))), total(per[1], range(len(tss[1]))), total(per[0], [1])
    compare(out, [vs[0].grad] + [p.grad for p in ps], [w0[0] + w2[0]] + [a + b + c for a, b, c in zip(w0[1:], w1[1:], w2[1:])], "accumulated", 1e-5)
    compare(out, [vs[1].grad], [w1[0]], "accumulated", 1e-5)


def run_f32(case, out):
    f = VF[case["field"]]()
    x0 = tens(X0["m"])
    ts = tens(SPANS["f4"])
    rows, per, _ = ref_grads(f, x0, ts)
    f = f.float()
    m = build(dict(case, solver=("dopri5",), entry="problem"), f, 1e-5)
    ps = [p for p in f.parameters() if p.requires_grad]
    for sub in subsets(4):
        x = x0.float().requires_grad_(True)
        t, sol = m(x, ts.float())
        loss = sum((weights(sol[i].shape, i).float() * sol[i]).sum() for i in sub)
        got = torch.autograd.grad(loss, [x] + ps, allow_unused=True)
        out.check(all(a is None or a.dtype == torch.float32 for a in got), "gradients are not single precision")
        compare(out, [None if a is None else a.double() for a in got], total(per, sub), "single precision, rows %s" % (sub,), 2e-3)
        out.trace()


def run_tols(case, out):
    run_tols_of("adjoint", case, out)


def run_opt(case, out):
    "parameters of a plain callable passed as optimizable_params"
    w, b = P(W2), P([.3, -.2])
    fn = {"lam_tx": lambda t, x: torch.tanh(x @ w) + t * b, "lam_x": lambda x: torch.tanh(x @ w) + b}[case["form"]]

    class R(nn.Module):
        def __init__(self):
            super().__init__()
            self.w, self.b = w, b

        def forward(self, t, x):
            return fn(t, x) if case["form"] == "lam_tx" else fn(x)
    cls = NeuralODE if case["entry"] == "neural" else ODEProblem
    ts, x0 = tens(SPANS["f4"]), tens(X0["m"])
    rows, per, _ = ref_grads(R(), x0, ts)
    for sens in ("adjoint", "interpolated_adjoint"):
        m = cls(fn, "dopri5", sensitivity=sens, atol=1e-8, rtol=1e-8, atol_adjoint=1e-8, rtol_adjoint=1e-8, optimizable_params=(w, b))
        mine = dict(m.named_parameters())
        out.check(any(p is w for p in mine.values()) and any(p is b for p in mine.values()), "given parameters are not parameters of the problem")
        for sub in subsets(4):
            if sens != "adjoint" and sub != (3,):
                continue
            x = x0.clone().requires_grad_(True)
            t, sol = m(x, ts)
            idx = [int((t - ts[i]).abs().argmin()) for i in sub]
            loss = sum((weights(sol[j].shape, i) * sol[j]).sum() for i, j in zip(sub, idx))
            got = torch.autograd.grad(loss, [x, w, b], allow_unused=True)
            compare(out, got, total(per, sub), "optimizable parameters (%s), rows %s" % (sens, sub), 1e-5 if sens == "adjoint" else 1e-3)
            out.trace()


def run_scaled(case, out):
    run_scaled_of("adjoint", case, out)
