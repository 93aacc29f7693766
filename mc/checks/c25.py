"""C25: every partition, permutation, repetition and reshaping of a batch, for every solver and entry point: solutions and gradients of the parts against those of the whole."""
import itertools
import torch
import torch.nn as nn
from torchdyn.core import NeuralODE, ODEProblem
from torchdyn.numerics import odeint, odeint_symplectic, odeint_mshooting
from torchdyn.numerics.solvers.ode import AsynchronousLeapfrog, DormandPrince45, Euler, RungeKutta4, Tsitouras45
from torchdyn.numerics.solvers.hyper import HyperEuler, HyperMidpoint, HyperRungeKutta4
from mc.common import *

PROPERTY = "C25"
RULE = ("all set partitions of batches of up to 4 (5) samples for fixed-step methods (partition's solves put together = solve of the batch, rows, saving times, gradients); all permutations, "
        "repetitions and factorisations of the state's shape for adaptive methods (same accepted times, same states); multiple shooting likewise; every grid direction and entry point")
ASSUMPTIONS = ["explicit methods (parallel implicit Euler to 1e-4, its root search being over the whole batch)", "vector fields acting on every sample separately, in evaluation mode"]
CASE_LIMIT = 120
FIX = ["euler", "midpoint", "rk4", "rk-4", "hyper_euler", "hyper_midpoint", "hyper_rk4", "alf"]
ADA = ["dopri5", "tsit5", "inst_dopri5", "inst_tsit5"]
SHAPES = {"v": (), "d2": (2,), "d1": (1,), "d23": (2, 3), "d212": (2, 1, 2), "d6": (6,)}
SPAN = {"uni": [0., .25, .5, .75, 1.], "one": [0., 1.], "off": [2., 2.1, 2.6], "irr": [-1., -.9, .2, .3, .7], "dec": [1., .6, .5, -.2]}


def bounds(tier):
    return {"batch": 4 if tier == "quick" else 5, "shapes": {k: list(v) for k, v in SHAPES.items()}, "spans": sorted(SPAN), "fixed": FIX, "adaptive": ADA, "repeats": [2, 3]}


def partitions(n):
    def go(i, blocks):
        if i == n:
            yield [list(b) for b in blocks]
            return
        for b in blocks:
            b.append(i)
            yield from go(i + 1, blocks)
            b.pop()
        blocks.append([i])
        yield from go(i + 1, blocks)
        blocks.pop()
    return list(go(0, []))


def cases(tier):
    deep = tier == "thorough"
    for m in FIX:
        for sh in SHAPES:
            for sp in SPAN:
                for fld in ("couple", "elem"):
                    for dt in ("f64", "f32"):
                        if (sh in ("v", "d1", "d23") and m == "alf") or (not deep and ((sp not in ("dec", "irr") and sh != "d2") or (dt == "f32" and sp != "dec"))):
                            continue
                        yield {"kind": "split", "m": m, "shape": sh, "span": sp, "f": fld, "dtype": dt, "n": 5 if deep and dt == "f64" else 4}
    for m in ("euler", "midpoint", "rk4"):
        for e in ("forward", "trajectory", "problem"):
            for sens in ("autograd", "adjoint", "interpolated_adjoint"):
                if sens == "interpolated_adjoint" and m != "rk4":
                    continue
                for sh in ("v", "d2", "d23", "d212", "d1"):
                    yield {"kind": "model", "m": m, "entry": e, "sens": sens, "shape": sh, "n": 4}
    for m in ADA:
        for sh in SHAPES:
            for sp in SPAN:
                for fld in ("couple", "elem", "kick"):
                    for opt in ("none", "all", "interp", "tol"):
                        if opt == "interp" and "tsit5" in m:
                            continue
                        if not deep and ((sp != "irr") + (sh != "d2") + (fld != "couple") + (opt != "none") + m.startswith("inst") > 2 or (sh in ("d1", "d6") and opt == "all")):
                            continue
                        yield {"kind": "perm", "m": m, "shape": sh, "span": sp, "f": fld, "opt": opt, "deep": deep}
    for s in ("zero", "backward"):
        for sh in ("d2", "d1"):
            for it in (0, 1, 2, 4):
                yield {"kind": "ms", "solver": s, "shape": sh, "maxiter": it, "n": 4}
    for sh in ("d2", "d1"):
        yield {"kind": "ms", "solver": "parallel-implicit-euler", "shape": sh, "maxiter": 1, "n": 4}
    for tail in (.5, 1.5):
        for d in (4 if deep else 3,):
            for w in itertools.product((.2, .9, 1.1, 3.), repeat=d):
                yield {"kind": "script", "w": list(w), "tail": tail}


def state(n, shape, dt):
    k = n
    for s in shape:
        k *= s
    return (torch.sin(torch.arange(k, dtype=torch.float64) * 2.3 + .4) * .8).reshape((n,) + shape).to(dt)


class Vf(nn.Module):
    "acts on every sample separately, mixing the sample's entries when asked to"
    order = 1

    def __init__(self, kind, dtype=torch.float64, a=.8, b=.3):
        super().__init__()
        self.kind = kind
        self.a, self.b = nn.Parameter(torch.tensor(a, dtype=dtype)), nn.Parameter(torch.tensor(b, dtype=dtype))

    def forward(self, t, x, args={}):
        t = torch.as_tensor(t).to(x.dtype).reshape(-1)[0]
        y = -self.a * x + torch.sin(3 * t + x) + self.b
        if self.kind == "couple" and x.dim() > 1:
            y = y + .5 * torch.tanh(x.reshape(x.shape[0], -1).sum(1)).reshape([-1] + [1] * (x.dim() - 1)) + .2 * x.roll(1, -1)
        if self.kind == "kick":
            y = y + 5 * ((t > .3) & (t < .5))
        return y


def method(m, dt, kind="elem"):
    net = Vf(kind, dt, .4, -.6)
    return {"hyper_euler": HyperEuler, "hyper_midpoint": HyperMidpoint, "hyper_rk4": HyperRungeKutta4}[m](net, dtype=dt) if m.startswith("hyper_") else \
        {"inst_dopri5": DormandPrince45, "inst_tsit5": Tsitouras45}[m](dt) if m.startswith("inst_") else m


def run(case, out):
    torch.manual_seed(0)
    globals()["run_" + case["kind"]](case, out)


def run_split(case, out):
    dt = DT[case["dtype"]]
    tol = 1e-11 if dt == torch.float64 else 1e-4
    x, tt = state(case["n"], SHAPES[case["shape"]], dt), torch.tensor(SPAN[case["span"]], dtype=dt)
    solve = odeint_symplectic if case["m"] == "alf" else odeint
    f = Vf(case["f"], dt)
    for save in (None, [0, len(tt) - 1]):
        kw = {} if save is None else {"save_at": tt[save]}

        def go(z):
            return solve(f, z, tt, method(case["m"], dt, case["f"]), **kw)
        t, whole = go(x)
        want_len = len(tt) if save is None else len(save)
        out.check(whole.shape == (want_len,) + x.shape, lambda: "rows of shape %s" % (tuple(whole.shape),))
        single = {}
        for part in partitions(case["n"]):
            if len(part) == 1:
                continue
            got = torch.empty_like(whole)
            for b in part:
                if tuple(b) not in single:
                    single[tuple(b)] = go(x[b])
                    out.step(len(tt) - 1)
                tb, sb = single[tuple(b)]
                out.check(torch.equal(tb, t), "times depend on the batch")
                if not out.check(sb.shape == (want_len, len(b)) + x.shape[1:], lambda: "samples %s: shape %s" % (b, tuple(sb.shape))):
                    return
                got[:, b] = sb.detach()
            out.trace()
            if not out.check(close(got, whole, tol, tol), lambda: "partition %s: %s" % (part, err(got, whole))):
                return
            out.state(case["m"], case["shape"], case["span"], case["f"], str(part))
    # every order of the batch; repeated samples
    for perm in itertools.permutations(range(min(case["n"], 4))):
        p = list(perm) + [perm[0], perm[0]]
        _, s = solve(f, x[p], tt, method(case["m"], dt, case["f"]))
        _, w = solve(f, x, tt, method(case["m"], dt, case["f"])) if perm[0] == 0 and perm[1] == 1 and perm[2] == 2 else (None, w)
        out.check(close(s, w[:, p], tol, tol), lambda: "samples in order %s: %s" % (p, err(s, w[:, p])))
        out.trace()


def run_model(case, out):
    n, x = case["n"], state(case["n"], SHAPES[case["shape"]], torch.float64)
    tt = torch.linspace(0., 1., 6, dtype=torch.float64)

    def go(z):
        f = Vf("couple")
        z = z.clone().requires_grad_(True)
        if case["entry"] == "problem":
            m = ODEProblem(f, solver=case["m"], sensitivity=case["sens"], interpolator="4th" if case["sens"] == "interpolated_adjoint" else None, solver_adjoint="dopri5",
                           atol_adjoint=1e-10, rtol_adjoint=1e-10)
            sol = m.odeint(z, tt)[1]
        else:
            m = NeuralODE(f, solver=case["m"], sensitivity=case["sens"], interpolator="4th" if case["sens"] == "interpolated_adjoint" else None, solver_adjoint="dopri5",
                          atol_adjoint=1e-10, rtol_adjoint=1e-10)
            if case["entry"] == "trajectory":
                m = NeuralODE(f, solver=case["m"], sensitivity="autograd")
                sol = m.trajectory(z, tt)
            else:
                sol = m(z, tt)[1]
        g = torch.autograd.grad((sol[-1] ** 2).sum(), [z, f.a, f.b])
        return sol.detach(), g
    gtol = 1e-9 if case["sens"] == "autograd" or case["entry"] == "trajectory" else 1e-6
    if case["sens"] == "interpolated_adjoint":
        gtol = 2e-2
    whole, (gx, ga, gb) = go(x)
    memo = {}
    for part in partitions(n):
        if len(part) == 1:
            continue
        sa = sb = 0
        for b in part:
            if tuple(b) not in memo:
                memo[tuple(b)] = go(x[b])
                out.step(5)
            s, (hx, ha, hb) = memo[tuple(b)]
            sa, sb = sa + ha, sb + hb
            out.check(close(s, whole[:, b], 1e-11, 1e-11), lambda: "samples %s: %s" % (b, err(s, whole[:, b])))
            out.check(close(hx, gx[b], gtol, gtol), lambda: "samples %s: gradient: %s" % (b, err(hx, gx[b])))
        out.check(close(sa, ga, gtol, gtol) and close(sb, gb, gtol, gtol), lambda: "partition %s: parameter gradients do not add up: %s, %s" % (part, err(sa, ga), err(sb, gb)))
        out.trace()
        out.state(case["m"], case["entry"], case["sens"], str(part))


def factorings(n, k=4):
    if k == 1:
        return [(n,)]
    return [(d,) + r for d in range(1, n + 1) if n % d == 0 for r in factorings(n // d, k - 1)]


def run_perm(case, out):
    dt = torch.float64
    n = 4
    x, tt = state(n, SHAPES[case["shape"]], dt), torch.tensor(SPAN[case["span"]], dtype=dt)
    f = Vf(case["f"], dt)
    kw = {"none": {}, "all": {"return_all_eval": True}, "interp": {"interpolator": "4th"}, "tol": {"atol": 1e-6, "rtol": 1e-7}}[case["opt"]]

    def go(z):
        ev = []

        def g(t, y):
            ev.append(float(t))
            return f(t, y)
        t, s = odeint(g, z, tt, method(case["m"], dt), **kw)
        out.step(len(ev))
        return t, s.detach(), ev
    t, s, ev = go(x)

    def same(t2, s2, ev2, want, what):
        out.trace()
        return out.check(len(ev) == len(ev2) and all(abs(p - q) < 1e-6 for p, q in zip(ev, ev2)), lambda: "%s: %d evaluations instead of %d, or at other times" % (what, len(ev2), len(ev))) and \
            out.check(t.shape == t2.shape and close(t2, t, 1e-7, 1e-7), lambda: "%s: times %s instead of %s" % (what, t2.tolist()[:6], t.tolist()[:6])) and \
            out.check(close(s2, want, 1e-7, 1e-7), lambda: "%s: %s" % (what, err(s2, want)))
    for perm in itertools.permutations(range(n)):
        p = list(perm)
        if not same(*go(x[p]), s[:, p], "samples in order %s" % p):
            return
        out.state(case["m"], case["shape"], case["span"], case["f"], case["opt"], perm)
    for k in (2, 3):
        idx = list(range(n)) * k
        same(*go(x[idx]), s[:, idx], "batch repeated %d times" % k)
        idx = [i for i in range(n) for _ in range(k)]
        same(*go(x[idx]), s[:, idx], "every sample repeated %d times" % k)
    if case["f"] != "couple":
        for dims in sorted(set(factorings(x.numel(), 4 if case["deep"] else 3))):
            if not same(*go(x.reshape(dims)), s.reshape((len(s),) + dims), "state of shape %s" % (dims,)):
                return
        if x.dim() > 1:
            same(*go(x.transpose(0, 1)), s.transpose(1, 2), "transposed state")
            same(*go(x.transpose(0, 1).contiguous()), s.transpose(1, 2), "transposed state")


def run_ms(case, out):
    n, x = case["n"], state(case["n"], SHAPES[case["shape"]], torch.float64)
    tt = torch.linspace(0., 1., 5, dtype=torch.float64)

    class G(nn.Module):
        def forward(self, t, z):
            return -z + torch.sin(z).sum(-1, keepdim=True)
    f = G()

    def go(z):
        return odeint_mshooting(f, z, tt, case["solver"], maxiter=case["maxiter"])[1].detach()
    tol = 1e-4 if case["solver"].startswith("parallel") else 1e-9
    whole = go(x)
    memo = {}
    for part in partitions(n):
        if len(part) == 1:
            continue
        for b in part:
            if tuple(b) not in memo:
                memo[tuple(b)] = go(x[b])
                out.step()
            s = memo[tuple(b)]
            out.check(close(s, whole[:, b], tol, tol), lambda: "samples %s: %s" % (b, err(s, whole[:, b])))
        out.trace()
        out.state(case["solver"], case["maxiter"], str(part))


def run_script(case, out):
    "error estimates dictated: accept/reject pattern and times are those of the repeated or reshaped batch"
    x, tt = state(4, (3,), torch.float64), torch.tensor([0., .3, 1.], dtype=torch.float64)
    f = Vf("elem")

    def go(z):
        s = Scripted(case["w"], default=case["tail"] if case["tail"] < 1 else .9, dtype=torch.float64)
        t, y = odeint(f, z, tt, s, return_all_eval=True)
        out.step(len(s.calls))
        return [float(c[1]) for c in s.calls], t, y.detach()
    d, t, y = go(x)
    for what, z, w in (("repeated", x.repeat(2, 1), y.repeat(1, 2, 1)), ("flat", x.reshape(-1), y.reshape(len(y), -1)), ("one sample", x.reshape(1, 12), y.reshape(len(y), 1, 12)),
                       ("permuted", x[[2, 0, 3, 1]], y[:, [2, 0, 3, 1]]), ("4-d", x.reshape(2, 2, 1, 3), y.reshape(len(y), 2, 2, 1, 3))):
        d2, t2, y2 = go(z)
        out.trace()
        out.check(len(d) == len(d2) and all(abs(a - b) <= 1e-9 for a, b in zip(d, d2)) and close(t2, t), lambda: "%s: step sizes %s instead of %s" % (what, d2[:6], d[:6]))
        if t.shape == t2.shape:
            out.check(close(y2, w, 1e-9, 1e-9), lambda: "%s: %s" % (what, err(y2, w)))
        out.state(what, case["tail"], len(d))
