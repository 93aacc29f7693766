"""C12: every binary noise path on every small grid: rows of SDE solves against the schemes' recursions; refused declarations; real Brownian intervals replayed."""
import itertools
import torch
import torch.nn as nn
import torchsde
from torchdyn.numerics.sdeint import sdeint
from torchdyn.core import SDEProblem, NeuralSDE
from torchdyn.core.defunc import SDEFunc
from torchdyn.numerics.solvers.sde import EulerMaruyama, EulerHeun, MilesteinIto, MilesteinStratonovich
from mc.common import *

PROPERTY = "C12"
RULE = ("all sign sequences of the increments of a path (per channel) x grids x schemes x drift/diffusion pairs x noise layouts x entry points: all rows compared with the "
        "recursion of the scheme; the intervals asked of the path are the grid intervals; saving times select rows; all SDE/solver declarations are accepted or refused as documented")
ASSUMPTIONS = ["elementwise (diagonal, scalar, additive) noise; increasing times"]
CASE_LIMIT = 60

GRIDS = {"u2": [0., 1.], "u3": [0., .5, 1.], "irr": [0., .1, .7, .9], "neg": [-1., -.25, .5], "off": [10., 10.3, 10.4, 11.], "tiny": [0., 1e-3, 3e-3], "nearly": [0., .3, .60007, .9001]}
LONG = {"u5": [0., .25, .5, .75, 1.], "irr6": [0., .1, .3, .35, .9, 1.]}
DRIFT = {"lin": lambda t, x: -.7 * x + .1, "tv": lambda t, x: torch.cos(t) * x + t, "zero": lambda t, x: 0 * x, "non": lambda t, x: torch.sin(2 * x)}
DIFF = {"gbm": lambda t, x: .6 * x, "add": lambda t, x: .5 + 0 * x, "tvd": lambda t, x: (1 + t) * torch.sin(x) + .2, "zero": lambda t, x: 0 * x, "sq": lambda t, x: .3 * x ** 2 + .1}
SCHEME = {"em": ("euler", "ito", EulerMaruyama), "heun": ("eulerHeun", "stratonovich", EulerHeun), "mil": ("milstein_ito", "ito", MilesteinIto),
          "mils": ("milstein_stratonovich", "stratonovich", MilesteinStratonovich)}
ENTRY = ["fn", "inst", "plain", "problem", "neural", "traj", "module", "statefn"]


def bounds(tier):
    return {"grids": GRIDS, "paths": "all sign sequences (two channels)", "schemes": sorted(SCHEME), "drifts": sorted(DRIFT), "diffusions": sorted(DIFF), "entry_points": ENTRY}


def cases(tier):
    deep = tier == "thorough"
    for g in list(GRIDS) + (["u5", "irr6"] if deep else []):
        for sc in SCHEME:
            for d in DRIFT:
                for s in DIFF:
                    for e in ENTRY:
                        for lay in ("diagonal", "scalar", "additive"):
                            for dt in ("f64", "f32"):
                                if g in LONG and (w2 := (e != "fn") + (lay != "diagonal") + (dt != "f64")):
                                    continue
                                if g == "irr6" and d not in ("tv", "non"):
                                    continue
                                if lay == "additive" and s not in ("add", "zero"):
                                    continue
                                w = (e != "fn") + (lay != "diagonal") + (dt != "f64")
                                if w > (2 if deep else 1) or w and not deep and (d not in ("tv",) or s not in ("tvd", "add")):
                                    continue
                                if e == "statefn" and (d == "tv" or s == "tvd"):
                                    continue
                                yield {"kind": "path", "grid": g, "scheme": sc, "drift": d, "diff": s, "entry": e, "noise": lay, "dtype": dt}
    for e in ("fn", "plain", "problem", "neural"):
        for sde_type in ("ito", "stratonovich", "other", None):
            for nt in ("diagonal", "scalar", "additive", "general", "weird", None):
                yield {"kind": "declare", "entry": e, "sde_type": sde_type, "noise": nt}
    for sc in SCHEME:
        for g in GRIDS:
            for d in DRIFT:
                for s in DIFF:
                    yield {"kind": "real", "scheme": sc, "grid": g, "drift": d, "diff": s}
    for sc in SCHEME:
        yield {"kind": "grad", "scheme": sc}


def ref_step(sc, f, g, x, t, h, dw):
    if sc == "em":
        return x + f(t, x) * h + g(t, x) * dw
    if sc == "heun":
        xp = x + g(t, x) * dw
        return x + f(t, x) * h + .5 * (g(t, x) + g(t + h, xp)) * dw
    r = h.sqrt()
    xp = x + f(t, x) * h + g(t, x) * r
    v = dw ** 2 - (h if sc == "mil" else 0)
    return x + f(t, x) * h + g(t, x) * dw + (g(t, xp) - g(t, x)) / (2 * r) * v


class Path:
    def __init__(self, grid, incr):
        self.grid, self.incr, self.asked = grid, incr, []

    def __call__(self, a, b):
        i = int((self.grid - a).abs().argmin())
        j = int((self.grid - b).abs().argmin())
        self.asked.append((float(a), float(b)))
        tol = 1e-5 * max(1., float(self.grid.abs().max()))
        if j != i + 1 or abs(float(self.grid[i]) - float(a)) > tol or abs(float(self.grid[j]) - float(b)) > tol:
            raise AssertionError("increment over (%r, %r) asked, grid %s" % (float(a), float(b), self.grid.tolist()))
        return self.incr[i]


class Mod(nn.Module):
    def __init__(self, f):
        super().__init__()
        self.f = f

    def forward(self, t, x):
        return self.f(t, x)


def solver(case, f, g, noise=None, sde_type=None, entry=None):
    "callable (x, ts, bm, save) -> (t, rows)"
    name, typ, cls = SCHEME[case["scheme"]]
    noise, typ, e = noise or case["noise"], sde_type or typ, entry or case["entry"]
    if e == "statefn":
        F, G = f, g
        f, g = (lambda x: F(torch.zeros(()), x)), (lambda x: G(torch.zeros(()), x))
        e = "fn"
    if e == "module":
        f, g = Mod(f), Mod(g)
        e = "fn"
    if e == "fn":
        return lambda x, ts, bm, s: sdeint(SDEFunc(f, g, noise_type=noise, sde_type=typ), x, ts, name, bm, save_at=s)
    if e == "inst":
        def run(x, ts, bm, s):
            sde = SDEFunc(f, g, noise_type=noise, sde_type=typ)
            return sdeint(sde, x, ts, cls(sde, bm), bm, save_at=s)
        return run
    if e == "plain":
        class S:
            pass
        S.noise_type, S.sde_type, S.f, S.g = noise, typ, staticmethod(lambda t, x: f(t, x)), staticmethod(lambda t, x: g(t, x))
        return lambda x, ts, bm, s: sdeint(S(), x, ts, name, bm, save_at=s)
    if e == "problem":
        return lambda x, ts, bm, s: SDEProblem(SDEFunc(f, g, noise_type=noise, sde_type=typ), name)(x, ts, bm, s)
    if e == "traj":
        def run(x, ts, bm, s):
            sol = NeuralSDE(f, g, solver=name, noise_type=noise, sde_type=typ, bm=bm).trajectory(x, ts)
            keep = [int((ts - v).abs().argmin()) for v in s] if len(s) else list(range(len(ts)))
            return ts[keep], sol[keep]
        return run
    return lambda x, ts, bm, s: NeuralSDE(f, g, solver=name, noise_type=noise, sde_type=typ, bm=bm)(x, ts, s)


def run(case, out):
    globals()["run_" + case["kind"]](case, out)


def reference(sc, f, g, x, ts, incr):
    rows = [x]
    for i in range(len(ts) - 1):
        rows.append(ref_step(sc, f, g, rows[-1], ts[i], ts[i + 1] - ts[i], incr[i]))
    return torch.stack(rows)


def run_path(case, out):
    dt = DT[case["dtype"]]
    f, g = DRIFT[case["drift"]], DIFF[case["diff"]]
    ts = tens({**GRIDS, **LONG}[case["grid"]], case["dtype"])
    n = len(ts) - 1
    x = tens([[.5, -.8], [.3, 1.1], [0., .2]], case["dtype"])
    tol = 1e-9 if dt == torch.float64 else 1e-4
    sv = solver(case, f, g)
    saves = [c for k in range(1, n + 2) for c in itertools.combinations(range(n + 1), k)]
    for pi, signs in enumerate(itertools.product((1, -1), repeat=2 * n)):
        incr = []
        for i in range(n):
            a = ts[i + 1] - ts[i]
            z = a.sqrt() * torch.tensor([signs[2 * i], 1.5 * signs[2 * i + 1]], dtype=dt)
            z = torch.stack([z, -.5 * z, z.flip(0)])
            incr.append(z[:, :1] if case["noise"] == "scalar" else z)
        bm = Path(ts, incr)
        want = reference(case["scheme"], f, g, x, ts, incr)
        xk, tk = x.clone(), ts.clone()
        t, sol = sv(x, ts if pi % 2 else [float(v) for v in ts] if case["entry"] == "fn" and dt == torch.float64 and False else ts, bm, ())
        out.step(n)
        out.trace()
        out.check(torch.equal(x, xk) and torch.equal(ts, tk), "inputs modified")
        if not out.check(t.shape == ts.shape and close(t, ts, 0, 0) and close(sol, want, tol, tol), lambda: "path %s: %s" % (signs, err(sol, want))):
            return
        if case["diff"] == "zero":
            e = [x]
            for i in range(n):
                e.append(e[-1] + (ts[i + 1] - ts[i]) * f(ts[i], e[-1]))
            out.check(close(sol, torch.stack(e), tol, tol), "zero diffusion: not the explicit Euler solution")
        asked = sorted(set((round(a, 6), round(b, 6)) for a, b in bm.asked))
        out.check(len(asked) == n, "intervals asked %s" % asked)
        s = saves[pi % len(saves)]
        t, sol = sv(x, ts, Path(ts, incr), [ts[i] for i in s])
        out.check(close(torch.as_tensor([float(v) for v in t], dtype=dt), ts[list(s)], 0, 1e-7 if dt == torch.float32 else 0) and close(sol, want[list(s)], tol, tol), lambda: "path %s saved at %s" % (signs, s))
        out.state(case["scheme"], case["drift"], case["diff"], case["grid"], signs)


def run_declare(case, out):
    f, g = DRIFT["lin"], DIFF["gbm"]
    x, ts = tens([[.5, -.8]]), tens(GRIDS["u3"])
    z = torch.ones(1, 2, dtype=torch.float64) * .1
    for sc, (name, typ, cls) in SCHEME.items():
        nt, st = case["noise"], case["sde_type"]
        ok = st == typ and nt in ("diagonal", "scalar", "additive", "general")

        def go():
            if case["entry"] == "fn":
                return sdeint(SDEFunc(f, g, noise_type=nt, sde_type=st), x, ts, name, Path(ts, [z, z]))
            if case["entry"] == "plain":
                class S:
                    noise_type, sde_type = nt, st
                S.f, S.g = staticmethod(lambda t, x: f(t, x)), staticmethod(lambda t, x: g(t, x))
                return sdeint(S(), x, ts, name, Path(ts, [z, z]))
            if case["entry"] == "problem":
                return SDEProblem(SDEFunc(f, g, noise_type=nt, sde_type=st), name)(x, ts, Path(ts, [z, z]))
            return NeuralSDE(f, g, solver=name, noise_type=nt, sde_type=st, bm=Path(ts, [z, z]))(x, ts)
        try:
            res = go()
            raised = None
        except (ValueError, RuntimeError) as e:
            raised = e
        out.check((raised is None) == ok, "%s with SDE type %s and noise type %s: %s" % (name, st, nt, "accepted" if raised is None else "refused: %s" % raised))
        try:
            cls(SDEFunc(f, g, noise_type=nt, sde_type=st), Path(ts, [z, z]))
            r2 = True
        except (ValueError, RuntimeError):
            r2 = False
        out.check(r2 == ok, "%s instance with SDE type %s and noise type %s %s" % (name, st, nt, "accepted" if r2 else "refused"))
        out.step()
        out.trace()
        out.state(sc, nt, st, ok)
    # neither methods nor declarations
    if case["entry"] == "plain":
        for S in (type("A", (), {"f": staticmethod(f), "noise_type": "diagonal", "sde_type": "ito"}), type("B", (), {"g": staticmethod(f), "noise_type": "diagonal", "sde_type": "ito"}),
                  type("C", (), {"f": staticmethod(f), "g": staticmethod(g), "sde_type": "ito"}), type("D", (), {"f": staticmethod(f), "g": staticmethod(g), "noise_type": "diagonal"})):
            try:
                sdeint(S(), x, ts, "euler", Path(ts, [z, z]))
                out.fail("incomplete SDE %s accepted" % S.__name__)
            except (RuntimeError, AttributeError):
                pass


def run_real(case, out):
    "a real Brownian interval, asked again by the reference"
    f, g = DRIFT[case["drift"]], DIFF[case["diff"]]
    ts = tens(GRIDS[case["grid"]])
    x = tens([[.5, -.8], [.3, 1.1]])
    for seed in range(3):
        mk = lambda: torchsde.BrownianInterval(t0=float(ts[0]), t1=float(ts[-1]) + 1e-9, size=(2, 2), entropy=seed, dtype=torch.float64)
        bm = mk()
        rows = {}
        for e in ("fn", "inst", "plain", "problem", "neural"):
            t, sol = solver(dict(case, noise="diagonal"), f, g, entry=e)(x, ts, bm, ())
            rows[e] = sol
            incr = [bm(ts[i], ts[i + 1]) for i in range(len(ts) - 1)]
            want = reference(case["scheme"], f, g, x, ts, incr)
            out.check(close(sol, want, 1e-7, 1e-7), lambda: "%s seed %d: %s" % (e, seed, err(sol, want)))
            out.step(len(ts) - 1)
            out.trace()
        t, sol = solver(dict(case, noise="diagonal"), f, g, entry="fn")(x, ts, mk(), ())
        out.check(close(sol, rows["fn"], 1e-7, 1e-7), "same entropy, different solution")
        out.state(case["scheme"], case["grid"], seed, round(float(rows["fn"].sum()), 6))


def run_grad(case, out):
    w = [torch.tensor(v, dtype=torch.float64, requires_grad=True) for v in (.7, .4)]
    f, g = (lambda t, x: -w[0] * x + t), (lambda t, x: w[1] * torch.sin(x) + .2)
    for gname, ts in GRIDS.items():
        ts = tens(ts)
        n = len(ts) - 1
        for signs in itertools.product((1, -1), repeat=n):
            incr = [(ts[i + 1] - ts[i]).sqrt() * s * torch.ones(2, 2, dtype=torch.float64) for i, s in enumerate(signs)]
            gr = []
            for which in (0, 1):
                x = tens([[.5, -.8], [.3, 1.1]]).requires_grad_(True)
                rows = reference(case["scheme"], f, g, x, ts, incr) if which else solver(dict(case, noise="diagonal"), f, g, entry="fn")(x, ts, Path(ts, incr), ())[1]
                gr.append([torch.autograd.grad((r * torch.arange(1., 5.).double().reshape(2, 2)).sum(), [x] + w, retain_graph=True, allow_unused=True) for r in rows])
            for i, (a, b) in enumerate(zip(*gr)):
                for k, (u, v) in enumerate(zip(a, b)):
                    out.check((u is None) == (v is None) and (u is None or close(u, v)), "gradient %d of row %d" % (k, i))
            out.step(n)
            out.trace()
            out.state(gname, signs)
