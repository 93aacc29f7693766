"""C26: full Jacobians of every row of every explicit solve w.r.t. state, parameters and solver networks against complex-step derivatives of reference maps, or differences of the computed map itself."""
import importlib, itertools
import torch
import torch.nn as nn
from torchdyn.core import NeuralODE, NeuralSDE, ODEProblem, SDEProblem
from torchdyn.core.defunc import SDEFunc
from torchdyn.numerics import odeint, odeint_symplectic
from torchdyn.numerics.sdeint import sdeint
from torchdyn.numerics.solvers.ode import AsynchronousLeapfrog, DormandPrince45, Euler, Midpoint, RungeKutta4, Tsitouras45
from torchdyn.numerics.solvers.hyper import HyperEuler, HyperMidpoint, HyperRungeKutta4
from mc.common import *

PROPERTY = "C26"
RULE = ("all (explicit method, vector field, grid, state shape, entry point, saving times, dtype): the Jacobian of every entry of every row w.r.t. every entry of the initial state, of every parameter "
        "and of the solver network's parameters, by autograd, against complex-step derivatives of a reference map (adaptive methods: central differences of the computed map where the step "
        "pattern does not change); second derivatives of fixed-step solves against differences of the first ones; the same Jacobians for every SDE scheme x drift x diffusion x grid x entry point on a given path, dictionaries of 1-3 keys, pairs of jagged grids")
ASSUMPTIONS = ["explicit methods", "adaptive solves: away from changes of the accept/reject pattern"]
CASE_LIMIT = 120
FIX = ["euler", "midpoint", "rk4", "rk-4", "hyper_euler", "hyper_midpoint", "hyper_rk4", "alf"]
TAB = {"euler": EULER, "midpoint": MIDPOINT, "rk4": RK4, "rk-4": RK4}
SDE = {"euler": "ito", "eulerHeun": "stratonovich", "milstein_ito": "ito", "milstein_stratonovich": "stratonovich"}
ORDER = {"euler": 1, "midpoint": 2, "rk4": 4}
SPAN = {"uni": [0., .25, .5, .75, 1.], "one": [.3, 1.1], "irr": [-1., -.9, .2, .3, .7], "dec": [1., .6, .5, -.2], "off": [10., 10.5, 10.6]}
LONG = [i * .02 + .001 * (i % 3) for i in range(76)]
SHAPES = {"v": (2,), "m": (2, 2), "b1": (1, 2), "t": (1, 2, 2)}


def bounds(tier):
    return {"methods": FIX + ["dopri5", "tsit5"], "spans": sorted(SPAN), "shapes": {k: list(v) for k, v in SHAPES.items()}, "fields": sorted(FLD), "derivatives": "all entries of all rows"}


# fields as functions of real or complex arguments: f(t, x, parameters)
def f_mlp(t, x, p):
    return torch.tanh(x @ p[0] + p[1] * torch.sin(t)) @ p[2] + p[3]


def f_poly(t, x, p):
    return p[0] * x - p[1] * x * x * x + p[2] * t * x.flip(-1)


def f_time(t, x, p):
    return torch.cos(p[0] * t) * p[1] + 0 * x


def f_prod(t, x, p):
    return p[0] * x * x.flip(-1) + torch.exp(-p[1] * x) * .2


FLD = {"mlp": (f_mlp, [[[.5, -.3, .2], [.4, .8, -.6]], [.1, -.2, .3], [[.3, -.5], [.7, .2], [-.4, .6]], [.05, -.1]]), "poly": (f_poly, [-.4, .3, .6]), "time": (f_time, [2.2, .7]), "prod": (f_prod, [.5, .9])}


class Vf(nn.Module):
    order = 1

    def __init__(self, name, dt=torch.float64, shift=0.):
        super().__init__()
        self.f, vals = FLD[name]
        self.p = nn.ParameterList([nn.Parameter(torch.tensor(v, dtype=dt) + shift) for v in vals])
        self.n = 0

    def forward(self, t, x, args={}):
        self.n += 1
        return self.f(torch.as_tensor(t).to(x.dtype).reshape(-1)[0], x, list(self.p))


def cases(tier):
    deep = tier == "thorough"
    for m in FIX:
        for fld in FLD:
            for sp in SPAN:
                for sh in SHAPES:
                    for e in ("odeint", "inst", "problem", "forward", "trajectory", "save"):
                        for dt in ("f64", "f32"):
                            if m == "alf" and (sh == "v" and fld == "mlp" or e not in ("odeint", "inst", "save")):
                                continue
                            if m.startswith("hyper") and e == "inst":
                                continue
                            w = (sp != "irr") + (sh != "m") + (e != "odeint") + (dt != "f64") + (m == "rk-4") + (fld == "time")
                            if w <= (4 if deep else 2):
                                yield {"kind": "fix", "m": m, "f": fld, "span": sp, "shape": sh, "entry": e, "dtype": dt}
                    if deep or (sp in ("irr", "dec") and sh in ("m", "v")):
                        if not (m == "alf" and sh == "v" and fld == "mlp"):
                            yield {"kind": "second", "m": m, "f": fld, "span": sp, "shape": sh}
    for m in FIX[:-1]:
        for fld in FLD:
            yield {"kind": "fix", "m": m, "f": fld, "span": "long", "shape": "b1", "entry": "odeint", "dtype": "f64"}
            for e in ("problem", "forward", "trajectory", "save"):
                if deep or (m == "rk4" and fld == "mlp"):
                    yield {"kind": "fix", "m": m, "f": fld, "span": "long", "shape": "b1", "entry": e, "dtype": "f64"}
    for m in ("dopri5", "tsit5", "inst_dopri5", "inst_tsit5"):
        for fld in FLD:
            for sp in SPAN:
                for sh in SHAPES:
                    for opt in ("none", "interp", "tight", "forward", "all", "problem"):
                        if opt == "interp" and "tsit5" in m:
                            continue
                        w = (sp != "irr") + (sh != "m") + (opt != "none") + m.startswith("inst")
                        if w <= (4 if deep else 2):
                            yield {"kind": "ada", "m": m, "f": fld, "span": sp, "shape": sh, "opt": opt}
                    if deep or sh in ("m", "v"):
                        for opt in ("none", "tight", "loose", "all"):
                            if m.startswith("inst"):
                                yield {"kind": "held", "m": m, "f": fld, "span": sp, "shape": sh, "opt": opt}
    for sc in SDE:
        for fd in FLD:
            for fg in FLD:
                for sp in ("uni", "one", "irr", "off"):
                    for e in ("fn", "problem", "neural", "traj", "save", "state"):
                        w = (sp != "irr") + (e != "fn")
                        if w <= (2 if deep else 1):
                            yield {"kind": "sde", "m": sc, "f": fd, "g": fg, "span": sp, "entry": e}
    for m in ("euler", "hash"):
        for sp in SPAN:
            for n in (1, 2, 3):
                yield {"kind": "dict", "m": m, "span": sp, "keys": n}
    for m in ("euler", "midpoint", "rk4"):
        for fld in FLD:
            for lens in itertools.product((2, 3, 4), repeat=2):
                yield {"kind": "jag", "m": m, "f": fld, "lens": list(lens)}
    for d in range(1, 6 if deep else 5):
        for w in itertools.product((.2, .95, 2.), repeat=d):
            yield {"kind": "script", "w": list(w)}


def start(shape, dt):
    n = 1
    for s in shape:
        n *= s
    return (torch.sin(torch.arange(n, dtype=torch.float64) * 1.9 + .5) * .7).reshape(shape).to(dt)


def run(case, out):
    torch.manual_seed(0)
    globals()["run_" + case["kind"]](case, out)


def reference(m, fld, tt, x, p, q):
    "rows of the discrete map, in the arithmetic of x"
    f = lambda t, z: FLD[fld][0](t, z, p)
    rows = [x]
    base = m.replace("hyper_", "")
    for a, b in zip(tt[:-1], tt[1:]):
        h, z = b - a, rows[-1]
        if m == "alf":
            d = z.shape[-1] // 2
            x1 = z[..., :d] + h / 2 * z[..., d:]
            v1 = 2 * f(a + h / 2, x1) - z[..., d:]
            y = torch.cat([x1 + h / 2 * v1, v1], -1)
        else:
            # rk4: the library's name stands for the 3/8-rule tableau checked elsewhere
            y = rk_step(*(RK4_TABLE if base in ("rk4", "rk-4") else TAB[base]), f, a, z, h)[0]
            if m.startswith("hyper"):
                # with decreasing times the mirrored system is stepped forward (C06)
                y = y + abs(h) ** (ORDER[base] + 1) * FLD[fld][0](a if h > 0 else -a, z, q)
        rows.append(y)
    return torch.stack(rows)


def pick_rk4():
    "which classical tableau rk4 uses is not a matter of this property"
    f = lambda t, x: torch.sin(t * x) + x * x
    x, tt = torch.tensor([.4, .9], dtype=torch.float64), torch.tensor([.1, .8], dtype=torch.float64)
    y = odeint(f, x, tt, "rk4")[1][-1]
    for T in (RK4, RK4_38):
        if close(rk_step(*T, f, tt[0], x, tt[1] - tt[0])[0], y, 1e-12, 1e-12):
            return T
    return RK4


RK4_TABLE = RK4


def build(case, dt):
    f = Vf(case["f"], dt)
    m = case["m"]
    net = Vf(case["f"], dt, .1) if m.startswith("hyper") else None
    if net is not None:
        s = {"hyper_euler": HyperEuler, "hyper_midpoint": HyperMidpoint, "hyper_rk4": HyperRungeKutta4}[m](net, dtype=dt)
    elif case.get("entry") == "inst" or m.startswith("inst_"):
        k = m.replace("inst_", "")
        s = AsynchronousLeapfrog(dtype=dt) if k == "alf" else {"euler": Euler, "midpoint": Midpoint, "rk4": RungeKutta4, "rk-4": RungeKutta4, "dopri5": DormandPrince45, "tsit5": Tsitouras45}[k](dt)
    else:
        s = m
    return f, net, s


def solve(case, f, s, x, tt):
    e = case.get("entry", "odeint")
    if case["m"] == "alf":
        return odeint_symplectic(f, x, tt, s, **({"save_at": tt[1:]} if e == "save" else {}))[1]
    if e == "save":
        return odeint(f, x, tt, s, save_at=tt[1:])[1]
    if e == "problem":
        return ODEProblem(f, solver=s, sensitivity="autograd").odeint(x, tt)[1]
    if e == "forward":
        return NeuralODE(f, solver=s, sensitivity="autograd")(x, tt)[1]
    if e == "trajectory":
        return NeuralODE(f, solver=s, sensitivity="autograd").trajectory(x, tt)
    return odeint(f, x, tt, s)[1]


def jacobian(sol, wrt):
    "one matrix (entries of the rows x entries of the input) per input"
    flat = sol.reshape(-1)
    cols = [[] for _ in wrt]
    for i in range(len(flat)):
        g = torch.autograd.grad(flat[i], wrt, retain_graph=True, allow_unused=True) if flat[i].requires_grad else [None] * len(wrt)
        for c, gi, w in zip(cols, g, wrt):
            c.append(torch.zeros_like(w).reshape(-1) if gi is None else gi.reshape(-1))
    return [torch.stack(c) for c in cols]


def partly(out, rerun, wrt, J, tol):
    "the same gradients when only the state, or only the other quantities, are differentiated"
    w = torch.cos(torch.arange(J[0].shape[0], dtype=torch.float64) * 1.7 + .3).to(J[0].dtype)
    for which in ("state", "parameters"):
        keep = [i for i in range(len(wrt)) if (i == 0) == (which == "state")]
        for i, v in enumerate(wrt):
            if i:
                v.requires_grad_(i in keep)
        sol = rerun(wrt[0] if which == "state" else wrt[0].detach())
        for v in wrt[1:]:
            v.requires_grad_(True)
        out.step()
        # (nothing to differentiate where the map does not depend on what is kept)
        g = torch.autograd.grad((sol.reshape(-1) * w).sum(), [wrt[i] for i in keep], allow_unused=True) if sol.requires_grad else [None] * len(keep)
        for i, a in zip(keep, g):
            want = w @ J[i]
            got = torch.zeros_like(want) if a is None else a.reshape(-1)
            sc = max(1., float(want.abs().max()))
            if not out.check(close(got, want, tol, tol * sc), lambda: "with only the %s differentiated, derivative %d: %s" % (which, i, err(got, want))):
                return


def run_fix(case, out):
    global RK4_TABLE
    RK4_TABLE = pick_rk4()
    dt = DT[case["dtype"]]
    tol = 1e-9 if dt == torch.float64 else 2e-3
    f, net, s = build(case, dt)
    span = LONG if case["span"] == "long" else SPAN[case["span"]]
    tt, x = torch.tensor(span, dtype=dt), start(SHAPES[case["shape"]] if case["m"] != "alf" else SHAPES[case["shape"]][:-1] + (4,), dt).requires_grad_(True)
    sol = solve(case, f, s, x, tt)
    ps, qs = list(f.p), list(net.p) if net is not None else []
    wrt = [x] + ps + qs
    J = jacobian(sol, wrt)
    # complex-step derivatives of the reference
    c = torch.complex128
    tc = torch.tensor(span, dtype=torch.float64)
    vals = [w.detach().to(c) for w in wrt]

    def ref(vs):
        r = reference(case["m"], case["f"], tc, vs[0], vs[1:1 + len(ps)], vs[1 + len(ps):])
        return r[1:] if case.get("entry") == "save" else r
    with torch.no_grad():
        out.check(close(sol, ref(vals).real.to(dt), tol, tol), lambda: "rows: " + err(sol, ref(vals).real.to(dt)))
        for i, v in enumerate(vals):
            for j in range(v.numel()):
                vs = [w.clone() for w in vals]
                vs[i].view(-1)[j] += 1e-30j
                want = ref(vs).imag.reshape(-1) / 1e-30
                got = J[i][:, j].double()
                out.trace()
                sc = max(1., float(want.abs().max()))
                if not out.check(close(got, want, tol, tol * sc), lambda: "derivative w.r.t. %s entry %d: %s" % ("the initial state" if i == 0 else "parameter %d" % (i - 1) if i <= len(ps) else "solver network parameter %d" % (i - 1 - len(ps)), j, err(got, want))):
                    return
    partly(out, lambda z: solve(case, f, s, z, tt), wrt, J, tol)
    out.step(len(tt) - 1)
    out.state(str(case))


def first(case, x_val, p_val, create=False):
    f, net, s = build(case, torch.float64)
    with torch.no_grad():
        i = 0
        for w in f.p:
            w.copy_(p_val[i:i + w.numel()].reshape(w.shape))
            i += w.numel()
    x = x_val.clone().requires_grad_(True)
    tt = torch.tensor(SPAN[case["span"]], dtype=torch.float64)
    sol = solve(case, f, s, x, tt)
    w = torch.cos(torch.arange(sol.numel(), dtype=torch.float64) * 1.3).reshape(sol.shape)
    L = (w * sol + .5 * sol ** 2).sum()
    wrt = [x] + list(f.p)
    g = torch.autograd.grad(L, wrt, create_graph=create, allow_unused=True)
    return wrt, torch.cat([torch.zeros_like(a).reshape(-1) if b is None else b.reshape(-1) for a, b in zip(wrt, g)])


def complex_step(out, J, wrt, ref, tol, names):
    "columns of the Jacobian against complex-step derivatives of the reference"
    vals = [w.detach().to(torch.complex128) for w in wrt]
    with torch.no_grad():
        for i, v in enumerate(vals):
            for j in range(v.numel()):
                vs = [w.clone() for w in vals]
                vs[i].view(-1)[j] += 1e-30j
                want = ref(vs).imag.reshape(-1) / 1e-30
                got = J[i][:, j].double()
                out.trace()
                sc = max(1., float(want.abs().max()))
                if not out.check(close(got, want, tol, tol * sc), lambda: "derivative w.r.t. %s entry %d: %s" % (names[i], j, err(got, want))):
                    return False
    return True


def sde_ref(m, f, g, x, tt, incr):
    rows = [x]
    for i in range(len(tt) - 1):
        t, h, dw, z = tt[i], tt[i + 1] - tt[i], incr[i], rows[-1]
        a, b = f(t, z), g(t, z)
        if m == "euler":
            y = z + a * h + b * dw
        elif m == "eulerHeun":
            y = z + a * h + (b + g(t + h, z + b * dw)) * dw / 2
        else:
            v = dw ** 2 - (h if m == "milstein_ito" else 0.)
            y = z + a * h + b * dw + (g(t, z + a * h + b * h.sqrt()) - b) / (2 * h.sqrt()) * v
        rows.append(y)
    return torch.stack(rows)


def run_sde(case, out):
    f, g = Vf(case["f"]), Vf(case["g"], shift=.15)
    tt = torch.tensor(SPAN[case["span"]], dtype=torch.float64)
    x = start((2, 2), torch.float64).requires_grad_(True)
    incr = [(tt[i + 1] - tt[i]).sqrt() * torch.tensor([[1., -.6], [-1.2, .4]], dtype=torch.float64) * (-1) ** i for i in range(len(tt) - 1)]

    def bm(a, b):
        return incr[int((tt - a).abs().argmin())]
    e, typ, zero = case["entry"], SDE[case["m"]], torch.zeros((), dtype=torch.float64)
    if e == "state":  # drift and diffusion of the state alone
        F, G = (lambda x: f(zero, x)), (lambda x: g(zero, x))
    else:
        F, G = (lambda t, x: f(t, x)), (lambda t, x: g(t, x))

    def go(x):
        if e in ("neural", "traj"):
            model = NeuralSDE(f, g, solver=case["m"], noise_type="diagonal", sde_type=typ, bm=bm)
            return model(x, tt)[1] if e == "neural" else model.trajectory(x, tt)
        if e == "problem":
            return SDEProblem(SDEFunc(F, G, noise_type="diagonal", sde_type=typ), case["m"])(x, tt, bm)[1]
        return sdeint(SDEFunc(F, G, noise_type="diagonal", sde_type=typ), x, tt, case["m"], bm, **({"save_at": tt[1:]} if e == "save" else {}))[1]
    sol = go(x)
    wrt = [x] + list(f.p) + list(g.p)
    nf = len(list(f.p))

    def ref(vs):
        at = (lambda t: zero) if e == "state" else (lambda t: t)
        r = sde_ref(case["m"], lambda t, z: FLD[case["f"]][0](at(t), z, vs[1:1 + nf]), lambda t, z: FLD[case["g"]][0](at(t), z, vs[1 + nf:]), vs[0], tt, incr)
        return r[1:] if e == "save" else r
    names = ["the initial state"] + ["drift parameter %d" % i for i in range(nf)] + ["diffusion parameter %d" % i for i in range(len(wrt) - 1 - nf)]
    J = jacobian(sol, wrt)
    complex_step(out, J, wrt, ref, 1e-9, names)
    partly(out, go, wrt, J, 1e-9)
    out.step(len(tt) - 1)
    out.state(str(case))


class DictStep(nn.Module):
    "fixed-step method on dictionaries of tensors"
    stepping_class, order = "fixed", 1

    def sync_device_dtype(self, x, t_span):
        return x, t_span

    def step(self, f, x, t, dt, k1=None, args=None):
        d = f(t, x)
        return None, {k: v + dt * d[k] + dt * dt * torch.sin(v) for k, v in x.items()}, None


def run_dict(case, out):
    "states that are dictionaries: every entry of every key of every row"
    n, tt = case["keys"], torch.tensor(SPAN[case["span"]], dtype=torch.float64)
    a = torch.tensor([.7, -.4, 1.1], dtype=torch.float64, requires_grad=True)
    xs = [start((2, 1 + k), torch.float64).requires_grad_(True) for k in range(n)]

    def field(t, x, a):
        tot = sum(v.sum() for v in x.values())
        return {k: a[i] * torch.sin(v) + .1 * tot * torch.cos(t) for i, (k, v) in enumerate(x.items())}
    back = bool(tt[1] < tt[0])

    class Neg(nn.Module):
        def forward(self, t, x):
            return field(t, x, a)
    if back:  # a negated dictionary is not defined by the library
        tt = -tt
    s = DictStep() if case["m"] == "hash" else DictEuler()
    sol = odeint(Neg(), {"k%d" % k: v for k, v in enumerate(xs)}, tt, s)[1]
    if not out.check(sorted(sol) == ["k%d" % k for k in range(n)], "keys %s" % sorted(sol)):
        return
    flat = torch.cat([sol["k%d" % k].reshape(-1) for k in range(n)])

    def ref(vs):
        z = {"k%d" % k: v for k, v in enumerate(vs[:-1])}
        rows = [z]
        for p, q in zip(tt[:-1], tt[1:]):
            h, d = q - p, field(p, z, vs[-1])
            z = {k: v + h * d[k] + (h * h * torch.sin(v) if case["m"] == "hash" else 0) for k, v in z.items()}
            rows.append(z)
        return torch.cat([torch.stack([r["k%d" % k] for r in rows]).reshape(-1) for k in range(n)])
    complex_step(out, jacobian(flat, xs + [a]), xs + [a], ref, 1e-9, ["key %d" % k for k in range(n)] + ["the parameters"])
    out.step(len(tt) - 1)
    out.state(str(case))


class DictEuler(DictStep):
    def step(self, f, x, t, dt, k1=None, args=None):
        d = f(t, x)
        return None, {k: x[k] + dt * d[k] for k in x}, None


def run_jag(case, out):
    "parallel solves over grids of their own"
    jagged = getattr(importlib.import_module("torchdyn.numerics.odeint"), "_jagged_fixed_odeint")
    global RK4_TABLE
    RK4_TABLE = pick_rk4()
    f = Vf(case["f"])
    f2 = lambda t, x: f(torch.zeros((), dtype=torch.float64), x)
    grids = [torch.tensor([0., .3, .5, .9][:n], dtype=torch.float64) + k for k, n in enumerate(case["lens"])]
    x = start((2, 1, 2), torch.float64).requires_grad_(True)
    sol = jagged(f2, x, grids, {"euler": Euler, "midpoint": Midpoint, "rk4": RungeKutta4}[case["m"]](torch.float64))
    flat = torch.cat([v.reshape(-1) for v in sol])
    wrt = [x] + list(f.p)
    step = {"euler": Euler, "midpoint": Midpoint, "rk4": RungeKutta4}[case["m"]](torch.float64)
    partly(out, lambda z: torch.cat([v.reshape(-1) for v in jagged(f2, z, grids, step)]), wrt, jacobian(flat, wrt), 1e-9)

    def ref(vs):
        fr = lambda t, z: FLD[case["f"]][0](torch.zeros((), dtype=torch.float64), z, vs[1:])
        rows = []
        for k, g in enumerate(grids):
            z = vs[0][k]
            rows.append(z)
            for p, q in zip(g[:-1], g[1:]):
                z = rk_step(*(RK4_TABLE if case["m"] == "rk4" else TAB[case["m"]]), fr, p, z, q - p)[0]
                rows.append(z)
        return torch.cat([r.reshape(-1) for r in rows])
    complex_step(out, jacobian(flat, wrt), wrt, ref, 1e-9, ["the initial states"] + ["parameter %d" % i for i in range(len(wrt) - 1)])
    out.step(sum(case["lens"]))
    out.state(str(case))


def run_second(case, out):
    x0 = start(SHAPES[case["shape"]] if case["m"] != "alf" else SHAPES[case["shape"]][:-1] + (4,), torch.float64)
    p0 = torch.cat([torch.tensor(v, dtype=torch.float64).reshape(-1) for v in FLD[case["f"]][1]])
    wrt, g = first(case, x0, p0, True)
    H = []
    for i in range(len(g)):
        h = torch.autograd.grad(g[i], wrt, retain_graph=True, allow_unused=True) if g[i].requires_grad else [None] * len(wrt)
        H.append(torch.cat([torch.zeros_like(a).reshape(-1) if b is None else b.reshape(-1) for a, b in zip(wrt, h)]))
    H = torch.stack(H)
    e = 1e-5
    n = x0.numel()
    for j in range(len(g)):
        d = torch.zeros(len(g), dtype=torch.float64)
        d[j] = e
        gp = first(case, x0 + d[:n].reshape(x0.shape), p0 + d[n:])[1]
        gm = first(case, x0 - d[:n].reshape(x0.shape), p0 - d[n:])[1]
        want = (gp - gm) / (2 * e)
        sc = max(1., float(want.abs().max()))
        out.step(2)
        out.trace()
        if not out.check(close(H[:, j].detach(), want.detach(), 1e-6, 1e-6 * sc), lambda: "second derivatives, column %d: %s" % (j, err(H[:, j], want))):
            return
    out.check(close(H.detach(), H.detach().T, 1e-10, 1e-8), "second derivatives not symmetric")
    out.state(str(case))


def run_ada(case, out):
    f, _, s0 = build(case, torch.float64)
    tt = torch.tensor(SPAN[case["span"]], dtype=torch.float64)
    x0 = start(SHAPES[case["shape"]], torch.float64)
    kw = {"none": {}, "interp": {"interpolator": "4th"}, "tight": {"atol": 1e-6, "rtol": 1e-6}, "forward": {}, "all": {"return_all_eval": True}, "problem": {}}[case["opt"]]

    def go(x):
        f.n = 0
        s = build(case, torch.float64)[2]
        if case["opt"] == "forward":
            sol = NeuralODE(f, solver=s, sensitivity="autograd")(x, tt)[1]
        elif case["opt"] == "problem":
            sol = ODEProblem(f, solver=s, sensitivity="autograd").odeint(x, tt)[1]
        else:
            t, sol = odeint(f, x, tt, s, **kw)
            if case["opt"] == "all":    # the times between the requested ones move along
                sol = sol[(t[:, None] == tt).any(1)]
        return sol, f.n
    x = x0.clone().requires_grad_(True)
    sol, n0 = go(x)
    wrt = [x] + list(f.p)
    J = jacobian(sol, wrt)
    # (the sizes of the steps depend on the inputs too, which autograd is free to leave out: that changes derivatives by less than the solve's tolerance)
    e, tol = 1e-6, 1e-4 if case["opt"] == "tight" else 2e-2
    for i, w in enumerate(wrt):
        for j in range(w.numel()):
            vals = []
            for sgn in (1, -1):
                with torch.no_grad():
                    w.view(-1)[j] += sgn * e
                    y, n = go(x.detach())
                    w.view(-1)[j] -= sgn * e
                vals.append((y, n))
            out.step(2)
            if vals[0][1] != n0 or vals[1][1] != n0:
                out.state("pattern changes", str(case), i, j)
                continue
            want = ((vals[0][0] - vals[1][0]) / (2 * e)).reshape(-1)
            got = J[i][:, j]
            sc = max(1., float(want.abs().max()))
            out.trace()
            if not out.check(close(got, want, tol, tol * sc), lambda: "derivative w.r.t. %s entry %d: %s" % ("the initial state" if i == 0 else "parameter %d" % (i - 1), j, err(got, want))):
                return
    out.state(str(case))


def held(cls):
    class H(cls):
        "records its trial steps, whose sizes are not differentiated"
        def step(self, f, x, t, dt, k1=None, args=None):
            t, dt = t.detach(), dt.detach()
            if not hasattr(self, "log"):
                self.log = []
            r = super().step(f, x, t, dt, k1, args)
            self.log.append((t, dt, x, r[1]))
            return r
    return H


def run_held(case, out):
    "the map with the step sizes the controller chose, held fixed: exact derivatives"
    cls = {"inst_dopri5": DormandPrince45, "inst_tsit5": Tsitouras45}[case["m"]]
    tt = torch.tensor(SPAN[case["span"]], dtype=torch.float64)
    f, s = Vf(case["f"]), held(cls)(torch.float64)
    tol = {"none": 1e-3, "tight": 1e-6, "loose": 1e-1, "all": 1e-4}[case["opt"]]
    x = start(SHAPES[case["shape"]], torch.float64).requires_grad_(True)
    t, sol = odeint(f, x, tt, s, atol=tol, rtol=tol, **({"return_all_eval": True} if case["opt"] == "all" else {}))
    wrt = [x] + list(f.p)
    J = jacobian(sol, wrt)
    # accepted trial steps: those the next one goes on from, and the last
    log = s.log
    taken = [a for a, b in zip(log, log[1:] + [None]) if b is None or float(b[0]) > float(a[0])]
    sgn = 1. if tt[1] > tt[0] else -1.
    vals = [w.detach().to(torch.complex128) for w in wrt]
    plain = cls(torch.float64)
    plain.sync_device_dtype(x.detach(), tt)
    for i, w in enumerate(vals):
        for j in range(w.numel()):
            vs = [v.clone() for v in vals]
            vs[i].view(-1)[j] += 1e-30j
            z = vs[0]
            rows, k = [z], 1
            for ts, h, _, _ in taken:
                z = plain.step(lambda q, y: sgn * FLD[case["f"]][0](sgn * q.reshape(-1)[0], y, vs[1:]), z, ts, h)[1]
                if case["opt"] == "all" or abs(float(ts + h) - sgn * float(tt[k])) < 1e-9:
                    rows.append(z)
                    k += 1
            if not out.check(len(rows) == len(sol), lambda: "%d rows, %d by the accepted steps" % (len(sol), len(rows))):
                return
            want = torch.stack(rows).imag.reshape(-1) / 1e-30
            sc = max(1., float(want.abs().max()))
            out.trace()
            if not out.check(close(J[i][:, j], want, 1e-9, 1e-9 * sc), lambda: "derivative w.r.t. %s entry %d: %s" % ("the initial state" if i == 0 else "parameter %d" % (i - 1), j, err(J[i][:, j], want))):
                return
    kw = {"return_all_eval": True} if case["opt"] == "all" else {}
    partly(out, lambda z: odeint(f, z, tt, held(cls)(torch.float64), atol=tol, rtol=tol, **kw)[1], wrt, J, 1e-9)
    out.step(len(log))
    out.state(str(case))


class Held(Scripted):
    "Euler steps with dictated error estimates, of sizes that are not differentiated"
    def step(self, f, x, t, dt, k1=None, args=None):
        return super().step(f, x, t.detach(), dt.detach(), k1, args)


def run_script(case, out):
    "every accept/reject schedule: derivative of the composition of the accepted steps, of the sizes they were taken with"
    tt = torch.tensor([0., .4, 1.], dtype=torch.float64)
    f = Vf("poly")
    s = Held(case["w"], default=.5, dtype=torch.float64)
    x = start((2, 2), torch.float64).requires_grad_(True)
    sol = odeint(f, x, tt, s)[1]
    wrt = [x] + list(f.p)
    J = jacobian(sol, wrt)
    taken = [(float(c[0]), float(c[1])) for i, c in enumerate(s.calls) if (case["w"][i] if i < len(case["w"]) else .5) <= 1]
    vals = [w.detach().to(torch.complex128) for w in wrt]
    for i, w in enumerate(vals):
        for j in range(w.numel()):
            vs = [v.clone() for v in vals]
            vs[i].view(-1)[j] += 1e-30j
            z = vs[0]
            rows, k = [z], 1
            for t, h in taken:
                z = z + h * FLD["poly"][0](t, z, vs[1:])
                if abs(t + h - float(tt[k])) < 1e-12:
                    rows.append(z)
                    k += 1
            if not out.check(len(rows) == len(sol), lambda: "schedule %s: %d of %d requested times reached" % (case["w"], len(rows), len(sol))):
                return
            want = torch.stack(rows).imag.reshape(-1) / 1e-30
            out.trace()
            if not out.check(close(J[i][:, j], want, 1e-10, 1e-10), lambda: "schedule %s: derivative w.r.t. input %d entry %d: %s" % (case["w"], i, j, err(J[i][:, j], want))):
                return
    out.step(len(s.calls))
    out.state(len(s.calls), str(case["w"]))
