"""C18: Galerkin layers on a basis of their coefficient space (one-hot and dense), every basis, degree, geometry, depth and call sequence, against explicitly summed weights."""
import itertools, math
import torch
import torch.nn as nn
import torch.nn.functional as F
from torchdyn.nn.galerkin import GalLinear, GalConv2d, Fourier, Polynomial, Chebychev, VanillaRBF, MultiquadRBF, GaussianRBF
from torchdyn.nn import DepthCat
from torchdyn.core import NeuralODE
from mc.common import *

PROPERTY = "C18"
RULE = ("for every (basis, degree, layer geometry, bias, dilation/shift trained or not, batch, dtype): all one-hot coefficient tensors and dense ones, all depths of a lattice and all "
        "sequences of two depths on one layer; output compared with the ordinary layer whose weights are summed explicitly; gradients w.r.t. coefficients, input, dilation and shift")
ASSUMPTIONS = ["basis index runs over deg equally spaced values in [0, deg] (library convention)", "polynomial basis at non-negative depths (fractional powers)"]
BASES = {"fourier": Fourier, "poly": Polynomial, "cheb": Chebychev, "vanilla": VanillaRBF, "multiquad": MultiquadRBF, "gauss": GaussianRBF}
DEPTHS = [0., .25, .5, 1., 1.75, 3.]


def bounds(tier):
    return {"bases": sorted(BASES), "degrees": "1..%d" % (5 if tier == "quick" else 8), "depths": DEPTHS, "coefficients": "all one-hot, two dense"}


def cases(tier):
    deep = tier == "thorough"
    for b in BASES:
        for deg in range(1, 9 if deep else 6):
            for bias in (0, 1):
                for dil in (0, 1):
                    for sh in (0, 1):
                        for dt in ("f32", "f64"):
                            for i, o in (((1, 1), (2, 1), (1, 3), (3, 2)) if not deep else itertools.product((1, 2, 3), repeat=2)):
                                if not deep and (dil != sh and (i, o) != (3, 2)):
                                    continue
                                yield {"kind": "linear", "basis": b, "deg": deg, "bias": bias, "dil": dil, "sh": sh, "dtype": dt, "i": i, "o": o}
                            for ks, st, pad in ((1, 1, 0), (3, 1, 1), (2, 2, 0), (3, 2, 1)):
                                for i, o in ((1, 1), (2, 1), (1, 2)):
                                    if dil != sh or (not deep and (deg > 3 or (i, o) != (2, 1) and ks > 1)):
                                        continue
                                    yield {"kind": "conv", "basis": b, "deg": deg, "bias": bias, "dil": dil, "sh": sh, "dtype": dt, "i": i, "o": o, "ks": ks, "stride": st, "pad": pad}
                yield {"kind": "node", "basis": b, "deg": deg, "bias": bias}
        for bias in (0, 1):
            for deg in (8, 13):
                for i, o in ((3, 2), (9, 7)):
                    yield {"kind": "linear", "basis": b, "deg": deg, "bias": bias, "dil": 1, "sh": 1, "dtype": "f64", "i": i, "o": o}
            yield {"kind": "conv", "basis": b, "deg": 7, "bias": bias, "dil": 1, "sh": 1, "dtype": "f64", "i": 4, "o": 5, "ks": 2, "stride": 1, "pad": 0}
    for b in ("vanilla", "multiquad", "gauss"):
        for deg in range(1, 9 if deep else 6):
            for adaptive in (0, 1):
                for eps in (2, .5, 3.) if deep else (2, .75):
                    for c in (0,) if b == "gauss" else (0, .6, -1.):  # the role of centres in the gaussian basis is not documented
                        for bias in (0, 1):
                            yield {"kind": "rbf", "basis": b, "deg": deg, "adaptive": adaptive, "eps": eps, "c": c, "bias": bias}
    yield {"kind": "defaults"}


def basis(name, deg, s, eps=2., c=0.):
    "values of the basis functions as python floats/tensors, list over eigenfunction kinds (eps, c: scales and centres of radial ones, scalars or one per degree)"
    n = [0.] if deg == 1 else [deg * k / (deg - 1) for k in range(deg)]
    if name == "fourier":
        return [torch.stack([torch.cos(s * k) for k in n]), torch.stack([torch.sin(s * k) for k in n])]
    if name == "poly":
        return [torch.stack([s ** k if k else s * 0 + 1. for k in n])]
    if name == "cheb":
        T = [s * 0 + 1., s]
        for _ in range(deg):
            T.append(2 * s * T[-1] - T[-2])
        return [torch.stack(T[:deg])]
    r, q = (s - c).abs(), torch.tensor(n, dtype=s.dtype) / eps
    if name == "vanilla":
        return [r * q]
    if name == "multiquad":
        return [1 + (1 + (r * q) ** 2).sqrt()]
    return [(-(r * q) ** 2).exp()]


def weights(case, coeffs, t, dil, sh):
    B = basis(case["basis"], case["deg"], (t * dil + sh).reshape(()))
    return sum((coeffs[:, :, i] * b).sum(1) for i, b in enumerate(B))


def run(case, out):
    if case["kind"] == "node":
        return run_node(case, out)
    if case["kind"] == "defaults":
        return run_defaults(case, out)
    if case["kind"] == "rbf":
        return run_rbf(case, out)
    dt = DT[case["dtype"]]
    tol = 2e-5 if case["dtype"] == "f32" else 1e-9
    conv = case["kind"] == "conv"
    kw = dict(bias=bool(case["bias"]), expfunc=BASES[case["basis"]](case["deg"]), dilation=bool(case["dil"]), shift=bool(case["sh"]))
    if conv:
        layer = GalConv2d(case["i"], case["o"], case["ks"], stride=case["stride"], padding=case["pad"], **kw)
    else:
        layer = GalLinear(case["i"], case["o"], **kw)
    layer = layer.to(dt)
    out.check(float(layer.coeffs.abs().sum()) == 0, "coefficients do not start at zero")
    if case["dil"]:
        layer.dilation.data.fill_(.8)
    if case["sh"]:
        layer.shift.data.fill_(.3)
    names = dict(layer.named_parameters())
    out.check(("dilation" in names) == bool(case["dil"]) and ("shift" in names) == bool(case["sh"]), "trainable parameters %s" % sorted(names))
    dil, sh = (.8 if case["dil"] else 1.), (.3 if case["sh"] else 0.)
    nw = case["i"] * case["o"] * (case["ks"] ** 2 if conv else 1)
    shape = tuple(layer.coeffs.shape)
    P = nw + case["o"] * case["bias"]
    if not out.check(shape[0] == P and shape[1] == case["deg"] and shape[2] == (2 if case["basis"] == "fourier" else 1), "coefficient shape %s" % (shape,)):
        return
    def inp(b, t):
        if conv:
            x = torch.cos(torch.arange(b * case["i"] * 16, dtype=dt) * .7).reshape(b, case["i"], 4, 4)
            return x, torch.cat([x, torch.full((b, 1, 4, 4), t, dtype=dt)], 1)
        x = torch.cos(torch.arange(b * case["i"], dtype=dt) * .7 + .2).reshape(b, case["i"])
        return x, torch.cat([x, torch.full((b, 1), t, dtype=dt)], 1)
    n = P * case["deg"] * shape[2]
    dense = [torch.sin(torch.arange(n, dtype=dt) * 1.3 + k).reshape(shape) for k in (0, 1)]
    onehot = []
    for j in range(n):
        c = torch.zeros(n, dtype=dt)
        c[j] = 1.
        onehot.append(c.reshape(shape))

    def mag(t):
        "size of the basis functions involved: scale of the rounding errors"
        return max(1., max(float(b.abs().max()) for b in basis(case["basis"], case["deg"], torch.tensor(abs(t) * dil + sh, dtype=torch.float64)))) * (case["deg"] if t > 1 else 1)

    def want(x, t, coeffs, dilv=None, shv=None):
        w = weights(case, coeffs, torch.tensor(t, dtype=dt), dil if dilv is None else dilv, sh if shv is None else shv)
        b = w[nw:] if case["bias"] else None
        if conv:
            return F.conv2d(x, w[:nw].reshape(case["o"], case["i"], case["ks"], case["ks"]), b, stride=case["stride"], padding=case["pad"])
        return F.linear(x, w[:nw].reshape(case["o"], case["i"]), b)
    for j, c in enumerate(onehot + dense):
        layer.coeffs.data = c.clone()
        for t in (DEPTHS if j >= len(onehot) else DEPTHS[j % 2::3]):
            x, xt = inp(1 + j % 3, t)
            y = layer(xt)
            w = want(x, t, c)
            out.step()
            out.trace()
            if not out.check(y.dtype == dt and close(y, w, tol, tol * mag(t)), lambda: "coefficients %s depth %g: %s" % ("one-hot %d" % j if j < len(onehot) else "dense", t, err(y, w))):
                return
    # sequences of depths on one layer
    for t1, t2, t3 in [(a, b, a) for a in DEPTHS[:4] for b in DEPTHS[:4]]:
        ys = [layer(inp(2, t)[1]) for t in (t1, t2, t3)]
        for t, y in zip((t1, t2, t3), ys):
            w = want(inp(2, t)[0], t, dense[1])
            out.check(close(y, w, tol, tol * mag(t)), lambda: "depths %s: at %g %s" % ((t1, t2, t3), t, err(y, w)))
        out.trace()
    out.state(case["kind"], case["basis"], case["deg"], case["bias"], [round(v, 3) for v in w.reshape(-1).tolist()[:2]])
    # gradients
    for t in DEPTHS[1:4]:
        x, _ = inp(2, t)
        x1, x2 = x.clone().requires_grad_(True), x.clone().requires_grad_(True)
        c2 = dense[1].clone().requires_grad_(True)
        y = layer(torch.cat([x1, torch.full_like(x1[:, :1], t)], 1))
        d2, s2 = torch.tensor(dil, dtype=dt, requires_grad=True), torch.tensor(sh, dtype=dt, requires_grad=True)
        w = want(x2, t, c2, d2, s2)
        v = torch.cos(torch.arange(y.numel(), dtype=dt)).reshape(y.shape)
        ga = torch.autograd.grad((y * v).sum(), [x1, layer.coeffs], retain_graph=True)
        gb = torch.autograd.grad((w * v).sum(), [x2, c2], retain_graph=True)
        for k, (a, b) in enumerate(zip(ga, gb)):
            out.check(close(a, b, tol * 5, tol * 5 * mag(t)), lambda: "gradient w.r.t. %s: %s" % (("input", "coefficients")[k], err(a, b)))
        for flag, p, q in ((case["dil"], layer.dilation, d2), (case["sh"], layer.shift, s2)):
            if flag:
                a = torch.autograd.grad((y * v).sum(), p, retain_graph=True, allow_unused=True)[0]
                b = torch.autograd.grad((w * v).sum(), q, retain_graph=True, allow_unused=True)[0]
                a, b = [torch.zeros(()) if g is None else g.reshape(()) for g in (a, b)]
                out.check(close(a.double(), b.double(), tol * 20, tol * 20 * case["deg"] ** 2 * mag(t)), lambda: "gradient w.r.t. dilation/shift: " + err(a.double(), b.double()))


def run_rbf(case, out):
    "scales and centres of radial bases: as given when fixed, one trainable value per degree when adaptive"
    deg, ad = case["deg"], bool(case["adaptive"])
    e = BASES[case["basis"]](deg, adaptive=ad, eps_scales=case["eps"], centers=case["c"])
    layer = GalLinear(2, 2, bias=bool(case["bias"]), expfunc=e, dilation=False, shift=False).double()
    c = torch.sin(torch.arange(layer.coeffs.numel(), dtype=torch.float64) * 1.3 + .4).reshape(layer.coeffs.shape)
    layer.coeffs.data = c.clone()
    names = sorted(n for n, _ in layer.named_parameters() if n.startswith("expfunc"))
    if not out.check(len(names) == (2 if ad else 0), "trainable parameters of the basis %s" % names):
        return
    x = torch.tensor([[.5, -.4], [.3, .9]], dtype=torch.float64)
    for rnd in (0, 1) if ad else (0,):
        eps, cen = torch.full((deg,), float(case["eps"]), dtype=torch.float64), torch.full((deg,), float(case["c"]), dtype=torch.float64)
        if rnd:  # values reached by training
            eps = eps + .2 * torch.arange(deg) + .1
            if case["basis"] != "gauss":
                cen = cen - .15 * torch.arange(deg)
        if ad:
            if not rnd and not out.check(close(e.eps_scales, eps, 1e-6, 1e-6) and close(e.centers, cen, 1e-6, 1e-6), "initial scales and centres"):
                return
            e.eps_scales.data.copy_(eps)
            e.centers.data.copy_(cen)
        for t in DEPTHS:
            eps, cen = eps.detach().requires_grad_(True), cen.detach().requires_grad_(True)
            y = layer(torch.cat([x, torch.full((2, 1), t, dtype=torch.float64)], 1))
            B = basis(case["basis"], deg, torch.tensor(t, dtype=torch.float64), eps, cen)[0]
            w = (c[:, :, 0] * B).sum(1)
            want = F.linear(x, w[:4].reshape(2, 2), w[4:] if case["bias"] else None)
            out.step()
            out.trace()
            if not out.check(close(y, want, 1e-6, 1e-6), lambda: "depth %g scales %s centres %s: %s" % (t, eps.tolist(), cen.tolist(), err(y, want))):
                return
            if ad and t:
                pairs = [(e.eps_scales, eps, "scales")] + ([] if case["basis"] == "gauss" else [(e.centers, cen, "centres")])
                for p, q, what in pairs:
                    a = torch.autograd.grad(y.sin().sum(), p, retain_graph=True)[0]
                    b = torch.autograd.grad(want.sin().sum(), q, retain_graph=True)[0]
                    out.check(close(a, b, 1e-6, 1e-6), lambda: "depth %g gradient of %s: %s" % (t, what, err(a, b)))
        out.state(case["basis"], deg, ad, rnd, [round(v, 4) for v in y.detach().reshape(-1).tolist()])


def run_node(case, out):
    "inside a neural ODE the depth of the evaluation is the one applied"
    layer = GalLinear(2, 2, bias=bool(case["bias"]), expfunc=BASES[case["basis"]](case["deg"]))
    c = torch.sin(torch.arange(layer.coeffs.numel(), dtype=torch.float32) * 1.3).reshape(layer.coeffs.shape) * .5
    layer.coeffs.data = c.clone()
    from torchdyn.numerics import odeint

    def ref(t, x):
        w = weights(case, c, torch.as_tensor(t).float().reshape(()), 1., 0.)
        return torch.tanh(F.linear(x, w[:4].reshape(2, 2), w[4:] if case["bias"] else None))
    m = NeuralODE(nn.Sequential(DepthCat(1), layer, nn.Tanh()), "rk4")
    for ts in ([0., .5, 1.], [.5, 1., 2.], [1., .25, 0.], [0., 1.]):
        ts = torch.tensor(ts)
        x = torch.tensor([[.5, -.4], [.3, .9]])
        _, sol = m(x, ts)
        _, want = odeint(ref, x, ts, "rk4")
        out.step(len(ts) - 1)
        out.trace()
        out.check(close(sol, want, 1e-4, 1e-4), lambda: "span %s: %s" % (ts.tolist(), err(sol, want)))
        out.state(case["basis"], case["deg"], ts.tolist())


def run_defaults(case, out):
    a, b = GalLinear(2, 3), GalConv2d(2, 3)
    out.check(tuple(a.coeffs.shape) == (9, 5, 2) and tuple(b.coeffs.shape) == (2 * 3 * 9 + 3, 5, 2), "default sizes")
    x = torch.ones(2, 3)
    out.check(close(a(x), torch.zeros(2, 3)), "initial output not zero")
    a.coeffs.data.fill_(1.)
    out.check(float(GalLinear(2, 3).coeffs.abs().sum()) == 0, "layers share coefficients")
    a.reset_parameters()
    out.check(float(a.coeffs.abs().sum()) == 0, "reset_parameters does not reset")
    out.trace()
