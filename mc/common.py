"""Shared pieces of the checks: boring reference implementations and scripted environments. Nothing here imports
private helpers of the library; everything goes through documented plug-in points (solver, vector field, callbacks)."""
import itertools, math
import torch
import torch.nn as nn

DT = {"f32": torch.float32, "f64": torch.float64, "c128": torch.complex128, "c64": torch.complex64}


def tens(v, dt="f64"):
    return torch.tensor(v, dtype=DT[dt])


def close(a, b, rtol=1e-9, atol=1e-9):
    if a.shape != b.shape:
        return False
    a, b = a.detach(), b.detach()
    if a.dtype != b.dtype:
        a, b = a.to(torch.complex128 if a.is_complex() else torch.float64), b.to(torch.complex128 if b.is_complex() else torch.float64)
    if torch.isnan(a).any():
        return False
    return bool(((a - b).abs() <= atol + rtol * b.abs()).all())


def err(a, b):
    if a.shape != b.shape:
        return "shapes %s vs %s" % (tuple(a.shape), tuple(b.shape))
    return "max difference %.3g (got %s..., expected %s...)" % (float((a.detach() - b.detach()).abs().max()) if a.numel() else 0,
                                                                a.detach().reshape(-1)[:4].tolist(), b.detach().reshape(-1)[:4].tolist())


class Horizon(Exception):
    pass


class Scripted(nn.Module):
    """An adaptive solver plug-in whose error estimates are dictated by the explorer: call i reports the i-th entry of the
    script (default afterwards) and every call is recorded. Its step is x + dt*f(t, x), with a stage value passed on."""

    def __init__(self, script, default=0.25, order=4, safety=0.9, min_factor=0.2, max_factor=10., tol=(1e-3, 1e-3),
                 scale=None, horizon=20000, dtype=torch.float32):
        super().__init__()
        self.order, self.stepping_class = order, "adaptive"
        self.safety, self.min_factor, self.max_factor = (torch.tensor([v], dtype=dtype) for v in (safety, min_factor, max_factor))
        self.script, self.default, self.tol, self.horizon = script, default, tol, horizon
        self.calls = []
        self.tableau = None

    def sync_device_dtype(self, x, t_span):
        return x, t_span

    def error(self, i, x, x_new):
        "error tensor whose scaled RMS is the scripted ratio"
        r = self.script[i] if i < len(self.script) else self.default
        a, b = self.tol
        return r * (a + b * torch.max(x.abs(), x_new.abs()))

    def step(self, f, x, t, dt, k1=None, args=None):
        i = len(self.calls)
        if i > self.horizon:
            raise Horizon("more than %d trial steps" % self.horizon)
        if k1 is None:
            k1 = f(t, x)
        x_new = x + dt * k1
        f_new = f(t + dt, x_new)
        e = self.error(i, x, x_new)
        self.calls.append((t.detach().clone(), dt.detach().clone(), x.detach().clone(), k1.detach().clone(), x_new.detach().clone(), f_new.detach().clone(), e.detach().clone(), args))
        return f_new, x_new, e, (k1, f_new)


# ---------------------------------------------------------------- reference Runge-Kutta tableaus (exact rationals)
def rk_step(c, A, b, f, t, x, h):
    ks = []
    for i in range(len(b)):
        xi = x
        for j in range(i):
            if A[i][j] != 0:
                xi = xi + h * A[i][j] * ks[j]
        ks.append(f(t + c[i] * h, xi))
    out = x
    for bi, k in zip(b, ks):
        if bi != 0:
            out = out + h * bi * k
    return out, ks


EULER = ([0.], [[]], [1.])
MIDPOINT = ([0., .5], [[], [.5]], [0., 1.])
RK4_38 = ([0., 1 / 3, 2 / 3, 1.], [[], [1 / 3], [-1 / 3, 1.], [1., -1., 1.]], [1 / 8, 3 / 8, 3 / 8, 1 / 8])
RK4 = ([0., .5, .5, 1.], [[], [.5], [0., .5], [0., 0., 1.]], [1 / 6, 1 / 3, 1 / 3, 1 / 6])
DOPRI_C = [0., 1 / 5, 3 / 10, 4 / 5, 8 / 9, 1., 1.]
DOPRI_A = [[], [1 / 5], [3 / 40, 9 / 40], [44 / 45, -56 / 15, 32 / 9], [19372 / 6561, -25360 / 2187, 64448 / 6561, -212 / 729],
           [9017 / 3168, -355 / 33, 46732 / 5247, 49 / 176, -5103 / 18656], [35 / 384, 0., 500 / 1113, 125 / 192, -2187 / 6784, 11 / 84]]
DOPRI_B = [35 / 384, 0., 500 / 1113, 125 / 192, -2187 / 6784, 11 / 84, 0.]
DOPRI_B4 = [5179 / 57600, 0., 7571 / 16695, 393 / 640, -92097 / 339200, 187 / 2100, 1 / 40]


# ---------------------------------------------------------------- vector fields with exact flows (float64, elementwise)
class Field:
    def __init__(self, name, f, flow=None):
        self.name, self.f, self.flow = name, f, flow


def _t(t, x):
    return t if not torch.is_tensor(t) else t.to(x.real.dtype if x.is_complex() else x.dtype).reshape(())


FIELDS = {
    "const": Field("const", lambda t, x: torch.ones_like(x), lambda t0, t, x: x + (t - t0)),
    "zero": Field("zero", lambda t, x: torch.zeros_like(x), lambda t0, t, x: x + 0 * (t - t0)),
    "decay": Field("decay", lambda t, x: -x, lambda t0, t, x: x * torch.exp(-(t - t0))),
    "growth": Field("growth", lambda t, x: .5 * x, lambda t0, t, x: x * torch.exp(.5 * (t - t0))),
    "cos": Field("cos", lambda t, x: torch.cos(3 * _t(t, x)) + 0 * x, lambda t0, t, x: x + (torch.sin(3 * t) - torch.sin(3 * t0)) / 3),
    "tx": Field("tx", lambda t, x: -_t(t, x) * x, lambda t0, t, x: x * torch.exp(-(t ** 2 - t0 ** 2) / 2)),
    "logi": Field("logi", lambda t, x: torch.tanh(x) * 0 + x * (1 - x), lambda t0, t, x: x * torch.exp(t - t0) / (1 - x + x * torch.exp(t - t0))),
    "kick": Field("kick", lambda t, x: (100. * ((_t(t, x) > .3) & (_t(t, x) < .35))).to(x) - x, None),
    "stiff": Field("stiff", lambda t, x: -60 * (x - torch.cos(_t(t, x))), None),
}


class Counting:
    """callable vector field recording the times it is evaluated at"""

    def __init__(self, f):
        self.f, self.times, self.n = f, [], 0

    def __call__(self, t, x):
        self.n += 1
        self.times.append(float(t))
        return self.f(t, x)


def product(**axes):
    keys = list(axes)
    for vals in itertools.product(*axes.values()):
        yield dict(zip(keys, vals))
