"""C07: all short histories of solves (including solves aborted by an exception at any evaluation) on one shared object, against pristine-process references."""
import itertools, os, pickle, copy
import torch
from torchdyn.numerics import odeint, odeint_symplectic, odeint_mshooting, odeint_hybrid
from torchdyn.numerics.sdeint import sdeint
from torchdyn.core import ODEProblem, MultipleShootingProblem, SDEProblem
from torchdyn.core.defunc import SDEFunc
from torchdyn.numerics.utils import EventCallback
from torchdyn.numerics.interpolators import FourthOrder
from torchdyn.numerics.solvers.ode import SOLVER_DICT, MS_SOLVER_DICT, MSZero, MSBackward
from torchdyn.numerics.solvers.hyper import HyperEuler, HyperMidpoint, HyperRungeKutta4
from torchdyn.numerics.solvers.sde import SDE_SOLVER_DICT
from mc.common import *

PROPERTY = "C07"
CASE_LIMIT = 150
RULE = ("breadth-first exploration of all operation sequences up to a depth on every solver, interpolator and problem object; operations are solves differing in dtype, "
        "layout, field, span, direction, tolerance, options, differentiated or aborted by an exception; the result of every operation must be bit-identical to the one "
        "computed by a fresh object in a pristine process, and its inputs and the callables' defaults unchanged")
ASSUMPTIONS = ["instances are built for double precision (coefficients can only be cast down)", "single thread"]

OPS = {
    "A": dict(dt="f64", x=[[.5, .25], [.125, .75]], f="decay", ts=[0., .25, .5, 1.]),
    "B": dict(dt="f32", x=[.4, .3, .2], f="cos", ts=[1., .5, -.5]),
    "C": dict(dt="f64", x=[[.5, .25], [.125, .75]], f="tx", ts=[.5, 2.], tol=1e-7),
    "D": dict(dt="f64", x=[[.3, .1]], f="cos", ts=[0., .1, .3, .6, 1.], opt=1),
    "E": dict(dt="f64", x=[[.5, .25], [.125, .75]], f="decay", ts=[0., .5, 1.], abort=1),
    "e": dict(dt="f32", x=[[.5, .25]], f="cos", ts=[0., .5, 1.], abort=7),
    "G": dict(dt="f64", x=[[.9, -.7]], f="decay", ts=[0., 1., 2.], grad=1),
    "H": dict(dt="f64", x=[[.5, .25], [.125, .75]], f="kick", ts=[0., .32, 1.]),
}
SDEOPS = ["A", "C", "D", "E", "G"]
MSOPS = ["A", "C", "D", "E", "G", "F"]
OPS["F"] = dict(dt="f32", x=[[.5, .25]], f="decay", ts=[0., .5, 1.])

OBJ = (["inst:" + n for n in ("euler", "midpoint", "rk4", "dopri5", "tsit5", "ieuler", "hypereuler", "hypermid", "hyperrk4")] + ["name:" + n for n in ("euler", "rk4", "dopri5", "tsit5")] +
       ["interp", "alf", "hybrid", "problem:rk4:autograd", "problem:dopri5:autograd", "problem:tsit5:adjoint", "problem:dopri5:interpolated_adjoint", "problem:euler:adjoint",
        "ms:zero", "ms:backward", "msname:zero", "msproblem", "sde:euler", "sde:eulerHeun", "sde:milstein_ito", "sdeproblem"])
SLOW = ("ieuler", "ms:backward", "interpolated", "adjoint")


def ops_of(obj):
    if obj.startswith("sde"):
        return SDEOPS
    if obj.startswith("ms"):
        return MSOPS
    if obj == "hybrid":
        return [o for o in OPS if o not in ("B",)]
    if obj == "alf":
        return ["A", "B2", "D", "E", "G", "F"]
    if "interpolated" in obj:
        return ["A", "C", "D", "E", "G", "F"]
    return [o for o in OPS if o != "F"]


OPS["B2"] = dict(dt="f32", x=[.4, .3, .2, .1], f="cos", ts=[1., .5, -.5])


def bounds(tier):
    return {"objects": OBJ, "operations": sorted(OPS), "history_length": 2 if tier == "quick" else 4}


def cases(tier):
    for obj in OBJ:
        n = 2 if tier == "quick" else (3 if any(s in obj for s in SLOW) else 4)
        for first in ops_of(obj):
            for second in ops_of(obj):
                yield {"obj": obj, "start": [first, second], "depth": n}


class Boom(Exception):
    pass


class Vf(torch.nn.Module):
    "vector field that follows the operation it is used in"
    order = 1

    def __init__(self):
        super().__init__()
        self.p = torch.nn.Parameter(torch.tensor([.1], dtype=torch.float64))
        self.f, self.abort = None, None

    def forward(self, t, x, args={}):
        if self.abort is not None:
            if self.abort == 0:
                raise Boom()
            self.abort -= 1
        return self.f(t, x) + self.p.to(x.dtype) * x


class Net(torch.nn.Module):
    def forward(self, t, x):
        return .3 * x


class Cb(EventCallback):
    def __init__(self):
        super().__init__()

    def check_event(self, t, x):
        return x.sum() < .6

    def jump_map(self, t, x):
        return x + .5


class Path:
    def __call__(self, a, b):
        w = lambda s: torch.sin(3 * s) + .3 * s ** 2 / (1 + s.abs())
        return w(torch.as_tensor(b, dtype=torch.float64)) - w(torch.as_tensor(a, dtype=torch.float64))


class Obj:
    def __init__(self, name):
        self.name = name
        parts = name.split(":")
        k = parts[0]
        self.kind = k
        self.vf = Vf()
        d = torch.float64
        if k == "inst":
            hy = {"hypereuler": HyperEuler, "hypermid": HyperMidpoint, "hyperrk4": HyperRungeKutta4}
            self.solver = hy[parts[1]](Net(), d) if parts[1] in hy else SOLVER_DICT[parts[1]](d)
        elif k == "name":
            self.solver = parts[1]
        elif k == "interp":
            self.solver, self.interp = SOLVER_DICT["dopri5"](d), FourthOrder(d)
        elif k == "alf":
            self.solver = SOLVER_DICT["alf"](dtype=d)
        elif k == "hybrid":
            self.solver, self.cbs = SOLVER_DICT["dopri5"](d), [Cb()]
        elif k == "problem":
            self.prob = ODEProblem(self.vf, parts[1], sensitivity=parts[2], solver_adjoint="tsit5")
        elif k == "ms":
            self.solver = {"zero": MSZero, "backward": MSBackward}[parts[1]]("euler", "rk4")
        elif k == "msname":
            self.solver = parts[1]
        elif k == "msproblem":
            self.prob = MultipleShootingProblem(self.vf, MSZero("euler", "rk4"))
        elif k in ("sde", "sdeproblem"):
            g = lambda t, x: .2 * x + .1
            typ = "stratonovich" if name.endswith("Heun") else "ito"
            self.sde = SDEFunc(lambda t, x: self.vf(t, x), g, noise_type="diagonal", sde_type=typ)
            self.bm = Path()
            if k == "sde":
                self.solver = SDE_SOLVER_DICT[parts[1]](self.sde, self.bm, d)
            else:
                self.prob = SDEProblem(self.sde, "euler")

    def do(self, opname):
        op = OPS[opname]
        dt = DT[op["dt"]]
        x = torch.tensor(op["x"], dtype=dt)
        ts = torch.tensor(op["ts"], dtype=dt)
        k, f = self.kind, self.vf
        f.f = FIELDS[op["f"]].f
        f.abort = op.get("abort")
        kw, args, save, B0 = {}, {"a": 1., "n": torch.ones(2)}, (), None
        adaptive = any(s in self.name for s in ("dopri5", "tsit5", "interp", "hybrid"))
        if op.get("grad"):
            x.requires_grad_(True)
        if op.get("tol") and adaptive:
            kw = dict(atol=op["tol"], rtol=op["tol"])
        if op.get("opt"):
            if k in ("inst", "name") and adaptive:
                kw = dict(return_all_eval=True, interpolator="4th")
            elif not adaptive:
                save = ts[[0, -1]].clone()
        if k == "interp":
            kw["interpolator"] = self.interp
        if k in ("inst", "name", "interp"):
            kw["args"] = args
            if len(save):
                kw["save_at"] = save
        keep = [x.detach().clone(), ts.clone(), save.clone() if len(save) else None, dict(args)]
        try:
            if k in ("inst", "name", "interp"):
                r = odeint(f, x, ts, self.solver, **kw)
            elif k == "alf":
                r = odeint_symplectic(f, x, ts, self.solver)
            elif k == "hybrid":
                r = odeint_hybrid(f, x, ts, 3, self.solver, self.cbs, **kw)
            elif k == "problem":
                r = self.prob.odeint(x, ts, save)
            elif k in ("ms", "msname"):
                n = 5
                ts = torch.linspace(0, float(ts[-1] - ts[0]), n, dtype=dt)
                B0 = torch.stack([x.detach() + .1 * i for i in range(n)]) if op.get("opt") else None
                if B0 is not None:
                    B0[0] = x.detach()
                    keepB = B0.clone()
                keep[1] = ts.clone()
                r = odeint_mshooting(lambda t, y: -y * y + f.p.to(y.dtype) * y + 0 * f(torch.zeros((), dtype=dt), y), x, ts, self.solver, B0=B0, maxiter=2)
                if B0 is not None:
                    assert torch.equal(B0, keepB), "shooting parameters given were modified"
            elif k == "msproblem":
                ts = torch.linspace(0, 1, 4, dtype=dt)
                keep[1] = ts.clone()
                f.f = lambda t, y: -y * y
                r = self.prob.odeint(x, ts)
            elif k == "sde":
                r = sdeint(self.sde, x, ts, self.solver, self.bm, save_at=save)
            else:
                r = self.prob.sdeint(x, ts, self.bm, save)
            res = [t.detach().clone() for t in r]
            if op.get("grad") and r[1].requires_grad:
                g = torch.autograd.grad(r[1][-1].sum() + r[1].mean(), [x, self.vf.p] if k not in () else [x], allow_unused=True)
                res += [v.clone() for v in g if v is not None]
            if op.get("abort") is not None and f.abort is not None and f.abort > 0:
                pass
        except Boom:
            res = ["aborted"]
        f.abort = None
        assert torch.equal(x.detach(), keep[0]), "the initial state was modified"
        assert torch.equal(ts, keep[1]), "the time span was modified"
        if len(save):
            assert torch.equal(save, keep[2]), "the saving times were modified"
        assert set(args) == {"a", "n"} and args["a"] == 1. and torch.equal(args["n"], torch.ones(2)), "the argument dictionary was modified"
        return res


def pristine(obj, op):
    "result of one operation on a fresh object in a forked, so far unused process"
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            torch.manual_seed(0)
            res = Obj(obj).do(op)
            data = pickle.dumps([v if isinstance(v, str) else v.numpy() for v in res])
        except BaseException as e:
            data = pickle.dumps(["raised %s: %s" % (type(e).__name__, e)])
        with os.fdopen(w, "wb") as fh:
            fh.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return [v if isinstance(v, str) else torch.from_numpy(v.copy()) for v in pickle.loads(data)]


REF = None
DEFAULTS = [odeint, odeint_symplectic, odeint_mshooting, odeint_hybrid, sdeint, ODEProblem.odeint, ODEProblem.forward, SDEProblem.sdeint]


def equal(a, b):
    return len(a) == len(b) and all((u == v) if isinstance(u, str) or isinstance(v, str) else (u.dtype == v.dtype and u.shape == v.shape and torch.equal(u, v)) for u, v in zip(a, b))


def run(case, out):
    global REF
    if REF is None:
        REF = {(o, p): None for o in OBJ for p in ops_of(o)}
        for key in REF:
            REF[key] = pristine(*key)
        out.defaults = [repr(d.__defaults__) for d in DEFAULTS]
    obj = case["obj"]
    tails = itertools.product(ops_of(obj), repeat=case["depth"] - len(case["start"]))
    for tail in tails:
        hist = case["start"] + list(tail)
        o = Obj(obj)
        for i, op in enumerate(hist):
            ref = REF[(obj, op)]
            if ref and isinstance(ref[0], str) and ref[0].startswith("raised"):
                return out.fail("operation %s on a fresh %s %s" % (op, obj, ref[0]))
            try:
                res = o.do(op)
            except AssertionError as e:
                return out.fail("after %s: %s" % (hist[:i + 1], e))
            out.step()
            if not equal(res, ref):
                d = [("%s" % (err(u, v) if not isinstance(u, str) and not isinstance(v, str) else (u, v))) for u, v in zip(res, ref) if isinstance(u, str) or isinstance(v, str) or not (u.shape == v.shape and torch.equal(u, v))]
                return out.fail("%s: operation %s after history %s gives another result than on a fresh object: %s" % (obj, op, hist[:i], d[:1]))
            out.state(obj, tuple(hist[:i + 1]))
        out.trace()
    now = [repr(d.__defaults__) for d in DEFAULTS]
    out.check(now == out.defaults, "default arguments changed: %s" % [n for n, d in zip(now, out.defaults) if n != d])
    # by name and as a freshly built instance
    if obj.startswith("name:"):
        other = Obj("inst:" + obj.split(":")[1])
        for op in ops_of(obj):
            if OPS[op]["dt"] == "f64":
                out.check(equal(other.do(op), REF[(obj, op)]), "operation %s: solver given by name differs from a freshly built instance" % op)
