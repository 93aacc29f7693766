"""C19: every accepted vector-field signature through every entry point gives the reference closure's solution; argument dictionaries are traced per call."""
import functools, itertools
import torch
import torch.nn as nn
from torchdyn.numerics import odeint, odeint_mshooting
from torchdyn.numerics.sdeint import sdeint
from torchdyn.core import ODEProblem, NeuralODE, MultipleShootingProblem, MultipleShootingLayer, SDEProblem, NeuralSDE
from torchdyn.core.defunc import SDEFunc
from mc.common import *

PROPERTY = "C19"
RULE = ("all combinations of signature form (module/callable/bound method/partial/callable object; of state, of time and state, with optional or required argument "
        "dictionary, keyword catch-all, extra defaults), entry point, sensitivity, solver, order and direction: solutions and gradients compared with the functional "
        "solve of a plain closure; all call sequences with/without argument dictionaries up to length 3 on one object, arguments recorded at the solver step and the field")
ASSUMPTIONS = ["the time argument is called `t`", "built-in steps do not pass arguments on to the field; a plugged-in step that does is used"]

AUT = ["mod_x", "mod_y", "seq", "lam_x", "def_x", "obj_x", "meth_x", "part_x"]
NON = ["mod_tx", "mod_ty", "mod_txa", "mod_txkw", "mod_txd", "lam_tx", "def_tx", "def_txa", "def_txareq", "def_txd", "obj_tx", "meth_tx", "part_tx", "mod_kwonly", "def_kw"]
ENTRY = ["problem", "problem_fwd", "adjoint", "iadjoint", "neural", "traj", "neural_adj", "neural_noteval", "twice"]
ENTRY_FN = ["odeint"]
MS = ["msproblem", "mslayer", "msfn"]


def bounds(tier):
    return {"forms": AUT + NON, "entry_points": ENTRY + ENTRY_FN + MS, "argument_history": 3 if tier == "quick" else 4}


def cases(tier):
    solvers = ["rk4", "dopri5", "euler", "tsit5"]
    for form in AUT + NON:
        for e in ENTRY:
            for s in solvers:
                for rev in (0, 1):
                    yield {"kind": "form", "form": form, "entry": e, "solver": s, "rev": rev, "order": 1}
        for e in ENTRY:
            for s in ("dopri5_4th", "tsit5_4th"):
                yield {"kind": "form", "form": form, "entry": e, "solver": s, "rev": int(s[0] == "d"), "order": 1}
        for e in ("neural", "traj", "neural_adj"):
            yield {"kind": "form", "form": form, "entry": e, "solver": "rk4", "rev": 0, "order": 2}
        if form in NON and form != "def_txareq":
            for s in solvers:
                for rev in (0, 1):
                    yield {"kind": "form", "form": form, "entry": "odeint", "solver": s, "rev": rev, "order": 1}
        if form in AUT:
            for e in MS:
                yield {"kind": "form", "form": form, "entry": e, "solver": "zero", "rev": 0, "order": 1}
    for d in ("mod_x", "mod_tx", "lam_x", "lam_tx", "obj_tx", "def_tx"):
        for g in ("mod_x", "mod_tx", "lam_x", "lam_tx", "def_x"):
            for e in ("sdeint", "sdeproblem", "neuralsde", "plain"):
                if e == "plain" and (d[0] == "m" or g[0] == "m"):
                    continue
                yield {"kind": "sde", "drift": d, "diff": g, "entry": e}
    for e in ("odeint", "problem", "neural", "neural2", "loss"):
        for form in ("mod_txa", "def_txa", "lam_tx", "mod_tx", "mod_txkw", "def_txareq", "mod_x", "mod_kwonly", "def_kw") if e != "odeint" else ("mod_txa", "def_txa"):
            if e == "problem" and form == "mod_tx":
                continue  # the module is called as given
            for kind in ("fixed", "adaptive"):
                for rev in (0, 1):
                    yield {"kind": "args", "entry": e, "form": form, "step": kind, "rev": rev, "sens": "autograd", "depth": 3 if tier == "quick" else 4}
                    if e in ("problem", "neural", "neural2"):
                        for sens in ("adjoint", "interpolated_adjoint"):
                            yield {"kind": "args", "entry": e, "form": form, "step": kind, "rev": rev, "sens": sens, "depth": 2 if tier == "quick" else 3}


def core_aut(x):
    return -.5 * x + .1 * torch.sin(x)


def core_non(t, x):
    return -.5 * x + torch.as_tensor(t).to(x).reshape(-1)[:1] * .3


def make(form, w, autonomous, rec=None):
    "w scales the field; returns the vector field in the given form"
    a = autonomous
    F = (lambda x: w * core_aut(x)) if a else (lambda t, x: w * core_non(t, x))

    class Base(nn.Module):
        def __init__(self):
            super().__init__()
            self.w = w
    def note(args):
        if rec is not None:
            rec.append(args)

    if form == "mod_x":
        class M(Base):
            def forward(self, x):
                return F(x)
    elif form == "mod_y":
        class M(Base):
            def forward(self, inputs):
                return F(inputs)
    elif form == "seq":
        class L(Base):
            def forward(self, x):
                return F(x)
        return nn.Sequential(nn.Identity(), L())
    elif form in ("mod_tx", "mod_ty"):
        class M(Base):
            def forward(self, t, y):
                return F(t, y)
    elif form == "mod_txa":
        class M(Base):
            def forward(self, t, x, args={}):
                note(args)
                return F(t, x)
    elif form == "mod_kwonly":
        class M(Base):
            def forward(self, t, x, *, args={}):
                note(args)
                return F(t, x)
    elif form == "mod_txkw":
        class M(Base):
            def forward(self, t, x, **kwargs):
                note(kwargs.get("args"))
                return F(t, x)
    elif form == "mod_txd":
        class M(Base):
            def forward(self, t, x, alpha=1.):
                return F(t, x) * alpha
    if form.startswith("mod"):
        return M()
    if form == "lam_x":
        return lambda x: F(x)
    if form == "lam_tx":
        return lambda t, x: F(t, x)

    def def_x(state):
        return F(state)

    def def_tx(t, x):
        return F(t, x)

    def def_txa(t, x, args={}):
        note(args)
        return F(t, x)

    def def_txareq(t, x, args):
        note(args)
        return F(t, x)

    def def_kw(t, x, **kw):
        note(kw.get("args"))
        return F(t, x)

    def def_txd(t, x, alpha=1.):
        return F(t, x) * alpha

    class O:
        if a:
            def __call__(self, x):
                return F(x)

            def meth(self, x):
                return F(x)
        else:
            def __call__(self, t, x):
                return F(t, x)

            def meth(self, t, x):
                return F(t, x)
    if form.startswith("obj"):
        return O()
    if form.startswith("meth"):
        return O().meth
    if form.startswith("part"):
        return functools.partial(lambda x, k: F(x), k=2) if a else functools.partial(lambda t, x, k: F(t, x), k=2)
    return locals()[form]


def second(f):
    "first-order form of x'' = f(t, (x, x'))"
    return lambda t, z: torch.cat([z[:, 2:], f(t, z)], 1)


def run(case, out):
    {"form": run_form, "sde": run_sde, "args": run_args}[case["kind"]](case, out)


def run_form(case, out):
    form, e, s = case["form"], case["entry"], case["solver"]
    a = form in AUT
    w = nn.Parameter(tens([.8]))
    base = (lambda t, x: w * core_aut(x)) if a else (lambda t, x: w * core_non(t, x))
    ts = tens([1., .6, 0.] if case["rev"] else [0., .4, 1.])
    x = tens([[.5, -.4], [.3, .9]]).requires_grad_(True)
    kw = {}
    if s.endswith("_4th"):
        s = s[:-4]
        kw["interpolator"] = "4th"
    if s in ("dopri5", "tsit5"):
        kw.update(atol=1e-9, rtol=1e-7)
    if case["order"] == 2:
        # the field sees the whole first-order state and returns the last derivative
        x = tens([[.5, -.4, .2, .1], [.3, .9, -.6, .7]]).requires_grad_(True)
        inner = base
        base = lambda t, z: torch.cat([z[:, 2:], inner(t, z)[:, :2]], 1)
        f = make(form, w, a)
        g = f

        class Cut(nn.Module):
            def __init__(self):
                super().__init__()
                self.g = g
                self.w = w
        if form.startswith(("mod", "seq")):
            class C(Cut):
                if a:
                    def forward(self, x):
                        return self.g(x)[:, :2]
                else:
                    def forward(self, t, x):
                        return self.g(t, x)[:, :2]
            f = C()
        elif form == "def_txareq":
            f = lambda t, x, args: g(t, x, args)[:, :2]
        else:
            f = (lambda x: g(x)[:, :2]) if a else (lambda t, x: g(t, x)[:, :2])
    else:
        f = make(form, w, a)
    gtol = 1e-9
    if e in MS:
        ts = torch.linspace(0, 1, 5, dtype=torch.float64)
        _, ref = odeint_mshooting(base, x, ts, "zero", fine_steps=3, maxiter=6)
        if e == "msproblem":
            _, sol = MultipleShootingProblem(f, "zero", fine_steps=3, maxiter=6)(x, ts)
        elif e == "mslayer":
            _, sol = MultipleShootingLayer(f, "zero", fine_steps=3, maxiter=6)(x, ts)
        else:
            _, sol = odeint_mshooting(lambda t, x: w * core_aut(x), x, ts, "mszero", fine_steps=3, maxiter=6)
    else:
        t_ref, ref = odeint(base, x, ts, s, **{k: v for k, v in kw.items() if k != "interpolator" or e != "traj"})
        if e == "odeint":
            t, sol = odeint(f, x, ts, s, **kw)
        elif e in ("problem", "problem_fwd", "adjoint", "iadjoint"):
            sens = {"adjoint": "adjoint", "iadjoint": "interpolated_adjoint"}.get(e, "autograd")
            extra = {} if form.startswith(("mod", "seq")) else {"optimizable_params": (w,)}
            p = ODEProblem(f, s, sensitivity=sens, solver_adjoint="dopri5", atol_adjoint=1e-8, rtol_adjoint=1e-8, **kw, **extra)
            t, sol = p(x, ts) if e == "problem_fwd" else p.odeint(x, ts)
            if e == "iadjoint" and s in ("dopri5", "tsit5"):
                idx = [t.tolist().index(v) for v in ts.tolist()]
                t, sol = t[idx], sol[idx]
        else:
            extra = {} if form.startswith(("mod", "seq")) else {"optimizable_params": (w,)}
            m = NeuralODE(f, s, order=case["order"], sensitivity="adjoint" if e == "neural_adj" else "autograd", atol_adjoint=1e-8, rtol_adjoint=1e-8, solver_adjoint="dopri5",
                          return_t_eval=e != "neural_noteval", **{**dict(atol=1e-3, rtol=1e-3), **kw}, **extra)
            if e == "traj":
                t, sol = ts, m.trajectory(x, ts)
            elif e == "neural_noteval":
                t, sol = ts, m(x, ts)
            elif e == "twice":
                m(x + 1, ts.flip(0))
                t, sol = m(x, ts)
            else:
                t, sol = m(x, ts)
        out.check(torch.equal(t, ts), "returned times %s" % t.tolist())
        if e in ("adjoint", "iadjoint", "neural_adj"):
            gtol = 1e-6 if e != "iadjoint" else 2e-2
            if s in ("euler", "rk4"):
                gtol = None  # continuous adjoint of a coarse solve
    out.trace()
    out.step(len(ts) - 1)
    out.check(close(sol, ref, 1e-11, 1e-11), lambda: "solution differs from the plain closure's: " + err(sol, ref))
    if gtol is not None:
        # only differentiated where the entry point supports it
        L = lambda z: (z[-1] ** 2).sum() + z[1].sum()
        g0 = torch.autograd.grad(L(ref), [x, w], allow_unused=True)
        g1 = torch.autograd.grad(L(sol), [x, w], allow_unused=True)
        for u, v, n in zip(g1, g0, ("initial state", "parameter")):
            out.check(u is not None and close(u, v, gtol, gtol), lambda: "gradient w.r.t. %s differs: %s" % (n, None if u is None else err(u, v)))
    out.state(form, e, case["solver"], case["rev"], case["order"])


class Path:
    def __call__(self, a, b):
        w = lambda s: torch.sin(3 * s) + .3 * s ** 2 / (1 + s.abs())
        return w(torch.as_tensor(b, dtype=torch.float64)) - w(torch.as_tensor(a, dtype=torch.float64))


def run_sde(case, out):
    w, v = nn.Parameter(tens([.8])), nn.Parameter(tens([.3]))
    d, g, e = case["drift"], case["diff"], case["entry"]
    D, G = make(d, w, d.endswith("_x")), make(g, v, g.endswith("_x"))
    d0 = (lambda t, x: w * core_aut(x)) if d.endswith("_x") else (lambda t, x: w * core_non(t, x))
    g0 = (lambda t, x: v * core_aut(x)) if g.endswith("_x") else (lambda t, x: v * core_non(t, x))
    ts, x, bm = tens([0., .25, .3, 1.]), tens([[.5, -.4], [.3, .9]]), Path()
    rows = [x]
    for a, b in zip(ts[:-1], ts[1:]):
        y = rows[-1]
        rows.append(y + d0(a, y) * (b - a) + g0(a, y) * bm(a, b))
    want = torch.stack(rows)
    if e == "neuralsde":
        t, sol = NeuralSDE(D, G, solver="euler", bm=bm)(x, ts)
    elif e == "sdeproblem":
        t, sol = SDEProblem(SDEFunc(D, G, noise_type="diagonal", sde_type="ito"), "euler")(x, ts, bm)
    elif e == "sdeint":
        t, sol = sdeint(SDEFunc(D, G, noise_type="diagonal", sde_type="ito"), x, ts, "euler", bm)
    else:
        class S:
            noise_type, sde_type = "diagonal", "ito"
        S.f, S.g = staticmethod(D), staticmethod(G)
        t, sol = sdeint(S(), x, ts, "euler", bm)
    out.trace()
    out.step(3)
    out.check(torch.equal(t, ts) and close(sol, want, 1e-11, 1e-11), lambda: "solution differs from the plain recursion: " + err(sol, want))
    out.state(d, g, e)


class ArgStep(nn.Module):
    "one-step map that hands its arguments on to the vector field"
    order = 1

    def __init__(self, kind):
        super().__init__()
        self.stepping_class, self.seen, self.tableau = kind, [], None
        self.safety, self.min_factor, self.max_factor = torch.tensor([.9]), torch.tensor([.2]), torch.tensor([10.])

    def sync_device_dtype(self, x, t_span):
        return x, t_span

    def step(self, f, x, t, dt, k1=None, args=None):
        self.seen.append(args)
        k = f(t, x, args=args) if args is not None else f(t, x)
        xn = x + dt * k
        if self.stepping_class == "fixed":
            return None, xn, None
        return k, xn, 1e-9 * torch.ones_like(x), (k,)


def run_args(case, out):
    e, form = case["entry"], case["form"]
    menu = [None, {"a": 1., "b": [2]}, {"c": torch.ones(2)}]
    has = form in ("mod_txa", "def_txa", "mod_txkw", "def_txareq", "mod_kwonly", "def_kw")
    for hist in itertools.product(range(len(menu)), repeat=case["depth"]):
        rec, s = [], ArgStep(case["step"])
        w = nn.Parameter(tens([.8]))
        f = make(form, w, form in AUT, rec)
        x = tens([[.5, -.4], [.3, .9]])
        ts = tens([1., .6, 0.] if case["rev"] else [0., .4, 1.])
        if e in ("neural", "neural2", "loss"):
            if e == "neural2":
                x = torch.cat([x, x], 1)
                inner = f
                if form.startswith("mod"):
                    f.register_forward_hook(lambda m, i, o: o[:, :2])
                elif form == "lam_tx":
                    f = lambda t, x: inner(t, x)[:, :2]
                elif form == "def_kw":
                    f = lambda t, x, **kw: inner(t, x, **kw)[:, :2]
                else:
                    f = (lambda t, x, args: inner(t, x, args)[:, :2]) if form == "def_txareq" else (lambda t, x, args={}: inner(t, x, args)[:, :2])
            if e == "loss":
                x = torch.cat([torch.zeros(2, 1, dtype=torch.float64), x], 1)
            m = NeuralODE(f, s, order=2 if e == "neural2" else 1, sensitivity=case["sens"], integral_loss=(lambda t, x: x.sum(1)) if e == "loss" else None)
        elif e == "problem":
            m = ODEProblem(f, s, sensitivity=case["sens"])
        pending = []
        for i, k in enumerate(hist):
            del rec[:], s.seen[:]
            given = menu[k]
            kw = {} if given is None else {"args": given}
            snap = None if given is None else {q: (v.clone() if torch.is_tensor(v) else v) for q, v in given.items()}
            if e == "odeint":
                odeint(f, x, ts, s, **kw)
            else:
                _, sol = m(x.requires_grad_(case["sens"] != "autograd"), ts, **kw)
                pending.append((i, given, sol))
            out.step(len(s.seen))
            c = "call %d of history %s" % (i, hist)

            def ok(got, given=given):
                if given is None:
                    return got is None or got == {}
                return isinstance(got, dict) and set(got) == set(given) and all(got[q] is given[q] for q in given)
            out.check(len(s.seen) >= 2 and all(ok(g) for g in s.seen), lambda: c + ": a solver step was given %s instead of %s" % ([g for g in s.seen if not ok(g)][:1], given))
            if has:
                # evaluations made by the step; the step-size probes of the adaptive loop carry no arguments
                with_args = [g for g in rec if g]
                if given is None:
                    out.check(not with_args, lambda: c + ": the vector field was given %s" % with_args[:1])
                else:
                    out.check(len(with_args) == len(s.seen) and all(ok(g) for g in with_args), lambda: c + ": the vector field was given %s instead of %s" % (rec[:3], given))
            if given is not None:
                out.check(set(given) == set(snap) and all(torch.equal(given[q], snap[q]) if torch.is_tensor(snap[q]) else given[q] == snap[q] for q in snap), c + ": arguments modified")
            out.state(e, form, case["step"], hist[:i + 1])
        out.trace()
        if case["sens"] != "autograd":  # backward passes of the calls, last call first
            for i, given, sol in reversed(pending):
                del rec[:], s.seen[:]
                sol.sum().backward()
                out.step(len(s.seen))
                c = "backward pass of call %d of history %s" % (i, hist)
                out.check(len(s.seen) >= 2 and all(ok(g, given) for g in s.seen), lambda: c + ": a solver step was given %s instead of %s" % ([g for g in s.seen if not ok(g, given)][:1], given))
                if has:
                    with_args = [g for g in rec if g]
                    out.check(len(with_args) == (len(s.seen) if given else 0) and all(ok(g, given) for g in with_args), lambda: c + ": the vector field was given %s instead of %s" % (rec[:3], given))
