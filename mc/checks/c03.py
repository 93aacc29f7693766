"""C03: order of every explicit method decided by all rooted trees up to its nominal order, executed through the real step."""
import itertools, math
import torch
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import SOLVER_DICT, str_to_solver
from mc.common import *

PROPERTY = "C03"
RULE = ("all rooted trees up to order p+1 whose leaves are coloured state or time (the complete set of Butcher order conditions for non-autonomous "
        "systems), realised as one polynomial vector field and run through one real step: each component must equal h^|tau|/gamma(tau); repeated under "
        "translations, linear changes of variables, layouts, dtypes, step signs/sizes, with and without first stage, by every name and as instance")
ASSUMPTIONS = ["vector fields smooth enough for the B-series to exist (order conditions are necessary and sufficient)"]

ORDER = {"euler": 1, "midpoint": 2, "rk4": 4, "rk-4": 4, "RungeKutta4": 4, "dopri5": 5, "DormandPrince45": 5, "DormandPrince5": 5, "tsit5": 5, "Tsitouras45": 5, "Tsitouras5": 5}
DOPRI_B4_SHAMPINE = [1951 / 21600, 0, 22642 / 50085, 451 / 720, -12231 / 42400, 649 / 6300, 1 / 60]  # the variant of the pair's fourth-order weights in common use
TSIT_ERR = [-0.00178001105222577714, -0.0008164344596567469, 0.007880878010261995, -0.1447110071732629, 0.5823571654525552, -0.45808210592918697, 0.015151515151515152]


def trees(maxorder):
    """trees as sorted tuples of children; the leaf () is a state leaf, 'T' a time leaf. Returns them grouped, children first."""
    by = {1: [()]}
    leaf_t = 'T'
    for n in range(2, maxorder + 1):
        found = set()
        def rec(rem, start, cur, pool):
            if rem == 0:
                found.add(tuple(cur))
                return
            for i in range(start, len(pool)):
                o, tr = pool[i]
                if o <= rem:
                    rec(rem - o, i, cur + [tr], pool)
        pool = [(1, 'T')] + [(o, tr) for o in range(1, n) for tr in by[o]]
        rec(n - 1, 0, [], pool)
        by[n] = sorted(found, key=repr)
    return [(o, tr) for o in by for tr in by[o]]


def gamma(tr):
    if tr in ((), 'T'):
        return 1
    return size(tr) * math.prod(gamma(c) for c in tr)


def size(tr):
    return 1 if tr in ((), 'T') else 1 + sum(size(c) for c in tr)


TREES = trees(6)
INDEX = {tr: i for i, (_, tr) in enumerate(TREES)}
N = len(TREES)
# each component's derivative is the product of its children: padded index table into [ones, time, components]
MAXC = max(len(tr) for _, tr in TREES)
IDX = torch.tensor([[(1 if c == 'T' else 2 + INDEX[c]) for c in tr] + [0] * (MAXC - len(tr)) for _, tr in TREES])


def field(tau, y):
    "y [..., N] -> derivative, tau = t - t0"
    aug = torch.cat([torch.ones_like(y[..., :1]), torch.ones_like(y[..., :1]) * tau, y], -1)
    return aug[..., IDX].prod(-1)


def bounds(tier):
    return {"trees": N, "max_tree_order": 6, "methods": sorted(ORDER), "layouts": LAYOUTS, "steps": HS}


LAYOUTS = ["N", "1N", "3N", "23N", "N1"]
HS = [1., -1., .5, .1, -.25, 2.]


def cases(tier):
    full = tier == "thorough"
    for name in ORDER:
        for how in ("step", "step_k1", "odeint", "instance", "module", "ctor"):
            for lay in LAYOUTS:
                for h in (HS if full else [1., -.5, .1, 2.]):
                    for t0 in ([0., 1.5, -20., 300.] if full else [0., -7.25]):
                        for dt in ("f64", "f32", "c128"):
                            for conj in (0, 1):
                                if dt == "c128" and (ORDER[name] == 5):
                                    continue
                                if not full and (name in ("rk-4", "RungeKutta4", "DormandPrince45", "DormandPrince5", "Tsitouras45", "Tsitouras5")) and (how != "odeint" and lay != "3N"):
                                    continue
                                yield {"name": name, "how": how, "layout": lay, "h": h, "t0": t0, "dtype": dt, "conj": conj}
    for name in ORDER:
        for fld in ("cos", "tx", "decay", "logi"):
            yield {"name": name, "how": "converge", "field": fld}


def run(case, out):
    name, p = case["name"], ORDER[case["name"]]
    if case["how"] == "converge":
        return converge(case, out)
    dt, h, t0 = DT[case["dtype"]], case["h"], case["t0"]
    g = torch.Generator().manual_seed(7)
    if case["conj"]:
        # unit lower/upper triangular products stay well conditioned and exactly invertible
        M = torch.eye(N, dtype=torch.float64)
        M[torch.arange(1, N), torch.arange(N - 1)] = .5
        Mi = torch.linalg.inv(M)
        shift = torch.linspace(-1, 1, N, dtype=torch.float64)
    else:
        M = Mi = torch.eye(N, dtype=torch.float64)
        shift = torch.zeros(N, dtype=torch.float64)
    M, Mi, shift = M.to(dt), Mi.to(dt), shift.to(dt)
    lay = case["layout"]
    shape = {"N": (N,), "1N": (1, N), "3N": (3, N), "23N": (2, 3, N), "N1": (N, 1)}[lay]
    # different samples of a batch run with differently scaled time, so that mixing them up shows
    nb = math.prod(shape) // N
    scale = torch.tensor([1., .5, -.75, .25, 1.25, -.5][:nb], dtype=dt)[:, None]
    t_0 = torch.tensor(t0, dtype=torch.float64 if case["dtype"] != "f32" else torch.float32)
    times = []

    def f(t, x):
        times.append(float(t.real if torch.is_tensor(t) else t))
        y = (x.reshape(nb, N) - shift) @ Mi.T
        tau = (t - t_0).to(dt).reshape(-1)[:1]
        return (scale * (field(scale * tau, y) @ M.T)).reshape(shape)
    x0 = (shift.expand(nb, N) + 0).reshape(shape)
    how = case["how"]
    if how == "ctor":
        solver = SOLVER_DICT[name](dt)
    else:
        solver = str_to_solver(name, dt)
    tt0 = t_0[None] if how == "odeint" else t_0
    hh = torch.tensor(h, dtype=tt0.dtype)
    e = k_new = None
    if how in ("odeint", "instance"):
        if p == 5:  # one step cannot be forced through the adaptive loop other than by a huge tolerance: use step below, but via sync
            x_, ts_ = solver.sync_device_dtype(x0, torch.stack([t_0, t_0 + hh]))
            r = solver.step(f, x_, t_0, hh)
            k_new, x1, e = r[0], r[1], r[2]
        else:
            t_r, sol = odeint(f, x0, torch.stack([t_0, t_0 + hh]), name if how == "odeint" else SOLVER_DICT[name](torch.float64))
            x1 = sol[-1]
            out.check(torch.equal(sol[0], x0), "first row is not the initial state")
    else:
        if how == "module":
            solver = torch.nn.ModuleList([solver])[0]
        k1 = f(t_0, x0) if how == "step_k1" else None
        del times[:]
        r = solver.step(f, x0, t_0, hh, k1=k1)
        x1 = r[1]
        if p == 5:
            k_new, e = r[0], r[2]
    out.step(len(times))
    out.trace()
    out.state(name, how, lay, h, t0, case["dtype"], case["conj"])
    out.check(solver.order == p, "declares order %s" % solver.order)
    out.check(x1.shape == x0.shape and x1.dtype == x0.dtype, "layout or dtype changed: %s %s" % (tuple(x1.shape), x1.dtype))
    eps = {"f64": 1e-11, "c128": 1e-11, "f32": 2e-5}[case["dtype"]] * (1 + abs(t0)) * max(1., abs(h)) ** 6 * 8

    def comps(x, order):
        y = (x.reshape(nb, N) - shift) @ Mi.T
        return y

    y1 = comps(x1, p)
    for i, (o, tr) in enumerate(TREES):
        if o > p:
            continue
        want = (scale[:, 0] * h) ** o / gamma(tr)
        if not ((y1[:, i] - want).abs() <= eps).all():
            out.fail("order condition of tree %s (order %d): got %s, exact flow %s" % (tr, o, y1[:, i].tolist(), want.tolist()))
            return
    if p == 5:
        ye = e.reshape(nb, N) @ Mi.T
        top = 0.
        for i, (o, tr) in enumerate(TREES):
            if o <= 4 and not (ye[:, i].abs() <= eps).all():
                out.fail("error estimate does not vanish on tree %s of order %d: %s" % (tr, o, ye[:, i].tolist()))
                return
            if o == 5:
                top = max(top, float((ye[:, i].abs() / (scale[:, 0] * h).abs() ** 5).min()))
        out.check(top > 1e-4 or abs(h) < .2 and case["dtype"] == "f32", "error estimate vanishes at order 5: it estimates nothing")
        if abs(h) >= .5:
            # the embedded solution's order-5 defect is the published one (either sign)
            i = INDEX[('T', 'T', 'T', 'T')]
            c = DOPRI_C if "opri" in name or "Dorm" in name else [0., .161, .327, .9, .9800255409045097, 1., 1.]
            bes = [[b - q for b, q in zip(DOPRI_B, b4)] for b4 in (DOPRI_B4, DOPRI_B4_SHAMPINE)] if c is DOPRI_C else [TSIT_ERR]
            wants = [sum(b * ci ** 4 for b, ci in zip(be, c)) * (scale[:, 0] * h) ** 5 for be in bes]
            out.check(any(((ye[:, i].abs() - w.abs()).abs() <= eps).all() for w in wants),
                      "error estimate of t^4 is %s, published pairs give %s" % (ye[:, i].tolist(), [w.tolist() for w in wants]))
        kk = f(t_0 + hh, x1)
        out.check(close(k_new, kk, 1e-4 if case["dtype"] == "f32" else 1e-10, eps * 10), lambda: "reported new derivative is not the field at the new point: " + err(k_new, kk))


def converge(case, out):
    "fields that are not polynomials: local error bounded by a multiple of h^(p+1)"
    name, p = case["name"], ORDER[case["name"]]
    fld = FIELDS[case["field"]]
    solver = str_to_solver(name, torch.float64)
    x0 = tens([[.3, .6], [.7, .45]])
    for t0 in (0., .4, -.8):
        errs = []
        for h in (.2, .1, .05):
            t = tens(t0)
            x1 = solver.step(fld.f, x0, t, tens(h))[1]
            out.step()
            errs.append(float((x1 - fld.flow(t, t + h, x0)).abs().max()))
        out.trace()
        for e, h in zip(errs, (.2, .1, .05)):
            out.check(e <= 30 * h ** (p + 1), "%s from t=%g: local error %.3g at h=%g (order %d)" % (case["field"], t0, e, h, p))
        out.state(name, case["field"], t0)
