import numpy as np
from hypothesis import strategies as st
from vp import Facet, Violation, info, expect, close, fail
import strat, femgen as G

PROPERTY = "C11"
LEVEL = "exploration"
RULE = "Hypothesis draws numbers of variables/constraints, bounds, move limits, scalings and histories of iterations with smooth random objective and constraints; oracle: Svanberg's moving-asymptote approximation built independently and a duality-gap certificate; filter: brute-force distances; driver: reference loop; non-trivial if a gradient is non-zero"
ASSUMPTIONS = ["MMA constants of Svanberg's reference code: initial/increase/decrease 0.5/1.2/0.7, 0.1 safety margin, 1e-5 regularisation"]


class RefMMA:
    """Svanberg's approximation (1987/2007 notes), independent of the code."""
    def __init__(self, xmin, xmax, move, a0, a, c, d):
        self.xmin, self.xmax, self.move = xmin, xmax, move
        self.a0, self.a, self.c, self.d = a0, a, c, d
        self.low = self.upp = None
        self.it = 0
        self.hist = []

    def build(self, x, f0, df0, f, df):
        self.it += 1
        w = self.xmax - self.xmin
        h = self.hist
        if self.it <= 2:
            L, U = x - .5 * w, x + .5 * w
        else:
            x1, x2 = h[-1], h[-2]
            sgn = (x - x1) * (x1 - x2)
            gam = np.where(sgn > 0, 1.2, np.where(sgn < 0, .7, 1.))
            L = x - gam * (x1 - self.low); U = x + gam * (self.upp - x1)
            L = np.clip(L, x - 10 * w, x - .01 * w); U = np.clip(U, x + .01 * w, x + 10 * w)
        self.low, self.upp = L, U
        h.append(x)
        al = np.maximum.reduce([self.xmin, L + .1 * (x - L), x - self.move * w])
        be = np.minimum.reduce([self.xmax, U - .1 * (U - x), x + self.move * w])
        reg = 1e-5 / np.maximum(w, 1e-5)
        mk = lambda g: ((U - x) ** 2 * (1.001 * np.maximum(g, 0) + .001 * np.maximum(-g, 0) + reg), (x - L) ** 2 * (.001 * np.maximum(g, 0) + 1.001 * np.maximum(-g, 0) + reg))
        p0, q0 = mk(df0)
        PQ = [mk(g) for g in df]
        P = np.array([t[0] for t in PQ]); Q = np.array([t[1] for t in PQ])
        b = P @ (1 / (U - x)) + Q @ (1 / (x - L)) - f
        self.sub = (p0, q0, P, Q, b, al, be, L, U)
        return self

    def g(self, x):
        p0, q0, P, Q, b, al, be, L, U = self.sub
        return P @ (1 / (U - x)) + Q @ (1 / (x - L)) - b

    def primal(self, x, y, z):
        p0, q0, P, Q, b, al, be, L, U = self.sub
        return p0 @ (1 / (U - x)) + q0 @ (1 / (x - L)) + self.a0 * z + self.c @ y + .5 * self.d @ (y * y)

    def dual(self, lam):
        """(lower bound on the optimum, x(lam))"""
        p0, q0, P, Q, b, al, be, L, U = self.sub
        lam = np.maximum(lam, 0)
        lam = np.where(self.d == 0, np.minimum(lam, self.c), lam)
        s = self.a @ lam
        if s > self.a0:
            lam = lam * (self.a0 / s)
        p, q = p0 + P.T @ lam, q0 + Q.T @ lam
        sp, sq = np.sqrt(p), np.sqrt(q)
        x = np.clip((L * sp + U * sq) / (sp + sq), al, be)
        y = np.where(self.d > 0, np.maximum(0, (lam - self.c) / np.where(self.d > 0, self.d, 1)), 0.)
        val = p @ (1 / (U - x)) + q @ (1 / (x - L)) - lam @ b + np.sum(self.c * y + .5 * self.d * y * y - lam * y)
        return val, x


def judge(ref, mma, x0, tag):
    x, y, z = (np.asarray(a) for a in mma.getOptimalValues())
    n = len(x0)
    expect(x.shape == (n, 1), f"{tag}: shape of the design vector", got=x.shape)
    expect(np.all(np.isfinite(x)), f"{tag}: non-finite design variables")
    x, y, z = x[:, 0], y.reshape(-1), float(z.reshape(-1)[0])
    p0, q0, P, Q, b, al, be, L, U = ref.sub
    w = ref.xmax - ref.xmin
    eps = 1e-9 * w
    expect(np.all(x >= ref.xmin - eps) and np.all(x <= ref.xmax + eps), f"{tag}: design bounds violated", lo=np.min(x - ref.xmin), hi=np.max(x - ref.xmax))
    expect(np.all(np.abs(x - x0) <= ref.move * w + eps), f"{tag}: move limit violated", by=np.max(np.abs(x - x0) - ref.move * w))
    lo, up = (np.asarray(a).reshape(-1) for a in mma.getAsymptoteValues())
    close(lo, L, f"{tag}: lower asymptotes", atol=1e-9 * np.max(w), rtol=0)
    close(up, U, f"{tag}: upper asymptotes", atol=1e-9 * np.max(w), rtol=0)
    expect(np.all(x > L) and np.all(x < U), f"{tag}: design outside the asymptotes")
    expect(np.all(x >= al - eps) and np.all(x <= be + eps), f"{tag}: outside the subproblem's box")
    gsc = 1 + np.abs(b) + P @ (1 / (U - x)) + Q @ (1 / (x - L))
    expect(np.all(y >= -1e-9) and z >= -1e-9, f"{tag}: negative artificial variables")
    viol = ref.g(x) - ref.a * z - y
    expect(np.all(viol <= 1e-5 * gsc), f"{tag}: approximate constraints violated", by=np.max(viol))
    lam = np.asarray(mma.getLagrangeMultipliers()[0]).reshape(-1)
    expect(np.all(lam >= -1e-9), f"{tag}: negative multiplier")
    f = ref.primal(x, y, z)
    D, xd = ref.dual(lam)
    scale = 1 + abs(f) + np.abs(lam) @ gsc + ref.c @ y
    gap = f - D
    expect(gap <= 5e-4 * scale, f"{tag}: the update is not optimal for the MMA subproblem (duality gap)", gap=gap, objective=f, bound=D)
    expect(gap >= -5e-4 * scale, f"{tag}: objective below the dual bound (infeasible point)", gap=gap)
    return x


def function(seed, n, m, scale):
    rng = np.random.default_rng([seed, 111])
    A = rng.normal(size=(m + 1, n)) * rng.choice([.05, 1., 1., 5.], size=(m + 1, 1)); B = rng.uniform(0, 2, size=(m + 1, n)); ph = rng.uniform(0, 6, size=(m + 1, n)); c0 = rng.normal(size=m + 1) * .3
    mono = rng.random(m + 1) < .5
    A = np.where(mono[:, None], np.abs(A), A)
    sc = np.ones(m + 1); sc[0] = scale
    def f(t):
        """t in [0,1]^n"""
        s = np.sin(B * t + ph)
        v = np.sum(A * (t + .2 * s), axis=1) / n + c0
        g = A * (1 + .2 * B * np.cos(B * t + ph)) / n
        return sc * v, sc[:, None] * g
    return f


def module(c):
    """the optimiser exists twice: in the library and, for the larger examples, in applications"""
    if c["app"]:
        import applications.fem.top_opt.mma as m
    else:
        import jax_am.fem.mma as m
    return m


def steps(c):
    MMA = module(c).MMA
    n, m = c["n"], c["m"]
    rng = np.random.default_rng([c["seed"], 112])
    if c["unit"]:
        xmin, xmax = np.zeros(n), np.ones(n)
    else:
        xmin = rng.normal(size=n); xmax = xmin + rng.choice([1., .1, 3., 10.], size=n)
    w = xmax - xmin
    a = np.zeros(m) if c["a"] == 0 else rng.uniform(0, 1, size=m)
    cc = np.full(m, c["c"]); d = np.full(m, c["d"])
    ref = RefMMA(xmin, xmax, c["move"], 1., a, cc, d)
    mma = MMA()
    mma.setNumConstraints(m); mma.setNumDesignVariables(n)
    col = lambda v: np.array(v, float).reshape(-1, 1)
    mma.setMinandMaxBoundsForDesignVariables(col(xmin), col(xmax))
    mma.setScalingParams(1., col(a), col(cc), col(d))
    mma.setMoveLimit(c["move"])
    mma.setLowerAndUpperAsymptotes(np.ones((n, 1)), np.ones((n, 1)))
    x = xmin + w * (rng.uniform(size=n) if c["start"] == "rand" else np.full(n, .5) if c["start"] == "mid" else (rng.random(n) < .5).astype(float))
    x1 = x2 = x
    mma.registerMMAIter(col(x), col(x1), col(x2))
    fn = function(c["seed"], n, m, c["scale"])
    nt = False
    for it in range(c["iters"]):
        v, g = fn((x - xmin) / w)
        g = g / w
        nt |= np.max(np.abs(g)) > 1e-9
        f0 = col(x)
        mma.setObjectiveWithGradient(np.array(v[0]), col(g[0]))
        mma.setConstraintWithGradient(col(v[1:]), np.array(g[1:]))
        mma.mmasub(col(x))
        ref.build(x, v[0], g[0], v[1:], g[1:])
        xn = judge(ref, mma, x, f"iteration {it + 1} (n={n}, m={m})")
        x2, x1, x = x1, x, np.clip(xn, xmin, xmax)
        if c["perturb"] and it % 2 == 0:     # a history that is not the optimiser's own
            x = np.clip(x + rng.normal(size=n) * .05 * w, xmin, xmax)
        if c["hist"] == "zigzag":            # oscillating and monotone histories: the asymptotes reach their closest and farthest positions
            x = np.clip(x1 + (-1) ** it * .004 * w * (1 + np.arange(n) % 3), xmin, xmax)
        if c["hist"] == "march":
            x = np.clip(x1 + (.5 - (np.arange(n) + c["seed"]) % 2) * .01 * w, xmin, xmax)
        if c["reset"] == it + 1:
            mma.resetMMACounter(); ref.it = 0
        mma.registerMMAIter(col(x), col(x1), col(x2))
    return info(nt, "applications" if c["app"] else "library", "m<n" if m < n else "m>=n", f"m={m}", f"iters={c['iters']}", c["start"], "z-coupled" if c["a"] else "", "history=" + c["hist"], "reset" if 0 < c["reset"] < c["iters"] else "")


@st.composite
def step_cases(draw):
    n = draw(st.sampled_from([1, 2, 3, 5, 8, 20, 40]))
    hist = draw(st.sampled_from(["own", "own", "own", "zigzag", "march"]))
    return dict(app=draw(st.sampled_from([False, False, False, True])), n=n, hist=hist, reset=draw(st.sampled_from([0, 0, 0, 2, 4])), m=draw(st.integers(1, 4)), seed=draw(strat.seeds), unit=draw(st.booleans()), a=draw(st.sampled_from([0, 0, 1])),
                c=draw(st.sampled_from([10000., 1000., 10.])), d=draw(st.sampled_from([0., 1.])), move=draw(st.sampled_from([.2, .1, .5, 1., .02])),
                start=draw(st.sampled_from(["mid", "rand", "corner"])), scale=draw(st.sampled_from([1., 100., 10.])), iters=draw(st.integers(1, 6) if hist == "own" else st.integers(6, 24)), perturb=draw(st.booleans()))


# ---------------------------------------------------------------- filter and driver
def bruteforce(cent, h):
    rmin = 1.5 * h
    D = np.linalg.norm(cent[:, None] - cent[None], axis=-1)
    return np.maximum(rmin - D, 0.), np.max(np.sum(D < rmin * (1 - 1e-12), axis=1)), D, rmin


def top_problem(c):
    import femlib as F
    m = c["mesh"]
    X, cells = G.build(m)
    prob = F.make(F.FEM, m, X, cells)
    rng = np.random.default_rng([c["seed"], 113])
    nc = len(cells)
    k = nc if c["allflex"] else max(1, int(nc * .8))
    prob.flex_inds = rng.permutation(nc)[:k] if c["shuffle"] else np.sort(rng.permutation(nc)[:k])
    prob.cell_centroids = X[cells].mean(axis=1)         # the copy in applications takes them from the problem
    cent = X[cells].mean(axis=1)[prob.flex_inds]
    h = (G.true_volume(m["et"], X, cells, 4) / nc) ** (1 / G.DIM[m["et"]])
    return prob, cent, h


def filt(c):
    compute_filter_kd_tree, applySensitivityFilter = module(c).compute_filter_kd_tree, module(c).applySensitivityFilter
    prob, cent, h = top_problem(c)
    W, mx, D, rmin = bruteforce(cent, h)
    H, Hs = compute_filter_kd_tree(prob)
    H, Hs = np.asarray(H), np.asarray(Hs).reshape(-1)
    close(H, W, "filter weights are not the cone weights of all neighbours", atol=1e-9 * h, rtol=0)
    close(Hs, W.sum(1), "filter normalisation", atol=1e-8 * h, rtol=0)
    rng = np.random.default_rng([c["seed"], 114])
    n = len(cent); k = c["cols"]; mcon = c["m"]
    rho = rng.uniform(size=(n, k)) if c["rho"] == "rand" else np.where(rng.random((n, k)) < .3, rng.choice([0., 1e-4, 1e-3]), rng.uniform(.1, 1, size=(n, k)))
    dJ = rng.normal(size=(n, k)); dv = rng.normal(size=(mcon, n, k))
    a, b = applySensitivityFilter({"H": H, "Hs": Hs}, rho, dJ, dv)
    pre = lambda g: np.where(rho < 1e-3, rho / 1e-3, 1.) * g
    T = (W / W.sum(1)[:, None]).T
    close(np.asarray(a), T @ pre(dJ), "filtered objective sensitivity", atol=1e-9, rtol=0)
    close(np.asarray(b), np.einsum('ij,mjk->mik', T, pre(dv)), "filtered constraint sensitivity", atol=1e-9, rtol=0)
    return info(np.sum(W > 0) > n, prob.ele_type, f"cols={k}", f"m={mcon}", "partly designable" if not c["allflex"] else "all designable", "more than 20 in the radius" if mx > 20 else "fewer than 20 designable" if n < 20 else "usual size")


def driver(c):
    import jax.numpy as jnp
    optimize = module(c).optimize
    prob, cent, h = top_problem(c)
    W, mx, D, rmin = bruteforce(cent, h)
    n = len(cent); k = c["cols"]; m = c["m"]
    fn = function(c["seed"], n * k, m, 1.)
    T = (W / W.sum(1)[:, None]).T
    seen, epochs = [], []
    def obj(rho):
        r = np.asarray(rho); seen.append(np.array(r))
        v, g = fn(r.reshape(-1))
        return jnp.array(v[0]), jnp.array(g[0].reshape(r.shape))
    def con(rho, epoch):
        r = np.asarray(rho)
        close(r, seen[-1], "constraint and objective get different densities", atol=1e-12)
        epochs.append(int(epoch))
        v, g = fn(r.reshape(-1))
        return jnp.array(v[1:]), jnp.array(g[1:].reshape((m,) + r.shape))
    rng = np.random.default_rng([c["seed"], 115])
    rho0 = rng.uniform(size=(n, k)) if c["rho"] == "rand" else np.full((n, k), .4)
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        if c["app"]:
            out = np.asarray(optimize(prob, jnp.array(rho0), {"maxIters": c["iters"], "minIters": c["iters"], "relTol": .05}, obj, con, numConstraints=m, movelimit=c["move"])[0])
        else:
            out = np.asarray(optimize(prob, jnp.array(rho0), {"maxIters": c["iters"], "movelimit": c["move"]}, obj, con, m))
    expect(out.shape == (n, k), "shape of the result", got=out.shape)
    expect(len(seen) == c["iters"] and epochs == list(range(1, c["iters"] + 1)), "objective/constraint evaluated once per iteration, numbered from 1", calls=len(seen), epochs=epochs)
    close(seen[0], rho0, "first evaluation is not at the initial design", atol=1e-12)
    seen.append(out)
    ref = RefMMA(np.zeros(n * k), np.ones(n * k), c["move"], 1., np.zeros(m), np.full(m, 10000.), np.zeros(m))
    for i in range(c["iters"]):
        x = seen[i].reshape(-1)
        v, g = fn(x)
        pre = np.where(seen[i] < 1e-3, seen[i] / 1e-3, 1.)
        fg = np.stack([(T @ (pre * gg.reshape(n, k))).reshape(-1) for gg in g])
        ref.build(x, v[0], fg[0], v[1:], fg[1:])
        p0, q0, P, Q, b, al, be, L, U = ref.sub
        xn = seen[i + 1].reshape(-1)
        expect(np.all(xn >= -1e-9) and np.all(xn <= 1 + 1e-9), f"iteration {i + 1}: density outside [0, 1]", lo=xn.min(), hi=xn.max())
        expect(np.all(np.abs(xn - x) <= c["move"] + 1e-9), f"iteration {i + 1}: move limit violated", by=np.max(np.abs(xn - x)))
        expect(np.all(xn >= al - 1e-9) and np.all(xn <= be + 1e-9), f"iteration {i + 1}: outside the asymptote box of this history")
        # optimality without multipliers: best dual bound found from the residual structure
        gx = ref.g(xn)
        lam = best_lambda(ref, xn)
        D, _ = ref.dual(lam)
        y = np.maximum(gx, 0)
        f = ref.primal(xn, y, 0.)
        gsc = 1 + np.abs(b) + P @ (1 / (U - xn)) + Q @ (1 / (xn - L))
        scale = 1 + abs(f) + np.abs(lam) @ gsc + np.sum(10000. * y)
        expect(f - D <= 5e-4 * scale, f"iteration {i + 1}: design is not the optimum of the MMA subproblem of the filtered sensitivities", gap=f - D, objective=f)
    return info(c["iters"] >= 2, f"cols={k}", f"m={m}", f"iters={c['iters']}")


def best_lambda(ref, x):
    """maximise the concave dual (few multipliers) by projected coordinate golden-section / scipy"""
    from scipy.optimize import minimize
    m = len(ref.c)
    best = None
    for s in (0., .1, 1., 10.):
        r = minimize(lambda l: -ref.dual(l)[0], np.full(m, s), jac=lambda l: -ref.g(ref.dual(l)[1]), bounds=[(0, 10000.)] * m, method="L-BFGS-B", options=dict(maxiter=500, ftol=1e-15, gtol=1e-12))
        if best is None or r.fun < best.fun:
            best = r
    return best.x


@st.composite
def tops(draw, driver=False):
    et = draw(st.sampled_from(["HEX8", "QUAD4", "HEX8", "QUAD4", "TET4", "TRI3", "QUAD8"]))
    N = {"HEX8": [[3, 3, 3], [5, 3, 2], [7, 4, 1], [4, 4, 3], [26, 1, 1], [2, 2, 1], [1, 1, 1], [2, 6, 6], [2, 6, 6]], "QUAD4": [[6, 6], [25, 1], [7, 4], [5, 5], [2, 2], [3, 1]], "QUAD8": [[6, 5], [2, 1]], "TET4": [[2, 2, 2], [3, 2, 1], [3, 3, 3], [1, 1, 1]], "TRI3": [[5, 4], [6, 3], [1, 2]]}[et]
    m = dict(et=et, N=draw(st.sampled_from(N)), geom=draw(st.sampled_from(["box", "affine", "jitter"])), seed=draw(strat.seeds), amp=1., perm=draw(st.booleans()))
    m["L"] = [float(k) * draw(st.sampled_from([1., 1., 1., .3, 4.])) for k in m["N"]]
    if m["N"] == [2, 6, 6]:
        m["L"] = [16., 6., 6.]; m["geom"] = draw(st.sampled_from(["box", "affine", "jitter"]))
    s = draw(st.sampled_from([1., .1, 3.]))
    m["L"] = [l * s for l in m["L"]]
    return dict(app=draw(st.sampled_from([False, False, False, True])), mesh=m, seed=draw(strat.seeds), allflex=draw(st.booleans()), shuffle=draw(st.booleans()), cols=draw(st.integers(1, 2)), m=draw(st.integers(1, 2)),
                rho=draw(st.sampled_from(["rand", "mix"])), iters=draw(st.integers(1, 5)), move=draw(st.sampled_from([.2, .1, .5])))


FACETS = [
    Facet("steps", step_cases(), steps, quick=1600, thorough=20000),
    Facet("filter", tops(), filt, quick=96, thorough=2000),
    Facet("driver", tops(), driver, quick=80, thorough=1500),
]
