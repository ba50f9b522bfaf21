import os, shutil, tempfile
from types import SimpleNamespace
import numpy as np
from hypothesis import strategies as st
from vp import Facet, Violation, info, expect, close, fail
import femlib

PROPERTY = "C18"
LEVEL = "exploration"
RULE = "Hypothesis draws grids, order-parameter fields (random, one-hot polycrystals, single grain, molten), temperatures across the liquidus and above the cap, orientations, anisotropy strengths and parameters; oracle: an independent numpy model of the right-hand side, directional derivatives of an independently written free energy, energy decrease, relabelling / mirror / crystal-symmetry relations, reference Runge-Kutta and Euler with order conditions; non-trivial if at least two orientations are present and the field is not uniform"
ASSUMPTIONS = ["temperatures not within 1e-6 relative of the liquidus except exactly on it"]


def grads(e, h):
    """forward differences across interior faces per axis: arrays e is (Nz,Ny,Nx,k)"""
    return [np.diff(e, axis=2) / h[0], np.diff(e, axis=1) / h[1], np.diff(e, axis=0) / h[2]]


def energy(eta, z, a, shape, h):
    """sum over cells of bulk/ad_hoc + ad_hoc*kappa/2 |grad|^2"""
    e2 = eta**2
    s = e2.sum(1)
    bulk = (eta**4 / 4 - e2 / 2).sum() + (s**2 - (eta**4).sum(1)).sum() + ((1 - z)**2 * s).sum()
    e = eta.reshape(shape + (-1,))
    return a["m_g"] * bulk / a["ad_hoc"] + a["ad_hoc"] * a["kappa_g"] / 2 * sum((g**2).sum() for g in grads(e, h))


def zeta(T, a):
    T = np.minimum(T.reshape(-1), 2000.)
    return np.where(T > a["T_liquidus"], 0., np.where(T < a["T_liquidus"], 1., .5))


def mobility(T, a):
    return a["L0"] * np.exp(-a["Qg"] / (np.minimum(T.reshape(-1), 2000.) * a["gas_const"]))


def aniso(e, dirs, s, h):
    """1 + s*(cos^4+sin^4) of the angle between the interface direction and the nearest crystal axis; also the local slack at ties"""
    p = np.pad(e, ((1, 1), (1, 1), (1, 1), (0, 0)), "edge")
    d = np.stack(((p[1:-1, 1:-1, 2:] - p[1:-1, 1:-1, :-2]) / h[0], (p[1:-1, 2:, 1:-1] - p[1:-1, :-2, 1:-1]) / h[1], (p[2:, 1:-1, 1:-1] - p[:-2, 1:-1, 1:-1]) / h[2]), -1) * h[0]
    n = np.linalg.norm(d, axis=-1)
    with np.errstate(all="ignore"):
        c = np.abs(np.einsum("zyxkj,akj->zyxka", d, dirs)) / n[..., None]
    c = np.where(np.isfinite(c), np.minimum(c, 1.), 1.).max(-1)      # nearest axis = largest |cos|
    return 1 + s * (c**4 + (1 - c * c)**2)


def rhs(eta, T, a, shape, h, dirs):
    z = zeta(T, a)
    s = (eta**2).sum(1, keepdims=True)
    g = a["m_g"] * (eta**3 - eta + 4 * eta * (s - eta**2) + 2 * ((1 - z)**2)[:, None] * eta) / a["ad_hoc"]
    e = eta.reshape(shape + (-1,))
    lap = 0
    for ax, hh in ((2, h[0]), (1, h[1]), (0, h[2])):
        f = np.diff(e, axis=ax) / hh
        w = [(0, 0)] * 4; w[ax] = (1, 1)
        lap = lap + np.diff(np.pad(f, w), axis=ax) / hh
    if a["anisotropy"] > 0:
        lap = lap * aniso(e, dirs, a["anisotropy"], h)
    return -mobility(T, a)[:, None] * (g - a["kappa_g"] * a["ad_hoc"] * lap.reshape(eta.shape)), np.abs(g).max() + a["kappa_g"] * a["ad_hoc"] * (1 + 2 * a["anisotropy"]) * np.abs(eta).max() * 4 * sum(1 / x**2 for x in h)


def setup(c):
    rng = np.random.default_rng(c["seed"])
    N = c["N"]; k = c["k"]
    shape = (N[2], N[1], N[0]); n = int(np.prod(N))
    h = [c["h"] * f for f in c["asp"]]
    a = dict(dim=3, num_oris=k, Nx=N[0], Ny=N[1], Nz=N[2], T_liquidus=1623., T_ambient=300., gas_const=8.3, Qg=c["Qg"], L0=c["L0"], kappa_g=c["kappa"], m_g=c["mg"], anisotropy=c["aniso"], ad_hoc=c["ad"])
    if c["eta"] == "random": eta = rng.uniform(-.2, 1.2, (n, k))
    elif c["eta"] == "onehot": eta = np.eye(k)[rng.integers(0, k, n)]
    elif c["eta"] == "slab":
        x = np.arange(n).reshape(shape)
        lab = (np.indices(shape)[c["seed"] % 3] * k // max(shape)) % k
        eta = np.eye(k)[lab.reshape(-1)]
    elif c["eta"] == "single": eta = np.eye(k)[np.full(n, c["seed"] % k)]
    elif c["eta"] == "molten": eta = np.zeros((n, k))
    else: eta = np.clip(np.eye(k)[rng.integers(0, k, n)] + .05 * rng.standard_normal((n, k)), 0, 1)
    T = {"cold": np.full((n, 1), 900.), "hot": np.full((n, 1), 1700.), "mix": rng.uniform(1400, 1850, (n, 1)), "cap": rng.uniform(1500, 3500, (n, 1)), "exact": np.where(rng.random((n, 1)) < .5, 1623., 1200.)}[c["T"]]
    q = rng.standard_normal((k, 4)); q /= np.linalg.norm(q, axis=1, keepdims=True)
    from scipy.spatial.transform import Rotation
    r = Rotation.from_quat(q)
    dirs = np.stack([r.apply(v) for v in np.eye(3)])
    if c["axisal"]: dirs[:, 0] = np.eye(3)
    return rng, a, shape, h, eta, T, dirs


def flow(c):
    import jax.numpy as J
    from jax_am.phase_field.allen_cahn import phase_field
    femlib.tick()
    rng, a, shape, h, eta, T, dirs = setup(c)
    n, k = eta.shape
    N = c["N"]
    def F(dd=None, hh=None, aa=None):
        f = phase_field(SimpleNamespace(mesh_h_xyz=tuple(h if hh is None else hh), unique_grain_directions=J.asarray(dirs if dd is None else dd)), dict(a if aa is None else aa))
        return lambda e, t: np.asarray(f(J.asarray(e), 0., [J.asarray(t)]))
    f = F()
    got = f(eta, T)
    want, sc = rhs(eta, T, a, shape, h, dirs)
    sc = sc * mobility(T, a).max()
    tol = 1e-10 * sc if a["anisotropy"] <= 0 else 1e-6 * sc     # arccos near 1 loses half the digits
    close(got, want, "right-hand side of the phase field", atol=tol, rtol=0)
    z, mob = zeta(T, a), mobility(T, a)
    if a["anisotropy"] <= 0:
        for _ in range(2):      # variational derivative by the exact quartic polynomial along a direction
            v = rng.standard_normal((n, k))
            xs = np.array([-2, -1, 1, 2.]) * .1
            Es = [energy(eta + x * v, z, a, shape, h) for x in xs]
            dE = (Es[0] - 8 * Es[1] + 8 * Es[2] - Es[3]) / (12 * .1)
            s = (np.abs(got / mob[:, None] * v)).sum() + sum(np.abs(Es)) * 1e-3
            close((-got / mob[:, None] * v).sum(), dE, "right-hand side = -mobility x derivative of the free energy", atol=1e-9 * s * 10, rtol=1e-8)
        # energy decreases for a stable explicit step
        A = max(1.5, np.abs(eta).max())
        lip = mob.max() * (a["m_g"] / a["ad_hoc"] * (3 * A * A + 1 + 4 * k * A * A * 3 + 2) + a["ad_hoc"] * a["kappa_g"] * 4 * sum(1 / x**2 for x in h))
        e0 = energy(eta, z, a, shape, h)
        e1 = energy(eta + .5 / lip * got, z, a, shape, h)
        expect(e1 <= e0 + 1e-12 * (abs(e0) + a["m_g"] / a["ad_hoc"] * n), "a stable step never increases the free energy", before=float(e0), after=float(e1))
    # relabelling the orientations
    p = rng.permutation(k)
    close(F(dirs[:, p])(eta[:, p], T), got[:, p], "relabelling orientations", atol=tol, rtol=0)
    # mirror one axis of the domain
    ax = c["seed"] % 3
    m = lambda u: np.flip(u.reshape(shape + (-1,)), axis=2 - ax).reshape(n, -1)
    dm = dirs.copy(); dm[..., ax] *= -1
    close(F(dm)(m(eta), m(T)), m(got), "mirroring the domain", atol=tol, rtol=0)
    if a["anisotropy"] > 0:
        # an equivalent description of the same cubic crystals
        i = rng.permutation(3)
        close(F(dirs[i] * rng.choice([-1., 1.], 3)[:, None, None])(eta, T), got, "crystal symmetry", atol=tol, rtol=0)
    if c["eta"] == "single" and c["T"] == "cold":
        expect(np.abs(got).max() <= 1e-12 * sc, "a uniform solid grain is in equilibrium")
    if c["eta"] == "molten":
        expect(not np.any(got), "a molten region stays molten without nuclei")
    if c["T"] == "hot" and c["eta"] != "molten":
        e2 = float((eta * got).sum())
        if np.all(eta >= 0) and c["eta"] in ("single",):
            expect(e2 < 0, "grains melt above the liquidus")
    return info(k > 1 and c["eta"] not in ("single", "molten"), c["eta"], c["T"], "anisotropic" if c["aniso"] > 0 else "isotropic")


def solver(c):
    """PFSolver: consecutive steps equal forward Euler of the reference; forcing of the liquid."""
    import jax.numpy as J
    from jax_am.phase_field.allen_cahn import PFSolver, get_force_eta_fn
    femlib.tick()
    rng, a, shape, h, eta, T, dirs = setup(c)
    n, k = eta.shape
    tmp = tempfile.mkdtemp()
    try:
        a["data_dir"] = tmp
        lab = rng.integers(0, k, n)
        pc = SimpleNamespace(mesh_h_xyz=tuple(h), unique_grain_directions=J.asarray(dirs), centroids=np.zeros((n, 3)), cell_ori_inds=lab)
        S = PFSolver(a, pc)
        y = np.asarray(S.ini_cond())
        expect(np.array_equal(y, np.eye(k)[lab]), "initial order parameters are one-hot in the cell's orientation")
        if c["eta"] not in ("onehot",): y = eta
        t = c["t0"]
        _, sc = rhs(y, T, a, shape, h, dirs)
        dt = .3 / (sc * mobility(T, a).max() + 1e-300)
        state = (J.asarray(y), t)
        for s in range(4):
            dts = dt * rng.uniform(.5, 1.)
            T = T + rng.uniform(-30, 30, T.shape)
            r, sc = rhs(y, T, a, shape, h, dirs)
            state, sol = S.stepper(state, t + dts, [J.asarray(T)])
            want = y + (t + dts - t) * r
            tol = (1e-10 if a["anisotropy"] <= 0 else 1e-6) * (np.abs(y).max() + dts * sc * mobility(T, a).max()) + 1e-9 * abs(t) / dts * 1e-6
            close(state[0], want, "state after a step (forward Euler)", atol=tol, rtol=0)
            close(sol, np.asarray(state[0]), "solution returned by the step", rtol=0)
            expect(abs(float(state[1]) - (t + dts)) <= 1e-14 * abs(t + dts), "time returned by the step")
            y, t = np.asarray(state[0]), t + dts
        f = get_force_eta_fn(a)
        e, tt = f((J.asarray(y), t), J.asarray(T))
        close(e, np.where(T > a["T_liquidus"] + 1, 0., y), "order parameters forced to zero in the liquid", rtol=0)
        close(tt, t, "time")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return info(k > 1, c["eta"])


# -- time integrators on arbitrary systems
def integ(c):
    import jax.numpy as J
    from jax_am.phase_field.allen_cahn import rk4, explicit_euler
    rng = np.random.default_rng(c["seed"])
    n = c["n"]
    A = rng.standard_normal((n, n)); w = rng.standard_normal(n)
    kind = c["kind"]
    def fx(xp, y, t, p):
        p, = p
        if kind == "linear": return xp.asarray(A) @ y
        if kind == "poly": return xp.asarray(w) * (1 + t + c["d2"] * t**2 + c["d3"] * t**3) + 0 * y
        if kind == "nonlin": return xp.sin(xp.asarray(A) @ y * p + t) - y * t
        return p * y * (1 - y) + xp.cos(t) * xp.asarray(w)
    p = [c["p"]]
    y0 = rng.standard_normal(n); t0 = c["t0"]; H = c["h"]
    f = lambda y, t, q: fx(J, y, t, q)
    out = {}
    for nm, method in (("rk4", rk4), ("euler", explicit_euler)):
        st_ = (J.asarray(y0), t0); y, t = y0, t0
        for i in range(c["steps"]):
            hh = H * (1 + .5 * i)
            st_, yy = method(st_, t + hh, f, [J.asarray(p[0])])
            g = lambda y, t: fx(np, y, t, p)
            e = t + hh - t
            if nm == "euler": y1 = y + e * g(y, t)
            else:
                k1 = g(y, t); k2 = g(y + e / 2 * k1, t + e / 2); k3 = g(y + e / 2 * k2, t + e / 2); k4 = g(y + e * k3, t + e)
                y1 = y + e / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
            if not np.all(np.abs(y1) < 1e3):        # the solution runs away: nothing to compare
                break
            close(st_[0], y1, f"{nm} step", rtol=1e-11); close(yy, y1, f"{nm} step output", rtol=1e-11)
            expect(abs(float(st_[1]) - (t + hh)) < 1e-14 * (1 + abs(t + hh)), f"{nm}: time of the new state")
            if nm == "rk4" and kind == "linear":
                E = sum(np.linalg.matrix_power(A * e, j) / np.prod(np.arange(1, j + 1)) for j in range(5))
                close(y1, E @ y, "fourth order on linear systems", rtol=1e-10)
            if nm == "rk4" and kind == "poly":
                I = lambda s: s + s**2 / 2 + c["d2"] * s**3 / 3 + c["d3"] * s**4 / 4
                close(np.asarray(st_[0]) - np.asarray(y), w * (I(t + hh) - I(t)), "fourth order in time", atol=1e-10 * (1 + np.abs(y).max()), rtol=1e-9)
            y, t = np.asarray(st_[0]), t + hh
    return info(n > 1, kind)


@st.composite
def cases(draw, quick_shapes=True):
    N = draw(st.sampled_from([(3, 4, 2), (2, 2, 2), (5, 1, 3), (4, 3, 3), (1, 1, 4)]))
    return dict(N=list(N), k=draw(st.sampled_from([3, 1, 2, 5])), h=draw(st.sampled_from([1e-3, 1., .02])), asp=[1., draw(st.sampled_from([1., .5])), draw(st.sampled_from([1., 2.]))], Qg=draw(st.sampled_from([1.4e5, 0., 1e4])), L0=draw(st.sampled_from([1., 3.5e12])), kappa=draw(st.sampled_from([1., 2.77e-9])),
                mg=draw(st.sampled_from([1., 1e-2])), aniso=draw(st.sampled_from([0., .15, 1., .001])), ad=draw(st.sampled_from([1., 1600.])), eta=draw(st.sampled_from(["random", "onehot", "slab", "smooth", "single", "molten"])), T=draw(st.sampled_from(["mix", "cold", "hot", "cap", "exact"])), axisal=draw(st.booleans()), seed=draw(st.integers(0, 10**6)), t0=draw(st.sampled_from([0., 1e-3])))


ic = st.fixed_dictionaries({"n": st.integers(1, 4), "kind": st.sampled_from(["linear", "poly", "nonlin", "logistic"]), "d2": st.sampled_from([0., 3.]), "d3": st.sampled_from([0., 4.]), "p": st.sampled_from([1., .3, 2.]), "t0": st.sampled_from([0., 1.5, .2]), "h": st.sampled_from([.1, .01, .3]), "steps": st.integers(1, 3), "seed": st.integers(0, 10**6)})
FACETS = [Facet("flow", cases(), flow, quick=240, thorough=4000), Facet("solver", cases(), solver, quick=96, thorough=1500), Facet("integrators", ic, integ, quick=160, thorough=3000)]
