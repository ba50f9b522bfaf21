import os, tempfile, shutil, contextlib, io
import numpy as np
from hypothesis import strategies as st
from vp import Facet, Violation, info, expect, close, fail
import strat, femgen as G

PROPERTY = "C23"
LEVEL = "exploration"
RULE = "Hypothesis draws crystal orientations, deformation paths, time steps and internal states; oracle: the constitutive equations themselves, evaluated independently at the returned state (elastic law of the intermediate configuration, flow rule, hardening rule), plus rotation relations and differences; non-trivial if some slip system slips more than 1e-7"
ASSUMPTIONS = ["the slip-system table (not part of the repository) is supplied by the check: the twelve {111}<110> systems, unnormalised, grouped by plane", "strain increments up to 1e-3 per step of 0.02-0.2 s (the step sizes of the examples)"]

N4 = [(1, 1, 1), (-1, 1, 1), (1, -1, 1), (1, 1, -1)]
SLIP = [n + d for n in N4 for d in [(0, 1, -1), (1, 0, -1), (1, -1, 0), (0, 1, 1), (1, 0, 1), (1, 1, 0)] if np.dot(n, d) == 0]
SLIP = np.array(SLIP, float)
C11, C12, C44, H0, TSAT, GA, A0, XM, G0 = 1.684e5, 1.214e5, .754e5, 541.5, 109.8, 2.5, 1e-3, .1, 60.8
_cache = {}


def rot(q):
    """rotation of a unit quaternion, from the definition v -> q v q*"""
    w, v = q[0], q[1:]
    K = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
    return np.eye(3) + 2 * w * K + 2 * K @ K


def unit(rng, n, special):
    q = rng.normal(size=(n, 4))
    if special:
        q[0] = (1, 0, 0, 0)
        if n > 1:
            q[1] = (1, 1, 0, 0)
    return q / np.linalg.norm(q, axis=1)[:, None]


@contextlib.contextmanager
def table(scale=1.):
    """the model reads its slip systems from a data file next to it"""
    import applications.fem.crystal_plasticity.models as M
    tmp = tempfile.mkdtemp()
    old = M.crt_dir
    try:
        os.makedirs(os.path.join(tmp, "data/csv"))
        np.savetxt(os.path.join(tmp, "data/csv/input_slip_sys.txt"), SLIP * scale)
        M.crt_dir = tmp
        yield M
    finally:
        M.crt_dir = old
        shutil.rmtree(tmp, ignore_errors=True)


def one_cell():
    """a problem object and its compiled point-wise maps, made once per worker"""
    if not _cache:
        import jax, jax.numpy as jnp, femlib as F
        with table() as M:
            X, cells = G.build(dict(et="HEX8", N=[1, 1, 1], L=[1., 1., 1.], geom="box", seed=0, amp=0., perm=False))
            prob = F.make(M.CrystalPlasticity, {"et": "HEX8"}, X, cells, vec=3, additional_info=(np.array([[1., 0, 0, 0]]), np.zeros(1, int)))

        def f(dt, Hg, Fp, g, s, R):
            prob.dt = dt
            a, b = prob.get_maps()
            return a(Hg, Fp, g, s, R), b(Hg, Fp, g, s, R)

        def t(dt, Hg, dH, Fp, g, s, R, dF, dg):
            prob.dt = dt
            a = prob.get_maps()[0]
            return jax.jvp(lambda h, fp, gg: a(h, fp, gg, s, R), (Hg, Fp, g), (dH, dF, dg))[1]
        ax = (None,) + (0,) * 5
        _cache["f"] = jax.jit(jax.vmap(f, in_axes=ax)); _cache["t"] = jax.jit(jax.vmap(t, in_axes=(None,) + (0,) * 8))
        _cache["prob"] = prob
    return _cache


def schmid(R):
    d = SLIP[:, 3:] / np.linalg.norm(SLIP[:, 3:], axis=1)[:, None]
    n = SLIP[:, :3] / np.linalg.norm(SLIP[:, :3], axis=1)[:, None]
    P = np.einsum('ka,kb->kab', d, n)
    return np.einsum('...ia,...jb,kab->...kij', R, R, P)


def elastic(R, E):
    """cubic law evaluated in the crystal frame"""
    e = np.swapaxes(R, -1, -2) @ E @ R
    S = 2 * C44 * e
    i = np.arange(3)
    tr = np.trace(e, axis1=-2, axis2=-1)
    S[..., i, i] = C12 * tr[..., None] + (C11 - C12) * e[..., i, i]
    return R @ S @ np.swapaxes(R, -1, -2)


def hardening(g, dg):
    x = 1 - g / TSAT
    return g + np.sum(H0 * np.abs(dg) * np.abs(x) ** GA * np.sign(x), axis=-1, keepdims=True)


def judge(dt, Hg, old, P, new, what):
    """all arrays (n, ...); old/new = (Fp_inv, g, slip, R)"""
    F = Hg + np.eye(3)
    Fp0, g0, s0, R = old
    Fp1, g1, s1, R1 = new
    for a in (P, Fp1, g1, s1):
        expect(np.all(np.isfinite(a)), f"{what}: non-finite stress or state")
    expect(np.array_equal(R1, R), f"{what}: the crystal orientation is part of the state and does not change")
    Fe = F @ Fp1
    sig = P @ np.swapaxes(F, -1, -2) / np.linalg.det(F)[:, None, None]
    close(sig, np.swapaxes(sig, -1, -2), f"{what}: Cauchy stress is symmetric", atol=1e-6, rtol=0)
    iFe = np.linalg.inv(Fe)
    S = np.linalg.det(Fe)[:, None, None] * iFe @ sig @ np.swapaxes(iFe, -1, -2)
    want = elastic(R, .5 * (np.swapaxes(Fe, -1, -2) @ Fe - np.eye(3)))
    close(S, want, f"{what}: stress does not follow the cubic elastic law of the elastic deformation", atol=1e-5, rtol=1e-9)
    Z = schmid(R)
    tau = np.einsum('nij,nkij->nk', want, Z)
    dg = A0 * dt * np.abs(tau / g0) ** (1 / XM) * np.sign(tau)
    sc = np.max(np.abs(dg)) + 1e-12
    close(s1 - s0, dg, f"{what}: slip increments do not follow the power-law flow rule", atol=1e-6 * sc + 1e-13, rtol=0)
    close(g1, hardening(g0, dg), f"{what}: slip resistance does not follow the hardening rule", atol=1e-6 * H0 * 12 * sc + 1e-9, rtol=0)
    inc = np.einsum('nk,nkij->nij', s1 - s0, Z)
    close(Fp1, Fp0 @ (np.eye(3) - inc), f"{what}: plastic deformation is not the accumulated slip", atol=1e-6 * sc + 1e-12, rtol=0)
    expect(np.all(tau * (s1 - s0) >= -1e-15), f"{what}: a system slips against its resolved stress")
    return sc


def path(c, n, k, rng):
    """n deformation-gradient histories of k steps"""
    D = rng.normal(size=(n, 3, 3))
    if c["mode"] == "tension":
        D = np.zeros((n, 3, 3)); D[:, 2, 2] = 1; D[:, 0, 0] = D[:, 1, 1] = -.4
    D /= np.linalg.norm(D, axis=(1, 2))[:, None, None]
    amp = c["de"] * rng.uniform(.3, 1, size=(n, 1, 1))
    out = []; H = np.zeros((n, 3, 3))
    for j in range(k):
        s = -1. if c["rev"] and j >= (k + 1) // 2 else 1.
        H = H + s * amp * D * (1 if c["mode"] != "wander" else 1) + (amp * .5 * rng.normal(size=(n, 3, 3)) / 3 if c["mode"] == "wander" else 0)
        out.append(H)
    return out


def points(c):
    import jax.numpy as jnp
    C = one_cell()
    rng = np.random.default_rng([c["seed"], 231])
    n = 12
    R = np.stack([rot(q) for q in unit(rng, n, c["special"])])
    st_ = (np.repeat(np.eye(3)[None], n, 0), np.full((n, 12), G0), np.zeros((n, 12)), R)
    if c["pre"]:            # a worked state: distorted intermediate configuration and uneven resistances on both sides of saturation
        A = np.eye(3) + .05 * rng.normal(size=(n, 3, 3))
        st_ = (A / np.cbrt(np.linalg.det(A))[:, None, None], rng.uniform(50, 120, size=(n, 12)), .01 * rng.normal(size=(n, 12)), R)
    top = 0.
    base = np.linalg.inv(st_[0]) - np.eye(3)        # stress-free start
    for j, Hg in enumerate(path(c, n, c["k"], rng)):
        Hg = (Hg + np.eye(3)) @ (base + np.eye(3)) - np.eye(3)
        P, new = C["f"](c["dt"], jnp.array(Hg), *[jnp.array(a) for a in st_])
        P, new = np.asarray(P), tuple(np.asarray(a) for a in new)
        top = max(top, judge(c["dt"], Hg, st_, P, new, f"step {j + 1}"))
        if j == c["k"] - 1:
            # frame: a rotation after the deformation rotates the stress and leaves the state
            Q = np.stack([rot(q) for q in unit(rng, n, False)])
            P2, new2 = C["f"](c["dt"], jnp.array(Q @ (Hg + np.eye(3)) - np.eye(3)), *[jnp.array(a) for a in st_])
            ts = 1e-5 + 1e-8 * np.max(np.abs(P))
            close(np.asarray(P2), Q @ P, "superposed rotation does not rotate the stress", atol=ts, rtol=0)
            close(np.asarray(new2[2]), new[2], "superposed rotation changes the slip", atol=1e-6 * (np.max(np.abs(new[2] - st_[2])) + 1e-9), rtol=0)
            # tangent against central differences
            dH = rng.normal(size=Hg.shape)
            for wrt in ("deformation", "internal variables"):
              on = float(wrt != "deformation")
              dF, dg = on * rng.normal(size=Hg.shape), on * 100 * rng.normal(size=st_[1].shape)
              dH = (1 - on) * dH
              T = np.asarray(C["t"](c["dt"], jnp.array(Hg), jnp.array(dH), *[jnp.array(a) for a in st_], jnp.array(dF), jnp.array(dg)))
              h = 1e-7
              pm = [np.asarray(C["f"](c["dt"], jnp.array(Hg + q * dH), jnp.array(st_[0] + q * dF), jnp.array(st_[1] + q * dg), *[jnp.array(a) for a in st_[2:]])[0]) for q in (h, -h)]
              close(T, (pm[0] - pm[1]) / (2 * h), f"the derivative of the stress with respect to the {wrt} is not that of the stress update", atol=3e-4 * np.max(np.abs(T)) + 1., rtol=0)
        st_ = new
    return info(top > 1e-7, c["mode"], "worked state" if c["pre"] else "virgin", "reversal" if c["rev"] else "", "slipping" if top > 1e-7 else "elastic")


def body(c):
    """polycrystals: orientation per cell, equilibrium, state update at every integration point, averages"""
    import femlib as F, jax.numpy as jnp
    from jax_am.fem.solver import solver
    F.tick(1)
    m = c["mesh"]; X, cells = G.build(m)
    if c["taper"]:                          # integration weights that differ within a cell
        X = X.copy(); X[:, 0] *= 1 + .6 * X[:, 1]
    rng = np.random.default_rng([c["seed"], 232])
    ng = c["grains"]
    q = unit(rng, ng, False)
    ori = rng.integers(0, ng, size=len(cells))
    lo, hi = X[:, 2].min(), X[:, 2].max()
    tol = 1e-6
    bot = lambda x: jnp.abs(x[2] - lo) < tol
    up = lambda x: jnp.abs(x[2] - hi) < tol
    A = c["de"] * (hi - lo) * np.array([.3, -.2, 1.]) * c["sign"]
    def dinfo(k):
        return [[bot] * 3 + [up] * 3, [0, 1, 2] * 2, [lambda x: 0.] * 3 + [(lambda x, v=v: v) for v in A * k]]
    with table(c["unnorm"]) as M:
        prob = F.make(M.CrystalPlasticity, m, X, cells, vec=3, dirichlet_bc_info=dinfo(0), additional_info=(q, ori))
    prob.dt = c["dt"]
    params = prob.internal_vars["laplace"]
    R = np.stack([rot(a) for a in q])[ori]
    nq = np.asarray(prob.JxW).shape[1]
    nc = len(cells)
    xi, _ = F.quad_ref(prob, m, X, cells)
    J = G.jac(m["et"], X[cells], xi)
    gr = np.einsum('qnj,cqji->cqni', G.dshape(m["et"], xi), np.linalg.inv(J))
    JxW = np.asarray(prob.JxW)
    flat = lambda a: np.asarray(a).reshape((nc * nq,) + np.asarray(a).shape[2:])
    st0 = [flat(a) for a in params]
    close(st0[3], np.repeat(R, nq, 0), "initial state: orientation of the cell's grain", atol=1e-12)
    close(st0[0], np.repeat(np.eye(3)[None], nc * nq, 0), "initial state: no plastic deformation", atol=0)
    close(st0[1], np.full((nc * nq, 12), G0), "initial state: slip resistance", atol=0)
    con = (np.abs(X[:, 2] - lo) < tol) | (np.abs(X[:, 2] - hi) < tol)
    top = 0.; sol = np.zeros_like(X)
    for k in range(1, c["k"] + 1):
        prob.update_Dirichlet_boundary_conditions(dinfo(k))
        prob.set_params(params)
        with contextlib.redirect_stdout(io.StringIO()):
            sol = np.asarray(solver(prob, initial_guess=jnp.array(sol) if k > 1 else None, use_petsc=c["petsc"]))
        close(sol[np.abs(X[:, 2] - hi) < tol], np.repeat((A * k)[None], np.sum(np.abs(X[:, 2] - hi) < tol), 0), f"step {k}: prescribed displacement", atol=1e-9, rtol=0)
        Hg = np.einsum('cqni,cnv->cqvi', gr, sol[cells])
        new = prob.update_int_vars_gp(jnp.array(sol), params)
        avg = np.asarray(prob.compute_avg_stress(jnp.array(sol), params))
        # stress of every point from the returned state (its elastic part is known), then equilibrium and averages
        Fp = np.asarray(new[0]); Fd = Hg + np.eye(3); Fe = Fd @ Fp
        Rq = np.repeat(R[:, None], nq, 1)
        S = elastic(Rq, .5 * (np.swapaxes(Fe, -1, -2) @ Fe - np.eye(3)))
        sig = Fe @ S @ np.swapaxes(Fe, -1, -2) / np.linalg.det(Fe)[..., None, None]
        P = np.linalg.det(Fd)[..., None, None] * sig @ np.swapaxes(np.linalg.inv(Fd), -1, -2)
        top = max(top, judge(c["dt"], flat(Hg), [flat(a) for a in params], flat(P), [flat(a) for a in new], f"step {k}"))
        res = np.zeros_like(X)
        np.add.at(res, cells, np.einsum('cqvi,cqni,cq->cnv', P, gr, JxW))
        expect(np.linalg.norm(res[~con]) < 1e-4, f"step {k}: the crystal is not in equilibrium", residual=np.linalg.norm(res[~con]))
        close(avg, np.einsum('cqij,cq->cij', sig, JxW) / JxW.sum(1)[:, None, None], f"step {k}: cell stress is not the volume average of the Cauchy stress", atol=1e-4, rtol=1e-7)
        params = new
    return info(top > 1e-7, m["et"], f"grains={ng}", f"steps={c['k']}", "petsc" if c["petsc"] else "jax", "free nodes" if (~con).any() else "")


pts = st.fixed_dictionaries({"seed": strat.seeds, "special": st.booleans(), "pre": st.booleans(), "mode": st.sampled_from(["any", "tension", "wander"]), "de": st.sampled_from([5e-4, 1e-3, 1e-4]), "dt": st.sampled_from([.05, .2, .02]), "rev": st.booleans(), "k": st.integers(1, 10)})


@st.composite
def bodies(draw):
    et = draw(st.sampled_from(["HEX8", "TET4", "HEX8"]))
    m = dict(et=et, N=draw(st.sampled_from([[1, 1, 2], [2, 1, 2], [1, 2, 3], [1, 1, 1]])), L=[1., 1., 1.], geom="box", seed=draw(strat.seeds), amp=.5, perm=draw(st.booleans()))
    if et == "TET4":
        m["N"] = [1, 1, 2]
    return dict(mesh=m, seed=draw(strat.seeds), grains=draw(st.integers(1, 3)), de=draw(st.sampled_from([5e-4, 1e-3])), dt=draw(st.sampled_from([.05, .1])), sign=draw(st.sampled_from([1., -1.])), k=draw(st.integers(2, 4)), petsc=draw(st.booleans()), unnorm=draw(st.sampled_from([1., 2.])), taper=draw(st.booleans()))


FACETS = [
    Facet("points", pts, points, quick=240, thorough=6000),
    Facet("body", bodies(), body, quick=6, thorough=200),
]
