import io, contextlib
import numpy as np
from hypothesis import strategies as st
from vp import Facet, Violation, info, expect, close, fail
import strat, femgen as G

PROPERTY = "C24"
LEVEL = "exploration"
RULE = "Hypothesis draws meshes, material-interpolation cases, densities, designable subsets, loads and displacement fields; oracle: 3-D Hooke's law with independently written interpolation, independent surface and volume integrals, and the closed-form compliance sensitivity of a dense reference solution; non-trivial if densities vary between cells"
ASSUMPTIONS = ["sensitivities: densities between 0.2 and 1, so that the linear solvers reach their tolerance", "reported von Mises stress: three-dimensional cases (the plane cases report a relaxed stress measure without a stated definition)"]

NU = .3
CASES = {"freecad": 3, "box": 3, "multi_material": 3, "plate": 2, "L_shape": 2, "eigen": 2}


def young(case, th):
    """modulus of a point, th (..., k)"""
    if case == "freecad":
        return 70. + (70e3 - 70.) * th[..., 0] ** 3
    if case == "box":
        return 70. + (70e9 - 70.) * th[..., 0] ** 3
    if case == "multi_material":
        mix = th[..., 1] ** 3
        return 70. + th[..., 0] ** 3 * (mix * 70e3 + (1 - mix) * .2 * 70e3)
    p = 5. if case == "eigen" else 3.
    return 70e6 + (70e9 - 70e6) * th[..., 0] ** p


def hooke3(eps):
    """unit modulus, three dimensions, by inverting the compliance law"""
    S = np.zeros((6, 6)); S[:3, :3] = -NU; np.fill_diagonal(S[:3, :3], 1.); S[[3, 4, 5], [3, 4, 5]] = 2 * (1 + NU)
    C = np.linalg.inv(S)
    v = np.stack([eps[..., 0, 0], eps[..., 1, 1], eps[..., 2, 2], 2 * eps[..., 1, 2], 2 * eps[..., 0, 2], 2 * eps[..., 0, 1]], -1) @ C.T
    return np.stack([np.stack([v[..., 0], v[..., 5], v[..., 4]], -1), np.stack([v[..., 5], v[..., 1], v[..., 3]], -1), np.stack([v[..., 4], v[..., 3], v[..., 2]], -1)], -2)


def hooke(d, H):
    """unit-modulus stress of a displacement gradient; plane stress in 2-D: the out-of-plane strain makes sigma_33 vanish"""
    e = .5 * (H + np.swapaxes(H, -1, -2))
    E = np.zeros(H.shape[:-2] + (3, 3)); E[..., :d, :d] = e
    if d == 2:
        E[..., 2, 2] = -NU / (1 - NU) * (e[..., 0, 0] + e[..., 1, 1])
    s = hooke3(E)
    if d == 2:
        assert np.max(np.abs(s[..., 2, 2])) < 1e-9 * (1 + np.max(np.abs(s)))
    return s[..., :d, :d]


def problem(c, F, jnp):
    from applications.fem.top_opt.fem_model import Elasticity
    m = c["mesh"]; et = m["et"]; d = G.DIM[et]
    X, cells = G.build(m)
    rng = np.random.default_rng([c["seed"], 241])
    taper = bool(c.get("taper")) and et in ("HEX8", "QUAD4")        # cells of unequal integration weights, still with flat faces
    if taper:
        y = X[:, 1] - X[:, 1].min()
        X = X.copy(); X[:, 0] *= 1 + .8 * y / max(y.max(), 1e-300)
    T0, T1 = rng.normal(size=d) * c["load"], rng.normal(size=(d, d)) * c["load"] * (et in ("HEX8", "QUAD4") and not taper)      # within the exactness of the face rule
    trac = lambda x: jnp.array(T0) + jnp.array(T1) @ x
    fnN, mN = F.predicate(dict(c["npred"]), X, cells, et)
    if not F.expected_faces(et, cells, mN):
        fnN, mN = F.predicate({"kind": "facet", "seed": c["seed"]}, X, cells, et)
    more = []
    if c.get("two"):
        fn2, m2 = F.predicate({"kind": "facet", "seed": c["seed"] + 5}, X, cells, et)
        if F.expected_faces(et, cells, m2):
            T2 = rng.normal(size=d) * c["load"]
            more = [(fn2, (m2, T2), lambda x: jnp.array(T2) + 0. * x)]
    dinfo = None; con = np.zeros(len(X), bool)
    if c.get("solve"):
        fnD, con = F.predicate({"kind": "facet", "seed": c["seed"] + 1}, X, cells, et)
        dinfo = [[fnD] * d, list(range(d)), [lambda x: 0.] * d]
    prob = F.make(Elasticity, m, X, cells, vec=d, dirichlet_bc_info=dinfo, neumann_bc_info=[[fnN] + [f for f, _, _ in more], [trac] + [g for _, _, g in more]], additional_info=(c["case"],))
    nc = len(cells)
    if c["flex"] < 1:
        k = max(1, int(nc * c["flex"]))
        prob.flex_inds = jnp.array(rng.permutation(nc)[:k])
    flex = np.asarray(prob.flex_inds)
    k = 2 if c["case"] == "multi_material" else 1
    th = rng.uniform(c["lo"], 1., size=(len(flex), k))
    if c["lo"] == 0 and c.get("void"):
        th[rng.random(th.shape) < .3] = 0.
    full = np.ones((nc, k)); full[flex] = th
    return prob, X, cells, (T0, T1, trac, mN, [q for _, q, _ in more]), con, flex, th, full


def surface(X, cells, et, mask, f, F):
    """nodal loads int N f ds over the faces whose nodes satisfy mask"""
    out = np.zeros_like(X)
    fcs = G.face_corner_sets(et)
    for ci, fi in F.expected_faces(et, cells, mask):
        nd = cells[ci]
        pt, T, w = G.face_rule(et, fcs[fi], 4)
        ds = w * np.linalg.norm(G.face_measure(et, X[nd][None], pt, T), axis=-1)[0]
        N = G.shape(et, pt)
        out[nd] += N.T @ (f(N @ X[nd]) * ds[:, None])
    return out


def fields(c):
    import femlib as F, jax, jax.numpy as jnp
    F.tick(20)
    prob, X, cells, (T0, T1, trac, mN, more), _, flex, th, full = problem(c, F, jnp)
    et = c["mesh"]["et"]; d = G.DIM[et]
    rng = np.random.default_rng([c["seed"], 242])
    prob.set_params(jnp.array(th))
    close(np.asarray(prob.full_params), full, "design densities are not placed in the designable cells (others full material)", atol=1e-12)
    sol = rng.normal(size=X.shape) * c["amp"]
    # stress law at every integration point, with the densities in force
    xi, xq = F.quad_ref(prob, c["mesh"], X, cells)
    Jm = G.jac(et, X[cells], xi)
    gr = np.einsum('qnj,cqji->cqni', G.dshape(et, xi), np.linalg.inv(Jm))
    H = np.einsum('cqni,cnv->cqvi', gr, sol[cells])
    E = young(c["case"], full)
    want = E[:, None, None, None] * hooke(d, H)
    iv = prob.internal_vars["laplace"]
    got = np.asarray(jax.vmap(jax.vmap(prob.get_tensor_map()))(jnp.array(H), *[jnp.asarray(a) for a in iv]))
    sc = np.max(np.abs(want))
    close(got, want, f"{c['case']}: stress is not Hooke's law with the interpolated modulus", atol=1e-9 * sc, rtol=1e-8)
    # internal forces
    det = np.linalg.det(Jm)
    JxW = np.asarray(prob.JxW)
    f = surface(X, cells, et, mN, lambda x: T0 + x @ T1.T, F)
    res = -f
    for m2, T2 in more:
        res = res - surface(X, cells, et, m2, lambda x: T2 + 0 * x, F)
    np.add.at(res, cells, np.einsum('cqvi,cqni,cq->cnv', want, gr, JxW))
    close(np.asarray(prob.compute_residual(jnp.array(sol))), res, f"{c['case']}: residual is not internal minus external force", atol=1e-9 * (np.max(np.abs(res)) + sc * np.max(np.abs(gr)) * np.max(JxW)), rtol=1e-8)
    comp = float(prob.compute_compliance(trac, jnp.array(sol)))
    close(comp, np.sum(f * sol), "compliance is not the work of the load on the (first) loaded boundary", atol=1e-9 * np.sum(np.abs(f * sol)), rtol=1e-9)
    if d == 3:
        dev = want - np.trace(want, axis1=-2, axis2=-1)[..., None, None] / 3 * np.eye(3)
        vm = np.sqrt(1.5 * np.sum(dev ** 2, axis=(-1, -2)))
        avg = np.sum(vm * JxW, 1) / JxW.sum(1)
        close(np.asarray(prob.compute_von_mises_stress(jnp.array(sol))), avg, "von Mises stress of a cell is not the volume average", atol=1e-9 * np.max(avg), rtol=1e-8)
    return info(len(th) > 1, c["case"], et, "all designable" if c["flex"] == 1 else "partly designable")


def sensitivity(c):
    import femlib as F, jax, jax.numpy as jnp
    from jax_am.fem.solver import ad_wrapper
    F.tick(6)
    prob, X, cells, (T0, T1, trac, mN, _), con, flex, th, full = problem(c, F, jnp)
    et = c["mesh"]["et"]; d = G.DIM[et]; n = X.size
    f = surface(X, cells, et, mN, lambda x: T0 + x @ T1.T, F).reshape(-1)
    fr = np.repeat(~con, d)
    if not np.max(np.abs(f[fr]), initial=0.) > 1e-6 * np.max(np.abs(f)):
        return info(False, "discarded: load on the support")
    xi, _ = F.quad_ref(prob, c["mesh"], X, cells)
    Jm = G.jac(et, X[cells], xi)
    gr = np.einsum('qnj,cqji->cqni', G.dshape(et, xi), np.linalg.inv(Jm)); W = np.asarray(prob.JxW)
    nn = cells.shape[1]
    Ke = np.zeros((len(cells), nn * d, nn * d))
    for a in range(nn):
        for v in range(d):
            H = np.zeros((len(cells), len(xi), d, d)); H[:, :, v, :] = gr[:, :, a, :]
            s = hooke(d, H)
            Ke[:, a * d + v] = np.einsum('cqvi,cqni,cq->cnv', s, gr, W).reshape(len(cells), -1)
    dofs = (cells[:, :, None] * d + np.arange(d)).reshape(len(cells), -1)
    seen = []
    fwd = ad_wrapper(prob, linear=c["linear"], use_petsc=c["petsc"])
    J = lambda p: prob.compute_compliance(trac, fwd(p))
    for rep in range(2):            # the optimiser calls the same wrapper again with other densities
        full = np.ones_like(full); full[flex] = th
        E = young(c["case"], full)
        K = np.zeros((n, n))
        for e in range(len(cells)):
            K[np.ix_(dofs[e], dofs[e])] += E[e] * Ke[e]
        u = np.zeros(n); u[fr] = np.linalg.solve(K[np.ix_(fr, fr)], f[fr])
        with contextlib.redirect_stdout(io.StringIO()):
            v, g = jax.value_and_grad(J)(jnp.array(th))
        what = f"evaluation {rep + 1} ({c['case']}, petsc={c['petsc']})"
        tol = 2e-3 if c["petsc"] else 1e-5 if c["linear"] else 1e-4
        close(float(v), f @ u, f"{what}: compliance of the solution", rtol=tol, atol=1e-30)
        h = 1e-30
        q = np.einsum('ea,eab,eb->e', u[dofs], Ke, u[dofs])
        dE = np.stack([np.imag(young(c["case"], full.astype(complex) + 1j * h * np.eye(full.shape[1])[k])) / h for k in range(full.shape[1])], -1)
        want = (-q[:, None] * dE)[flex]
        close(np.asarray(g), want, f"{what}: sensitivity of the compliance", atol=tol * 5 * np.max(np.abs(want)), rtol=0)
        th = np.clip(th + .1 * np.random.default_rng([c["seed"], rep, 243]).normal(size=th.shape), c["lo"], 1.)
    return info(len(th) > 1, c["case"], et, "petsc" if c["petsc"] else "jax", "linear" if c["linear"] else "newton")


@st.composite
def cases(draw, solve=False):
    case = draw(st.sampled_from(sorted(CASES)))
    d = CASES[case]
    et = draw(st.sampled_from(["HEX8", "HEX8", "TET4", "TET10", "HEX20"] if d == 3 else ["QUAD4", "QUAD4", "TRI3", "TRI6", "QUAD8"]))
    mc = {"HEX8": 12, "TET4": 24, "QUAD4": 20, "TRI3": 24}.get(et, 6)
    m = draw(strat.meshes(ets=[et], max_cells=mc, geoms=("box", "affine"), drop=False))
    m["L"] = [min(max(x, .5), 2.) for x in m["L"]]
    taper = draw(st.booleans()) and not solve
    if taper:
        m.update(geom="box", affine_too=False)
    pk = draw(st.sampled_from(["facet", "half", "all"])) if not solve else "facet"
    small = case in ("freecad", "multi_material")
    c = dict(case=case, mesh=m, seed=draw(strat.seeds), flex=draw(st.sampled_from([1., .5, .8])), lo=draw(st.sampled_from([0., .3])), load=draw(st.sampled_from([1., 100.])), amp=draw(st.sampled_from([1., 1e-3])),
             taper=taper, two=draw(st.booleans()), void=draw(st.booleans()), npred={"kind": pk, "seed": draw(strat.seeds), "q": .5})
    if solve:
        c.update(solve=True, two=False, lo=.3, load=1. if small else draw(st.sampled_from([1e6, 1e5])), petsc=draw(st.booleans()), linear=True if draw(st.integers(0, 3)) else False)
        if not small:
            c["linear"] = True       # the absolute Newton tolerance is below round-off at moduli of 7e10
    return c


FACETS = [
    Facet("fields", cases(), fields, quick=120, thorough=2500),
    Facet("sensitivity", cases(solve=True), sensitivity, quick=32, thorough=800),
]
