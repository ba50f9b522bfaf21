import numpy as np
from hypothesis import strategies as st
from vp import Facet, info, expect, close, fail
import strat, femgen as G, weak

PROPERTY = "C06"
LEVEL = "exploration"
RULE = "Hypothesis draws models, meshes, boundary data and a transformation (node/cell permutation, rigid motion, scaling), or a linear exact field on a distorted mesh, or a field for the error norms; non-trivial if the mesh has free interior unknowns or more than one cell"
ASSUMPTIONS = ["error norms are compared as integrated by the element's own quadrature points (decided by C01)", "hyperelastic patch tests use strains below 15%"]


def near_any(P, tol):
    import jax.numpy as jnp
    Pj = jnp.array(P)
    return lambda x: jnp.any(jnp.all(jnp.abs(Pj - x) < tol, axis=1))


def nodes_of_face(et, fi):
    """all local nodes lying on face fi (incl. mid nodes)"""
    V = G.REFNODES[G.LIN[et]][list(G.face_corner_sets(et)[fi])]
    R = G.REFNODES[et]
    A = V - V[0]
    out = []
    for k, r in enumerate(R):
        if np.linalg.matrix_rank(np.vstack([A, r - V[0]]), tol=1e-9) == np.linalg.matrix_rank(A, tol=1e-9):
            out.append(k)
    return out


def boundary_nodes(et, cells):
    bf, _ = G.boundary_faces(et, cells)
    loc = [nodes_of_face(et, f) for f in range(len(G.face_corner_sets(et)))]
    s = set()
    for c, f in bf:
        s |= {int(cells[c][k]) for k in loc[f]}
    return np.array(sorted(s))


def model(name):
    from jax_am.fem import models
    return getattr(models, name)


def patch(c):
    import femlib as F
    import jax.numpy as jnp
    from jax_am.fem.solver import solver
    F.tick(15)
    m = c["mesh"]; et = m["et"]; d = G.DIM[et]
    name = c["model"] if d == 3 else ("LinearPoisson" if c["model"] == "HyperElasticity" else c["model"])
    vec = d if name != "LinearPoisson" else c["vec"]
    X, cells = G.build(m)
    rng = np.random.default_rng([c["seed"], 81])
    a = rng.normal(size=(vec, d)); a *= (.12 if name == "HyperElasticity" else 1.) / np.linalg.norm(a, 2)
    b = rng.normal(size=vec)
    exact = X @ a.T + b
    bn = boundary_nodes(et, cells)
    tol = 1e-6 * np.min(np.ptp(X, axis=0)) / max(m["N"])
    loc = near_any(X[bn], tol)
    dinfo = [[loc] * vec, list(range(vec)), [(lambda x, k=k: jnp.dot(a[k], x) + b[k]) for k in range(vec)]]
    prob = F.make(model(name), m, X, cells, vec=vec, dirichlet_bc_info=dinfo)
    lin = name != "HyperElasticity" and c["linear"]
    sol = np.asarray(solver(prob, linear=lin, precond=True, use_petsc=c["petsc"]))
    close(sol, exact, "patch test: linear field not reproduced", rtol=1e-4 if (lin and c["petsc"]) else 1e-6, scale=np.max(np.abs(exact)) + 1)
    if name == "LinearPoisson":
        tru = lambda x: jnp.array(a) @ x + jnp.array(b)
        e = float(prob.compute_h1_norm_error(jnp.array(exact), tru))
        expect(e < 1e-7 * (1 + np.max(np.abs(exact))), "H1 error of the exact solution is not zero", err=e)
    return info(len(bn) < len(X), et, name, m["geom"], "free nodes" if len(bn) < len(X) else "no free node")


def elastic(c, X, cells, Q, s, t, et, F, jnp, model_cls, vec):
    """Build the transformed copy of one boundary value problem: x' = s Q x + t, u' = Q u (mechanics)."""
    d = X.shape[1]
    rng = np.random.default_rng([c["seed"], 91])
    mech = vec == d and c["model"] != "LinearPoisson"
    R = Q if mech else np.eye(vec)
    lo, hi = X.min(0), X.max(0)
    tol = 1e-5 * np.max(hi - lo)
    Qi = jnp.array(Q); tj = jnp.array(t)
    back = lambda y: (Qi.T @ (y - tj)) / s
    ax = c["axis"] % d
    locL = lambda y: jnp.abs(back(y)[ax] - lo[ax]) < tol
    locR = lambda y: jnp.abs(back(y)[ax] - hi[ax]) < tol
    ax2 = (ax + 1) % d
    locN = lambda y: jnp.abs(back(y)[ax2] - hi[ax2]) < tol
    k = 70e3 if c["model"] == "LinearElasticity" else 1.
    amp = .3
    A, b0 = rng.normal(size=(vec, d)) * amp, rng.normal(size=vec) * amp
    src, trac = rng.normal(size=(vec, d)) * k * amp, rng.normal(size=vec) * k * amp
    Rj = jnp.array(R)
    uval = lambda y, k_: (Rj @ (jnp.array(A) @ back(y) + jnp.array(b0)))[k_]
    dinfo = [[locL] * vec + [locR] * vec, list(range(vec)) * 2, [(lambda y, k_=k_: uval(y, k_)) for k_ in list(range(vec)) * 2]]
    ninfo = [[locN], [lambda y: Rj @ jnp.array(trac) / s]]
    sinfo = lambda y: Rj @ (jnp.array(src) @ back(y)) / s ** 2
    Y = s * X @ Q.T + t
    return F.make(model_cls, c["mesh"], Y, cells, vec=vec, dirichlet_bc_info=dinfo, neumann_bc_info=ninfo, source_info=sinfo), R


def equivariance(c):
    import femlib as F
    import jax.numpy as jnp
    from jax_am.fem.solver import solver
    F.tick(10)
    m = dict(c["mesh"], perm=False); et = m["et"]; d = G.DIM[et]
    name = c["model"]
    cls = model(name)
    vec = d if name != "LinearPoisson" else c["vec"]
    X, cells = G.build(m)
    I = np.eye(d)
    p0, _ = elastic(c, X, cells, I, 1., np.zeros(d), et, F, jnp, cls, vec)
    sol0 = np.asarray(solver(p0, linear=True, use_petsc=False))
    rng = np.random.default_rng([c["seed"], 92])
    Q, s, t = I, 1., np.zeros(d)
    if "rotate" in c["ops"]:
        Q = G.rotation(rng, d)
    if "scale" in c["ops"]:
        s = float(10 ** rng.uniform(-1.5, 1.5))
    if "translate" in c["ops"]:
        t = rng.uniform(-5, 5, size=d)
    pn = np.arange(len(X)); cells2 = cells; X2 = X
    if "renumber" in c["ops"]:
        pn = rng.permutation(len(X))
        X2 = np.empty_like(X); X2[pn] = X
        cells2 = pn[cells][rng.permutation(len(cells))]
        cells2 = np.array([q[list(G.SYM[et][rng.integers(len(G.SYM[et]))])] for q in cells2])
    p1, R = elastic(c, X2, cells2, Q, s, t, et, F, jnp, cls, vec)
    sol1 = np.asarray(solver(p1, linear=True, use_petsc=False))
    close(sol1[pn], sol0 @ R.T, "solution of the transformed problem is not the transformed solution (" + ",".join(c["ops"]) + ")", rtol=2e-5, scale=np.max(np.abs(sol0)) + 1e-3)
    close(np.sum(np.asarray(p1.JxW)), s ** d * np.sum(np.asarray(p0.JxW)), "volume under the transformation", rtol=1e-9)
    # residual covariance at an arbitrary state (no linear solver involved)
    w = rng.normal(size=sol0.shape) * .1
    r0 = np.asarray(p0.compute_residual(jnp.array(w)))
    w1 = np.empty_like(w); w1[pn] = w @ R.T
    r1 = np.asarray(p1.compute_residual(jnp.array(w1)))
    close(r1[pn], r0 @ R.T * s ** (d - 2), "residual of the transformed problem", rtol=1e-7, scale=max(np.max(np.abs(r0)) * s ** (d - 2), 1e-30))
    if name == "LinearPoisson":
        A, b = rng.normal(size=(vec, d)), rng.normal(size=vec)
        f0 = lambda x: jnp.array(A) @ x + jnp.array(b) * jnp.sin(x[0])
        f1 = lambda y: f0((jnp.array(Q).T @ (y - jnp.array(t))) / s)
        e0 = float(p0.compute_l2_norm_error(jnp.array(sol0), f0)); e1 = float(p1.compute_l2_norm_error(jnp.array(_perm(sol0, pn)), f1))
        close(e1, e0 * s ** (d / 2), "L2 error under the transformation", rtol=1e-6)
    return info(len(c["ops"]) > 0, et, name, *c["ops"])


def units(c):
    """any unit of length: selection, volumes, areas, residual and error norms, without the (absolute) tolerances of the solvers"""
    import femlib as F
    import jax.numpy as jnp
    F.tick(10)
    m = dict(c["mesh"], perm=False); et = m["et"]; d = G.DIM[et]
    cls = model(c["model"])
    vec = d if c["model"] != "LinearPoisson" else c["vec"]
    X, cells = G.build(m)
    rng = np.random.default_rng([c["seed"], 93])
    s = float(10. ** c["exp"]) * rng.uniform(1, 9)
    Q, t = G.rotation(rng, d) if c["rotate"] else np.eye(d), s * rng.uniform(-3, 3, size=d)
    p0, _ = elastic(c, X, cells, np.eye(d), 1., np.zeros(d), et, F, jnp, cls, vec)
    p1, R = elastic(c, X, cells, Q, s, t, et, F, jnp, cls, vec)
    for a, b in zip(p0.node_inds_list, p1.node_inds_list):
        expect(set(np.asarray(a).tolist()) == set(np.asarray(b).tolist()), "other nodes are constrained in another unit of length", unit=s)
    close(np.asarray(p1.JxW), s ** d * np.asarray(p0.JxW), "integration weights in another unit of length", rtol=1e-9, scale=s ** d * np.max(np.asarray(p0.JxW)))
    w = rng.normal(size=(len(X), vec)) * .1
    r0 = np.asarray(p0.compute_residual(jnp.array(w))); r1 = np.asarray(p1.compute_residual(jnp.array(w @ R.T)))
    close(r1, r0 @ R.T * s ** (d - 2), "residual in another unit of length", rtol=1e-7, scale=np.max(np.abs(r0)) * s ** (d - 2))
    if c["model"] == "LinearPoisson":
        A, b = rng.normal(size=(vec, d)), rng.normal(size=vec)
        f0 = lambda x: jnp.array(A) @ x + jnp.array(b) * jnp.sin(x[0])
        f1 = lambda y: f0((jnp.array(Q).T @ (y - jnp.array(t))) / s)
        e0 = float(p0.compute_l2_norm_error(jnp.array(w), f0)); e1 = float(p1.compute_l2_norm_error(jnp.array(w), f1))
        close(e1, e0 * s ** (d / 2), "L2 error in another unit of length", rtol=1e-6)
    return info(abs(c["exp"]) > 1, et, c["model"], f"1e{c['exp']}")


def _perm(a, pn):
    out = np.empty_like(a); out[pn] = a
    return out


def norms(c):
    import femlib as F
    import jax, jax.numpy as jnp
    from jax_am.fem.models import LinearPoisson
    m = c["mesh"]; et = m["et"]; d = G.DIM[et]; vec = c["vec"]
    X, cells = G.build(m)
    prob = F.make(LinearPoisson, m, X, cells, vec=vec)
    rng = np.random.default_rng([c["seed"], 93])
    A, b, w = rng.normal(size=(vec, d)), rng.normal(size=vec), rng.normal(size=d)
    tru = lambda x: jnp.array(A) @ x + jnp.array(b) * jnp.sin(jnp.dot(jnp.array(w), x))
    ntru = lambda x: x @ A.T + b * np.sin(x @ w)[..., None]
    ngrad = lambda x: A + (b[:, None] * w) * np.cos(x @ w)[..., None, None]
    sol = ntru(X) + c["noise"] * rng.normal(size=(len(X), vec))
    xi, xq = F.quad_ref(prob, m, X, cells)
    J = G.jac(et, X[cells], xi); det = np.linalg.det(J)
    W = det * (np.asarray(prob.JxW)[0] / det[0])
    N = G.shape(et, xi)
    g = np.einsum('qnj,cqji->cqni', G.dshape(et, xi), np.linalg.inv(J))
    u = np.einsum('qn,cnv->cqv', N, sol[cells]); gu = np.einsum('cqni,cnv->cqvi', g, sol[cells])
    l2 = np.sqrt(np.sum(np.sum((u - ntru(xq)) ** 2, -1) * W))
    h = np.sqrt(np.sum(np.sum((gu - ngrad(xq)) ** 2, (-1, -2)) * W))
    s = np.sqrt(np.sum(np.sum(u ** 2, -1) * W)) + np.sqrt(np.sum(np.sum(gu ** 2, (-1, -2)) * W))
    close(float(prob.compute_l2_norm_error(jnp.array(sol), tru)), l2, "reported L2 error", rtol=1e-8, scale=s)
    close(float(prob.compute_h1_norm_error(jnp.array(sol), tru)), l2 + h, "reported H1 error", rtol=1e-8, scale=s)
    return info(True, et, m["geom"], f"vec={vec}")


SMALL = {"HEX8": 12, "TET4": 48, "QUAD4": 16, "TRI3": 24, "HEX20": 8, "HEX27": 2, "TET10": 12, "QUAD8": 9, "TRI6": 12}


@st.composite
def patch_mesh(draw):
    et = draw(st.sampled_from(G.ELEMS))
    d = G.DIM[et]
    N = [2] * d if et not in ("HEX27", "TET10", "HEX20") else draw(st.sampled_from([[2, 1, 1], [1, 1, 1], [1, 2, 1]]))
    if d == 2:
        N = [draw(st.integers(2, 4)), draw(st.integers(2, 3))]
    elif et in ("HEX8", "TET4"):
        N = draw(st.sampled_from([[2, 2, 2], [3, 2, 2], [2, 2, 3]]))
    elif et == "HEX20":
        N = [2, 2, 2]
    m = dict(et=et, N=N, L=[1.0] * d, geom=draw(st.sampled_from(["jitter", "box", "affine"] + (["curved"] if et in ("QUAD4", "HEX8", "TRI3", "TET4") else []))), seed=draw(strat.seeds), amp=draw(st.sampled_from([1.0, .5])), perm=draw(st.booleans()), affine_too=draw(st.booleans()), drop=0)
    return m


@st.composite
def eq_mesh(draw):
    et = draw(st.sampled_from(["HEX8", "TET4", "QUAD4", "TRI3", "QUAD8", "TRI6", "HEX20", "TET10"]))
    d = G.DIM[et]
    mc = {"HEX20": 2, "TET10": 6, "QUAD8": 4, "TRI6": 4}.get(et, 8)
    m = draw(strat.meshes(ets=[et], max_cells=mc, geoms=("box",), drop=False, affine_too=False, perm=False))
    m["L"] = [min(max(x, .5), 2.) for x in m["L"]]
    return m


FACETS = [
    Facet("patch", st.fixed_dictionaries({"mesh": patch_mesh(), "model": st.sampled_from(["LinearPoisson", "LinearElasticity", "HyperElasticity"]), "vec": st.integers(1, 2), "seed": strat.seeds, "linear": st.booleans(), "petsc": st.booleans()}), patch, quick=64, thorough=1200),
    Facet("equivariance", st.fixed_dictionaries({"mesh": eq_mesh(), "model": st.sampled_from(["LinearPoisson", "LinearElasticity"]), "vec": st.integers(1, 3), "axis": st.integers(0, 2), "seed": strat.seeds,
                                                 "ops": st.lists(st.sampled_from(["renumber", "rotate", "scale", "translate"]), min_size=1, max_size=3, unique=True)}), equivariance, quick=40, thorough=800),
    Facet("units", st.fixed_dictionaries({"mesh": strat.meshes(max_cells=12), "model": st.sampled_from(["LinearPoisson", "LinearElasticity"]), "vec": st.integers(1, 3), "axis": st.integers(0, 2), "seed": strat.seeds,
                                          "exp": st.integers(-6, 4), "rotate": st.booleans()}), units, quick=64, thorough=1200),
    Facet("norms", st.fixed_dictionaries({"mesh": strat.meshes(max_cells=16), "vec": st.integers(1, 3), "seed": strat.seeds, "noise": st.sampled_from([.1, 0., 1.])}), norms, quick=120, thorough=2000),
]
