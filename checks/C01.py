import numpy as np
from hypothesis import strategies as st
from vp import Facet, info, expect, close, fail
import strat, femgen as G

PROPERTY = "C01"
LEVEL = "exploration"
RULE = "Hypothesis draws element type, grid, extents, affine/jittered/curved geometry, dropped cells, renumbering and fields; a case is non-trivial if the mesh has more than one cell or is not the unit box"
ASSUMPTIONS = ["node ordering of a valid cell is meshio's", "cells have positive orientation and moderate distortion"]

ORDER = {"HEX8": 2, "HEX20": 2, "HEX27": 10, "TET4": 1, "TET10": 2, "QUAD4": 2, "QUAD8": 2, "TRI3": 1, "TRI6": 2}


def setup(m, vec=1):
    import femlib as F
    X, cells = G.build(m)
    prob = F.make(F.FEM, m, X, cells, vec=vec)
    return F, X, cells, prob


def interp(case):
    m = case["mesh"]; et = m["et"]; d = G.DIM[et]; vec = case["vec"]
    F, X, cells, prob = setup(m, vec)
    scale = np.max(np.abs(X))
    xi, xq = F.quad_ref(prob, m, X, cells)
    expect(F.in_ref(et, xi), "an integration point lies outside its element", et=et)
    N = G.shape(et, xi)
    close(xq, np.einsum('qn,cnd->cqd', N, X[cells]), "positions of the integration points", rtol=1e-9)
    rng = np.random.default_rng([case["seed"], 1])
    sol = rng.normal(size=(len(X), vec)) * 10. ** case["mag"]
    import jax.numpy as jnp
    close(prob.convert_from_dof_to_quad(jnp.array(sol)), np.einsum('qn,cnv->cqv', N, sol[cells]), "interpolated values at integration points", rtol=1e-9)
    J = G.jac(et, X[cells], xi)
    g = np.einsum('qnj,cqji->cqni', G.dshape(et, xi), np.linalg.inv(J))
    expg = np.einsum('cqni,cnv->cqvi', g, sol[cells])
    close(prob.sol_to_grad(jnp.array(sol)), expg, "physical gradients at integration points", rtol=1e-8)
    # a linear field has that exact value and gradient on every valid mesh
    a, b = rng.normal(size=(vec, d)), rng.normal(size=vec)
    lin = X @ a.T + b
    close(prob.convert_from_dof_to_quad(jnp.array(lin)), xq @ a.T + b, "linear field not reproduced", rtol=1e-9, scale=np.max(np.abs(lin)) + scale)
    gl = np.asarray(prob.sol_to_grad(jnp.array(lin)))
    close(gl, np.broadcast_to(a, gl.shape), "gradient of a linear field", rtol=1e-8)
    if G.is_affine(m) and G.DEG[et] == 2:   # full quadratics
        Q = rng.normal(size=(d, d)); Q = Q + Q.T
        x0 = X.mean(0); Lx = np.max(np.ptp(X, axis=0))
        f = lambda x: np.einsum('...i,ij,...j->...', (x - x0) / Lx, Q, (x - x0) / Lx)[..., None] * np.ones(vec)
        close(prob.convert_from_dof_to_quad(jnp.array(f(X))), f(xq), "quadratic field not reproduced", rtol=1e-8)
        gq = 2 * ((xq - x0) / Lx) @ Q / Lx
        close(prob.sol_to_grad(jnp.array(f(X))), np.repeat(gq[:, :, None, :], vec, 2), "gradient of a quadratic field", rtol=1e-8)
    return info(len(cells) > 1 or m["geom"] != "box", et, m["geom"], "perm" if m["perm"] else "ordered", "affine" if G.is_affine(m) else "distorted")


def quadrature(case):
    m = case["mesh"]; et = m["et"]; d = G.DIM[et]
    F, X, cells, prob = setup(m)
    JxW = np.asarray(prob.JxW)
    xi, xq = F.quad_ref(prob, m, X, cells)
    expect(JxW.shape == xq.shape[:2], "one weight per integration point", got=JxW.shape)
    expect((JxW > 0).all(), "integration weights must be positive", min=JxW.min())
    J = np.linalg.det(G.jac(et, X[cells], xi))
    w = JxW / J
    close(w, np.broadcast_to(w[:1], w.shape), "reference weights differ between cells", rtol=1e-8)
    refvol = {True: {2: .5, 3: 1 / 6.}[d], False: 1.}[et in G.SIMPLEX]
    close(w.sum(1), np.full(len(w), refvol), "reference weights do not sum to the reference volume", rtol=1e-9)
    curved_ok = et == "HEX27"
    if m["geom"] != "curved" or curved_ok or G.DEG[et] == 1:
        close(JxW.sum(), G.true_volume(et, X, cells), "sum of integration weights is not the mesh volume", rtol=1e-9)
    n_poly = 0
    rng = np.random.default_rng([case["seed"], 2])
    p = ORDER[et]
    x0 = X.mean(0); L = np.max(np.ptp(X, axis=0))
    if G.is_affine(m):
        for _ in range(3):
            dirs = rng.normal(size=(p, d)) if p else np.zeros((0, d))
            off = rng.normal(size=p)
            f = lambda x: np.prod([((x - x0) / L) @ dirs[i] + off[i] for i in range(p)], axis=0) if p else np.ones(x.shape[:-1])
            got = np.sum(f(xq) * JxW)
            ref = G.integrate(et, X, cells, f, n=8)
            sc = np.sum(np.abs(f(xq)) * JxW)
            close(got, ref, f"integral of a degree-{p} polynomial", rtol=1e-8, scale=sc)
            n_poly += 1
    else:
        # moment in reference coordinates: degree-p monomials per cell
        for _ in range(3):
            dirs = rng.normal(size=(min(p, 6), d)); off = rng.normal(size=min(p, 6))
            f = lambda s: np.prod([s @ dirs[i] + off[i] for i in range(len(off))], axis=0)
            P, W = G.quad_rule(et, 8)
            close(np.sum(f(xi) * w[0]), np.sum(f(P) * W), "reference rule not exact for its degree", rtol=1e-8, scale=np.sum(np.abs(f(xi)) * w[0]))
    return info(len(cells) > 1 or m["geom"] != "box", et, m["geom"], "perm" if m["perm"] else "ordered")


FACETS = [
    Facet("interpolation", st.fixed_dictionaries({"mesh": strat.meshes(max_cells=24), "vec": st.integers(1, 3), "seed": strat.seeds, "mag": st.integers(-6, 6)}), interp, quick=480, thorough=8000),
    Facet("quadrature", st.fixed_dictionaries({"mesh": strat.meshes(max_cells=24), "seed": strat.seeds}), quadrature, quick=480, thorough=8000),
]
