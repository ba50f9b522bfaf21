import numpy as np
from hypothesis import strategies as st
from vp import Facet, Violation, info, expect, close, fail
import strat, femgen as G

PROPERTY = "C09"
LEVEL = "exploration"
RULE = "Hypothesis draws displacement gradients (from 1e-9 to large strain), rotations, closed deformation paths, and displacement fields on meshes; oracle: closed-form Hooke / compressible neo-Hookean stress, invariances, complex-step derivative of the total energy; non-trivial if the strain is non-zero"
ASSUMPTIONS = ["HyperElasticity is used in 3D (its energy is the 3D one) with positive volume ratio"]

E_L, NU = 70e3, .3
E_H = 1e3
MU_L, LA_L = E_L / 2 / (1 + NU), E_L * NU / (1 + NU) / (1 - 2 * NU)
MU_H, KA_H = E_H / 2 / (1 + NU), E_H / 3 / (1 - 2 * NU)

_cache = {}


def model(kind, d):
    """A one-cell problem of the model; its point-wise law."""
    if (kind, d) not in _cache:
        import femlib as F, jax
        from jax_am.fem.models import LinearElasticity, HyperElasticity
        m = dict(et="HEX8" if d == 3 else "QUAD4", N=[1] * d, L=[1.] * d, geom="box", seed=0, amp=1., perm=False)
        prob = F.make({"lin": LinearElasticity, "hyp": HyperElasticity}[kind], m, vec=d)
        _cache[kind, d] = jax.jit(prob.get_tensor_map())
    return _cache[kind, d]


def hooke(g):
    e = (g + np.swapaxes(g, -1, -2)) / 2
    return LA_L * np.trace(e, axis1=-2, axis2=-1)[..., None, None] * np.eye(g.shape[-1]) + 2 * MU_L * e


def psi(F):
    J = np.linalg.det(F)
    I1 = np.sum(F * F, axis=(-1, -2))
    return MU_H / 2 * (J ** (-2. / 3) * I1 - 3) + KA_H / 2 * (J - 1) ** 2


def PK(F):
    J = np.linalg.det(F)[..., None, None]
    I1 = np.sum(F * F, axis=(-1, -2))[..., None, None]
    FiT = np.swapaxes(np.linalg.inv(F), -1, -2)
    return MU_H * J ** (-2. / 3) * (F - I1 / 3 * FiT) + KA_H * (J - 1) * J * FiT


def rot(rng, d):
    q, r = np.linalg.qr(rng.normal(size=(d, d)))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


def grads(c, d, n=6):
    """n displacement gradients of the case's kind and size with det F > 0"""
    rng = np.random.default_rng([c["seed"], 91])
    out = []
    while len(out) < n:
        A = rng.normal(size=(d, d)) * c["size"]
        k = c["kind"]
        if k == "sym": A = (A + A.T) / 2
        elif k == "skew": A = (A - A.T) / 2
        elif k == "diag": A = np.diag(np.diag(A))
        elif k == "vol": A = np.eye(d) * A[0, 0]
        elif k == "shear": A = np.outer(np.eye(d)[0], np.eye(d)[1]) * A[0, 1]
        elif k == "rotstretch":
            A = rot(rng, d) @ (np.eye(d) + (A + A.T) / 2) - np.eye(d)
        if np.linalg.det(np.eye(d) + A) > .15:
            out.append(A)
    return np.array(out), rng


def linear(c):
    import jax.numpy as jnp
    d = c["d"]
    g, rng = grads(c, d)
    law = model("lin", d)
    q = rot(rng, d)
    sz = E_L * np.max(np.abs(g)) + 1e-300
    for a in g:
        s = np.asarray(law(jnp.array(a)))
        close(s, hooke(a), "linear-elastic stress is not Hooke's law", atol=1e-12 * sz, rtol=0)
        s2 = np.asarray(law(jnp.array(q @ a @ q.T)))
        close(s2, q @ s @ q.T, "linear-elastic law is not isotropic", atol=1e-11 * sz, rtol=0)
    return info(np.max(np.abs(g)) > 0, c["kind"], f"d={d}")


def hyper(c):
    import jax.numpy as jnp
    g, rng = grads(c, 3)
    law = model("hyp", 3)
    I = np.eye(3)
    P = lambda F: np.asarray(law(jnp.array(F - I)))
    q = rot(rng, 3)
    expect(np.max(np.abs(P(I))) < 1e-10 * E_H, "stress in the reference state", got=P(I))
    expect(np.max(np.abs(P(q))) < 1e-9 * E_H, "a rigid rotation causes stress", got=P(q))
    for a in g:
        F = I + a
        ref = PK(F)
        sz = E_H * (np.max(np.abs(np.linalg.inv(F))) ** 2 + np.max(np.abs(F)) ** 2) * (1 + abs(np.linalg.det(F)) + np.linalg.det(F) ** -1)
        p = P(F)
        close(p, ref, "hyperelastic stress is not the derivative of the documented energy", atol=1e-11 * sz, rtol=0)
        close(P(q @ F), q @ p, "hyperelastic law is not objective", atol=1e-10 * sz, rtol=0)
        close(P(F @ q), p @ q, "hyperelastic law is not isotropic", atol=1e-10 * sz, rtol=0)
        t = p @ F.T
        close(t, t.T, "Kirchhoff stress is not symmetric (angular momentum)", atol=1e-10 * sz, rtol=0)
    # linearisation
    h = 1e-6
    A = g[0] / (np.linalg.norm(g[0]) + 1e-300)
    lin = (P(I + h * A) - P(I - h * A)) / (2 * h)
    e = (A + A.T) / 2
    ref = 2 * MU_H * (e - np.trace(e) / 3 * I) + KA_H * np.trace(e) * I
    close(lin, ref, "linearisation is not isotropic elasticity with the documented moduli", atol=1e-4 * E_H, rtol=0)
    return info(np.max(np.abs(g)) > 0, c["kind"], "size=%g" % c["size"])


def cycle(c):
    """Work over a smooth closed loop in deformation space vanishes (spectral quadrature)."""
    import jax, jax.numpy as jnp
    rng = np.random.default_rng([c["seed"], 93])
    law = jax.vmap(model("hyp", 3))
    I = np.eye(3)
    a = rng.normal(size=(4, 3, 3)) * .07 * c["amp"]
    n = 256
    t = 2 * np.pi * np.arange(n) / n
    g = a[0][None] * np.sin(t)[:, None, None] + a[1] * np.cos(t)[:, None, None] + a[2] * np.sin(2 * t)[:, None, None] + a[3]
    dg = a[0][None] * np.cos(t)[:, None, None] - a[1] * np.sin(t)[:, None, None] + 2 * a[2] * np.cos(2 * t)[:, None, None]
    P = np.asarray(law(jnp.array(g)))
    w = np.sum(P * dg, axis=(1, 2)) * 2 * np.pi / n
    expect(abs(w.sum()) <= 1e-9 * np.sum(np.abs(w)), "work around a closed deformation cycle is not zero", work=w.sum(), gross=np.sum(np.abs(w)))
    return info(True)


def body(c):
    """On a mesh: the residual is the derivative of the total stored energy."""
    import femlib as F, jax.numpy as jnp
    from jax_am.fem.models import LinearElasticity, HyperElasticity
    F.tick(15)
    m = c["mesh"]
    et = m["et"]; d = G.DIM[et]
    X, cells = G.build(m)
    hyp = c["hyper"] and d == 3
    prob = F.make(HyperElasticity if hyp else LinearElasticity, m, X, cells, vec=d)
    xi, _ = F.quad_ref(prob, m, X, cells)
    J = G.jac(et, X[cells], xi); det = np.linalg.det(J)
    W = det * (np.asarray(prob.JxW)[0] / det[0])
    g = np.einsum('qnj,cqji->cqni', G.dshape(et, xi), np.linalg.inv(J))
    rng = np.random.default_rng([c["seed"], 94])
    sz = np.ptp(X, axis=0).max()
    A = rng.normal(size=(d, d)) * .1
    hmin = np.min(np.ptp(X[cells], axis=1))
    u = X @ A.T + rng.normal(size=X.shape) * .03 * hmin
    def energy(u):
        gu = np.einsum('cqni,cnv->cqvi', g, u[cells])
        if hyp:
            return np.sum(W * psi(np.eye(d) + gu))
        e = (gu + np.swapaxes(gu, -1, -2)) / 2
        return np.sum(W * (LA_L / 2 * np.trace(e, axis1=-2, axis2=-1) ** 2 + MU_L * np.sum(e * e, axis=(-1, -2))))
    Fm = np.eye(d) + np.einsum('cqni,cnv->cqvi', g, u[cells])
    if np.min(np.linalg.det(Fm)) < .2:
        return info(False, "discarded: inverted")
    r = np.asarray(prob.compute_residual(jnp.array(u)))
    ref = np.zeros_like(u)
    for i in range(min(len(X), 8)):
        i = int(rng.integers(len(X)))
        for k in range(d):
            z = u.astype(complex); z[i, k] += 1e-30j
            ref = energy(z).imag / 1e-30
            if not abs(r[i, k] - ref) <= 1e-9 * np.max(np.abs(r)) + 1e-9:
                fail("nodal force is not the derivative of the stored energy", node=i, comp=k, got=r[i, k], expected=ref)
    return info(True, et, "hyper" if hyp else "linear")


gr = {"kind": st.sampled_from(["full", "sym", "skew", "diag", "vol", "shear", "rotstretch"]), "size": st.sampled_from([.1, 1e-9, 1e-5, 1e-3, .01, .3, .6, 1.]), "seed": strat.seeds}
FACETS = [
    Facet("linear", st.fixed_dictionaries(dict(gr, d=st.sampled_from([3, 2]))), linear, quick=240, thorough=6000),
    Facet("hyper", st.fixed_dictionaries(gr), hyper, quick=240, thorough=6000),
    Facet("cycle", st.fixed_dictionaries({"seed": strat.seeds, "amp": st.sampled_from([.2, .5, 1.])}), cycle, quick=80, thorough=2000),
    Facet("body", st.fixed_dictionaries({"mesh": strat.meshes(max_cells=8), "hyper": st.booleans(), "seed": strat.seeds}), body, quick=64, thorough=1200),
]
