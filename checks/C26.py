import numpy as np
from hypothesis import strategies as st
from vp import Facet, Violation, info, expect, close, fail
import strat, femgen as G

PROPERTY = "C26"
LEVEL = "exploration"
RULE = "Hypothesis draws symmetric matrices (sizes 1-6; distinct, exactly repeated, nearly repeated, zero and widely scaled eigenvalues; diagonal or rotated) and scalar functions; oracle: matrix polynomials and their product-rule derivatives, matrix exponential and its Frechet derivative, and spectral splits in a known eigenbasis; non-trivial if at least two eigenvalues coincide or nearly coincide"
ASSUMPTIONS = ["functions with a kink are used with eigenvalues away from the kink", "matrices are symmetric, and the functions vary on the scale of the matrix (otherwise eigenvalue differences drown in the round-off of the function)"]


def spectrum(c):
    rng = np.random.default_rng([c["seed"], 261])
    n = c["n"]
    k = c["kind"]
    l = rng.uniform(.3, 2., size=n) * rng.choice([-1., 1.], size=n)
    if k == "equal":
        l[:] = l[0]
    elif k == "pairs":
        for i in range(1, n):
            if rng.random() < .6:
                l[i] = l[rng.integers(0, i)]
    elif k == "near":
        for i in range(1, n):
            if rng.random() < .7:
                l[i] = l[rng.integers(0, i)] * (1 + rng.choice([1., -1.]) * c["gap"])
    elif k == "zero":
        l[:] = 0.
    elif k == "rank1":
        l[1:] = 0.
    return l * c["scale"]


def matrix(c):
    l = spectrum(c)
    n = c["n"]
    if c["rot"] and n > 1:
        R = G.rotation(np.random.default_rng([c["seed"], 262]), n) if n in (2, 3) else np.linalg.qr(np.random.default_rng([c["seed"], 262]).normal(size=(n, n)))[0]
    else:
        R = np.eye(n)[np.random.default_rng([c["seed"], 262]).permutation(n)]
    X = (R * l) @ R.T
    return (X + X.T) / 2, l, R


def run(c):
    import femlib as F, jax, jax.numpy as jnp
    from demos.fem.phase_field_fracture.eigen import get_eigen_f_custom, get_eigen_f_jax
    F.tick(60)
    X, l, R = matrix(c)
    n = c["n"]
    s = max(np.max(np.abs(l)), 1e-300)
    rng = np.random.default_rng([c["seed"], 263])
    V = rng.normal(size=(n, n))
    Vs = (V + V.T) / 2
    fk = c["fn"]
    smooth = True
    if fk == "poly":
        a = rng.normal(size=4) / (s ** np.arange(4)) if s > 1e-200 else rng.normal(size=4)
        fn = lambda x: a[0] + a[1] * x + a[2] * x ** 2 + a[3] * x ** 3
        X2 = X @ X
        want = a[0] * np.eye(n) + a[1] * X + a[2] * X2 + a[3] * X2 @ X
        D = a[1] * Vs + a[2] * (X @ Vs + Vs @ X) + a[3] * (X2 @ Vs + X @ Vs @ X + Vs @ X2)
        fs, ds = np.sum(np.abs(a) * s ** np.arange(4)) if s > 1e-200 else abs(a[0]), max(np.sum(np.abs(a[1:]) * s ** np.arange(3) * np.arange(1, 4)), abs(a[1]))
    elif fk == "exp":
        import scipy.linalg as sl
        b = 1. / s if s > 1e-200 else 1.
        fn = lambda x: jnp.exp(b * x)
        want = sl.expm(b * X)
        D = sl.expm_frechet(b * X, b * Vs, compute_expm=False)
        fs = np.max(np.exp(b * l)); ds = b * fs
    else:                                        # split of the strain energy: plus/minus parts with different stiffness
        if np.min(np.abs(l)) < .1 * s:
            return info(False, "discarded: eigenvalue on the kink")
        g = c["g"]
        fn = lambda x: 3. * (g * .5 * (x + jnp.abs(x)) + .5 * (x - jnp.abs(x)))
        fl = 3. * np.where(l > 0, g * l, l)
        want = (R * fl) @ R.T
        # divided differences, exact for a piecewise linear function
        sl_ = 3. * np.where(l > 0, g, 1.)
        dd = np.where(np.sign(l)[:, None] == np.sign(l)[None, :], sl_[:, None], (fl[:, None] - fl[None, :]) / np.where(l[:, None] == l[None, :], 1., l[:, None] - l[None, :]))
        D = R @ (dd * (R.T @ Vs @ R)) @ R.T
        fs, ds = 3 * max(g, 1.) * s, 3 * max(g, 1.)
    f = get_eigen_f_custom(fn)
    Xj = jnp.array(X)
    y, dy = jax.jvp(f, (Xj,), (jnp.array(V),))
    what = f"{fk}, n={n}, {c['kind']}"
    close(np.asarray(f(Xj)), want, f"{what}: value of the tensor function", atol=1e-11 * fs * n, rtol=0)
    close(np.asarray(y), want, f"{what}: value in the derivative evaluation", atol=1e-11 * fs * n, rtol=0)
    nv = np.linalg.norm(V)
    close(np.asarray(dy), D, f"{what}: directional derivative of the tensor function", atol=1e-6 * ds * nv, rtol=0)
    # full Jacobian in forward and reverse mode, symmetric in the output
    Jf = np.asarray(jax.jacfwd(f)(Xj))
    close(np.einsum('ijkl,kl->ij', Jf, V), D, f"{what}: Jacobian", atol=1e-6 * ds * nv, rtol=0)
    w = rng.normal(size=(n, n)); w = w + w.T
    gr = np.asarray(jax.grad(lambda x: jnp.sum(jnp.array(w) * f(x)))(Xj))
    close(np.sum(gr * V), np.sum(w * D), f"{what}: reverse-mode gradient", atol=1e-6 * ds * nv * np.linalg.norm(w), rtol=0)
    if n > 1 and np.min(np.abs(np.subtract.outer(l, l)[~np.eye(n, dtype=bool)])) > 1e-2 * s:
        y2, dy2 = jax.jvp(get_eigen_f_jax(fn), (Xj,), (jnp.array(Vs),))
        close(np.asarray(y2), want, f"{what}: plain version, value", atol=1e-11 * fs * n, rtol=0)
        close(np.asarray(dy2), D, f"{what}: plain version, derivative (distinct eigenvalues)", atol=1e-6 * ds * nv, rtol=0)
    # batched use inside a traced function, as in an element kernel
    B = jnp.stack([Xj, Xj.T, jnp.array(Vs)])
    yb = np.asarray(jax.jit(jax.vmap(f))(B))
    close(yb[0], want, f"{what}: batched value", atol=1e-11 * fs * n, rtol=0)
    return info(c["kind"] in ("equal", "pairs", "near", "zero", "rank1") and n > 1, fk, c["kind"], f"n={n}")


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["distinct", "pairs", "near", "near", "equal", "zero", "rank1"]))
    fn = draw(st.sampled_from(["poly", "exp", "split"]))
    return dict(n=draw(st.sampled_from([3, 3, 2, 1, 4, 6])), kind=kind, fn=fn, seed=draw(strat.seeds), gap=draw(st.sampled_from([1e-15, 1e-12, 1e-10, 1e-8, 1e-6, 1e-4, 2.3e-16])), rot=draw(st.booleans()),
                scale=draw(st.sampled_from([1., 1e-3, 1e-8, 50.])), g=draw(st.sampled_from([1e-3, .25, 1.001])))


FACETS = [Facet("spectral", cases(), run, quick=240, thorough=8000)]
