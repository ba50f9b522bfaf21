"""Independent numpy model of the finite-volume operators and of one AM_3d step (face-flux formulation)."""
import numpy as np


def sl(ax, s, nd):
    i = [slice(None)] * nd
    i[ax] = s
    return tuple(i)


def first(f, ax): return f[sl(ax, slice(0, 1), f.ndim)]
def last(f, ax): return f[sl(ax, slice(-1, None), f.ndim)]


def ghost(f, side, kind, val, h):
    """Ghost-layer values beyond side (0..5): Dirichlet value at the face / derivative along the axis at the face."""
    ax = side // 2
    nb = first(f, ax) if side % 2 == 0 else last(f, ax)
    if kind == 0:
        return 2 * val - nb
    s = -h[ax] if side % 2 == 0 else h[ax]
    if kind == 1:
        return nb + s * val
    if kind == 2:
        g = nb.copy()
        val = np.broadcast_to(val, nb.shape)
        g[..., 0] = nb[..., 0] + s * val[..., 0]
        g[..., 1] = nb[..., 1] + s * val[..., 1]
        g[..., 2] = 2 * val[..., 2] - nb[..., 2]
        return g
    raise ValueError(kind)


ZERO = [[1] * 6, [0.] * 6]


def ext(f, BCs, h, ax, n=1):
    """f with n ghost layers on both sides along ax."""
    lo = ghost(f, 2 * ax, BCs[0][2 * ax], BCs[1][2 * ax], h); hi = ghost(f, 2 * ax + 1, BCs[0][2 * ax + 1], BCs[1][2 * ax + 1], h)
    return np.concatenate([lo] * n + [f] + [hi] * n, axis=ax)


def gradient(f, h, BCs=None):
    BCs = BCs or ZERO
    out = []
    for ax in range(3):
        e = ext(f, BCs, h, ax)
        n = e.shape[ax]
        out.append((e[sl(ax, slice(2, n), 4)] - e[sl(ax, slice(0, n - 2), 4)]) / (2 * h[ax]))
    return np.concatenate(out, axis=-1)


def face_vels(v, h, BCs=None):
    BCs = BCs or ZERO
    out = []
    for ax in range(3):
        e = ext(v, BCs, h, ax)[..., ax:ax + 1]
        n = e.shape[ax]
        out.append(.5 * (e[sl(ax, slice(1, n), 4)] + e[sl(ax, slice(0, n - 1), 4)]))
    return out


def face_comp(f, h, ax, BCs=None):
    e = ext(f, BCs or ZERO, h, ax)
    n = e.shape[ax]
    return .5 * (e[sl(ax, slice(1, n), 4)] + e[sl(ax, slice(0, n - 1), 4)])


def net(fl, ax):
    n = fl.shape[ax]
    return fl[sl(ax, slice(1, n), fl.ndim)] - fl[sl(ax, slice(0, n - 1), fl.ndim)]


def div(f, vf, h, theta=.125, BCs=None):
    BCs = BCs or ZERO
    out = 0.
    for ax in range(3):
        e = ext(f, BCs, h, ax, 2)           # two identical ghost layers
        m = f.shape[ax] + 1                 # faces
        g = lambda k: e[sl(ax, slice(k, k + m), 4)]
        central = .5 * (g(1) + g(2))
        up = np.where(vf[ax] >= 0, 1.5 * g(1) - .5 * g(0), 1.5 * g(2) - .5 * g(3))
        out = out + net((theta * central + (1 - theta) * up) * vf[ax], ax) / h[ax]
    return out


def laplace(f, gc, mu, h):
    """Net diffusive flux into each cell (integrated over its faces); mu scalar or three face arrays."""
    V = h[0] * h[1] * h[2]
    out = 0.
    for ax in range(3):
        e = np.concatenate((gc[2 * ax], f, gc[2 * ax + 1]), axis=ax)
        m = mu if np.isscalar(mu) else mu[ax]
        out = out + net(np.diff(e, axis=ax) / h[ax] * m * (V / h[ax]), ax)
    return out


def diffusion(U, h, k):
    """Sum over interior faces of k_face*(Unb-Up)/d*A for every cell, harmonic-mean k (k: function of U, or scalar); any dimension."""
    V = np.prod(h)
    K = np.full(U.shape, float(k)) if np.isscalar(k) else k(U)
    out = np.zeros_like(U)
    for ax in range(U.ndim):
        a, b = sl(ax, slice(0, -1), U.ndim), sl(ax, slice(1, None), U.ndim)
        kf = 2 * K[a] * K[b] / (K[a] + K[b])
        q = kf * (U[b] - U[a]) / h[ax] * (V / h[ax])
        out[a] += q; out[b] -= q
    return out


def boundary_flux(U, h, k, types, values):
    """Flux into the boundary cells through the domain faces. values[i]: flat array over the face, C order of the other axes."""
    V = np.prod(h)
    out = np.zeros_like(U)
    for side, (t, v) in enumerate(zip(types, values)):
        ax = side // 2
        i = sl(ax, slice(0, 1) if side % 2 == 0 else slice(-1, None), U.ndim)
        v = np.asarray(v, float).reshape(U[i].shape)
        if t == 0:
            kb = k if np.isscalar(k) else k(v)
            out[i] += kb * 2 * (v - U[i]) / h[ax] * (V / h[ax])
        else:
            out[i] += v * (V / h[ax])
    return out


def residual(U, h, k, types, values, S):
    R = -diffusion(U, h, k) - S * np.prod(h)
    if types is not None:
        R = R - boundary_flux(U, h, k, types, values)
    return R


def linear_system(shape, h, mu, types, values, c0, b):
    """Dense A, rhs of: -mu*lap(U) - boundary + c0*U*dV = b*dV  (c0, b arrays)."""
    n = int(np.prod(shape))
    idx = np.arange(n).reshape(shape)
    V = np.prod(h)
    A = np.zeros((n, n)); r = (b * V).reshape(-1).astype(float).copy()
    A[np.arange(n), np.arange(n)] = (np.broadcast_to(c0, shape) * V).reshape(-1)
    nd = len(shape)
    for ax in range(nd):
        p, q = idx[sl(ax, slice(0, -1), nd)].ravel(), idx[sl(ax, slice(1, None), nd)].ravel()
        w = mu / h[ax] * (V / h[ax])
        np.add.at(A, (p, p), w); np.add.at(A, (q, q), w); np.add.at(A, (p, q), -w); np.add.at(A, (q, p), -w)
    if types is not None:
        for side, (t, v) in enumerate(zip(types, values)):
            ax = side // 2
            i = idx[sl(ax, slice(0, 1) if side % 2 == 0 else slice(-1, None), nd)].ravel()
            v = np.asarray(v, float).ravel()
            if t == 0:
                w = 2 * mu / h[ax] * (V / h[ax])
                np.add.at(A, (i, i), w); np.add.at(r, i, w * v)
            else:
                np.add.at(r, i, v * (V / h[ax]))
    return A, r


def velocity_step(v0, conv, gp0, fl, h, dt, rho, visco, types, values, vBC):
    """Prediction, projection. Returns predicted, corrected velocity, new grad p, error scales."""
    shape = v0.shape[:3]
    F = fl.reshape(shape)
    darcy = 1e7 * rho * (1 - F)**2 / (F**3 + 1e-5)
    pred = np.zeros_like(v0)
    err = 0.
    for i in range(3):
        A, r = linear_system(shape, h, visco, types[i], values[i], rho / dt + darcy, rho * v0[..., i] / dt - rho * conv[..., i] - gp0[..., i])
        pred[..., i] = np.linalg.solve(A, r).reshape(shape)
        err = max(err, 1e-10 * np.linalg.norm(r) / (rho / dt * np.prod(h)))
    vf = face_vels(pred, h, vBC)
    d = sum(net(vf[ax], ax) / h[ax] for ax in range(3)) * rho / dt
    A, r = linear_system(shape, h, 1., None, None, 0., -d[..., 0])
    p = np.linalg.lstsq(A, r, rcond=None)[0].reshape(shape + (1,))
    G = gradient(p, h)
    lam = np.sort(np.abs(np.linalg.eigvalsh(A)))
    lam = lam[lam > 1e-9 * lam[-1]][0]
    perr = 1e-10 * np.linalg.norm(r) / lam / np.min(h)
    return pred, pred - dt * G / rho, gp0 + G, err, perr, abs(r.sum()), p, d
