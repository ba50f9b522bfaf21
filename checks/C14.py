import os
import numpy as np
from hypothesis import strategies as st
from vp import Facet, Violation, info, expect, close, fail
import cfdref as R

PROPERTY = "C14"
LEVEL = "exploration"
RULE = "Hypothesis draws grids (1..7 cells per axis, 2-D and 3-D, spacing ratios to 10), fields, face velocities of mixed sign, boundary types and values; oracle: an independent face-flux model, plus the exactness (linear and constant-flux fields), ghost-value and conservation identities evaluated directly; non-trivial if the grid has at least two cells in some direction and the field is not constant"
ASSUMPTIONS = ["3-D operators (the ones the package uses); boundary data are scalars or arrays that broadcast to the face", "laplace() with explicit BCs is given the matching ghost values, as its signature requires"]


def grid(c):
    from jax_am.cfd import cfd_am as M
    N, L = c["N"], c["L"]
    m = (M.mesh3d if len(N) == 3 else M.mesh2d)(list(L), list(N))
    return M, m, np.array(L, float) / np.array(N)


def mesh(c):
    _, m, h = grid(c)
    N, L = c["N"], np.array(c["L"], float)
    nd, n, V = len(N), int(np.prod(N)), float(np.prod(h))
    idx = np.arange(n).reshape(N)
    expect(m.cell_num == n and list(m.shape) == list(N) and m.dim == nd, "grid size")
    close(m.dX, h, "spacing"); close(m.dV, V, "cell volume")
    Xc = np.stack(np.meshgrid(*[(np.arange(k) + .5) * d for k, d in zip(N, h)], indexing="ij"), -1).reshape(-1, nd)
    close(m.Xc, Xc, "cell centroids")
    conn = np.asarray(m.cell_conn)
    expect(conn.shape == (n, 2 * nd + 1), "connectivity shape")
    for j, ix in enumerate(np.ndindex(*N)):
        want = [j]
        for ax in range(nd):
            for s in (-1, 1):
                q = list(ix); q[ax] += s
                want.append(idx[tuple(q)] if 0 <= q[ax] < N[ax] else j)
        expect(list(conn[j]) == want, "cell connectivity (self, -x, +x, -y, +y, ..; itself at the boundary)", cell=j, got=list(conn[j]), expected=want)
    D, dS = np.asarray(m.D), np.asarray(m.dS)
    for s in range(2 * nd):
        ax = s // 2
        sg = -1 if s % 2 == 0 else 1
        close(D[s], sg * h[ax], "signed centre distance"); close(dS[s], sg * V / h[ax], "signed face area")
    # boundary surfaces
    off = 0
    for s in range(2 * nd):
        ax = s // 2
        cells = idx[R.sl(ax, slice(0, 1) if s % 2 == 0 else slice(-1, None), nd)].ravel()
        expect(m.surf_set_num[s] == len(cells), "faces per boundary side")
        ss = np.asarray(m.surf_sets[s])
        expect(np.array_equal(ss, np.arange(off, off + len(cells))), "boundary face numbering")
        off += len(cells)
        expect(np.array_equal(np.asarray(m.surf_cell)[ss], cells), "cells behind the boundary faces")
        expect(np.all(np.asarray(m.surf_orient)[ss] == s), "orientation of the boundary faces")
        P = Xc[cells].copy(); P[:, ax] = 0 if s % 2 == 0 else L[ax]
        close(np.asarray(m.surface)[ss], P, "centres of the boundary faces", atol=1e-14, scale=L.max())
    expect(len(m.surf_cell) == off and len(m.surface) == off, "number of boundary faces")
    area = sum(abs(dS[s]) * m.surf_set_num[s] for s in range(2 * nd))
    close(area, 2 * sum(np.prod(L) / l for l in L), "total boundary area")
    return info(n > 1, f"{nd}d")


def field(c, comp, key=0):
    rng = np.random.default_rng([c["seed"], key])
    return rng.standard_normal(list(c["N"]) + [comp])


def bcs(c, shape, h, comp):
    """types, values of all six sides"""
    rng = np.random.default_rng([c["seed"], 99])
    T, V = [], []
    for s in range(6):
        ax = s // 2
        sh = [k for i, k in enumerate(shape)]
        sh[ax] = 1
        t = c["bc"][s]
        v = rng.standard_normal(sh + [comp])
        if c["bcs"] == "scalar":
            v = float(v.flat[0])
            if t == 2 and comp == 3: v = np.array([v, 2 * v, .5])
        T.append(t); V.append(v)
    if comp != 3: T = [min(t, 1) for t in T]
    V = [np.broadcast_to(v, [1 if i == s // 2 else k for i, k in enumerate(shape)] + [3]) if T[s] == 2 and np.ndim(v) < 4 else v for s, v in enumerate(V)]
    return [T, V]


def names(BC, style):
    return BC if style == "int" else [[{0: "Dirchlet", 1: "Neumann", 2: "Marangoni_Z"}[t] for t in BC[0]], BC[1]]


def ops(c):
    M, m, h = grid(c)
    J = __import__("jax.numpy").numpy
    N = list(c["N"])
    op, comp = c["op"], c["comp"]
    V = float(np.prod(h))
    f = field(c, comp)
    if c["kind"] == "linear":
        a = np.random.default_rng(c["seed"]).standard_normal(4)
        X = np.asarray(m.Xc).reshape(N + [3])
        f = np.repeat((a[0] + X @ a[1:])[..., None], comp, -1)
    elif c["kind"] == "const":
        f = f * 0 + f.flat[0]
    B = bcs(c, N, h, comp) if c["bc"] is not None else None
    Bj = None if B is None else names([B[0], [J.asarray(v) if np.ndim(v) else v for v in B[1]]], c["style"])
    kw = {} if B is None else {"BCs": Bj}
    fj = J.asarray(f)
    scale = 1 + np.max(np.abs(f)) + (0 if B is None else max(np.max(np.abs(v)) for v in B[1]))
    hs = scale / h.min()
    if op == "ghost":
        Bg = B or R.ZERO
        got = M.get_GC_values(fj, Bj if B is not None else R.ZERO, J.asarray(h))
        expect(len(got) == 6, "six ghost layers")
        for s in range(6):
            ax = s // 2
            nb = R.first(f, ax) if s % 2 == 0 else R.last(f, ax)
            g = np.asarray(got[s])
            v = np.broadcast_to(Bg[1][s], nb.shape)
            for k in range(comp):
                t = Bg[0][s] if Bg[0][s] != 2 else (1 if k < 2 else 0)
                if t == 0:
                    close((g[..., k] + nb[..., k]) / 2, v[..., k], "Dirichlet value at the face from the ghost cell", atol=1e-13 * scale)
                else:
                    d = (g[..., k] - nb[..., k]) / h[ax] * (-1 if s % 2 == 0 else 1)
                    close(d, v[..., k], "derivative at the face from the ghost cell", atol=1e-12 * hs)
    elif op == "gradient":
        g = np.asarray(M.gradient(fj, J.asarray(h), **kw))
        close(g, R.gradient(f, h, B), "gradient", atol=1e-12 * hs)
        if c["kind"] == "linear" and all(n > 2 for n in N) and comp == 1:
            close(g[1:-1, 1:-1, 1:-1], np.broadcast_to(a[1:], g[1:-1, 1:-1, 1:-1].shape), "gradient of a linear field", atol=1e-11 * hs)
    elif op == "face":
        got = M.get_face_vels(fj, J.asarray(h), **kw)
        for ax, (g, w) in enumerate(zip(got, R.face_vels(f, h, B))):
            close(g, w, f"face velocity {ax}", atol=1e-12 * scale)
    elif op == "facecomp":
        for ax in range(3):
            close(M.get_face_vel_component(fj, J.asarray(h), axis=ax, **kw), R.face_comp(f, h, ax, B), f"face values along axis {ax}", atol=1e-12 * scale)
    elif op == "div":
        vf = [field(c, 1, 10 + ax) for ax in range(3)]
        vf = [np.concatenate((v, field(dict(c, N=[1 if i == ax else k for i, k in enumerate(N)]), 1, 20 + ax)), axis=ax) for ax, v in enumerate(vf)]
        if c["vel"] == "zero some":
            vf = [np.where(np.abs(v) < .5, 0., v) for v in vf]
        elif c["vel"] == "const":
            vf = [v * 0 + (1.3, -.7, .4)[ax] for ax, v in enumerate(vf)]
        kt = {} if c["theta"] is None else {"theta": c["theta"]}
        g = np.asarray(M.div(fj, [J.asarray(v) for v in vf], J.asarray(h), **kt, **kw))
        close(g, R.div(f, vf, h, .125 if c["theta"] is None else c["theta"], B), "convective divergence", atol=1e-12 * hs * 5)
        if c["vel"] == "const" and c["kind"] == "linear" and all(n > 4 for n in N):
            want = np.array([1.3, -.7, .4]) @ a[1:]
            close(g[2:-2, 2:-2, 2:-2], np.full(g[2:-2, 2:-2, 2:-2].shape, want), "div of a linear field in a constant velocity", atol=1e-11 * hs)
        # conservation with closed boundaries
        for ax in range(3):
            vf[ax][R.sl(ax, slice(0, 1), 4)] = 0; vf[ax][R.sl(ax, slice(-1, None), 4)] = 0
        g = np.asarray(M.div(fj, [J.asarray(v) for v in vf], J.asarray(h), **kt, **kw))
        close(g.sum((0, 1, 2)) * V, np.zeros(comp), "closed box: convection conserves the total", atol=1e-12 * hs * g.size * V)
        if c["kind"] == "const":
            d = sum(R.net(v, ax) / h[ax] for ax, v in enumerate(vf))
            if B is None:
                close(g, f * d, "div of a constant is constant times divergence", atol=1e-12 * hs * 5)
    elif op == "laplace":
        if c["mu"] == "scalar":
            mu = c["muv"]; muj = mu
        else:
            mu = [np.exp(field(dict(c, N=[k + (i == ax) for i, k in enumerate(N)]), 1, 30 + ax)) for ax in range(3)]
            muj = [J.asarray(x) for x in mu]
        Bx = B or R.ZERO
        gc = [R.ghost(f, s, Bx[0][s], Bx[1][s], h) for s in range(6)]
        gj = [J.asarray(x) for x in gc] if B is not None else None
        g = np.asarray(M.laplace(fj, gj, muj, J.asarray(h), **kw))
        want = R.laplace(f, gc, mu, h)
        ls = scale * (mu if np.isscalar(mu) else max(x.max() for x in mu)) * V / h.min()**2 * 6
        close(g, want, "diffusion", atol=1e-12 * ls)
        # conservation: sum over cells = flux through the boundary
        tot = 0.
        for s in range(6):
            ax = s // 2
            nb = R.first(f, ax) if s % 2 == 0 else R.last(f, ax)
            mm = mu if np.isscalar(mu) else (R.first(mu[ax], ax) if s % 2 == 0 else R.last(mu[ax], ax))
            tot = tot + (mm * (gc[s] - nb) / h[ax] * V / h[ax]).sum((0, 1, 2))
        close(g.sum((0, 1, 2)), tot * np.ones(comp), "sum of the diffusion balance = boundary flux", atol=1e-12 * ls * g.size)
        if c["kind"] == "linear" and c["mu"] == "scalar" and all(n > 2 for n in N):
            close(g[1:-1, 1:-1, 1:-1], 0 * g[1:-1, 1:-1, 1:-1], "diffusion of a linear field", atol=1e-11 * ls)
    return info(c["kind"] != "const" and max(N) > 1, op, c["kind"], "default bc" if B is None else "bc")


# few distinct shapes: jax compiles every operation once per shape
SHAPES = st.sampled_from([(3, 4, 5), (5, 6, 5), (1, 5, 6), (6, 1, 2), (2, 2, 2), (1, 1, 1), (4, 1, 1), (5, 3, 4)])
if os.environ.get('VERIF_TIER') == 'thorough':
    SHAPES = st.tuples(*[st.integers(1, 7)] * 3)
ext = st.sampled_from([1., .5, 2., .1, 1e-3, 7.])


@st.composite
def grids(draw):
    nd = draw(st.sampled_from([3, 3, 2]))
    return dict(N=list(draw(SHAPES))[:nd], L=[draw(ext) for _ in range(nd)])


@st.composite
def opcases(draw):
    s = draw(st.sampled_from([1., 1e-3]))
    N = list(draw(SHAPES))
    op = draw(st.sampled_from(["ghost", "gradient", "face", "facecomp", "div", "laplace"]))
    comp = {"gradient": st.just(1), "face": st.just(3), "laplace": st.sampled_from([1, 3])}.get(op, st.sampled_from([1, 3]))
    return dict(N=N, L=[n * s * draw(st.sampled_from([1., .5, 3.])) for n in N], op=op, comp=draw(comp), kind=draw(st.sampled_from(["random", "random", "linear", "const"])),
                bc=draw(st.none() | st.lists(st.sampled_from([0, 1, 2]), min_size=6, max_size=6)), bcs=draw(st.sampled_from(["scalar", "array"])), style=draw(st.sampled_from(["int", "int", "name"])),
                vel=draw(st.sampled_from(["random", "zero some", "const"])), theta=draw(st.sampled_from([None, 0., 1., .3])), mu=draw(st.sampled_from(["scalar", "face"])), muv=draw(st.sampled_from([1., .3, 12.])), seed=draw(st.integers(0, 10**6)))


FACETS = [Facet("grid", grids(), mesh, quick=240, thorough=4000), Facet("operators", opcases(), ops, quick=800, thorough=12000)]
