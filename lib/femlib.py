"""Adapters between generated cases and /repo's FEM module."""
import logging
import numpy as np
import jax
import jax.numpy as jnp
from jax_am import logger
logger.setLevel(logging.ERROR)
from jax_am.fem.core import FEM
from jax_am.fem.generate_mesh import Mesh
import femgen as G
from vp import expect, close, fail

_n = [0]


def tick(every=40):
    """Bound the growth of JAX's compilation caches in a long worker."""
    _n[0] += 1
    if _n[0] % every == 0:
        jax.clear_caches()


def make(cls, m, points=None, cells=None, vec=1, **kw):
    if points is None:
        points, cells = G.build(m)
    et = m["et"]
    return cls(Mesh(points, cells, et), vec=vec, dim=G.DIM[et], ele_type=et, **kw)


def quad_ref(prob, m, X, cells):
    """Reference coordinates of the problem's volume integration points (recovered from
    the physical points of the first cell by inverting an independent isoparametric map)."""
    xq = np.asarray(prob.get_physical_quad_points())
    xi = G.ref_points(m["et"], X[cells[0]], xq[0])
    return xi, xq


def predicate(case, X, cells, et):
    """Build (jax location fn, numpy mask over nodes) for a predicate description.
    Thresholds sit in the middle of the largest gap near the requested quantile, so
    that round-off cannot decide membership."""
    k = case["kind"]
    d = X.shape[1]
    rng = np.random.default_rng([case["seed"], 5])
    size = np.max(np.ptp(X, axis=0))
    if k == "all":
        return (lambda x: x[0] > -1e9), np.ones(len(X), bool)
    if k == "none":
        return (lambda x: x[0] > 1e9), np.zeros(len(X), bool)
    if k in ("half", "ball"):
        if k == "half":
            n = rng.normal(size=d); n /= np.linalg.norm(n)
            val = X @ n
        else:
            c0 = X[rng.integers(len(X))] + rng.normal(size=d) * .05 * size
            val = np.linalg.norm(X - c0, axis=1)
        s = np.unique(val)
        gaps = np.diff(s)
        if len(gaps) == 0 or gaps.max() < 1e-6 * size:
            return predicate({"kind": "all", "seed": 0}, X, cells, et)
        ok = np.flatnonzero(gaps > 1e-6 * size)
        i = ok[int(case["q"] * (len(ok) - 1) + .5)]
        thr = (s[i] + s[i + 1]) / 2
        if k == "half":
            nj = jnp.array(n)
            return (lambda x: jnp.dot(x, nj) < thr), val < thr
        cj = jnp.array(c0)
        return (lambda x: jnp.sqrt(jnp.sum((x - cj) ** 2)) < thr), val < thr
    if k == "facet":
        bf, _ = G.boundary_faces(et, cells)
        ci, fi = bf[rng.integers(len(bf))]
        P = X[cells[ci][list(G.face_corner_sets(et)[fi])]]
        if d == 2:
            t = P[1] - P[0]; n = np.array([t[1], -t[0]])
        else:
            n = np.cross(P[1] - P[0], P[2] - P[0])
        n = n / np.linalg.norm(n)
        dist = np.abs((X - P[0]) @ n)
        tol = 1e-7 * size
        while np.any((dist > tol / 20) & (dist < tol * 20)):
            tol *= 3.3
            if tol > size:
                return predicate({"kind": "all", "seed": 0}, X, cells, et)
        nj, pj = jnp.array(n), jnp.array(P[0])
        return (lambda x: jnp.abs(jnp.dot(x - pj, nj)) < tol), dist < tol
    raise ValueError(k)


def expected_faces(et, cells, mask):
    """set of (cell, face index in G.face_corner_sets) whose corner nodes all satisfy mask"""
    fs = G.face_corner_sets(et)
    out = set()
    for ci, c in enumerate(cells):
        for fi, f in enumerate(fs):
            if mask[c[list(f)]].all():
                out.add((ci, fi))
    return out


def which_face(et, xi):
    """index in face_corner_sets of the face containing all reference points xi, or None"""
    d = G.DIM[et]
    k = 0
    for a in range(d):
        for v in ((0.,) if et in G.SIMPLEX else (0., 1.)):
            if np.max(np.abs(xi[:, a] - v)) < 1e-9:
                return k
            k += 1
    if et in G.SIMPLEX and np.max(np.abs(xi.sum(1) - 1)) < 1e-9:
        return k
    return None


def face_table(prob, m):
    """For each local face number of the code: (my face index, reference points) found by
    looking where the code puts its surface quadrature points on the first cell."""
    et = m["et"]
    nf = len(G.face_corner_sets(et))
    X, cells = np.asarray(prob.points), np.asarray(prob.cells)
    out = {}
    inds = np.array([[0, f] for f in range(nf)])
    P = np.asarray(prob.get_physical_surface_quad_points(inds))
    for f in range(nf):
        xi = G.ref_points(et, X[cells[0]], P[f])
        w = which_face(et, xi)
        if w is None:
            fail("surface quadrature points of a face do not lie on one face of the element", et=et, local_face=f)
        out[f] = (w, xi)
    if sorted(v[0] for v in out.values()) != list(range(nf)):
        fail("local faces do not cover every element face exactly once", et=et)
    return out


def in_ref(et, xi, tol=1e-9):
    ok = (xi >= -tol).all()
    return ok and ((xi.sum(1) <= 1 + tol).all() if et in G.SIMPLEX else (xi <= 1 + tol).all())
