"""Independent finite-element reference: element tables, meshes, shape functions, faces.

Nothing here uses /repo or basix.  Node ordering is meshio's (= VTK/Abaqus)."""
import itertools
import numpy as np

ELEMS = ["HEX8", "HEX20", "HEX27", "TET4", "TET10", "QUAD4", "QUAD8", "TRI3", "TRI6"]
DIM = {"HEX8": 3, "HEX20": 3, "HEX27": 3, "TET4": 3, "TET10": 3, "QUAD4": 2, "QUAD8": 2, "TRI3": 2, "TRI6": 2}
DEG = {"HEX8": 1, "HEX20": 2, "HEX27": 2, "TET4": 1, "TET10": 2, "QUAD4": 1, "QUAD8": 2, "TRI3": 1, "TRI6": 2}
SIMPLEX = {"TET4", "TET10", "TRI3", "TRI6"}
NCORNER = {"HEX8": 8, "HEX20": 8, "HEX27": 8, "TET4": 4, "TET10": 4, "QUAD4": 4, "QUAD8": 4, "TRI3": 3, "TRI6": 3}

_hexc = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
_hexe = [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]
_quadc = [(0, 0), (1, 0), (1, 1), (0, 1)]
_quade = [(0, 1), (1, 2), (2, 3), (3, 0)]
_tetc = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]
_tete = [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)]
_tric = [(0, 0), (1, 0), (0, 1)]
_trie = [(0, 1), (1, 2), (2, 0)]


def _mid(c, e):
    c = np.array(c, float)
    return [tuple((c[a] + c[b]) / 2) for a, b in e]


REFNODES = {
    "HEX8": _hexc, "HEX20": _hexc + _mid(_hexc, _hexe),
    # VTK/meshio hexahedron27: corners, edges, face centres (-x,+x,-y,+y,-z,+z), centre
    "HEX27": _hexc + _mid(_hexc, _hexe) + [(0, .5, .5), (1, .5, .5), (.5, 0, .5), (.5, 1, .5), (.5, .5, 0), (.5, .5, 1), (.5, .5, .5)],
    "TET4": _tetc, "TET10": _tetc + _mid(_tetc, _tete),
    "QUAD4": _quadc, "QUAD8": _quadc + _mid(_quadc, _quade),
    "TRI3": _tric, "TRI6": _tric + _mid(_tric, _trie),
}
REFNODES = {k: np.array(v, float) for k, v in REFNODES.items()}


def _monos(et):
    d, p = DIM[et], DEG[et]
    exps = list(itertools.product(range(p + 1), repeat=d))
    if et in SIMPLEX:
        return [e for e in exps if sum(e) <= p]
    if et in ("HEX20", "QUAD8"):   # serendipity: superlinear degree <= 2
        return [e for e in exps if sum(x for x in e if x > 1) <= 2]
    return exps


MONOS = {et: np.array(_monos(et)) for et in ELEMS}


def _mono_eval(E, x):
    return np.prod(x[..., None, :] ** E, axis=-1)


def _mono_grad(E, x):
    out = []
    for k in range(E.shape[1]):
        F = E.copy(); F[:, k] = np.maximum(F[:, k] - 1, 0)
        out.append(E[:, k] * np.prod(x[..., None, :] ** F, axis=-1))
    return np.stack(out, -1)


COEF = {et: np.linalg.inv(_mono_eval(MONOS[et], REFNODES[et])) for et in ELEMS}   # (nmono, nnodes)


def shape(et, xi):
    """xi (...,dim) -> N (...,nn)"""
    return _mono_eval(MONOS[et], np.asarray(xi, float)) @ COEF[et]


def dshape(et, xi):
    """(...,nn,dim)"""
    g = _mono_grad(MONOS[et], np.asarray(xi, float))
    return np.einsum('...md,mn->...nd', g, COEF[et])


LIN = {"HEX8": "HEX8", "HEX20": "HEX8", "HEX27": "HEX8", "TET4": "TET4", "TET10": "TET4", "QUAD4": "QUAD4", "QUAD8": "QUAD4", "TRI3": "TRI3", "TRI6": "TRI3"}


def face_corner_sets(et):
    """All element faces as sorted tuples of local corner indices (geometric definition)."""
    X = REFNODES[LIN[et]]
    d = DIM[et]
    faces = []
    for k in range(d):
        for v in ((0.,) if et in SIMPLEX else (0., 1.)):
            faces.append(tuple(np.flatnonzero(X[:, k] == v).tolist()))
    if et in SIMPLEX:
        faces.append(tuple(np.flatnonzero(X.sum(1) == 1.).tolist()))
    return faces


def local_symmetries(et):
    """Orientation-preserving renumberings of the local nodes (node permutations)."""
    X = REFNODES[et]; d = DIM[et]
    perms = set()
    if et in SIMPLEX:
        V = REFNODES[LIN[et]]
        for p in itertools.permutations(range(d + 1)):
            W = V[list(p)]
            A = (W[1:] - W[0]).T
            if np.linalg.det(A) > 0:
                Y = X @ A.T + W[0]
                perms.add(tuple(int(np.argmin(np.sum((X - y) ** 2, 1))) for y in Y))
    else:
        for p in itertools.permutations(range(d)):
            for s in itertools.product((1, -1), repeat=d):
                A = np.zeros((d, d))
                for i in range(d):
                    A[i, p[i]] = s[i]
                if np.linalg.det(A) > 0:
                    Y = (X - .5) @ A.T + .5
                    perms.add(tuple(int(np.argmin(np.sum((X - y) ** 2, 1))) for y in Y))
    return sorted(perms)


SYM = {et: local_symmetries(et) for et in ELEMS}

_KUHN3 = [[(0, 0, 0)] + [tuple(np.sum([np.eye(3, dtype=int)[p[j]] for j in range(i + 1)], axis=0)) for i in range(3)] for p in itertools.permutations(range(3))]
_KUHN2 = [[(0, 0), (1, 0), (1, 1)], [(0, 0), (1, 1), (0, 1)]]


def _orient(V):
    V = np.array(V)
    A = (V[1:] - V[0]).T
    if np.linalg.det(A) < 0:
        V[[-2, -1]] = V[[-1, -2]]
    return V


def lattice_cells(et, N):
    """Return (lattice nodes (nn_total,dim) ints on the doubled grid, cells)."""
    d = DIM[et]
    R = REFNODES[et]
    cells = []
    for ijk in itertools.product(*[range(n) for n in N]):
        o = np.array(ijk)
        if et in SIMPLEX:
            for t in (_KUHN3 if d == 3 else _KUHN2):
                V = _orient(t)
                P = 2 * o + 2 * (V[0] + R @ (V[1:] - V[0]))
                cells.append(P)
        else:
            cells.append(2 * o + 2 * R)
    P = np.rint(np.array(cells)).astype(int)          # (nc, nn, d)
    flat = P.reshape(-1, d)
    nodes, inv = np.unique(flat, axis=0, return_inverse=True)
    return nodes, inv.reshape(P.shape[:2])


def rotation(rng, d):
    Q, _ = np.linalg.qr(rng.normal(size=(d, d)))
    if np.linalg.det(Q) < 0:
        Q[:, 0] *= -1
    return Q


def build(mesh):
    """mesh: dict(et, N=[..], L=[..], geom in ('box','affine','jitter','curved'), seed, amp(0..1), perm(bool), drop)
    -> points, cells (numpy). Deterministic."""
    et = mesh["et"]; d = DIM[et]; N = list(mesh["N"])[:d]; L = np.array(list(mesh["L"])[:d], float)
    rng = np.random.default_rng([mesh["seed"], 77])
    nodes, cells = lattice_cells(et, N)
    ncell = len(cells)
    drop = mesh.get("drop", 0)
    if drop and ncell > 1:
        keep = max(1, ncell - drop)
        cells = cells[np.sort(rng.permutation(ncell)[:keep])]
        used = np.unique(cells)
        remap = -np.ones(len(nodes), int); remap[used] = np.arange(len(used))
        nodes = nodes[used]; cells = remap[cells]
    X = nodes / (2. * np.array(N)) * L
    geom = mesh["geom"]; amp = mesh.get("amp", .5)
    h = np.min(L / np.array(N))
    if geom == "jitter":
        corner = np.unique(cells[:, :NCORNER[et]])
        J = np.zeros_like(X)
        lim = {"HEX": .13, "QUA": .2, "TET": .11, "TRI": .15}[et[:3]]
        J[corner] = rng.uniform(-1, 1, size=(len(corner), d)) * lim * h * amp
        Y = X.copy(); Y[corner] += J[corner]
        W = shape(LIN[et], REFNODES[et])              # (nn, ncorner)
        for c in cells:
            Y[c] = W @ Y[c[:NCORNER[et]]]
        X = Y
    elif geom == "curved":
        w = rng.uniform(.5, 1.5, size=(d, d)) / np.max(L); ph = rng.uniform(0, 6.28, size=d)
        X = X + amp * .08 * np.max(L) * np.sin(np.pi * X @ w + ph) / d
    if geom == "affine" or mesh.get("affine_too"):
        A = np.eye(d) + amp * rng.uniform(-.3, .3, size=(d, d))
        X = X @ A.T
        X = X @ rotation(rng, d).T + rng.uniform(-2, 2, size=d)
    if mesh.get("perm"):
        pn = rng.permutation(len(X))                  # new index of old node
        Y = np.empty_like(X); Y[pn] = X; X = Y; cells = pn[cells]
        cells = cells[rng.permutation(len(cells))]
        sy = SYM[et]
        cells = np.array([c[list(sy[rng.integers(len(sy))])] for c in cells])
    return np.ascontiguousarray(X), np.ascontiguousarray(cells)


def is_affine(mesh):
    return mesh["geom"] in ("box", "affine") or (mesh["et"] in SIMPLEX and mesh["geom"] == "jitter")


def jac(et, Xc, xi):
    """Xc (nc,nn,d); xi (nq,d) -> J (nc,nq,d,d) = dx_i/dxi_j"""
    G = dshape(et, xi)
    return np.einsum('cni,qnj->cqij', Xc, G)


def gauss(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return (x + 1) / 2, w / 2


def quad_rule(et, n=5):
    """high-order rule on the reference cell"""
    d = DIM[et]
    x, w = gauss(n)
    g = np.array(list(itertools.product(range(n), repeat=d)))
    P = x[g]; W = np.prod(w[g], axis=1)
    if et in SIMPLEX:   # Duffy
        if d == 2:
            u, v = P[:, 0], P[:, 1]
            P = np.stack([u, v * (1 - u)], 1); W = W * (1 - u)
        else:
            u, v, t = P.T
            P = np.stack([u, v * (1 - u), t * (1 - u) * (1 - v)], 1); W = W * (1 - u) ** 2 * (1 - v)
    return P, W


def true_volume(et, X, cells, n=6):
    P, W = quad_rule(et, n)
    J = jac(et, X[cells], P)
    return float(np.einsum('cq,q->', np.linalg.det(J), W))


def integrate(et, X, cells, f, n=6):
    """Integral over the (isoparametric) mesh of f(x) -> (...)"""
    P, W = quad_rule(et, n)
    Xc = X[cells]
    J = np.linalg.det(jac(et, Xc, P))
    x = np.einsum('qn,cnd->cqd', shape(et, P), Xc)
    v = f(x)
    return np.einsum('cq...,cq,q->...', v, J, W)


def ref_points(et, Xcell, xq):
    """Invert the isoparametric map of one cell: physical points -> reference coordinates."""
    xi = np.full((len(xq), DIM[et]), .3 if et in SIMPLEX else .5)
    for _ in range(60):
        r = shape(et, xi) @ Xcell - xq
        J = np.einsum('ni,qnj->qij', Xcell, dshape(et, xi))
        dx = np.linalg.solve(J, r[..., None])[..., 0]
        xi = xi - dx
        if np.max(np.abs(dx)) < 1e-14:
            break
    return xi


def face_param(et, face):
    """Return map from reference-face coordinates (s: (m,d-1)) to reference-cell points + list of corners.
    Faces are parametrised by their corner nodes (ordered around the face)."""
    V = REFNODES[LIN[et]][list(face)]
    if len(face) == 4:   # order around: sort by angle in the plane
        c = V.mean(0)
        a = V[0] - c
        k = [i for i in range(V.shape[1]) if np.ptp(V[:, i]) > 0]
        ang = np.arctan2(V[:, k[1]] - c[k[1]], V[:, k[0]] - c[k[0]])
        V = V[np.argsort(ang)]
    return V


def face_rule(et, face, n=6):
    """Quadrature on one reference face -> points in the cell (m,d), tangents (m,d-1,d), weights (m,)"""
    V = face_param(et, face)
    d = DIM[et]
    x, w = gauss(n)
    if d == 2:
        P = V[0] + x[:, None] * (V[1] - V[0])
        T = np.repeat((V[1] - V[0])[None, None], n, 0)
        return P, T, w
    if len(V) == 3:
        u = np.repeat(x, n); v = np.tile(x, n); W = np.repeat(w, n) * np.tile(w, n) * (1 - u)
        s, t = u, v * (1 - u)
        P = V[0] + s[:, None] * (V[1] - V[0]) + t[:, None] * (V[2] - V[0])
        T = np.repeat(np.stack([V[1] - V[0], V[2] - V[0]])[None], len(P), 0)
        return P, T, W
    u = np.repeat(x, n); v = np.tile(x, n); W = np.repeat(w, n) * np.tile(w, n)
    P = V[0] + u[:, None] * (V[1] - V[0]) + v[:, None] * (V[3] - V[0])
    T = np.repeat(np.stack([V[1] - V[0], V[3] - V[0]])[None], len(P), 0)
    return P, T, W


def face_measure(et, Xc, P, T):
    """Physical surface measure and outward-ish normal*measure for faces of cells Xc (m cells,nn,d)."""
    J = jac(et, Xc, P)                                  # (c,q,d,d)
    t = np.einsum('cqij,qkj->cqki', J, T)               # (c,q,d-1,d)
    if t.shape[2] == 1:
        n = np.stack([t[:, :, 0, 1], -t[:, :, 0, 0]], -1)
    else:
        n = np.cross(t[:, :, 0], t[:, :, 1])
    return n


def boundary_faces(et, cells):
    """All (cell, face index in face_corner_sets) that belong to exactly one cell."""
    fs = face_corner_sets(et)
    cnt = {}
    for ci, c in enumerate(cells):
        for fi, f in enumerate(fs):
            cnt.setdefault(tuple(sorted(int(c[k]) for k in f)), []).append((ci, fi))
    return [v[0] for v in cnt.values() if len(v) == 1], cnt
