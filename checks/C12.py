import os, tempfile, shutil
import numpy as np
from hypothesis import strategies as st
from vp import Facet, Violation, info, expect, close, fail
import strat, femgen as G

PROPERTY = "C12"
LEVEL = "exploration"
RULE = "Hypothesis draws generator arguments (divisions, extents, element type, cylinder parameters); oracle: exact extents, volume and counts, Jacobian sign by an independent element map, face-sharing census, point uniqueness; non-trivial if more than one cell"
ASSUMPTIONS = ["gmsh generators: element types they document (HEX8, TET4, TET10), aspect ratios up to 30", "cylinder: square core inside the circle (rect_ratio <= 0.6)"]


def audit(X, cells, et, what, vol, lo, hi):
    d = G.DIM[et]
    X = np.asarray(X); cells = np.asarray(cells)
    expect(X.ndim == 2 and X.shape[1] == d, f"{what}: points have {d} coordinates", got=X.shape)
    expect(cells.shape[1] == len(G.NODES[et]) if hasattr(G, "NODES") else True, f"{what}: nodes per cell")
    expect(np.issubdtype(cells.dtype, np.integer) and cells.min() >= 0 and cells.max() < len(X), f"{what}: connectivity out of range")
    expect(len(np.unique(cells)) == len(X), f"{what}: unused points", unused=len(X) - len(np.unique(cells)))
    size = np.max(np.asarray(hi) - np.asarray(lo))
    tol = 1e-7 * size
    from scipy.spatial import cKDTree
    dup = cKDTree(X).query_pairs(tol)
    expect(not dup, f"{what}: duplicated points", pairs=list(dup)[:3])
    close(X.min(0), lo, f"{what}: lower corner", atol=tol, rtol=0)
    close(X.max(0), hi, f"{what}: upper corner", atol=tol, rtol=0)
    xi, w = G.quad_rule(et, 3)
    det = np.linalg.det(G.jac(et, X[cells], xi))
    expect(np.min(det) > 0, f"{what}: a cell has non-positive orientation", cell=int(np.argmin(det.min(1))), det=float(det.min()))
    close(np.sum(det * w), vol, f"{what}: cells do not fill the domain", rtol=1e-9 if vol else 0)
    fs = G.face_corner_sets(et)
    census = {}
    for ci, c in enumerate(cells):
        for f in fs:
            census.setdefault(tuple(sorted(int(c[i]) for i in f)), []).append(ci)
    cnt = np.array([len(v) for v in census.values()])
    expect(cnt.max() <= 2, f"{what}: a face is shared by more than two cells")
    return census, cells


def on_box(X, f, lo, hi, tol):
    P = X[list(f)]
    return any(np.all(np.abs(P[:, k] - b[k]) < tol) for k in range(X.shape[1]) for b in (lo, hi))


def boundary_is_box(X, census, lo, hi, what):
    tol = 1e-6 * np.max(hi - lo)
    for f, owners in census.items():
        b = on_box(X, f, lo, hi, tol)
        expect((len(owners) == 1) == b, f"{what}: interior face owned by one cell, or boundary face by two", face=f, owners=owners)


def structured(c):
    from jax_am.common import box_mesh, rectangle_mesh
    N, L = c["N"], c["L"]
    d = len(N)
    m = (box_mesh if d == 3 else rectangle_mesh)(*N, *L)
    key = "hexahedron" if d == 3 else "quad"
    expect(list(m.cells_dict) == [key], "cell type", got=list(m.cells_dict))
    X, cells = np.asarray(m.points), np.asarray(m.cells_dict[key])
    expect(len(X) == np.prod([n + 1 for n in N]) and len(cells) == np.prod(N), "numbers of points and cells", points=len(X), cells=len(cells))
    lo, hi = np.zeros(d), np.array(L, float)
    census, _ = audit(X, cells, "HEX8" if d == 3 else "QUAD4", "structured mesh", np.prod(L), lo, hi)
    boundary_is_box(X, census, lo, hi, "structured mesh")
    h = np.array(L) / np.array(N)
    grid = np.stack(np.meshgrid(*[np.arange(n + 1) for n in N], indexing="ij"), -1).reshape(-1, d) * h
    close(X, grid, "point order (first axis slowest)", atol=1e-9 * max(L), rtol=0)
    cg = (np.stack(np.meshgrid(*[np.arange(n) for n in N], indexing="ij"), -1).reshape(-1, d) + .5) * h
    close(X[cells].mean(1), cg, "cell order (first axis slowest)", atol=1e-9 * max(L), rtol=0)
    return info(len(cells) > 1, f"d={d}")


def quiet(fn):
    """gmsh prints from C: silence file descriptors 1 and 2 around the call."""
    import sys
    sys.stdout.flush()
    save = os.dup(1), os.dup(2)
    nul = os.open(os.devnull, os.O_WRONLY)
    try:
        os.dup2(nul, 1); os.dup2(nul, 2)
        return fn()
    finally:
        os.dup2(save[0], 1); os.dup2(save[1], 2)
        for f in save + (nul,):
            os.close(f)


NAMES = {"TET4": "tetra", "TET10": "tetra10", "HEX8": "hexahedron", "HEX20": "hexahedron20", "HEX27": "hexahedron27",
         "TRI3": "triangle", "TRI6": "triangle6", "QUAD4": "quad", "QUAD8": "quad8"}


def gmsh_box(c):
    from jax_am.fem.generate_mesh import box_mesh, get_meshio_cell_type, check_mesh_TET4, cylinder_mesh
    N, L, et = c["N"], c["L"], c["et"]
    tmp = tempfile.mkdtemp()
    try:
        if c["before"]:         # another mesh was made in this directory before
            b = c["before"]
            quiet(lambda: box_mesh(*b["N"], *b["L"], data_dir=os.path.join(tmp, "a"), ele_type=b["et"])) if b["et"] != "cylinder" else quiet(lambda: cylinder_mesh(os.path.join(tmp, "a"), circle_mesh=2, hight_mesh=1))
        ms = [quiet(lambda: box_mesh(*N, *L, data_dir=os.path.join(tmp, "a"), ele_type=et))]
        if c["again"]:          # same arguments, same directory: same mesh (files of the first call lie there)
            ms.append(quiet(lambda: box_mesh(*N, *L, data_dir=os.path.join(tmp, "a"), ele_type=et)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    lo, hi = np.zeros(3), np.array(L, float)
    for k, v in NAMES.items():
        expect(get_meshio_cell_type(k) == v, f"meshio name of {k}", got=get_meshio_cell_type(k), expected=v)
    for m in ms:
        key = NAMES[et]
        expect(list(m.cells_dict) == [key], "cell type", got=list(m.cells_dict))
        X, cells = np.asarray(m.points), np.asarray(m.cells_dict[key])
        census, _ = audit(X, cells, et, f"gmsh {et} box", np.prod(L), lo, hi)
        boundary_is_box(X, census, lo, hi, f"gmsh {et} box")
        # divisions along the edges of the box
        corners = np.unique(cells[:, :8 if et == "HEX8" else 4])
        tol = 1e-6 * max(L)
        for k in range(3):
            o = [a for a in range(3) if a != k]
            P = X[corners]
            e = P[(np.abs(P[:, o[0]]) < tol) & (np.abs(P[:, o[1]]) < tol)][:, k]
            close(np.sort(e), np.linspace(0, L[k], N[k] + 1), f"gmsh {et} box: divisions along axis {k}", atol=1e-6 * max(L), rtol=0) if len(e) == N[k] + 1 else fail(f"gmsh {et} box: number of divisions along axis {k}", got=len(e) - 1, expected=N[k])
        if et == "HEX8":
            expect(len(cells) == np.prod(N) and len(X) == np.prod([n + 1 for n in N]), "gmsh HEX8 box: numbers of cells and points", cells=len(cells), points=len(X))
        else:
            q = np.asarray(check_mesh_TET4(X, cells[:, :4]))
            V = X[cells[:, :4]]
            six = np.einsum('ci,ci->c', np.cross(V[:, 1] - V[:, 0], V[:, 2] - V[:, 0]), V[:, 3] - V[:, 0])
            close(q, six, "check_mesh_TET4: six times the signed volume", atol=1e-5 * np.prod(L), rtol=1e-5)
        if et == "TET10":
            ed = [(0, 1), (1, 2), (0, 2), (0, 3), (1, 3), (2, 3)]
            for j, (a, b) in enumerate(ed):
                close(X[cells[:, 4 + j]], (X[cells[:, a]] + X[cells[:, b]]) / 2, "TET10: mid-edge nodes in the documented order", atol=1e-7 * max(L), rtol=0)
    return info(len(cells) > 1, et, "twice" if c["again"] else "once", "after another mesh in the same directory" if c["before"] else "fresh directory")


def cylinder(c):
    from jax_am.fem.generate_mesh import cylinder_mesh
    kw = dict(R=c["R"], H=c["H"], circle_mesh=c["cm"], hight_mesh=c["hm"], rect_ratio=c["rr"])
    kw = {k: v for k, v in kw.items() if k not in c["default"]}        # the others keep their documented defaults
    R, H, cm, hm, rr = [dict(dict(R=5, H=10, circle_mesh=5, hight_mesh=20, rect_ratio=.4), **kw)[k] for k in ("R", "H", "circle_mesh", "hight_mesh", "rect_ratio")]
    tmp = tempfile.mkdtemp()
    try:
        if c["before"]:
            b = c["before"]
            quiet(lambda: cylinder_mesh(os.path.join(tmp, "b"), R=b[0], H=b[1], circle_mesh=b[2], hight_mesh=b[3]))
        m = quiet(lambda: cylinder_mesh(os.path.join(tmp, "b"), **kw))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    X, cells = np.asarray(m.points), np.asarray(m.cells_dict["hexahedron"])
    n = 4 * (cm - 1)
    s = (cm - 1) ** 2
    expect(len(cells) == 5 * s * hm, "cylinder: number of cells", got=len(cells), expected=5 * s * hm)
    vol = .5 * n * R * R * np.sin(2 * np.pi / n) * H
    ex = np.max(R * np.cos(np.pi / 4 + 2 * np.pi * np.arange(n) / n))
    census, _ = audit(X, cells, "HEX8", "cylinder mesh", vol, np.array([-ex, -ex, 0]), np.array([ex, ex, H]))
    tol = 1e-6 * max(R, H)
    r = np.hypot(X[:, 0], X[:, 1])
    expect(r.max() <= R + tol, "cylinder: point outside the radius")
    for f, own in census.items():
        P = X[list(f)]
        b = np.all(np.abs(P[:, 2]) < tol) or np.all(np.abs(P[:, 2] - H) < tol) or np.all(np.abs(np.hypot(P[:, 0], P[:, 1]) - R) < 1e-5 * R)
        expect((len(own) == 1) == bool(b), "cylinder: interior face owned by one cell, or boundary face by two", face=f)
    for sx in (1, -1):
        for sy in (1, -1):
            expect(np.min(np.linalg.norm(X - np.array([sx * rr * R, sy * rr * R, 0]), axis=1)) < tol, "cylinder: corner of the square core (side 2 rect_ratio R)")
    z = np.unique(np.round(X[:, 2] / H * hm, 6))
    close(z, np.arange(hm + 1), "cylinder: layers", atol=1e-5, rtol=0) if len(z) == hm + 1 else fail("cylinder: number of layers", got=len(z) - 1, expected=hm)
    return info(True, f"circle_mesh={cm}")


ext = st.sampled_from([1.0, .5, 2., 3., .01, 10., .1])


@st.composite
def boxes(draw, d=None, small=False):
    d = draw(st.sampled_from([3, 2])) if d is None else d
    hi = 5 if small else (9 if d == 3 else 14)
    N = [draw(st.integers(1, hi)) for _ in range(d)]
    L = [draw(ext) for _ in range(d)]
    if small:
        s = draw(st.sampled_from([1., .01, 5.]))
        L = [n * s * draw(st.sampled_from([1., .5, 2.])) for n in N]
    return dict(N=N, L=L)


@st.composite
def gboxes(draw):
    c = draw(boxes(d=3, small=True))
    c["et"] = draw(st.sampled_from(["HEX8", "TET4", "TET10"]))
    c["again"] = draw(st.booleans())
    if draw(st.booleans()):
        c["before"] = dict(draw(boxes(d=3, small=True)), et=draw(st.sampled_from(["HEX8", "TET4", "TET10", "cylinder"])))
    else:
        c["before"] = None
    return c


cyl = st.fixed_dictionaries({"R": st.sampled_from([5, 1., .3, 10.]), "H": st.sampled_from([10, 1., 3.]), "cm": st.integers(2, 7), "hm": st.integers(1, 6), "rr": st.sampled_from([.4, .2, .6, .5]),
                             "default": st.lists(st.sampled_from(["R", "H", "circle_mesh", "hight_mesh", "rect_ratio"]), max_size=5, unique=True) | st.just([]),
                             "before": st.none() | st.tuples(st.sampled_from([2., 7.]), st.sampled_from([1., 4.]), st.integers(2, 4), st.integers(1, 3)).map(list)})

FACETS = [
    Facet("structured", boxes(), structured, quick=240, thorough=5000),
    Facet("gmsh box", gboxes(), gmsh_box, quick=80, thorough=1500),
    Facet("cylinder", cyl, cylinder, quick=48, thorough=600),
]
