import os, shutil, tempfile, contextlib, io
from types import SimpleNamespace
import numpy as np
from hypothesis import strategies as st
from vp import Facet, Violation, info, expect, close, fail
import femlib

PROPERTY = "C19"
LEVEL = "exploration"
RULE = "Hypothesis draws grids, domains, grain maps, orientations, layers, solution states, temperatures and label fields; oracle: direct recomputation from the generated description (numpy / scipy.ndimage connected components / SVD), independent readers for written files; non-trivial if there are at least two grains (labels) and two cells"
ASSUMPTIONS = ["polycrystal files as Neper writes them: structured hexahedra, points and cells with x fastest, one physical tag (grain number from 1) per cell", "figures are drawn by stand-ins (plots are not part of the property)", "aspect ratios compared for grains that extend in at least two directions"]


@contextlib.contextmanager
def no_plots():
    import matplotlib.pyplot as plt
    from orix import plot
    from orix.quaternion import Orientation
    old = plt.savefig, Orientation.scatter, plot.IPFColorKeyTSL.plot
    nul = lambda *a, **k: None
    plt.savefig, Orientation.scatter, plot.IPFColorKeyTSL.plot = nul, nul, nul
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        plt.savefig, Orientation.scatter, plot.IPFColorKeyTSL.plot = old


def poly(N, L, grains):
    """The tessellation behind the mesh: slabs of random thickness, some split into two prisms."""
    rng = np.random.default_rng(int(grains.sum()) + 7 * len(grains))
    m = 1 + int(grains.max())
    x = np.concatenate([[0.], np.sort(rng.random(m - 1)), [1.]]) * L[0]
    V = np.array([[a, y * L[1], z * L[2]] for a in x for y in (0, 1) for z in (0, 1)])
    polys = []
    for i in range(m):
        a, b, c, d, e, f, g, h = (4 * i + j for j in (0, 1, 3, 2, 4, 5, 7, 6))     # a..d on the left in cyclic order, e..h on the right
        if rng.random() < .6:
            polys.append([[a, b, c, d], [e, f, g, h], [a, b, f, e], [b, c, g, f], [c, d, h, g], [d, a, e, h]])
        else:
            polys.append([[a, b, c], [e, f, g], [a, b, f, e], [b, c, g, f], [c, a, e, g]])
            polys.append([[a, c, d], [e, g, h], [a, c, g, e], [c, d, h, g], [d, a, e, h]])
    return V, polys


def neper(dirname, N, L, grains):
    """Write domain.msh and domain.obj as Neper does; returns points, cells."""
    import meshio
    ax = [np.linspace(0, l, n + 1) for n, l in zip(N, L)]
    Z, Y, X = np.meshgrid(ax[2], ax[1], ax[0], indexing="ij")
    P = np.round(np.stack([X.ravel(), Y.ravel(), Z.ravel()], 1), 12)      # Neper writes twelve decimals
    id = np.arange(len(P)).reshape(N[2] + 1, N[1] + 1, N[0] + 1)
    a = lambda dz, dy, dx: id[dz:dz + N[2], dy:dy + N[1], dx:dx + N[0]].ravel()
    C = np.stack([a(0, 0, 0), a(0, 0, 1), a(0, 1, 1), a(0, 1, 0), a(1, 0, 0), a(1, 0, 1), a(1, 1, 1), a(1, 1, 0)], 1)
    os.makedirs(dirname, exist_ok=True)
    tags = grains.astype(np.int32) + 1
    meshio.write(os.path.join(dirname, "domain.msh"), meshio.Mesh(P, [("hexahedron", C)], cell_data={"gmsh:physical": [tags], "gmsh:geometrical": [tags]}), file_format="gmsh22", binary=False)
    V, polys = poly(N, L, grains)
    obj = [f"v {x!r} {y!r} {z!r}" for x, y, z in V.tolist()]
    for i, fs in enumerate(polys):
        obj += [f"g cell{i + 1}"] + ["f " + " ".join(str(j + 1) for j in f) for f in fs]
    open(os.path.join(dirname, "domain.obj"), "w").write("\n".join(obj) + "\n")
    return P, C


def rotmat(q):
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)], [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def ipf(q, v):
    """IPF colour up to normalisation is a function of |R^-1 v| sorted only for the triangle corners; used for corner colours"""
    return np.sort(np.abs(rotmat(q).T @ v))


def ingest(c):
    import meshio, jax.numpy as J
    from jax_am.phase_field.utils import Field, generate_new_mesh
    from jax_am.phase_field.allen_cahn import PFSolver
    from orix.quaternion import Orientation
    femlib.tick()
    rng = np.random.default_rng(c["seed"])
    N, L = c["N"], c["L"]
    n = int(np.prod(N))
    grains = rng.integers(0, c["g"], n); grains[rng.integers(n)] = c["g"] - 1
    k = c["k"]
    q = rng.standard_normal((k, 4)); q /= np.linalg.norm(q, axis=1, keepdims=True)
    if c["ident"]: q[0] = [1, 0, 0, 0]
    tmp = tempfile.mkdtemp()
    try:
        P, C = neper(os.path.join(tmp, "neper"), N, L, grains)
        a = dict(data_dir=tmp, num_grains=c["g"], num_oris=k, domain_x=L[0], domain_y=L[1], domain_z=L[2], dim=3, T_liquidus=1623., write_sol_interval=c["wi"], anisotropy=0., m_g=1., kappa_g=1., ad_hoc=1., L0=1., Qg=1., gas_const=8.3)
        ori = Orientation(q) if c["given"] else None
        with no_plots():
            F = Field(a, ori) if c["given"] else Field(a)
        expect([a["Nx"], a["Ny"], a["Nz"]] == list(N), "numbers of cells inferred from the points", got=[a["Nx"], a["Ny"], a["Nz"]], expected=N)
        close(F.mesh_h_xyz, np.array(L) / N, "cell size")
        cen = P[C].mean(1)
        close(F.centroids, cen, "cell centroids", rtol=1e-9)
        close(F.mesh.points, P, "points", rtol=1e-9)
        expect(np.array_equal(F.mesh.cells_dict["hexahedron"], C), "cells")
        lab = np.asarray(F.cell_ori_inds)
        expect(lab.shape == (n,) and lab.min() >= 0 and lab.max() < k, "orientation numbers in range")
        for g in range(c["g"]):
            expect(len(np.unique(lab[grains == g])) <= 1, "all cells of a grain have one orientation", grain=g)
        fd = meshio.read(os.path.join(tmp, "vtk/pf/mesh/fd_mesh.vtu"))
        expect(np.array_equal(fd.cell_data["grain_inds"][0].ravel(), grains), "every cell carries the grain of the file")
        pm = os.path.join(tmp, "vtk/pf/mesh/poly_mesh.vtu")
        expect(os.path.exists(pm), "polyhedral mesh written")
        pm = meshio.read(pm)
        V, polys = poly(N, L, grains)
        close(pm.points, V, "vertices of the polyhedral mesh", rtol=1e-9, atol=1e-12)
        norm = lambda ps: sorted(sorted(tuple(int(v) for v in f) for f in p) for p in ps)
        expect(norm(p for blk in pm.cells for p in blk.data) == norm(polys), "polyhedra of the tessellation", expected=norm(polys))
        Q = np.load(os.path.join(tmp, "numpy/pf/quat.npy"))
        expect(Q.shape == (k, 4), "saved orientations")
        if c["given"]: close(Q, q, "saved orientations are the given ones")
        D = np.asarray(F.unique_grain_directions)
        for o in range(k):
            close(D[:, o], rotmat(Q[o]).T, "crystal axes of an orientation (columns of its rotation)", atol=1e-9, rtol=0)
        rgb = np.asarray(F.unique_oris_rgb)
        expect(rgb.shape == (3, k, 3) and rgb.min() >= -1e-9 and rgb.max() <= 1 + 1e-9, "colours")
        if c["ident"] and c["given"]:
            close(rgb[:, 0], np.array([[1, 0, 0]] * 3), "colour of the cube orientation is that of <001>", atol=1e-6, rtol=0)
        # --- initial order parameters, files
        sols = os.path.join(tmp, "vtk/pf/sols"); os.makedirs(sols)
        open(os.path.join(sols, "u005.vtu"), "w").write("old"); open(os.path.join(tmp, "vtk/pf/keep"), "w").write("x")
        S = PFSolver(a, F)
        expect(os.listdir(sols) == [] and os.path.exists(os.path.join(tmp, "vtk/pf/keep")) and os.path.exists(os.path.join(tmp, "vtk/pf/mesh/fd_mesh.vtu")), "cleaning removes exactly the old solution files")
        eta0 = np.asarray(S.ini_cond())
        expect(np.array_equal(eta0, np.eye(k)[lab]), "initial order parameters are one-hot in the cell's orientation")
        for s in range(c["w"]):
            eta = rng.random((n, k)); T = rng.uniform(1500, 1750, (n, 1))
            with no_plots():
                S.write_sols(J.asarray(eta) if c["jx"] else eta, J.asarray(T), s * c["wi"] + (c["wi"] - 1 if s else 0))
            f = os.path.join(sols, f"u{s:03d}.vtu")
            expect(os.path.exists(f) and len(os.listdir(sols)) == s + 1, "solution file of a step", got=os.listdir(sols))
            r = meshio.read(f)
            am = eta.argmax(1)
            liq = T[:, 0] > 1623.
            expect(np.array_equal(r.cell_data["ori_inds"][0].ravel(), am), "written orientation = dominant order parameter")
            expect(np.array_equal(r.cell_data["T"][0].ravel(), T.astype(np.float32).ravel()), "written temperature")
            for j, nm in enumerate(("ipf_x", "ipf_y", "ipf_z")):
                w = rgb[j][am].copy(); w[liq] = 0
                close(r.cell_data[nm][0], w, f"written colours {nm} (black in the liquid)", atol=1e-6, rtol=0)
            close(np.asarray(F.unique_oris_rgb), rgb, "orientation colours are not changed by writing", rtol=0)
            expect(np.array_equal(r.cell_data["grain_inds"][0].ravel(), grains), "written grains")
            close(r.points[r.cells[0].data].mean(1), cen, "written mesh", rtol=1e-9)
        bad = eta0.copy(); bad[0, 0] = np.nan
        for e, should in ((eta0, False), (bad, True)):
            try:
                with no_plots(): S.inspect_sol(J.asarray(e), J.asarray(eta0), J.full((n, 1), 300.), np.arange(3), 1)
                raised = False
            except ValueError:
                raised = True
            expect(raised == should, "inspection stops exactly on non-finite order parameters", nan=should)
        # --- layers
        cur = F
        labs = [lab]; gr = [grains]
        for l in range(1, c["layers"] + 1):
            g2 = rng.integers(0, c["g"], n); g2[rng.integers(n)] = c["g"] - 1
            neper(os.path.join(tmp, "neper"), N, L, g2)
            with no_plots():
                cur = generate_new_mesh(a, ori if c["given"] else Orientation(q), cur, l)
            gr.append(g2)
            m = l + 1
            expect(len(cur.cell_ori_inds) == m * n and len(cur.centroids) == m * n and len(cur.mesh.cells[0].data) == m * n, "cells of the stacked polycrystal")
            want = np.concatenate([cen + [0, 0, L[2] * i] for i in range(m)])
            close(cur.centroids, want, "centroids of the stacked layers", rtol=1e-9)
            X8 = np.asarray(cur.mesh.points)[np.asarray(cur.mesh.cells[0].data)]
            close(X8, np.concatenate([P[C] + [0, 0, L[2] * i] for i in range(m)]), "geometry of the stacked layers", rtol=1e-9)
            expect(np.array_equal(np.concatenate(gr), np.asarray(cur.mesh.cell_data["grain_inds"][0]).ravel()), "grains of the stacked layers")
            expect(np.array_equal(np.concatenate(gr) + 1, np.asarray(cur.mesh.cell_data["gmsh:physical"][0]).ravel()), "tags of the stacked layers")
            expect(np.array_equal(np.asarray(cur.cell_ori_inds)[:n * l], np.concatenate(labs)), "orientations of the lower layers are kept")
            labs.append(np.asarray(cur.cell_ori_inds)[n * l:])
            for g in range(c["g"]):
                expect(len(np.unique(labs[-1][g2 == g])) <= 1, "all cells of a new grain have one orientation", grain=g)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return info(c["g"] > 1 and n > 1, "given" if c["given"] else "random", f"layers={c['layers']}")


def stats(c):
    import meshio
    from scipy import ndimage
    from jax_am.phase_field.utils import process_eta, compute_edges_in_order, BFS
    from jax_am.common import box_mesh
    rng = np.random.default_rng(c["seed"])
    N, L = c["N"], c["L"]
    n = int(np.prod(N)); k = c["k"]
    shape = (N[2], N[1], N[0])
    if c["map"] == "blocks":
        lab = (np.indices(shape) // np.array(c["blk"]).reshape(3, 1, 1, 1)).sum(0) % k
    elif c["map"] == "random":
        lab = rng.integers(0, k, shape)
    else:
        lab = np.minimum((ndimage.gaussian_filter(rng.standard_normal(shape), 1.) > 0) + 0, k - 1)
    T = np.where(rng.random(shape) < c["liq"], 1700., 1000.)
    if c["exact"]: T = np.where(rng.random(shape) < .1, 1623., T)
    a = dict(Nx=N[0], Ny=N[1], Nz=N[2], num_oris=k, domain_x=L[0], domain_y=L[1], domain_z=L[2], T_liquidus=1623.)
    tmp = tempfile.mkdtemp()
    out = contextlib.redirect_stdout(io.StringIO())
    try:
        a["data_dir"] = tmp
        P, C = neper(os.path.join(tmp, "neper"), N, L, lab.ravel())
        os.makedirs(os.path.join(tmp, "vtk/pf/sols"))
        meshio.Mesh(P, [("hexahedron", C)], cell_data={"ori_inds": [lab.ravel().astype(np.int32)], "T": [T.reshape(-1, 1).astype(np.float32)]}).write(os.path.join(tmp, "vtk/pf/sols/u013.vtu"))
        with out:
            edges = compute_edges_in_order(a)
            vols, ratios = process_eta(a)
            sep = BFS(edges, T.ravel() < 1623., lab.ravel(), a, combined=False)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # adjacency
    expect(len(edges) == n, "adjacency of every cell")
    for i, (z, y, x) in enumerate(np.ndindex(*shape)):
        want = sorted(((z + dz) * N[1] + y + dy) * N[0] + x + dx for dz, dy, dx in ((0, 0, 1), (0, 0, -1), (0, 1, 0), (0, -1, 0), (1, 0, 0), (-1, 0, 0)) if 0 <= z + dz < N[2] and 0 <= y + dy < N[1] and 0 <= x + dx < N[0])
        expect(sorted(int(e) for e in edges[i]) == want, "face neighbours of a cell", cell=i)
    # grains
    cell = np.prod(L) / n
    cen = P[C].mean(1)
    want = []
    for o in range(k):
        comp, m = ndimage.label((lab == o) & (T < 1623.))
        per = sorted(sorted(np.flatnonzero(comp.ravel() == j).tolist()) for j in range(1, m + 1))
        expect(sorted(sorted(int(v) for v in g) for g in sep[o]) == per, "grains of an orientation are the connected solid components", orientation=o)
        for g in per:
            if len(g) < 5: r = 1.
            else:
                s = np.linalg.svd(cen[g] - cen[g].mean(0), compute_uv=False)
                r = None if s[1] < 1e-6 * s[0] else 2 * s[0] / (s[1] + s[2])
            want.append((len(g) * cell, r))
    expect(len(vols) == len(ratios) == len(want), "number of grains", got=len(vols), expected=len(want))
    close(sum(vols) if len(vols) else 0., cell * np.sum(T < 1623.), "grain volumes add up to the solid volume", rtol=1e-9, atol=1e-12 * np.prod(L))
    got = [(float(v), float(r)) for v, r in zip(vols, ratios)]
    # multiset comparison of (volume, ratio); degenerate grains match any ratio
    got.sort(); deg = [w for w in want if w[1] is None]; reg = sorted(w for w in want if w[1] is not None)
    rest = list(got)
    for v, r in reg:
        j = [i for i, (a1, b1) in enumerate(rest) if abs(a1 - v) <= 1e-9 * v and abs(b1 - r) <= (1e-6 + 2e-7 * r) * r]       # the smallest extent is known to round-off of the largest
        expect(j, "volume and aspect ratio of a grain", volume=v, ratio=r, got=rest[:6])
        rest.pop(j[0])
    for v, _ in deg:
        j = [i for i, (a1, b1) in enumerate(rest) if abs(a1 - v) <= 1e-9 * v]
        expect(j, "volume of a grain", volume=v)
        rest.pop(j[0])
    return info(len(want) > 1, c["map"], "liquid" if c["liq"] else "solid")


def pre(c):
    """pre_processing runs Neper only if there is no mesh yet (os.system replaced by a recorder)."""
    from jax_am.phase_field import neper as M
    from jax_am.phase_field.yaml_parser import pf_parse
    import yaml
    tmp = tempfile.mkdtemp(); calls = []
    old = os.system
    try:
        os.system = lambda s: calls.append(s) or 0
        a = dict(data_dir=os.path.join(tmp, "d"), num_grains=c["g"], id=c["id"], domain_x=c["L"][0], domain_y=c["L"][1], domain_z=c["L"][2])
        d = os.path.join(tmp, "d", c["sub"] or "neper")
        if c["have"]:
            os.makedirs(d); open(os.path.join(d, "domain.msh"), "w").write("mesh")
        with contextlib.redirect_stdout(io.StringIO()):
            M.pre_processing(a, **({"neper_path": c["sub"]} if c["sub"] else {}))
            f = os.path.join(tmp, "p.yaml"); open(f, "w").write(yaml.dump({k: v for k, v in a.items()}))
            expect(pf_parse(f) == a, "parsed phase-field parameters differ from the file")
        expect(os.path.isdir(d), "neper folder")
        if c["have"]:
            expect(not calls and open(os.path.join(d, "domain.msh")).read() == "mesh", "an existing mesh is kept and nothing is run", calls=calls)
        else:
            t = "".join(calls[0].split()) if calls else ""
            expect(len(calls) >= 2 and all(s.strip().startswith("neper") for s in calls), "tessellation and meshing are run", calls=calls)
            expect(f"-n{c['g']}-id{c['id']}" in t and f"cube({c['L'][0]},{c['L'][1]},{c['L'][2]})" in t.replace("\\", "") and os.path.join(d, "domain") in t, "Neper is asked for the requested grains and domain", call=calls[0])
    finally:
        os.system = old
        shutil.rmtree(tmp, ignore_errors=True)
    return info(True, "have" if c["have"] else "new")


ext = st.sampled_from([1., .2, 3., .05])


@st.composite
def icases(draw):
    N = [draw(st.integers(1, 5)) for _ in range(3)]
    g = draw(st.integers(1, 6))
    return dict(N=N, L=[draw(ext) for _ in range(3)], g=g, k=draw(st.integers(1, 5)), given=draw(st.booleans()), ident=draw(st.booleans()), layers=draw(st.sampled_from([0, 0, 1, 2, 3])), w=draw(st.integers(1, 3)), wi=draw(st.sampled_from([1, 5])), jx=draw(st.booleans()), seed=draw(st.integers(0, 10**6)))


@st.composite
def scases(draw):
    return dict(N=[draw(st.integers(1, 6)) for _ in range(3)], L=[draw(ext) for _ in range(3)], k=draw(st.integers(1, 4)), map=draw(st.sampled_from(["random", "blocks", "smooth"])), blk=[draw(st.integers(1, 4)) for _ in range(3)], liq=draw(st.sampled_from([0., .15, .5])), exact=draw(st.booleans()), seed=draw(st.integers(0, 10**6)))


pc = st.fixed_dictionaries({"g": st.integers(1, 500), "id": st.integers(0, 9), "L": st.lists(ext, min_size=3, max_size=3), "have": st.booleans(), "sub": st.sampled_from([None, "other"])})
FACETS = [Facet("ingest", icases(), ingest, quick=120, thorough=2000), Facet("statistics", scases(), stats, quick=240, thorough=5000), Facet("preprocessing", pc, pre, quick=80, thorough=500)]
