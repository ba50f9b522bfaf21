import os, json, tempfile, shutil
import numpy as np
from hypothesis import strategies as st
from vp import Facet, Violation, info, expect, close, fail
import strat, femgen as G, femlib

PROPERTY = "C13"
LEVEL = "exploration"
RULE = "Hypothesis draws meshes, solutions, named cell/point data, directory states, parameter documents, file histories (creation order, fields, time steps) and wrapped functions; oracle: round trip through independent readers and a direct tabulation; non-trivial if at least one data array, document entry or output file beyond the first is involved"
ASSUMPTIONS = ["data export: output files carry their five-digit step number, written every `stepsave` steps from step 0, all with the same fields (what the package's own writers produce); stepsave is read from the second file; times are tabulated to 8 decimals"]

name = st.text("abcdefghijklmnopqrstuvwxyzABC_0123456789", min_size=1, max_size=8).filter(lambda s: s != "sol")
num = st.floats(-1e6, 1e6, allow_nan=False, width=32) | st.sampled_from([0., 1e-30, -3.5e30, 1. / 3])


@st.composite
def saves(draw):
    m = draw(strat.meshes(max_cells=6))
    return dict(mesh=m, vec=draw(st.sampled_from([1, 2, 3, 6])), seed=draw(st.integers(0, 10**6)), scale=draw(st.sampled_from([1., 1e-12, 1e9])),
                cells=draw(st.lists(name, unique=True, max_size=3)), pts=draw(st.lists(st.tuples(name, st.sampled_from([0, 1, 3, 6])), unique_by=lambda t: t[0], max_size=3)),
                ints=draw(st.booleans()), dir=draw(st.sampled_from(["new", "nested", "exists", "overwrite", "cwd"])), jaxarr=draw(st.booleans()), none=draw(st.booleans()), fmt=draw(st.sampled_from(["vtu", "vtu", "vtk"])))


def f32(a):
    return np.asarray(a, dtype=np.float32)


def same(got, want, what):
    want = f32(want); got = np.asarray(got)
    if want.ndim == 2 and want.shape[1] == 1 and got.ndim == 1:
        got = got[:, None]
    if want.ndim == 2 and want.shape[1] == 2 and got.ndim == 2 and got.shape[1] == 3 and not np.any(got[:, 2]):
        got = got[:, :2]            # vtk has no 2-component vectors: padded by zeros
    expect(got.shape == want.shape, f"{what}: shape", got=got.shape, expected=want.shape)
    expect(np.array_equal(f32(got), want), f"{what}: values differ from the data given")


def save(c):
    import meshio, jax.numpy as jnp
    from jax_am.fem.utils import save_sol
    from jax_am.fem.core import FEM
    femlib.tick()
    m = c["mesh"]
    X, cells = G.build(m)
    et = m["et"]
    class P(FEM):
        pass
    prob = femlib.make(P, m, X, cells, vec=c["vec"])
    rng = np.random.default_rng(c["seed"])
    arr = (lambda a: jnp.asarray(a)) if c["jaxarr"] else (lambda a: a)
    raw = {}
    def mk(shape):
        a = rng.integers(-9, 9, shape) if c["ints"] else rng.standard_normal(shape) * c["scale"]
        return a
    sol = mk((len(X), c["vec"]))
    ci = [(n, mk((len(cells),))) for n in c["cells"]]
    pi = [(n, mk((len(X),) if k == 0 else (len(X), k))) for n, k in c["pts"] if n not in c["cells"]]
    tmp = tempfile.mkdtemp()
    try:
        d = {"new": "a", "nested": "a/b/c", "exists": "e", "overwrite": "e", "cwd": "w"}[c["dir"]]
        f = os.path.join(tmp, d, "u." + c["fmt"])
        if c["dir"] in ("exists", "overwrite"):
            os.makedirs(os.path.dirname(f)); open(os.path.join(tmp, d, "keep.txt"), "w").write("keep")
            if c["dir"] == "overwrite":
                open(f, "w").write("junk" * 50000)
        kw = {}
        if ci or not c["none"]: kw["cell_infos"] = [(n, arr(a)) for n, a in ci]
        if pi or not c["none"]: kw["point_infos"] = [(n, arr(a)) for n, a in pi]
        if c["dir"] == "cwd":
            cwd = os.getcwd(); os.makedirs(os.path.dirname(f)); os.chdir(os.path.dirname(f))
            try:
                save_sol(prob, arr(sol), "u." + c["fmt"], **kw)
            finally:
                os.chdir(cwd)
        else:
            save_sol(prob, arr(sol), f, **kw)
        r = meshio.read(f)
        if c["dir"] in ("exists", "overwrite"):
            expect(open(os.path.join(tmp, d, "keep.txt")).read() == "keep", "save_sol touched another file")
        expect(set(os.listdir(os.path.dirname(f))) - {"keep.txt"} == {"u." + c["fmt"]}, "save_sol left other files")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    P3 = np.zeros((len(X), 3)); P3[:, :X.shape[1]] = X
    R = np.asarray(r.points)
    expect(np.array_equal(R if R.shape[1] == 3 else np.pad(R, ((0, 0), (0, 3 - R.shape[1]))), P3), "file has other points than the mesh")
    key = {"TET4": "tetra", "TET10": "tetra10", "HEX8": "hexahedron", "HEX20": "hexahedron20", "HEX27": "hexahedron27", "TRI3": "triangle", "TRI6": "triangle6", "QUAD4": "quad", "QUAD8": "quad8"}[et]
    expect(len(r.cells) == 1 and r.cells[0].type == key, "cell type in the file", got=[b.type for b in r.cells], expected=key)
    expect(np.array_equal(r.cells[0].data, cells), "file has other cells than the mesh")
    expect(set(r.point_data) == {"sol"} | {n for n, _ in pi}, "names of the point data", got=list(r.point_data))
    expect(set(r.cell_data) == {n for n, _ in ci}, "names of the cell data", got=list(r.cell_data))
    same(r.point_data["sol"], sol, "solution")
    for n, a in pi: same(r.point_data[n], a, "point data")
    for n, a in ci: same(r.cell_data[n][0], a, "cell data")
    return info(bool(ci or pi), et, c["dir"], c["fmt"])


# -- version conversion of fenicsx files
def convert(c):
    import meshio
    from jax_am.fem.utils import modify_vtu_file
    old = '<VTKFile type="UnstructuredGrid" version="2.2">'; new = '<VTKFile type="UnstructuredGrid" version="1.0">'
    rng = np.random.default_rng(c["seed"])
    m = c["mesh"]
    X, cells = G.build(m)
    X3 = np.zeros((len(X), 3)); X3[:, :X.shape[1]] = X
    u = rng.standard_normal((len(X), 3))
    vt = {"TET4": 10, "HEX8": 12, "TRI3": 5, "QUAD4": 9}[m["et"]]
    rows = lambda A, f: ("\n" if c["multi"] else " ").join(" ".join(f % v for v in r) for r in np.atleast_2d(A))
    head = old if c["ver"] == "2.2" else new
    body = [ '<?xml version="1.0"?>'] * c["xml"] + [head, "<UnstructuredGrid>", f'<Piece NumberOfPoints="{len(X)}" NumberOfCells="{len(cells)}">', "<Points>",
            '<DataArray type="Float64" NumberOfComponents="3" format="ascii">' + rows(X3, "%.17g") + "</DataArray>", "</Points>", "<Cells>",
            '<DataArray type="Int32" Name="connectivity" format="ascii">' + rows(cells, "%d") + "</DataArray>",
            '<DataArray type="Int32" Name="offsets" format="ascii">' + rows(cells.shape[1] * (1 + np.arange(len(cells))), "%d") + "</DataArray>",
            '<DataArray type="Int8" Name="types" format="ascii">' + rows(np.full(len(cells), vt), "%d") + "</DataArray>", "</Cells>",
            "<!-- " + c["note"] + " -->", '<PointData Vectors="u">',
            '<DataArray type="Float64" Name="u" NumberOfComponents="3" format="ascii">' + rows(u, "%.17g") + "</DataArray>", "</PointData>", "</Piece>", "</UnstructuredGrid>", "</VTKFile>"]
    text = "\n".join(body) + "\n" * c["nl"]
    if c["indent"]:
        text = text.replace("\n<", "\n  <")
    tmp = tempfile.mkdtemp()
    try:
        a, b = os.path.join(tmp, "a.vtu"), os.path.join(tmp, "b.vtu")
        open(a, "w").write(text)
        if c["stale"]: open(b, "w").write("x" * 10**5)
        modify_vtu_file(a, b)
        expect(open(a).read() == text, "modify_vtu_file changed its input")
        got = open(b).read()
        want = text.replace(old, new)
        expect(got == want, "modify_vtu_file: only the version of the VTKFile header may change", got=got[:300], expected=want[:300])
        r = meshio.read(b)
        expect(np.array_equal(r.points, X3) and np.array_equal(r.cells[0].data, cells) and np.array_equal(r.point_data["u"], u), "converted file carries other data")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return info(c["ver"] == "2.2", c["ver"])


@st.composite
def converts(draw):
    return dict(mesh=draw(strat.meshes(ets=("TET4", "HEX8", "TRI3", "QUAD4"), max_cells=6)), seed=draw(st.integers(0, 10**6)), multi=draw(st.booleans()), xml=draw(st.integers(0, 1)),
                nl=draw(st.integers(0, 2)), indent=draw(st.booleans()), ver=draw(st.sampled_from(["2.2", "2.2", "1.0"])), stale=draw(st.booleans()),
                note=draw(st.sampled_from(["", "version=\"2.2\"", "VTKFile version 2.2", "2.2 2.2", "<VTKFile type=\"ImageData\" version=\"2.2\">"])))


# -- abaqus conversion
def abaqus(c):
    import meshio
    from jax_am.fem.utils import read_abaqus_and_write_vtk
    m = c["mesh"]
    X, cells = G.build(m)
    X3 = np.zeros((len(X), 3)); X3[:, :X.shape[1]] = X
    el = {"TET4": "C3D4", "HEX8": "C3D8", "TRI3": "S3", "QUAD4": "S4"}[m["et"]]
    rng = np.random.default_rng(c["seed"])
    ids = 1 + (rng.permutation(len(X)) if c["shuffle"] else np.arange(len(X))) + c["off"]
    lines = ["*HEADING", "*NODE"] + [f"{i}, " + ", ".join("%.16e" % v for v in x) for i, x in zip(ids, X3)] + [f"*ELEMENT, TYPE={el}"] + [f"{k + 1}, " + ", ".join(str(ids[n]) for n in cl) for k, cl in enumerate(cells)]
    tmp = tempfile.mkdtemp()
    try:
        a, b = os.path.join(tmp, "a.inp"), os.path.join(tmp, "b.vtu")
        open(a, "w").write("\n".join(lines) + "\n")
        read_abaqus_and_write_vtk(a, b)
        r = meshio.read(b)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    close(np.asarray(r.points)[np.asarray(r.cells[0].data)], X3[cells], "abaqus conversion: cell coordinates", rtol=1e-12)
    return info(True, el)


@st.composite
def abqs(draw):
    return dict(mesh=draw(strat.meshes(ets=("TET4", "HEX8", "TRI3", "QUAD4"), max_cells=6)), seed=draw(st.integers(0, 10**6)), shuffle=draw(st.booleans()), off=draw(st.sampled_from([0, 0, 7])))


# -- parameter files
leaf = st.none() | st.booleans() | st.integers(-10**12, 10**12) | st.floats(allow_nan=False, allow_infinity=False) | st.text("ab cdeZ:#'\"{}[]-_1é\n", max_size=8) | st.sampled_from(["1e-3", "yes", "null", "2e5", "0x10", "1_000"])
key = st.text("abcxyz_123", min_size=1, max_size=6)
docs = st.dictionaries(key, st.recursive(leaf, lambda s: st.lists(s, max_size=3) | st.dictionaries(key, s, max_size=3), max_leaves=12), max_size=6)


def eq(a, b):
    if type(a) is not type(b): return False
    if isinstance(a, dict): return list(a) == list(b) and all(eq(a[k], b[k]) for k in a)
    if isinstance(a, list): return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return a == b


def parse(c):
    import yaml, contextlib, io
    from jax_am.common import json_parse, yaml_parse
    tmp = tempfile.mkdtemp()
    doc = c["doc"]
    try:
        f = os.path.join(tmp, "p")
        text = json.dumps(doc, indent=c["indent"]) if c["json"] else yaml.dump(doc, default_flow_style=c["flow"], sort_keys=False, allow_unicode=c["flow"])
        open(f, "w", encoding="utf-8").write(text)
        with contextlib.redirect_stdout(io.StringIO()):
            got = (json_parse if c["json"] else yaml_parse)(f)
            got2 = (json_parse if c["json"] else yaml_parse)(f)
        expect(open(f, encoding="utf-8").read() == text, "parser changed its file")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    expect(eq(got, doc), "parsed parameters differ from the file", got=got, expected=doc)
    expect(eq(got2, doc), "second parse of the file differs", got=got2, expected=doc)
    return info(len(doc) > 0, "json" if c["json"] else "yaml")


parses = st.fixed_dictionaries({"doc": docs, "json": st.booleans(), "flow": st.booleans(), "indent": st.sampled_from([None, 2])})


# -- decorators
class Boom(Exception):
    pass


def decor(c):
    import time
    from jax_am.common import timeit, walltime
    calls = []
    def fun(*a, **k):
        "doc of fun"
        calls.append((a, k))
        if c["raise"]:
            raise Boom(c["ret"])
        return ret if c["bare"] else (a, k, ret)
    ret = c["ret"]
    tmp = tempfile.mkdtemp()
    try:
        kw = {}
        if c["dir"]: kw["txt_dir"] = os.path.join(tmp, c["dir"])
        if c["fn"]: kw["filename"] = c["fn"]
        w = timeit(fun) if c["which"] == "timeit" else walltime(**kw)(fun)
        if c["which"] == "timeit":
            expect(w.__name__ == "fun" and w.__doc__ == "doc of fun", "timeit must keep the function's name and doc")
        a, k = tuple(c["args"]), c["kw"]
        for rep in range(c["reps"]):
            t0 = time.time()
            try:
                got = w(*a, **k)
            except Boom as e:
                expect(c["raise"] and e.args == (ret,), "the wrapped function's exception is changed")
                got = None
            else:
                expect(not c["raise"], "the wrapped function's exception is swallowed")
                expect(got is ret if c["bare"] else got == (a, k, ret) and (got[2] is ret), "decorated function returns something else", got=got)
            t1 = time.time()
            expect(len(calls) == rep + 1 and calls[-1] == (a, k), "decorated function must call the function exactly once with its arguments", calls=len(calls))
        if c["which"] == "walltime" and c["dir"] and not c["raise"]:
            files = os.listdir(kw["txt_dir"])
            expect(len(files) == 1 and files[0].startswith((c["fn"] or "walltime") + "_"), "walltime file name", got=files)
            v = [float(s) for s in open(os.path.join(kw["txt_dir"], files[0])).read().split(",")]
            expect(len(v) == 3 and t0 - 1e-3 <= v[0] <= v[1] <= t1 + 1e-3 and abs(v[1] - v[0] - v[2]) < 1e-5, "walltime record is not (start, end, elapsed) of the last call", got=v, window=(t0, t1))
        elif c["which"] == "walltime" and not c["dir"]:
            expect(os.listdir(tmp) == [], "walltime without a directory must not write")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return info(bool(c["args"] or c["kw"]), c["which"], "raise" if c["raise"] else "return")


decors = st.fixed_dictionaries({"which": st.sampled_from(["timeit", "walltime"]), "args": st.lists(leaf, max_size=3), "kw": st.dictionaries(key, leaf, max_size=3), "ret": leaf | st.just([]) | st.just({}), "bare": st.booleans(), "raise": st.booleans(),
                                "dir": st.sampled_from(["", "d", "d/e"]), "fn": st.sampled_from([None, "run1"]), "reps": st.integers(1, 3)})


# -- tabular export
def table(c):
    import meshio, contextlib, io, pandas as pd
    from jax_am.common import to_data_frame, box_mesh
    tmp = tempfile.mkdtemp(); cwd = os.getcwd()
    rng = np.random.default_rng(c["seed"])
    m = box_mesh(*c["N"], *c["L"])
    n = len(m.points)
    fields = [(f"f{i}", s) for i, s in enumerate(c["fields"])]
    data = []
    try:
        os.makedirs(os.path.join(tmp, "msh")); os.makedirs(os.path.join(tmp, "vtk"))
        with contextlib.redirect_stdout(io.StringIO()):
            meshio.write(os.path.join(tmp, "msh", "box.msh"), m, file_format="gmsh22")
            for k in range(c["n"]):
                data.append({nm: rng.standard_normal((n,) + tuple([s] if s else [])).astype(np.float32) for nm, s in fields})
            for k in (rng.permutation(c["n"]) if c["order"] == "shuffled" else range(c["n"]) if c["order"] == "up" else reversed(range(c["n"]))):
                meshio.Mesh(m.points, m.cells, point_data=data[k]).write(os.path.join(tmp, "vtk", f"u_{k * c['step']:05d}.vtu"))
            if c["extra"]: open(os.path.join(tmp, "vtk", "notes.txt"), "w").write("x")
            os.chdir(tmp)
            df = to_data_frame(tmp, **({} if c["dt"] is None else {"dt": c["dt"]}))
        csv = pd.read_csv(os.path.join(tmp, "data_frame.csv"))
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    dt = 2e-6 if c["dt"] is None else c["dt"]
    cols = ["x", "y", "z", "time"]
    for nm, s in fields:
        cols += [nm] if not s else [f"{nm}_{j}" for j in range(s)]
    expect(list(df.columns) == cols, "columns of the table", got=list(df.columns), expected=cols)
    expect(len(df) == n * c["n"], "the table has one row per node and output file", got=len(df), expected=n * c["n"])
    V = df.to_numpy(float)
    for k in range(c["n"]):
        B = V[k * n:(k + 1) * n]
        expect(np.all(np.abs(B[:, 3] - k * c["step"] * dt) <= 5.1e-9 + 1e-12 * abs(k * c["step"] * dt)), "time of an output file in the table (files in chronological order)", file=k, got=float(B[0, 3]), expected=k * c["step"] * dt)
        close(B[:, :3], m.points, "coordinates in the table", rtol=1e-12)
        want = np.concatenate([data[k][nm].reshape(n, -1) for nm, _ in fields], axis=1)
        close(B[:, 4:], want, f"values of output file {k} in the table", rtol=1e-6)
    close(csv.to_numpy(float), V, "csv file of the table", rtol=1e-6)
    return info(c["n"] > 1, f"fields={len(fields)}", c["order"])


@st.composite
def tables(draw):
    return dict(N=[draw(st.integers(1, 3)) for _ in range(3)], L=[draw(st.sampled_from([1., .5, 2.])) for _ in range(3)], n=draw(st.integers(2, 6)), step=draw(st.sampled_from([1, 5, 10, 100, 2500, 12500])),
                dt=draw(st.sampled_from([None, 1e-3, .5, 2e-6, 1e-7, 2e-8, 3.])), fields=draw(st.lists(st.sampled_from([0, 1, 3]), min_size=1, max_size=3)), order=draw(st.sampled_from(["up", "down", "shuffled"])), extra=draw(st.booleans()), seed=draw(st.integers(0, 10**6)))


FACETS = [
    Facet("save", saves(), save, quick=200, thorough=4000),
    Facet("convert", converts(), convert, quick=160, thorough=3000),
    Facet("abaqus", abqs(), abaqus, quick=60, thorough=1000),
    Facet("parse", parses, parse, quick=400, thorough=10000),
    Facet("decorators", decors, decor, quick=400, thorough=10000),
    Facet("table", tables(), table, quick=160, thorough=3000),
]
