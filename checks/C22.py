import io, contextlib
import numpy as np
from hypothesis import strategies as st
from vp import Facet, Violation, info, expect, close, fail
import strat, femgen as G

PROPERTY = "C22"
LEVEL = "exploration"
RULE = "Hypothesis draws full meshes (any 3-D element type, renumbered), births of cells in arbitrary order and grouping, and schedules of heated / unheated time steps; oracle: a census of the faces of the active cells, and an independently assembled backward-Euler heat step; non-trivial if cells are born after the start"
ASSUMPTIONS = ["cells are only born, never removed (element-birth method)", "thermal steps: parallelepiped HEX8 cells and boundary fluxes linear in position and old temperature, so that the integrals do not depend on the integration rule", "horizontal faces differ in height by more than the documented 1e-5"]


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def exterior(et, cells, active):
    """faces (sets of corner nodes) owned by exactly one active cell -> {face: (cell, my local face)}"""
    seen = {}
    for ci in np.flatnonzero(active):
        for fi, f in enumerate(G.face_corner_sets(et)):
            seen.setdefault(frozenset(int(cells[ci][i]) for i in f), []).append((int(ci), fi))
    return {k: v[0] for k, v in seen.items() if len(v) == 1}


class Driver:
    """the code's own bookkeeping, driven as in the build-up examples"""
    def __init__(self, X, cells, et):
        from jax_am.fem.generate_mesh import Mesh
        from jax_am.fem.basis import get_face_shape_vals_and_grads
        import applications.fem.thermal.models as T
        self.T, self.X, self.cells, self.et = T, X, cells, et
        self.full = Mesh(X, cells, et)
        self.fi = np.asarray(get_face_shape_vals_and_grads(et)[4])
        self.old = None

    def update(self, active):
        T = self.T
        self.mesh, self.pmap, self.cmap = T.get_active_mesh(self.full, active)
        if self.old is None:
            self.ext, self.cf, self.hm, self.inner, self.all = quiet(T.initialize_hash_map, self.full, active, self.cmap, self.et)
        else:
            self.ext, self.hm, self.inner, self.all = quiet(T.update_hash_map, self.old, active, self.cmap, self.cf, self.hm, self.inner, self.all)
        self.old = active.copy()
        return self

    def judge(self, active, what):
        X, cells, et = self.X, self.cells, self.et
        ids = np.flatnonzero(active)
        m = self.mesh
        mc, mp = np.asarray(m.cells), np.asarray(m.points)
        expect(mc.shape == (len(ids), cells.shape[1]), f"{what}: number of active cells", got=mc.shape, expected=len(ids))
        used = np.unique(cells[ids])
        expect(len(mp) == len(used), f"{what}: the active mesh has exactly the points of the active cells", got=len(mp), expected=len(used))
        pm = np.asarray(self.pmap)
        expect(pm.shape == (len(mp),) and np.array_equal(np.sort(pm), used), f"{what}: map of active points to full points")
        expect(np.array_equal(X[pm], mp), f"{what}: active points are not the mapped full points")
        cm = np.asarray(self.cmap)
        for a in ids:
            expect(0 <= cm[a] < len(ids), f"{what}: map of full cells to active cells out of range")
            expect(np.array_equal(pm[mc[cm[a]]], cells[a]), f"{what}: an active cell has other nodes than the full cell it stands for", cell=int(a))
        expect(len(set(cm[ids].tolist())) == len(ids), f"{what}: two full cells map to one active cell")
        ext = np.asarray(self.ext)
        want = exterior(et, cells, active)
        nc = G.NCORNER[et]
        got = []
        for a, f in ext:
            expect(0 <= a < len(ids) and 0 <= f < len(self.fi), f"{what}: external face out of range", face=(int(a), int(f)))
            cor = [i for i in self.fi[f] if i < nc]
            got.append(frozenset(int(pm[mc[a][i]]) for i in cor))
        expect(len(set(got)) == len(got), f"{what}: an external face is listed twice")
        mis, ext_ = set(want) - set(got), set(got) - set(want)
        expect(not mis and not ext_, f"{what}: external faces are not the faces of exactly one active cell", missing=[sorted(f) for f in list(mis)[:2]], extra=[sorted(f) for f in list(ext_)[:2]])


def births(c, nc):
    """sequence of truth tables"""
    rng = np.random.default_rng([c["seed"], 221])
    order = rng.permutation(nc) if c["order"] == "random" else np.arange(nc) if c["order"] == "up" else np.arange(nc)[::-1]
    n0 = max(1, int(c["first"] * nc))
    cuts = sorted({n0} | {int(x) for x in rng.integers(n0, nc + 1, size=c["waves"])})
    cuts = [cuts[0]] + [k for k in cuts[1:] for _ in range(1 + (rng.random() < .3))]      # sometimes nothing is born
    tab = []
    for k in cuts:
        a = np.zeros(nc, bool); a[order[:k]] = True; tab.append(a)
    return tab


def history(c):
    X, cells = G.build(c["mesh"])
    et = c["mesh"]["et"]
    d = Driver(X, cells, et)
    tabs = births(c, len(cells))
    for k, a in enumerate(tabs):
        d.update(a).judge(a, f"after {k} updates")
    return info(len(tabs) > 1 and not np.array_equal(tabs[0], tabs[-1]), et, c["order"], f"updates={len(tabs) - 1}")


# ---------------------------------------------------------------- heat steps
def plate(c):
    """tensor-product HEX8 lattice, sheared in x and y: horizontal faces stay horizontal"""
    rng = np.random.default_rng([c["seed"], 222])
    h = [np.cumsum(np.r_[0, rng.uniform(.6, 1.4, size=n)]) * c["h"] for n in c["N"]]
    m = dict(et="HEX8", N=c["N"], L=[float(n) for n in c["N"]], geom="box", seed=c["seed"], amp=0., perm=c["perm"])
    X, cells = G.build(m)
    I = np.rint(X).astype(int)
    P = np.stack([h[k][I[:, k]] for k in range(3)], 1)
    if c["shear"]:
        P[:, 0] += .3 * P[:, 2] + .2 * P[:, 1]; P[:, 1] += -.2 * P[:, 2]
    V = P[cells]
    det = np.linalg.det(G.jac("HEX8", V, np.full((1, 3), .5)))
    expect(np.all(det > 0), "check: lattice orientation")
    return P, cells


def flux(k, co, xp):
    """(point, old temperature) -> flux, linear in both; [walls, top]"""
    def f(p, T):
        return xp.array([co[k][0] + co[k][1] @ p + co[k][2] * T[0]])
    return f


def ref_step(P, cells, active, T0, co, on, rho, Cp, dt):
    ids = np.flatnonzero(active)
    n = len(P)
    A = np.zeros((n, n)); b = np.zeros(n)
    xi, w = G.quad_rule("HEX8", 3)
    N = G.shape("HEX8", xi); dN = G.dshape("HEX8", xi)
    for ci in ids:
        nd = cells[ci]
        J = G.jac("HEX8", P[nd][None], xi)[0]
        det = np.linalg.det(J)
        g = np.einsum('qnj,qji->qni', dN, np.linalg.inv(J))
        M = np.einsum('qa,qb,q->ab', N, N, w * det)
        K = 15. * np.einsum('qai,qbi,q->ab', g, g, w * det)
        A[np.ix_(nd, nd)] += rho * Cp / dt * M + K
        b[nd] += rho * Cp / dt * M @ T0[nd]
    fcs = G.face_corner_sets("HEX8")
    for f, (ci, fi) in exterior("HEX8", cells, active).items():
        nd = cells[ci]
        z = P[list(f), 2]
        hor = np.ptp(z) < 1e-5 and z[0] > 0
        pt, T, wf = G.face_rule("HEX8", fcs[fi], 3)
        ds = wf * np.linalg.norm(G.face_measure("HEX8", P[nd][None], pt, T), axis=-1)[0]
        Nf = G.shape("HEX8", pt)
        for k in range(2 if on else 1):
            if k == 1 and not hor:
                continue
            q = co[k][0] + (Nf @ P[nd]) @ co[k][1] + co[k][2] * (Nf @ T0[nd])
            b[nd] += Nf.T @ (q * ds)
    used = np.unique(cells[ids])
    out = T0.copy()
    out[used] = np.linalg.solve(A[np.ix_(used, used)], b[used])
    return out


def steps(c):
    import femlib as F
    import jax.numpy as jnp
    from jax_am.fem.solver import solver
    F.tick(6)
    P, cells = plate(c)
    rho, Cp = c["rho"], c["Cp"]
    rng = np.random.default_rng([c["seed"], 223])
    size = np.ptp(P, axis=0).max()
    s = 15. / c["h"]                        # natural heat-transfer coefficient of one cell
    co = [(s * 100 * rng.normal(), s * 100 / size * rng.normal(size=3), -s * rng.uniform(0, .5)) for _ in range(2)]
    d = Driver(P, cells, "HEX8")
    tabs = births(dict(c, waves=len(c["ops"]) - 1), len(cells))
    full = 300. + (100 * rng.random(len(P)) if c["warm"] else np.zeros(len(P)))
    ref = full.copy()
    prob = None; was = None; nborn = 0; modes = set()
    for k, op in enumerate(c["ops"]):
        a = tabs[min(k, len(tabs) - 1)]
        born = d.old is None or not np.array_equal(a, d.old)
        nborn += born and k > 0
        d.update(a)
        dt = c["dt"][op["dt"]] * rho * Cp * c["h"] ** 2 / 15.
        key = (op["on"], dt)
        pm = np.asarray(d.pmap)
        if born or key != was:
            fns = [flux(0, co, jnp), flux(1, co, jnp)][:2 if op["on"] else 1]
            prob = d.T.Thermal(d.mesh, vec=1, dim=3, ele_type="HEX8", dirichlet_bc_info=[[], [], []], neumann_bc_info=[None, fns],
                               additional_info=(jnp.array(full[pm])[:, None], rho, Cp, dt, d.ext))
            was = key
        sol = np.asarray(quiet(solver, prob, linear=op["linear"], use_petsc=op["petsc"]))
        expect(sol.shape == (len(pm), 1) and np.all(np.isfinite(sol)), f"step {k + 1}: finite temperatures of the right shape")
        prob.update_int_vars(jnp.array(sol))
        full = full.copy(); full[pm] = sol[:, 0]
        ref = ref_step(P, cells, a, ref, co, op["on"], rho, Cp, dt)
        sc = np.max(np.abs(ref))
        tol = 1e-4 if op["petsc"] and op["linear"] else 1e-6
        close(full, ref, f"step {k + 1} ({'laser on' if op['on'] else 'laser off'}, {'cells born' if born and k else 'same cells'}): temperature is not the backward-Euler step of the active cells", atol=tol * sc * (1 + k) * 3, rtol=0)
        ref = full.copy()       # each step is judged on its own
        modes.add(op["on"])
    return info(nborn > 0, f"births={nborn}", "on and off" if len(modes) == 2 else "one mode", "re-used problem" if len(c["ops"]) > nborn + 1 else "")


@st.composite
def hists(draw):
    m = draw(strat.meshes(ets=["HEX8", "TET4", "HEX20", "HEX27", "TET10", "HEX8"], max_cells=40))
    return dict(mesh=m, seed=draw(strat.seeds), order=draw(st.sampled_from(["random", "up", "down"])), first=draw(st.sampled_from([.1, .3, .6])), waves=draw(st.integers(1, 5)))


opn = st.fixed_dictionaries({"on": st.booleans(), "dt": st.integers(0, 1), "linear": st.booleans(), "petsc": st.booleans()})


@st.composite
def heats(draw):
    N = draw(st.sampled_from([[3, 2, 3], [2, 2, 2], [4, 1, 3], [1, 1, 4], [2, 3, 2]]))
    ops = draw(st.lists(opn, min_size=2, max_size=4))
    if draw(st.booleans()):
        ops[1].update(on=ops[0]["on"], dt=ops[0]["dt"])
    return dict(N=N, seed=draw(strat.seeds), perm=draw(st.booleans()), shear=draw(st.booleans()), h=draw(st.sampled_from([1e-3, 5e-4, 1.])), rho=draw(st.sampled_from([8440., 1000.])), Cp=draw(st.sampled_from([500., 800.])),
                dt=draw(st.sampled_from([[.1, 1.], [1., .3], [10., .05]])), warm=draw(st.booleans()), ops=ops, order=draw(st.sampled_from(["random", "up", "random"])), first=draw(st.sampled_from([.3, .6, .1])))


FACETS = [
    Facet("faces", hists(), history, quick=200, thorough=4000),
    Facet("heat", heats(), steps, quick=40, thorough=800),
]
