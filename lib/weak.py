"""A family of weak forms, implemented once over an array module (jax.numpy for the code
under test, numpy for the independent reference assembly)."""
import numpy as np
from hypothesis import strategies as st
import strat, femgen as G

SYMM = ("sym",)

pred = st.fixed_dictionaries({"kind": st.sampled_from(["facet", "half", "ball", "all"]), "seed": strat.seeds,
                              "q": st.sampled_from([0.5, 1.0, 0.25, 0.75])})

COUNTS = {"HEX8": 45, "TET4": 48, "QUAD4": 45, "TRI3": 48, "HEX20": 6, "HEX27": 4, "TET10": 12, "QUAD8": 24, "TRI6": 24}


@st.composite
def big_meshes(draw, ets=G.ELEMS, geoms=("box", "affine", "jitter", "curved"), scale=1.0):
    et = draw(st.sampled_from(list(ets)))
    mc = COUNTS[et] if draw(st.booleans()) else min(8, COUNTS[et])
    return draw(strat.meshes(ets=[et], max_cells=max(1, int(mc * scale)), geoms=geoms))


@st.composite
def forms(draw, mesh=None, nonlinear=None):
    m = draw(mesh if mesh is not None else big_meshes())
    f = dict(mesh=m, vec=draw(st.integers(1, 3)), seed=draw(strat.seeds),
             flux=draw(st.sampled_from([True, True, True, False])), mass=draw(st.booleans()), source=draw(st.booleans()),
             neumann=draw(st.lists(pred, max_size=2)), cauchy=draw(st.lists(pred, max_size=2)),
             iv_flux=draw(st.integers(0, 2)), iv_mass=draw(st.integers(0, 2)), iv_neumann=draw(st.booleans()),
             nonlin=draw(st.booleans()) if nonlinear is None else nonlinear)
    if not f["flux"] and not f["mass"]:
        f["mass"] = True
    return f


@st.composite
def solvable(draw, max_dofs=90, nonlinear=None, sym=None, ets=G.ELEMS, geoms=("box", "affine", "jitter"), n_dir=None, pieces=True, scaled=False):
    """Well-posed boundary value problems: uniformly monotone flux, Dirichlet data on at
    least one facet plane per component (or a positive mass term)."""
    et = draw(st.sampled_from(list(ets)))
    mc = {"HEX8": 12, "TET4": 24, "QUAD4": 16, "TRI3": 24, "HEX20": 2, "HEX27": 1, "TET10": 6, "QUAD8": 6, "TRI6": 8}[et]
    m = draw(strat.meshes(ets=[et], max_cells=mc, geoms=geoms, drop=False, affine_too=False))
    m["L"] = [min(max(x, .5), 2.) for x in m["L"]]
    f = draw(forms(mesh=st.just(m), nonlinear=nonlinear))
    f["flux"] = True
    f["wellposed"] = "sym" if (draw(st.booleans()) if sym is None else sym) else "gen"
    ndof = len(G.lattice_cells(et, m["N"])[0])
    while ndof * f["vec"] > max_dofs and f["vec"] > 1:
        f["vec"] -= 1
    dirs = draw(st.lists(pred, min_size=0 if f["mass"] and n_dir is None else 1, max_size=2))
    for p in dirs:
        p["kind"] = "facet" if p["kind"] in ("all", "ball") else p["kind"]
    f["dir"] = dirs
    if scaled:
        f["sc"] = draw(st.sampled_from([1., 1., 1e4]))
    return f


def dirichlet_info(c, X, cells, vals_seed, F):
    """Dirichlet data: every predicate constrains every component to a smooth function of x
    (consistent where parts overlap). -> (dirichlet_bc_info, dict (node, comp) -> value)"""
    import jax.numpy as jnp
    et = c["mesh"]["et"]; v = c["vec"]
    rng = np.random.default_rng([vals_seed, 51])
    a, b = rng.normal(size=(v, X.shape[1])) * .5, rng.normal(size=v) * .5
    locs, vecs, vals, D = [], [], [], {}
    for i, p in enumerate(c["dir"]):
        fn, mask = F.predicate(p, X, cells, et)
        if not mask.any():
            fn, mask = F.predicate(dict(p, kind="facet"), X, cells, et)
        comps = range(v) if i == 0 else [int(rng.integers(v))]
        for k in comps:
            locs.append(fn); vecs.append(k)
            vals.append(lambda x, k=k: jnp.dot(a[k], x) + b[k] * jnp.sin(x[0]))
            for n in np.flatnonzero(mask):
                D[(int(n), k)] = float(a[k] @ X[n] + b[k] * np.sin(X[n][0]))
    return ([locs, vecs, vals] if locs else None), D


def split_dofs(D, n, v):
    con = np.zeros(n * v, bool); val = np.zeros(n * v)
    for (i, k), x in D.items():
        con[i * v + k] = True; val[i * v + k] = x
    return con, val


def ref_solve(fm, D, start=None, maxit=12):
    """Reference Newton with dense direct solves. Returns (solution or None, iterations)."""
    n, v = len(fm.X), fm.v
    con, val = split_dofs(D, n, v)
    u = np.zeros(n * v) if start is None else np.array(start, float).reshape(-1)
    u = np.where(con, val, u)
    hist = []
    for it in range(maxit):
        r = ref_residual(fm, u.reshape(n, v)).reshape(-1)
        rn = np.linalg.norm(r[~con])
        hist.append(rn)
        if rn < 1e-11 * (1 + hist[0]):
            return u.reshape(n, v), it
        J = ref_dense_jac(fm, u.reshape(n, v))
        du = np.zeros(n * v)
        du[~con] = np.linalg.solve(J[np.ix_(~con, ~con)], -r[~con])
        u = u + du
    r = ref_residual(fm, u.reshape(n, v)).reshape(-1)
    if np.linalg.norm(r[~con]) < 1e-9 * (1 + hist[0]):
        return u.reshape(n, v), maxit
    return None, maxit


class Form:
    def __init__(self, c, X, cells):
        self.c = c; self.X = X; self.cells = cells
        m = c["mesh"]; self.et = m["et"]; self.d = G.DIM[self.et]; self.v = c["vec"]
        rng = np.random.default_rng([c["seed"], 11])
        v, d = self.v, self.d
        self.k = rng.uniform(.5, 2); self.al = rng.uniform(.1, 1) if c["nonlin"] else 0.
        self.C = .3 * rng.normal(size=(v, d, v, d))
        self.m1 = rng.uniform(.5, 2); self.m3 = rng.uniform(.1, 1) if c["nonlin"] else 0.; self.M = .3 * rng.normal(size=(v, v))
        self.s0, self.s1 = rng.normal(size=v), rng.normal(size=(v, d))
        self.t0 = [rng.normal(size=v) for _ in range(3)]; self.t1 = [rng.normal(size=(v, d)) for _ in range(3)]
        self.h = [rng.uniform(.5, 2) for _ in range(3)]; self.h2 = [rng.uniform(.1, 1) if c["nonlin"] else 0. for _ in range(3)]
        self.H = [.3 * rng.normal(size=(v, v)) for _ in range(3)]
        self.rng = rng; self.sc = c.get("sc", 1.)
        if c.get("wellposed"):
            sn = lambda a: np.linalg.norm(a, 2)
            q = self.C.reshape(v * d, v * d)
            if c["wellposed"] == "sym":
                q = (q + q.T) / 2; self.M = (self.M + self.M.T) / 2; self.H = [(h + h.T) / 2 for h in self.H]
            self.C = (q * (.3 * self.k / sn(q))).reshape(v, d, v, d)
            self.M = self.M * (.3 * self.m1 / sn(self.M))
            self.H = [h * (.3 * a / sn(h)) for h, a in zip(self.H, self.h)]
            self.al *= .3; self.m3 *= .3; self.h2 = [a * .3 for a in self.h2]

    # point-wise functions (single point), xp = jnp or np
    def flux(self, xp, g, *iv):
        out = self.k * (1 + self.al * xp.sum(g * g)) * g + xp.einsum('vdwe,we->vd', self.C, g)
        if len(iv) > 0:
            out = out + iv[0] * g
        if len(iv) > 1:
            out = out + iv[1]
        return self.sc * out

    def mass(self, xp, u, *iv):
        out = self.m1 * u + self.m3 * u * xp.sum(u * u) + xp.einsum('vw,w->v', self.M, u)
        if len(iv) > 0:
            out = out + iv[0] * u
        if len(iv) > 1:
            out = out + iv[1]
        return self.sc * out

    def source(self, xp, x):
        return self.sc * (self.s0 * xp.sin(x[0]) + self.s1 @ x)

    def traction(self, xp, k, x, *iv):
        out = self.t0[k] * xp.cos(x[-1]) + self.t1[k] @ x
        if iv:
            out = out * iv[0] + iv[1]
        return self.sc * out

    def cauchy(self, xp, k, u):
        return self.sc * (self.h[k] * u + self.h2[k] * u * xp.sum(u * u) + xp.einsum('vw,w->v', self.H[k], u))

    # vectorised numpy versions over leading axes
    def vflux(self, g, iv):
        out = self.k * (1 + self.al * np.sum(g * g, axis=(-1, -2), keepdims=True)) * g + np.einsum('vdwe,...we->...vd', self.C, g)
        if len(iv) > 0:
            out = out + iv[0][..., None, None] * g
        if len(iv) > 1:
            out = out + iv[1]
        return self.sc * out

    def vmass(self, u, iv):
        out = self.m1 * u + self.m3 * u * np.sum(u * u, axis=-1, keepdims=True) + u @ self.M.T
        if len(iv) > 0:
            out = out + iv[0][..., None] * u
        if len(iv) > 1:
            out = out + iv[1]
        return self.sc * out

    def vsource(self, x):
        return self.sc * (self.s0 * np.sin(x[..., :1]) + x @ self.s1.T)

    def vtraction(self, k, x, iv):
        out = self.t0[k] * np.cos(x[..., -1:]) + x @ self.t1[k].T
        if iv:
            out = out * iv[0][..., None] + iv[1]
        return self.sc * out

    def vcauchy(self, k, u):
        return self.sc * (self.h[k] * u + self.h2[k] * u * np.sum(u * u, -1, keepdims=True) + u @ self.H[k].T)


def make_problem(c, base=None, dirichlet=None, extra_ns=None, X=None, cells=None):
    """-> (problem, form, geometry info)"""
    import femlib as F
    import jax.numpy as jnp
    m = c["mesh"]; et = m["et"]
    if X is None:
        X, cells = G.build(m)
    fm = Form(c, X, cells)
    ns = {}
    if c["flux"]:
        ns["get_tensor_map"] = lambda self: (lambda g, *iv: fm.flux(jnp, g, *iv))
    if c["mass"]:
        ns["get_mass_map"] = lambda self: (lambda u, *iv: fm.mass(jnp, u, *iv))
    ns.update(extra_ns or {})
    cls = type("GenProblem", (base or F.FEM,), ns)
    kw = {}
    fm.npred = [F.predicate(p, X, cells, et) for p in c["neumann"]]
    fm.cpred = [F.predicate(p, X, cells, et) for p in c["cauchy"]]
    # a boundary part must own at least one face
    fm.npred = [p if F.expected_faces(et, cells, p[1]) else F.predicate({"kind": "all", "seed": 0}, X, cells, et) for p in fm.npred]
    fm.cpred = [p if F.expected_faces(et, cells, p[1]) else F.predicate({"kind": "all", "seed": 0}, X, cells, et) for p in fm.cpred]
    if fm.npred:
        kw["neumann_bc_info"] = [[p[0] for p in fm.npred], [(lambda x, *iv, k=k: fm.traction(jnp, k, x, *iv)) for k in range(len(fm.npred))]]
    if fm.cpred:
        kw["cauchy_bc_info"] = [[p[0] for p in fm.cpred], [(lambda u, k=k: fm.cauchy(jnp, k, u)) for k in range(len(fm.cpred))]]
    if c["source"]:
        kw["source_info"] = lambda x: fm.source(jnp, x)
    if dirichlet is not None:
        kw["dirichlet_bc_info"] = dirichlet
    prob = F.make(cls, m, X, cells, vec=c["vec"], **kw)
    # geometry seen by the reference
    fm.xi, fm.xq = F.quad_ref(prob, m, X, cells)
    fm.N = G.shape(et, fm.xi)
    J = G.jac(et, X[cells], fm.xi)
    det = np.linalg.det(J)
    w0 = np.asarray(prob.JxW)[0] / det[0]
    fm.JxW = det * w0
    fm.g = np.einsum('qnj,cqji->cqni', G.dshape(et, fm.xi), np.linalg.inv(J))
    nq = len(fm.xi); nc = len(cells)
    tab = F.face_table(prob, m)

    def faces(mask):
        """independent list of faces; surface rule per local face of the code"""
        mine = sorted(F.expected_faces(et, cells, mask))
        inv = {v[0]: (f, v[1]) for f, v in tab.items()}
        inds = np.array([[ci, inv[fi][0]] for ci, fi in mine]).reshape(-1, 2)
        # order as the code reports them (needed for per-face internal variables): cell, then local face
        inds = inds[np.lexsort((inds[:, 1], inds[:, 0]))]
        Nf = np.stack([G.shape(et, tab[int(f)][1]) for _, f in inds])
        _, ns_ = prob.get_face_shape_grads(np.array([[0, f] for f in range(len(tab))]))
        fcs = G.face_corner_sets(et)
        wts = {}
        for f, (my, xi) in tab.items():
            _, T, _ = G.face_rule(et, fcs[my], 2)
            mea = np.linalg.norm(G.face_measure(et, X[cells[:1]], xi, np.repeat(T[:1], len(xi), 0)), axis=-1)[0]
            wts[f] = (np.asarray(ns_)[f] / mea, T[:1])
        ds = []
        for ci, f in inds:
            xi = tab[int(f)][1]
            mea = np.linalg.norm(G.face_measure(et, X[cells[ci:ci + 1]], xi, np.repeat(wts[int(f)][1], len(xi), 0)), axis=-1)[0]
            ds.append(mea * wts[int(f)][0])
        ds = np.stack(ds)
        xf = np.einsum('fqn,fnd->fqd', Nf, X[cells[inds[:, 0]]])
        return inds, Nf, ds, xf

    fm.nf = [faces(p[1]) for p in fm.npred]
    fm.cf = [faces(p[1]) for p in fm.cpred]
    rng = fm.rng
    v, d = fm.v, fm.d
    fm.ivf = [rng.uniform(.2, 1, size=(nc, nq)), rng.normal(size=(nc, nq, v, d))][:c["iv_flux"]] if c["flux"] else []
    fm.ivm = [rng.uniform(.2, 1, size=(nc, nq)), rng.normal(size=(nc, nq, v))][:c["iv_mass"]] if c["mass"] else []
    fm.ivn = []
    iv = {}
    if fm.ivf:
        iv["laplace"] = [jnp.array(a) for a in fm.ivf]
    if fm.ivm:
        iv["mass"] = [jnp.array(a) for a in fm.ivm]
    if fm.npred and c["iv_neumann"]:
        fm.ivn = [[rng.uniform(.2, 1, size=t[2].shape), rng.normal(size=t[2].shape + (v,))] for t in fm.nf]
        iv["neumann"] = [[jnp.array(a) for a in l] for l in fm.ivn]
    prob.internal_vars = iv
    fm.tab = tab
    return prob, fm


def ref_residual(fm, sol):
    """sol (n,vec), real or complex. Independent assembly of the weak form."""
    cells = fm.cells
    c = fm.c
    n = len(fm.X)
    res = np.zeros((n, fm.v), dtype=sol.dtype)
    us = sol[cells]
    if c["flux"]:
        g = np.einsum('cqni,cnv->cqvi', fm.g, us)
        S = fm.vflux(g, fm.ivf)
        np.add.at(res, cells, np.einsum('cqvi,cqni,cq->cnv', S, fm.g, fm.JxW))
    if c["mass"]:
        u = np.einsum('qn,cnv->cqv', fm.N, us)
        np.add.at(res, cells, np.einsum('cqv,qn,cq->cnv', fm.vmass(u, fm.ivm), fm.N, fm.JxW))
    if c["source"]:
        np.add.at(res, cells, -np.einsum('cqv,qn,cq->cnv', fm.vsource(fm.xq), fm.N, fm.JxW).astype(sol.dtype))
    for k, (inds, Nf, ds, xf) in enumerate(fm.nf):
        t = fm.vtraction(k, xf, fm.ivn[k] if fm.ivn else [])
        np.add.at(res, cells[inds[:, 0]], -np.einsum('fqv,fqn,fq->fnv', t, Nf, ds).astype(sol.dtype))
    for k, (inds, Nf, ds, xf) in enumerate(fm.cf):
        u = np.einsum('fqn,fnv->fqv', Nf, sol[cells[inds[:, 0]]])
        np.add.at(res, cells[inds[:, 0]], np.einsum('fqv,fqn,fq->fnv', fm.vcauchy(k, u), Nf, ds))
    return res


def ref_scale(fm, sol):
    """Norm of un-cancelled contributions (for round-off aware comparison)."""
    cells = fm.cells
    s = 0.
    us = sol[cells]
    if fm.c["flux"]:
        g = np.einsum('cqni,cnv->cqvi', fm.g, us)
        s = max(s, np.max(np.abs(np.einsum('cqvi,cqni,cq->cnv', np.abs(fm.vflux(g, fm.ivf)), np.abs(fm.g), fm.JxW))))
    return s


def ref_jvp(fm, sol, v):
    h = 1e-30
    return np.imag(ref_residual(fm, sol + 1j * h * v)) / h


def ref_dense_jac(fm, sol):
    n = sol.size
    out = np.empty((n, n))
    for j in range(n):
        e = np.zeros(n); e[j] = 1
        out[:, j] = ref_jvp(fm, sol, e.reshape(sol.shape)).reshape(-1)
    return out


def tangent(prob, n):
    import scipy.sparse as sp
    return sp.coo_matrix((np.asarray(prob.V), (np.asarray(prob.I), np.asarray(prob.J))), shape=(n, n)).tocsr()
