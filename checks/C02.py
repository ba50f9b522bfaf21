import numpy as np
from hypothesis import strategies as st
from vp import Facet, info, expect, close, fail
import strat, femgen as G

PROPERTY = "C02"
LEVEL = "exploration"
RULE = "Hypothesis draws meshes of all element types, node predicates (half spaces, balls, planes of facets, all, none), fields and surface functions; a case is non-trivial if at least one but not every face is selected (selection) or at least one face is integrated (others)"
ASSUMPTIONS = ["predicates are decided by node coordinates with a margin above round-off", "traction is checked on faces with outward normal +z, the documented normal"]

ORDER = {"HEX8": 2, "HEX20": 2, "HEX27": 6, "TET4": 1, "TET10": 2, "QUAD4": 2, "QUAD8": 2, "TRI3": 1, "TRI6": 2}

pred = st.fixed_dictionaries({"kind": st.sampled_from(["facet", "half", "ball", "all", "none"]), "seed": strat.seeds,
                              "q": st.sampled_from([0.5, 0.0, 1.0, 0.25, 0.75])})


def setup(m, cls=None, vec=1, **kw):
    import femlib as F
    X, cells = G.build(m)
    prob = F.make(cls or F.FEM, m, X, cells, vec=vec, **kw)
    return F, X, cells, prob


def got_faces(F, prob, m, inds, tab):
    inds = np.asarray(inds)
    return [(int(c), tab[int(f)][0]) for c, f in inds]


def selection(case):
    m = case["mesh"]; et = m["et"]
    F, X, cells, prob = setup(m)
    fns, masks = zip(*[F.predicate(p, X, cells, et) for p in case["preds"]])
    tab = F.face_table(prob, m)
    lists = prob.get_boundary_conditions_inds(list(fns))
    expect(len(lists) == len(fns), "one selection per predicate")
    nt = False
    labels = [et]
    for fn, mask, inds, p in zip(fns, masks, lists, case["preds"]):
        exp = F.expected_faces(et, cells, mask)
        inds = np.asarray(inds).reshape(-1, 2)
        got = got_faces(F, prob, m, inds, tab)
        expect(len(got) == len(set(got)), "a face is selected twice")
        expect(set(got) == exp, "selected faces are not the faces whose corner nodes all satisfy the predicate",
               extra=sorted(set(got) - exp)[:3], missing=sorted(exp - set(got))[:3])
        cnt = prob.mesh.count_selected_faces(fn)
        expect(int(cnt) == len(exp), "face count disagrees with the selection", got=cnt, expected=len(exp))
        # the selected surface quadrature points are inside the selected face
        if len(inds):
            P = np.asarray(prob.get_physical_surface_quad_points(inds))
            for k in (0, len(inds) // 2, len(inds) - 1):
                xi = G.ref_points(et, X[cells[inds[k, 0]]], P[k])
                expect(F.in_ref(et, xi), "surface quadrature point outside its cell")
                expect(F.which_face(et, xi) == got[k][1], "surface quadrature points are not on the selected face")
        if 0 < len(exp) < len(cells) * len(G.face_corner_sets(et)):
            nt = True
        labels.append(p["kind"])
    return info(nt, *labels)


def face_geom(F, prob, m, X, cells, fn):
    et = m["et"]
    inds = np.asarray(prob.get_boundary_conditions_inds([fn])[0]).reshape(-1, 2)
    tab = F.face_table(prob, m)
    return inds, tab


def measure(case):
    """Surface weights, positions, gradients on faces of arbitrary meshes."""
    m = case["mesh"]; et = m["et"]; d = G.DIM[et]; vec = case["vec"]
    F, X, cells, prob = setup(m, vec=vec)
    import jax.numpy as jnp
    fn, mask = F.predicate(case["pred"], X, cells, et)
    inds, tab = face_geom(F, prob, m, X, cells, fn)
    if len(inds) == 0:
        return info(False, "empty")
    g, nan = prob.get_face_shape_grads(inds)
    g, nan = np.asarray(g), np.asarray(nan)
    P = np.asarray(prob.get_physical_surface_quad_points(inds))
    expect(nan.shape == P.shape[:2], "one surface weight per surface point")
    expect((nan > 0).all(), "surface weights must be positive")
    rng = np.random.default_rng([case["seed"], 3])
    sol = rng.normal(size=(len(X), vec))
    fcs = G.face_corner_sets(et)
    for f in sorted(set(inds[:, 1].tolist())):
        sel = np.flatnonzero(inds[:, 1] == f)
        my, xi = tab[f]
        Xc = X[cells[inds[sel, 0]]]
        N = G.shape(et, xi)
        close(P[sel], np.einsum('qn,cnd->cqd', N, Xc), "positions of surface quadrature points", rtol=1e-9)
        Pf, T, W = G.face_rule(et, fcs[my])
        mea = np.linalg.norm(G.face_measure(et, Xc, xi, np.repeat(T[:1], len(xi), 0)), axis=-1)
        w = nan[sel] / mea
        close(w, np.broadcast_to(w[:1], w.shape), "surface weights are not weight times the true surface measure", rtol=1e-8)
        close(w[0].sum(), W.sum(), "surface weights do not sum to the area of the face", rtol=1e-9)
        p = ORDER[et]
        dirs, off = rng.normal(size=(p, d)), rng.normal(size=p)
        poly = lambda s: np.prod([s @ dirs[i] + off[i] for i in range(p)], axis=0)
        close(np.sum(poly(xi) * w[0]), np.sum(poly(Pf) * W), "surface rule not exact for polynomials of its degree", rtol=1e-8, scale=np.sum(np.abs(poly(xi)) * w[0]) + 1e-3)
        J = G.jac(et, Xc, xi)
        gg = np.einsum('qnj,cqji->cqni', G.dshape(et, xi), np.linalg.inv(J))
        expg = np.einsum('cqni,cnv->cqvi', gg, sol[cells[inds[sel, 0]]])
        close(np.einsum('cqni,cnv->cqvi', g[sel], sol[cells[inds[sel, 0]]]), expg, "field gradient on a face", rtol=1e-8)
    return info(True, et, m["geom"], case["pred"]["kind"])


def neumann_interp(case):
    m = case["mesh"]; et = m["et"]; vec = case["vec"]
    import femlib as F
    import jax.numpy as jnp
    X, cells = G.build(m)
    fns, masks = zip(*[F.predicate(p, X, cells, et) for p in case["preds"]])
    prob = F.make(F.FEM, m, X, cells, vec=vec, neumann_bc_info=[list(fns), [lambda x: jnp.zeros(vec)] * len(fns)])
    tab = F.face_table(prob, m)
    rng = np.random.default_rng([case["seed"], 4])
    sol = rng.normal(size=(len(X), vec))
    tot = 0
    lists = prob.get_boundary_conditions_inds(list(fns))
    for k in range(len(fns)):
        inds = np.asarray(lists[k]).reshape(-1, 2)
        exp_ids = F.expected_faces(et, cells, masks[k])
        expect(set(got_faces(F, prob, m, inds, tab)) == exp_ids, "boundary part selects the wrong faces")
        if len(inds) == 0:
            continue
        tot += len(inds)
        u = np.asarray(prob.convert_neumann_from_dof(jnp.array(sol), k))
        ref = np.stack([G.shape(et, tab[int(f)][1]) @ sol[cells[c]] for c, f in inds])
        close(u, ref, "nodal field interpolated onto a boundary part", rtol=1e-9)
    return info(tot > 0, et, f"parts={len(fns)}")


def integrals(case):
    """surface_integral / compute_surface_area / compute_traction on whole box sides."""
    m = dict(case["mesh"]); et = m["et"]
    import femlib as F
    import jax.numpy as jnp
    from jax_am.fem.models import Mechanics, LinearElasticity
    X, cells = G.build(m)
    d = G.DIM[et]
    vec = d
    prob = F.make(LinearElasticity if d == 3 else Mechanics, m, X, cells, vec=vec)
    L = np.array(m["L"][:d], float)
    rng = np.random.default_rng([case["seed"], 6])
    ax, side = case["axis"] % d, case["side"]
    val = L[ax] * side
    tol = 1e-6 * L.max()
    loc = lambda x: jnp.abs(x[ax] - val) < tol
    area = float(np.prod(np.delete(L, ax)))
    a, b = rng.normal(size=(vec, d)) * 1e-2, rng.normal(size=vec)
    sol = jnp.array(X @ a.T + b)
    got = np.asarray(prob.compute_surface_area(loc, sol))
    close(got, np.full(vec, area), "surface area of a box side", rtol=1e-8)
    B = rng.normal(size=(vec, vec, d))
    sf = lambda ug: jnp.einsum('vwk,fqwk->fqv', B, ug)
    got = np.asarray(prob.surface_integral(loc, sf, sol))
    close(got, np.einsum('vwk,wk->v', B, a) * area, "surface integral of a linear function of the gradient", rtol=1e-8)
    if d == 3 and ax == 2 and side == 1:
        E, nu = 70e3, .3
        mu, lam = E / 2 / (1 + nu), E * nu / (1 + nu) / (1 - 2 * nu)
        eps = (a + a.T) / 2
        sig = lam * np.trace(eps) * np.eye(3) + 2 * mu * eps
        got = np.asarray(prob.compute_traction(loc, sol))
        close(got, sig[:, 2] * area, "total traction on the top side", rtol=1e-8)
        # a law with unsymmetric stress (e.g. first Piola-Kirchhoff): the normal contracts the second index
        K = rng.normal(size=(3, 3, 3, 3))

        class Unsym(Mechanics):
            def get_tensor_map(self):
                return lambda ug: jnp.einsum('ijkl,kl->ij', K, ug) + ug @ ug
        p2 = F.make(Unsym, m, X, cells, vec=vec)
        a2 = 30 * a
        got = np.asarray(p2.compute_traction(loc, jnp.array(X @ a2.T + b)))
        close(got, (np.einsum('ijkl,kl->ij', K, a2) + a2 @ a2)[:, 2] * area, "total traction on the top side, unsymmetric stress", rtol=1e-8)
        # arbitrary nodal field: integral of the traction by an independent surface quadrature
        sol2 = rng.normal(size=(len(X), vec)) * 1e-2
        inds, tab = face_geom(F, prob, m, X, cells, loc)
        tot = np.zeros(3)
        for c, f in inds:
            my, xi = tab[int(f)]
            fcs = G.face_corner_sets(et)[my]
            if G.DEG[et] == 2 and et != "HEX27":
                pass
            Pf, T, W = G.face_rule(et, fcs)
            Xc = X[cells[c]][None]
            n = np.linalg.norm(G.face_measure(et, Xc, Pf, T), axis=-1)[0]
            gg = np.einsum('qnj,qji->qni', G.dshape(et, Pf), np.linalg.inv(G.jac(et, Xc, Pf)[0]))
            gr = np.einsum('qni,nv->qvi', gg, sol2[cells[c]])
            e = (gr + np.swapaxes(gr, 1, 2)) / 2
            s = lam * np.trace(e, axis1=1, axis2=2)[:, None, None] * np.eye(3) + 2 * mu * e
            tot += np.einsum('qv,q,q->v', s[:, :, 2], n, W)
        if et in ("HEX8", "TET4", "TET10", "HEX27"):     # integrand within the rule's degree
            close(np.asarray(prob.compute_traction(loc, jnp.array(sol2))), tot, "total traction of an arbitrary field", rtol=1e-7, scale=np.max(np.abs(tot)) + 1e-3)
    return info(True, et, f"axis={ax}", f"side={side}")


two = st.lists(pred, min_size=1, max_size=3)
FACETS = [
    Facet("selection", st.fixed_dictionaries({"mesh": strat.meshes(max_cells=14), "preds": two}), selection, quick=160, thorough=2500),
    Facet("measure", st.fixed_dictionaries({"mesh": strat.meshes(max_cells=14), "pred": pred, "vec": st.integers(1, 3), "seed": strat.seeds}), measure, quick=240, thorough=4000),
    Facet("neumann_interpolation", st.fixed_dictionaries({"mesh": strat.meshes(max_cells=14), "preds": two, "vec": st.integers(1, 3), "seed": strat.seeds}), neumann_interp, quick=120, thorough=2000),
    Facet("integrals", st.fixed_dictionaries({"mesh": strat.meshes(max_cells=14, geoms=("box",), drop=False, affine_too=False), "axis": st.sampled_from([2, 0, 1, 2]), "side": st.sampled_from([1, 0, 1]), "seed": strat.seeds}), integrals, quick=120, thorough=2000),
]
