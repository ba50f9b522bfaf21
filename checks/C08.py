import numpy as np
from hypothesis import strategies as st
from vp import Facet, Violation, info, expect, close, fail
import strat, femgen as G, weak
from C05 import counting

PROPERTY = "C08"
LEVEL = "exploration"
RULE = "Hypothesis draws well-posed boundary value problems, which coefficients a parameter vector enters (flux, reaction, traction, Dirichlet data, source-like terms), a nonlinear functional of the solution, and a history of value / gradient / JVP / linearise / Hessian-vector calls on one or two wrappers of the same problem; oracle: adjoint sensitivities from an independent complex-step assembly and dense solves; non-trivial if the derivative is non-zero"
ASSUMPTIONS = ["reference Newton converges in at most 12 iterations (otherwise discarded and counted)", "accuracy is that of the linear solver: 1e-5 relative residual for PETSc, 1e-10 for the JAX backend"]

SLOTS = ["flux0", "flux1", "mass0", "mass1", "neumann0", "neumann1", "dirichlet"]


class Model:
    """theta -> coefficients; reference values and sensitivities."""
    def __init__(self, c, fm, D, order):
        self.fm, self.D, self.order = fm, D, order   # order: list of (nodes, comp) arrays as in vals_list
        self.p = c["p"]
        rng = np.random.default_rng([c["form"]["seed"], 81])
        self.slots = {}
        base = {}
        if len(fm.ivf) > 0: base["flux0"] = fm.ivf[0]
        if len(fm.ivf) > 1: base["flux1"] = fm.ivf[1]
        if len(fm.ivm) > 0: base["mass0"] = fm.ivm[0]
        if len(fm.ivm) > 1: base["mass1"] = fm.ivm[1]
        for k, l in enumerate(fm.ivn):
            base[f"neumann0:{k}"], base[f"neumann1:{k}"] = l
        want = set(c["slots"])
        self.base = base
        self.maps = {}
        for k, a in base.items():
            if k.split(":")[0] in want:
                self.maps[k] = rng.uniform(-.15, .15, size=a.shape + (self.p,)) / np.sqrt(self.p) * (1 if k.endswith("0") else 4)
        n, v = len(fm.X), fm.v
        self.con, self.val = weak.split_dofs(D, n, v)
        self.dmap = rng.normal(size=(n * v, self.p)) * .3 if "dirichlet" in want and D else None
        if not self.maps and self.dmap is None:
            self.dmap = rng.normal(size=(n * v, self.p)) * .3 if D else None
        self.a = rng.normal(size=n * v); self.w = rng.uniform(.2, 1, size=n * v); self.b = rng.normal(size=n * v)

    def active(self):
        return bool(self.maps) or self.dmap is not None

    def coeff(self, xp, th):
        out = {}
        for k, a in self.base.items():
            out[k] = a + self.maps[k] @ th if k in self.maps else a
        return out

    def dvals(self, th):
        return self.val + (self.dmap @ th if self.dmap is not None else 0.)

    # reference ------------------------------------------------------------------
    def install(self, th):
        c = self.coeff(np, th)
        fm = self.fm
        fm.ivf = [c[k] for k in ("flux0", "flux1") if k in c]
        fm.ivm = [c[k] for k in ("mass0", "mass1") if k in c]
        if fm.ivn:
            fm.ivn = [[c[f"neumann0:{k}"], c[f"neumann1:{k}"]] for k in range(len(fm.ivn))]

    def solve(self, th):
        self.install(th)
        fm = self.fm; n, v = len(fm.X), fm.v
        val = self.dvals(th)
        D = {(i // v, i % v): val[i] for i in np.flatnonzero(self.con)}
        return weak.ref_solve(fm, D)[0]

    def J(self, u):
        u = u.reshape(-1)
        return self.a @ u + .5 * np.sum(self.w * u * u) + np.sum(np.sin(self.b * u))

    def dJ(self, u):
        u = u.reshape(-1)
        return self.a + self.w * u + self.b * np.cos(self.b * u)

    def jac(self, th, u):
        """dense du/dtheta (n*v, p)"""
        fm = self.fm
        self.install(th)
        K = weak.ref_dense_jac(fm, u)
        R = np.empty((u.size, self.p))
        for j in range(self.p):
            t = th.astype(complex); t[j] += 1e-30j
            self.install(t)
            R[:, j] = np.imag(weak.ref_residual(fm, u.astype(complex)).reshape(-1)) / 1e-30
        self.install(th)
        con = self.con
        S = np.zeros((u.size, self.p))
        if self.dmap is not None:
            S[con] = self.dmap[con]
        S[~con] = np.linalg.solve(K[np.ix_(~con, ~con)], -(R[~con] + K[np.ix_(~con, con)] @ S[con]))
        return S

    def grad(self, th):
        u = self.solve(th)
        return None if u is None else self.jac(th, u).T @ self.dJ(u)


def sens(c):
    import jax, jax.numpy as jnp
    import femlib as F
    from jax_am.fem.solver import ad_wrapper
    from jax_am.fem.autodiff_utils import ad_wrapper_jvp
    F.tick(6)
    form = c["form"]
    X, cells = G.build(form["mesh"])
    dinfo, D = weak.dirichlet_info(form, X, cells, form["seed"], F)
    holder = {}

    def set_params(self, params):
        m = holder["m"]
        th = jnp.concatenate([params["a"].reshape(-1), params["b"]]) if c["tree"] else params
        co = {k: (m.base[k] + jnp.tensordot(jnp.array(m.maps[k]), th, 1)) if k in m.maps else m.base[k] for k in m.base}
        iv = {}
        if "flux0" in co: iv["laplace"] = [co[k] for k in ("flux0", "flux1") if k in co]
        if "mass0" in co: iv["mass"] = [co[k] for k in ("mass0", "mass1") if k in co]
        if "neumann0:0" in co: iv["neumann"] = [[co[f"neumann0:{k}"], co[f"neumann1:{k}"]] for k in range(holder["nn"])]
        self.internal_vars = iv
        if m.dmap is not None:
            self.vals_list = [jnp.array(m.val[i]) + jnp.array(m.dmap[i]) @ th for i in holder["inds"]]

    prob, fm = weak.make_problem(form, base=counting(F), dirichlet=dinfo, X=X, cells=cells, extra_ns={"set_params": set_params})
    v = form["vec"]
    holder["nn"] = len(fm.ivn)
    holder["inds"] = [np.asarray(a) * v + np.asarray(b) for a, b in zip(prob.node_inds_list, prob.vec_inds_list)]
    m = holder["m"] = Model(c, fm, D, None)
    if not m.active():
        return info(False, "no parameters")
    p = m.p
    pack = (lambda th: {"a": jnp.array(th[:p - 1]).reshape(1, -1), "b": jnp.array(th[p - 1:])}) if c["tree"] else (lambda th: jnp.array(th))
    unpack = (lambda g: np.concatenate([np.asarray(g["a"]).reshape(-1), np.asarray(g["b"])])) if c["tree"] else (lambda g: np.asarray(g))
    lin = c["linear"] and not form["nonlin"]
    wr = {}
    def wrapper(kind):
        if kind not in wr:
            wr[kind] = ad_wrapper(prob, linear=lin, use_petsc=kind == "vjp-petsc") if kind.startswith("vjp") else ad_wrapper_jvp(prob, linear=lin, use_petsc=kind == "jvp-petsc")
        return wr[kind]
    def Jj(u):
        u = u.reshape(-1)
        return jnp.dot(m.a, u) + .5 * jnp.sum(m.w * u * u) + jnp.sum(jnp.sin(m.b * u))
    rng = np.random.default_rng([form["seed"], 83])
    nt = False
    lab = []
    for call in c["calls"]:
        th = np.random.default_rng([call["seed"], 84]).uniform(-1, 1, size=p)
        dt = np.random.default_rng([call["seed"], 85]).normal(size=p)
        kind = call["kind"]
        what = call["what"]
        if kind.startswith("vjp") and what in ("jvp", "linearize", "hvp"):
            what = "grad"
        if what == "delayed":       # several linearisations alive at once, applied later in any order
            ths = [th, np.random.default_rng([call["seed"], 86]).uniform(-1, 1, size=p)]
            us = [m.solve(t) for t in ths]
            if any(x is None for x in us):
                return info(False, "discarded: reference Newton fails")
            Ss = [m.jac(t, x) for t, x in zip(ths, us)]
            w = wrapper(kind)
            tol = 3e-3 if "petsc" in kind else 2e-4
            order = [0, 1] if call["seed"] % 2 else [1, 0]
            if kind.startswith("vjp") or call["seed"] % 3 == 0:
                pbs = [jax.vjp(lambda q: Jj(w(q)), pack(t))[1] for t in ths]
                for i in order:
                    g, = pbs[i](jnp.array(1.))
                    close(unpack(g), Ss[i].T @ m.dJ(us[i]), f"pullback {i} of two kept pullbacks via {kind} (linear={lin}) differs from the true sensitivity", atol=tol * (np.max(np.abs(Ss[i]).T @ np.abs(m.dJ(us[i]))) + 1e-9), rtol=0)
            else:
                lfs = [jax.linearize(w, pack(t))[1] for t in ths]
                for i in order:
                    close(np.asarray(lfs[i](pack(dt))).reshape(-1), Ss[i] @ dt, f"linearisation {i} of two kept linearisations via {kind} (linear={lin}) differs from the true sensitivity", atol=tol * np.max(np.abs(Ss[i]) @ np.abs(dt)) + 1e-9, rtol=0)
            nt = nt or np.max(np.abs(Ss[0].T @ m.dJ(us[0]))) > 1e-6
            lab += [f"{kind} {what}"]
            continue
        u = m.solve(th)
        if u is None:
            return info(False, "discarded: reference Newton fails")
        S = m.jac(th, u)
        g = S.T @ m.dJ(u)
        sc = np.max(np.abs(S).T @ np.abs(m.dJ(u))) + 1e-9
        w = wrapper(kind)
        prob._calls = 0
        loose = "petsc" in kind
        tol = 3e-3 if loose else 2e-4
        f = lambda q: Jj(w(q))
        us = 1 + np.max(np.abs(u))
        tag = f"{what} via {kind} (linear={lin})"
        if what == "value":
            sol = np.asarray(w(pack(th)))
            close(sol, u, f"{tag}: wrapped solve differs from the reference solution", atol=(3e-3 if lin and loose else 5e-5) * us, rtol=0)
        elif what == "grad":
            val, gg = jax.value_and_grad(f)(pack(th))
            close(float(val), m.J(u), f"{tag}: value", atol=tol * (1 + np.abs(m.a) @ np.abs(u.reshape(-1)) + u.size), rtol=0)
            close(unpack(gg), g, f"{tag}: gradient differs from the true sensitivity", atol=tol * sc, rtol=0)
        elif what in ("jvp", "linearize"):
            if what == "jvp":
                sol, du = jax.jvp(w, (pack(th),), (pack(dt),))
            else:
                sol, lf = jax.linearize(w, pack(th)); du = lf(pack(dt))
            ref = S @ dt
            close(np.asarray(sol), u, f"{tag}: primal", atol=(3e-3 if lin and loose else 5e-5) * us, rtol=0)
            close(np.asarray(du).reshape(-1), ref, f"{tag}: tangent differs from the true sensitivity", atol=tol * np.max(np.abs(S) @ np.abs(dt)) + 1e-9, rtol=0)
        else:
            h = 1e-4
            gp, gm = m.grad(th + h * dt), m.grad(th - h * dt)
            if gp is None or gm is None:
                return info(False, "discarded: reference Newton fails")
            ref = (gp - gm) / (2 * h)
            m.install(th)
            got = jax.jvp(jax.grad(f), (pack(th),), (pack(dt),))[1]
            close(unpack(got), ref, f"{tag}: Hessian-vector product differs", atol=10 * tol * (np.max(np.abs(ref)) + sc), rtol=0)
        nt = nt or np.max(np.abs(g)) > 1e-6
        lab += [f"{kind} {what}"]
    sl = sorted({k.split(":")[0] for k in m.maps} | ({"dirichlet"} if m.dmap is not None else set()))
    return info(nt, form["mesh"]["et"], *lab, *["param in " + s for s in sl], "calls=%d" % len(c["calls"]), "nonlinear" if form["nonlin"] else "linear", form["wellposed"])


def cantilever(c):
    """Slender elastic bars (badly conditioned: too badly for the unfactorised JAX solver, which may break down): sensitivities with respect to the end load."""
    import jax, jax.numpy as jnp
    import scipy.sparse as sp, scipy.sparse.linalg as sl
    import femlib as F
    from jax_am.fem.models import LinearElasticity
    from jax_am.fem.solver import ad_wrapper
    from jax_am.fem.autodiff_utils import ad_wrapper_jvp
    F.tick(10)
    et = "HEX8"
    N = c["N"]
    m = dict(et=et, N=N, L=[float(n) for n in N], geom="box", seed=c["seed"], amp=1., perm=c["perm"])
    X, cells = G.build(m)
    Lx = float(N[0])
    left = lambda x: jnp.abs(x[0]) < 1e-6
    right = lambda x: jnp.abs(x[0] - Lx) < 1e-6
    class P(LinearElasticity):
        def set_params(self, th):
            k = self.neumann_boundary_inds_list[0].shape[0]
            self.internal_vars = {"neumann": [[jnp.broadcast_to(th, (k, self.face_quad_weights.shape[1], 3))]]}
    z = lambda x: 0.
    prob = F.make(P, m, X, cells, vec=3, dirichlet_bc_info=[[left] * 3, [0, 1, 2], [z] * 3],
                  neumann_bc_info=[[right], [lambda x, t: t]])
    # reference: own assembly, direct solve
    E, nu = 70e3, .3
    lam, mu = E * nu / (1 + nu) / (1 - 2 * nu), E / 2 / (1 + nu)
    xi, wq = G.quad_rule(et, 3)
    J = G.jac(et, X[cells], xi); det = np.linalg.det(J)
    g = np.einsum('qnj,cqji->cqni', G.dshape(et, xi), np.linalg.inv(J))
    W = det * wq
    Ke = lam * np.einsum('cqni,cqmj,cq->cnimj', g, g, W) + mu * np.einsum('cqnj,cqmi,cq->cnimj', g, g, W) + mu * np.einsum('cqnk,cqmk,cq,ij->cnimj', g, g, W, np.eye(3))
    ids = (3 * cells[:, :, None] + np.arange(3)).reshape(len(cells), -1)
    n3 = 3 * len(X)
    K = sp.coo_matrix((Ke.reshape(-1), (np.repeat(ids, 24, 1).reshape(-1), np.tile(ids, (1, 24)).reshape(-1))), shape=(n3, n3)).tocsc()
    con = np.repeat(np.abs(X[:, 0]) < 1e-6, 3)
    Fn = np.zeros((n3, 3))
    # consistent end load: every unit square of the end face gives 1/4 to each corner
    h = 1.
    for cc in cells:
        q = [i for i in cc if abs(X[i, 0] - Lx) < 1e-6]
        if len(q) == 4:
            for i in q:
                for k in range(3):
                    Fn[3 * i + k, k] += .25
    fr = ~con
    S = np.zeros((n3, 3)); S[fr] = sl.splu(K[fr][:, fr]).solve(Fn[fr])
    rng = np.random.default_rng([c["seed"], 87])
    th = rng.normal(size=3) * 30; dt = rng.normal(size=3)
    u = S @ th
    a = rng.normal(size=n3); sc = 1 / np.max(np.abs(u))
    f = lambda t: jnp.dot(a, w(t).reshape(-1)) + .5 * sc * jnp.sum(w(t) ** 2)
    gref = S.T @ (a + sc * u)
    size = np.abs(S).T @ np.abs(a + sc * u)
    w = ad_wrapper(prob, linear=True, use_petsc=True) if c["kind"] == "vjp-petsc" else ad_wrapper(prob, linear=True, use_petsc=False) if c["kind"] == "vjp-jax" else ad_wrapper_jvp(prob, linear=True, use_petsc=True)
    if c["kind"].startswith("jvp"):
        du = jax.jvp(w, (jnp.array(th),), (jnp.array(dt),))[1]
        close(np.asarray(du).reshape(-1), S @ dt, "cantilever: tangent", atol=2e-2 * np.max(np.abs(S) @ np.abs(dt)), rtol=0)
    else:
        gg = np.asarray(jax.grad(f)(jnp.array(th)))
        close(gg / size, gref / size, "cantilever: gradient with respect to the end load", atol=2e-2, rtol=0)
    return info(True, c["kind"], f"length={N[0]}")


cant = st.fixed_dictionaries({"N": st.tuples(st.integers(4, 20), st.integers(1, 3), st.integers(1, 3)).map(list), "perm": st.booleans(), "seed": strat.seeds,
                              "kind": st.sampled_from(["vjp-petsc", "vjp-petsc", "jvp-petsc"])})

call = st.fixed_dictionaries({"kind": st.sampled_from(["vjp-jax", "vjp-petsc", "jvp-jax", "jvp-petsc"]),
                              "what": st.sampled_from(["value", "grad", "jvp", "grad", "linearize", "hvp", "delayed"]), "seed": strat.seeds})


@st.composite
def cases(draw, maxcalls=2):
    f = draw(weak.solvable(max_dofs=45))
    f["iv_flux"] = max(f["iv_flux"], draw(st.integers(0, 1)))
    f["neumann"] = f["neumann"][:1]
    return dict(form=f, p=draw(st.integers(2, 4)), slots=draw(st.lists(st.sampled_from(SLOTS), min_size=1, max_size=4, unique=True)),
                tree=draw(st.booleans()), linear=draw(st.booleans()), calls=draw(st.lists(call, min_size=1, max_size=maxcalls)))


def stack(c):
    """jax_array_list_to_numpy_diff: a differentiable, jittable vertical stack."""
    import jax, jax.numpy as jnp
    import jax_am.fem.core          # double precision
    from jax_am.fem.autodiff_utils import jax_array_list_to_numpy_diff as f
    rng = np.random.default_rng([c["seed"], 89])
    A = [rng.normal(size=[k] + c["tail"]) for k in c["rows"]]
    B = [rng.normal(size=a.shape) for a in A]
    J = lambda l: [jnp.array(a) for a in l]
    want, wdot = np.concatenate(A), np.concatenate(B)
    fn = jax.jit(f) if c["jit"] else f
    close(np.asarray(fn(J(A))), want, "stack of a list of arrays", rtol=1e-12)
    v, d = jax.jvp(fn, (J(A),), (J(B),))
    close(np.asarray(v), want, "stack of a list of arrays under jvp", rtol=1e-12)
    close(np.asarray(d), wdot, "tangent of the stack", rtol=1e-12)
    g = lambda l: f([jnp.sin(a) for a in l])
    close(np.asarray(jax.jvp(g, (J(A),), (J(B),))[1]), np.concatenate([np.cos(a) * b for a, b in zip(A, B)]), "tangent of the stack of functions", rtol=1e-9)
    return info(len(A) > 1, "unequal parts" if len(set(c["rows"])) > 1 else "equal parts", "jit" if c["jit"] else "eager")


stacks = st.fixed_dictionaries({"seed": strat.seeds, "rows": st.lists(st.integers(1, 4), min_size=1, max_size=4), "tail": st.lists(st.integers(1, 3), min_size=1, max_size=3), "jit": st.booleans()})

FACETS = [Facet("stack", stacks, stack, quick=48, thorough=400),
          Facet("sensitivity", cases(), sens, quick=56, thorough=1500),
          Facet("cantilever", cant, cantilever, quick=24, thorough=300)]
