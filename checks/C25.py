import io, contextlib
import numpy as np
from hypothesis import strategies as st
from vp import Facet, Violation, info, expect, close, fail
import strat, femgen as G
from C24 import surface

PROPERTY = "C25"
LEVEL = "exploration"
RULE = "Hypothesis draws meshes, density and yield-strength designs, load histories and states; oracle: independent radial return with interpolated modulus and yield stress, dense Newton solves of every load step, and forward sensitivities by complex-step differentiation through the whole history; non-trivial if some integration point yields and the design varies"
ASSUMPTIONS = ["three dimensions; loads below plastic collapse: the reference Newton iteration of every step converges in at most 12 iterations (otherwise discarded and counted)",
               "derivatives are compared where no integration point is within 0.1 % of its yield surface (kink)", "accuracy is that of the linear solver: 1e-5 relative residual for PETSc"]

NU = .3
I3 = np.eye(3)


def moduli(th):
    return 70. + (70e3 - 70.) * th[..., 0] ** 3, 250. + 100. * th[..., 1]


def hooke(e, E):
    tr = np.trace(e, axis1=-2, axis2=-1)[..., None, None]
    return (E / (1 + NU))[..., None, None] * (e + NU / (1 - 2 * NU) * tr * I3)


def ret(H, so, eo, th):
    """stress, von Mises trial stress, yield stress; analytic in the arguments, so usable with complex steps"""
    E, s0 = moduli(th)
    t = so + hooke((H + np.swapaxes(H, -1, -2)) / 2 - eo, E)
    s = t - np.trace(t, axis1=-2, axis2=-1)[..., None, None] / 3 * I3
    q = np.sqrt(1.5 * np.sum(s * s, axis=(-1, -2)))
    pl = q.real > s0.real
    fac = np.where(pl, 1 - s0 / np.where(q == 0, 1, q), 0.)
    return t - fac[..., None, None] * s, q, s0


class Ref:
    def __init__(self, prob, m, X, cells, F):
        et = m["et"]
        xi, _ = F.quad_ref(prob, m, X, cells)
        J = G.jac(et, X[cells], xi)
        self.W = np.asarray(prob.JxW)
        self.g = np.einsum('qnj,cqji->cqni', G.dshape(et, xi), np.linalg.inv(J))
        self.cells, self.n = cells, len(X)
        self.shape = self.W.shape + (3, 3)

    def H(self, u):
        return np.einsum('cqni,cnv->cqvi', self.g, u.reshape(-1, 3)[self.cells])

    def forces(self, S):
        r = np.zeros((self.n, 3), dtype=S.dtype)
        np.add.at(r, self.cells, np.einsum('cqvi,cqni,cq->cnv', S, self.g, self.W))
        return r.reshape(-1)

    def res(self, u, so, eo, th):
        return self.forces(ret(self.H(u), so, eo, th[:, None, :])[0])

    def update(self, u, so, eo, th):
        H = self.H(u)
        return ret(H, so, eo, th[:, None, :])[0], (H + np.swapaxes(H, -1, -2)) / 2

    def tangent(self, u, so, eo, th):
        """consistent tangent by complex steps, cell by cell"""
        nc, nn = self.cells.shape
        Ke = np.zeros((nc, nn * 3, nn * 3))
        H = self.H(u).astype(complex)
        for a in range(nn):
            for v in range(3):
                Hp = H.copy(); Hp[:, :, v, :] += 1e-30j * self.g[:, :, a, :]
                S = ret(Hp, so, eo, th[:, None, :])[0].imag / 1e-30
                Ke[:, :, a * 3 + v] = np.einsum('cqvi,cqni,cq->cnv', S, self.g, self.W).reshape(nc, -1)
        d = (self.cells[:, :, None] * 3 + np.arange(3)).reshape(nc, -1)
        K = np.zeros((self.n * 3,) * 2)
        for e in range(nc):
            K[np.ix_(d[e], d[e])] += Ke[e]
        return K

    def solve(self, f, fr, so, eo, th, maxit=12):
        u = np.zeros(self.n * 3)
        for it in range(maxit):
            r = self.res(u, so, eo, th) - f
            if np.linalg.norm(r[fr]) < 1e-9 * (1 + np.linalg.norm(f)):
                return u, it
            K = self.tangent(u, so, eo, th)[np.ix_(fr, fr)]
            try:
                u[fr] += np.linalg.solve(K, -r[fr])
            except np.linalg.LinAlgError:
                return None, it
            if not np.all(np.isfinite(u)):
                return None, it
        return None, maxit


def design(c, prob, nc, jnp):
    rng = np.random.default_rng([c["seed"], 251])
    if c["flex"] < 1:
        prob.flex_inds = jnp.array(rng.permutation(nc)[:max(1, int(nc * c["flex"]))])
    flex = np.asarray(prob.flex_inds)
    th = rng.uniform(c["lo"], 1., size=(len(flex), 2)) if c["vary"] else np.full((len(flex), 2), .6)
    full = np.ones((nc, 2)); full[flex] = th
    return flex, th, full


def law(c):
    """stress update, state update and residual over a history of prescribed states"""
    import femlib as F, jax, jax.numpy as jnp
    from applications.fem.top_opt.plasticity import Plasticity
    F.tick(10)
    m = c["mesh"]
    X, cells = G.build(m)
    fnN, mN = F.predicate({"kind": "facet", "seed": c["seed"]}, X, cells, m["et"])
    rng = np.random.default_rng([c["seed"], 252])
    T0 = rng.normal(size=3) * 50
    prob = F.make(Plasticity, m, X, cells, vec=3, neumann_bc_info=[[fnN], [lambda x: jnp.array(T0) + 0. * x]])
    ref = Ref(prob, m, X, cells, F)
    nc = len(cells)
    flex, th, full = design(c, prob, nc, jnp)
    params = prob.init_params(jnp.array(th))
    close(np.asarray(prob.full_params), full, "design variables are not placed in the designable cells (others full)", atol=1e-12)
    so, eo = np.zeros(ref.shape), np.zeros(ref.shape)
    close(np.asarray(params[0]), so, "initial stress"); close(np.asarray(params[1]), eo, "initial strain")
    f = surface(X, cells, m["et"], mN, lambda x: T0 + 0 * x, F).reshape(-1)
    A = rng.normal(size=(2, 3, 3)); A /= np.linalg.norm(A, axis=(1, 2))[:, None, None]
    if c["path"] == "vol":
        A[0] = I3 / np.sqrt(3)
    hmin = np.min(np.ptp(X[cells], axis=1))
    sc = np.max(np.sum(np.abs(ref.g) * ref.W[..., None, None], axis=1))
    yielded = False
    for k, op in enumerate(c["ops"]):
        u = (X - X.mean(0)) @ (op["amp"] * A[op["dir"]]).T * 1e-2 + rng.normal(size=X.shape) * op["noise"] * hmin * 1e-2
        prob.set_params(params)
        S, q, s0 = ret(ref.H(u), so, eo, full[:, None, :])
        yielded |= bool((q > s0).any())
        tol = 1e-10 * (350. + 70e3 * np.max(np.abs(ref.H(u)) + np.abs(eo)) + np.max(np.abs(so)))
        close(np.asarray(prob.compute_residual(jnp.array(u))).reshape(-1), ref.forces(S) - f, f"state {k + 1}: residual", atol=tol * sc + 1e-10 * np.max(np.abs(f)), rtol=1e-8)
        # the stress of the law, admissible
        got = np.asarray(jax.vmap(jax.vmap(prob.get_tensor_map()))(jnp.array(ref.H(u)), *[jnp.asarray(p) for p in params]))
        close(got, S, f"state {k + 1}: stress of the return map", atol=tol, rtol=0)
        dev = got - np.trace(got, axis1=-2, axis2=-1)[..., None, None] / 3 * I3
        expect(np.all(np.sqrt(1.5 * np.sum(dev ** 2, axis=(-1, -2))) <= s0 * (1 + 1e-9) + tol), f"state {k + 1}: stress outside the yield surface")
        # reverse-mode derivative with respect to every argument, incl. stress-free points
        if np.min(np.abs(q - s0)) > 1e-3 * 250.:
            w = rng.normal(size=S.shape)
            args = [ref.H(u), so, eo, np.broadcast_to(full[:, None, :], ref.W.shape + (2,)).copy()]
            fun = lambda *a: jnp.sum(jnp.array(w) * jax.vmap(jax.vmap(prob.get_tensor_map()))(*a))
            gr = jax.grad(fun, argnums=(0, 1, 2, 3))(*[jnp.array(a) for a in args])
            for j, nm in enumerate(["displacement gradient", "old stress", "old strain", "design"]):
                d = rng.normal(size=args[j].shape)
                a2 = [a.astype(complex) for a in args]; a2[j] = a2[j] + 1e-30j * d
                want = np.sum(w * ret(*a2)[0].imag, axis=(-1, -2)) / 1e-30
                gj = np.sum(np.asarray(gr[j]) * d, axis=tuple(range(2, d.ndim)))
                size = np.max(np.abs(want)) + {0: 1e5, 1: 1., 2: 1e5, 3: 1e5 * np.max(np.abs(args[0]) + np.abs(args[2]))}[j]
                close(gj, want, f"state {k + 1}: derivative of the stress with respect to the {nm}", atol=1e-8 * size, rtol=1e-7)
        if op["update"]:
            params = prob.update_stress_strain(jnp.array(u), params)
            so, eo = ref.update(u, so, eo, full)
            close(np.asarray(params[0]), so, f"state {k + 1}: stress handed to the next step", atol=tol, rtol=0)
            close(np.asarray(params[1]), eo, f"state {k + 1}: strain handed to the next step", atol=1e-12, rtol=1e-10)
            close(np.asarray(params[2]), np.broadcast_to(full[:, None, :], ref.W.shape + (2,)), f"state {k + 1}: design handed to the next step", atol=1e-12)
    return info(yielded and c["vary"], m["et"], "yielded" if yielded else "elastic", c["path"], "all designable" if c["flex"] == 1 else "partly designable")


def gradient(c):
    """compliance and its design gradient after a load history"""
    import femlib as F, jax, jax.numpy as jnp
    from applications.fem.top_opt.plasticity import Plasticity
    from jax_am.fem.solver import ad_wrapper
    F.tick(4)
    m = c["mesh"]
    X, cells = G.build(m)

    class Stop(Exception):
        pass

    class P(Plasticity):
        _calls = 0
        def newton_update(self, sol):
            self._calls += 1
            if self._calls > 40:
                raise Stop()
            return super().newton_update(sol)
    L = m["L"][0]
    bot = lambda x: jnp.abs(x[0]) < 1e-6
    con = np.abs(X[:, 0]) < 1e-6
    if c["ends"] and m["N"][0] > 1:              # both ends held: a cell may have no free node in a stack of thickness one
        bot = lambda x: jnp.logical_or(jnp.abs(x[0]) < 1e-6, jnp.abs(x[1]) < 1e-6)
        con = con | (np.abs(X[:, 1]) < 1e-6)
    fnN = lambda x: jnp.abs(x[0] - L) < 1e-6
    mN = np.abs(X[:, 0] - L) < 1e-6
    rng = np.random.default_rng([c["seed"], 253])
    T = rng.normal(size=3); T /= np.linalg.norm(T)
    prob = F.make(P, m, X, cells, vec=3, dirichlet_bc_info=[[bot] * 3, [0, 1, 2], [lambda x: 0.] * 3], neumann_bc_info=[[fnN], [lambda x: 0. * x]])
    ref = Ref(prob, m, X, cells, F)
    nc = len(cells)
    flex, th, full = design(c, prob, nc, jnp)
    fr = np.repeat(~con, 3)
    f1 = surface(X, cells, m["et"], mN, lambda x: T + 0 * x, F).reshape(-1)
    z = np.zeros(ref.shape)
    # load level relative to first yield
    Ke = ref.tangent(0 * f1, z, z, full)
    ue = np.zeros(f1.size); ue[fr] = np.linalg.solve(Ke[np.ix_(fr, fr)], f1[fr])
    _, q, s0 = ret(ref.H(ue), z, z, full[:, None, :])
    mag = c["over"] / np.max(q / s0)
    loads = [r * mag for r in c["rs"]]
    # reference history and sensitivities
    so, eo, yielded = z, z, False
    p = len(flex) * 2
    dso, deo = np.zeros((p,) + ref.shape), np.zeros((p,) + ref.shape)
    basis = []
    for j in range(p):
        d = np.zeros_like(full); d[flex[j // 2], j % 2] = 1.; basis.append(d)
    us = []
    for a in loads:
        u, it = ref.solve(a * f1, fr, so, eo, full)
        if u is None:
            return info(False, "discarded: reference Newton does not converge")
        _, q, s0 = ret(ref.H(u), so, eo, full[:, None, :])
        if np.min(np.abs(q - s0) / s0) < 1e-3:
            return info(False, "discarded: a point on the yield surface")
        yielded |= bool((q > s0).any())
        K = ref.tangent(u, so, eo, full)[np.ix_(fr, fr)]
        if np.linalg.cond(K) > 1e7:
            return info(False, "discarded: nearly singular tangent")
        h = 1e-30
        nso, neo = ref.update(u, so, eo, full)
        du = np.zeros((p, u.size))
        for j in range(p):
            r = ref.res(u, so + 1j * h * dso[j], eo + 1j * h * deo[j], full + 1j * h * basis[j]).imag / h
            du[j, fr] = np.linalg.solve(K, -r[fr])
            s2, e2 = ref.update(u + 1j * h * du[j], so + 1j * h * dso[j], eo + 1j * h * deo[j], full + 1j * h * basis[j])
            dso[j], deo[j] = s2.imag / h, e2.imag / h
        so, eo = nso, neo
        us.append(u)
    w = loads[-1] * f1
    J0, g0 = w @ us[-1], (du @ w).reshape(-1, 2)
    fwd = ad_wrapper(prob, use_petsc=c["petsc"])
    sols = []
    val = lambda a: (lambda x: a * jnp.array(T) + 0. * x)
    def total(t):
        params = prob.init_params(t)
        sols.clear()
        for a in loads:
            prob.neumann_value_fns = [val(a)]
            prob._calls = 0
            sol = fwd(params)
            params = prob.update_stress_strain(sol, params)
            sols.append(sol)
        prob._calls = -100
        return prob.compute_compliance(val(loads[-1]), sol)
    tol = 5e-3 if c["petsc"] else 2e-4
    for rep in range(c["reps"]):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                v, g = jax.value_and_grad(total)(jnp.array(th))
                plain = float(total(jnp.array(th)))
        except Stop:
            return info(False, "discarded: Newton needs more than 40 steps")
        for k, u in enumerate(us):
            close(np.asarray(sols[k]).reshape(-1), u, f"evaluation {rep + 1}: displacement at step {k + 1} of the load history", atol=tol * np.max(np.abs(us[-1])), rtol=0)
        close(plain, J0, f"evaluation {rep + 1}: compliance", rtol=tol)
        close(float(v), J0, f"evaluation {rep + 1}: compliance in the gradient evaluation", rtol=tol)
        close(np.asarray(g), g0, f"evaluation {rep + 1}: gradient of the compliance of the last step with respect to the design", atol=3 * tol * np.max(np.abs(g0)), rtol=0)
    return info(yielded and c["vary"], m["et"], "yielded" if yielded else "elastic", f"steps={len(loads)}", "petsc" if c["petsc"] else "jax", "unloading" if list(c["rs"]) != sorted(c["rs"]) else "monotonic")


op = st.fixed_dictionaries({"amp": st.sampled_from([.3, 1., -.5, 2., 0., .05]), "dir": st.integers(0, 1), "noise": st.sampled_from([0., .2, .5]), "update": st.booleans()})


@st.composite
def laws(draw):
    et = draw(st.sampled_from(["HEX8", "HEX8", "TET4", "TET10"]))
    m = draw(strat.meshes(ets=[et], max_cells=6 if et == "TET10" else 12, geoms=("box", "affine"), drop=False))
    return dict(mesh=m, seed=draw(strat.seeds), flex=draw(st.sampled_from([1., .5, .8])), lo=draw(st.sampled_from([0., .3])), vary=bool(draw(st.integers(0, 4))), path=draw(st.sampled_from(["gen", "gen", "vol"])),
                ops=draw(st.lists(op, min_size=2, max_size=5)))


@st.composite
def grads(draw):
    et = draw(st.sampled_from(["HEX8", "HEX8", "TET4"]))
    m = draw(strat.meshes(ets=[et], max_cells=12 if et == "TET4" else 6, geoms=("box",), drop=False, affine_too=False))
    m["L"] = [1., 1., 1.]
    rs = draw(st.sampled_from([(1.,), (.6, 1.), (.3, .7, 1.), (1., .4), (.5, 1., .2), (.7, -.8), (.8, 1., -.9)]))
    return dict(mesh=m, seed=draw(strat.seeds), flex=draw(st.sampled_from([1., 1., .6])), lo=.4, vary=bool(draw(st.integers(0, 5))), over=draw(st.sampled_from([1.4, 1.2, 1.8, .5])), rs=list(rs), petsc=draw(st.booleans()),
                ends=draw(st.booleans()), reps=draw(st.sampled_from([1, 1, 2])))


FACETS = [Facet("law", laws(), law, quick=48, thorough=1200), Facet("gradient", grads(), gradient, quick=24, thorough=600)]
