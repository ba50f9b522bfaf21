import numpy as np
from hypothesis import strategies as st
from vp import Facet, Violation, info, expect, close, fail
import strat, femgen as G, weak

PROPERTY = "C10"
LEVEL = "exploration"
RULE = "Hypothesis draws meshes and histories of displacement states with interleaved updates, residual/tangent evaluations, averages and solves; oracle: independent radial-return integration at every quadrature point, observed through residual, tangent and average stress only; non-trivial if some point yields and the history has at least two updates"
ASSUMPTIONS = ["3D (vec=3); the law is J2 perfect plasticity with E=70e3, nu=0.3, yield stress 250", "tangents are compared where no quadrature point is within 0.1 % of the yield surface (kink)"]

E_, NU, SIG0 = 70e3, .3, 250.
MU, LA = E_ / 2 / (1 + NU), E_ * NU / (1 + NU) / (1 - 2 * NU)
I3 = np.eye(3)


def el(e):
    return LA * np.trace(e, axis1=-2, axis2=-1)[..., None, None] * I3 + 2 * MU * e


class Ref:
    def __init__(self, prob, m, X, cells, F):
        et = m["et"]
        xi, _ = F.quad_ref(prob, m, X, cells)
        J = G.jac(et, X[cells], xi); det = np.linalg.det(J)
        self.W = det * (np.asarray(prob.JxW)[0] / det[0])
        self.g = np.einsum('qnj,cqji->cqni', G.dshape(et, xi), np.linalg.inv(J))
        self.cells, self.n = cells, len(X)
        sh = self.W.shape + (3, 3)
        self.sig, self.eps = np.zeros(sh), np.zeros(sh)
        self.X = X

    def strain(self, u):
        gu = np.einsum('cqni,cnv->cqvi', self.g, u[self.cells])
        return (gu + np.swapaxes(gu, -1, -2)) / 2

    def trial(self, u):
        t = self.sig + el(self.strain(u) - self.eps)
        s = t - np.trace(t, axis1=-2, axis2=-1)[..., None, None] / 3 * I3
        q = np.sqrt(1.5 * np.sum(s * s, axis=(-1, -2)))
        return t, s, q

    def stress(self, u):
        t, s, q = self.trial(u)
        pl = q.real > SIG0
        fac = np.where(pl, 1 - SIG0 / np.where(q == 0, 1, q), 0.)
        return t - fac[..., None, None] * s, pl

    def residual(self, u):
        S, _ = self.stress(u)
        r = np.zeros((self.n, 3), dtype=S.dtype)
        np.add.at(r, self.cells, np.einsum('cqvi,cqni,cq->cnv', S, self.g, self.W))
        return r

    def update(self, u):
        S, pl = self.stress(u)
        self.sig, self.eps = S, self.strain(u)
        return pl


def states(c, X, cells):
    """displacement states of a history: each is a combination of affine strains and noise"""
    rng = np.random.default_rng([c["seed"], 95])
    hmin = np.min(np.ptp(X[cells], axis=1))
    A = rng.normal(size=(3, 3)); A /= np.linalg.norm(A)
    B = rng.normal(size=(3, 3)); B /= np.linalg.norm(B)
    if c["path"] == "vol":
        A = I3 / np.sqrt(3)
    def u(op):
        a = op["amp"] * np.cos(op["ang"]) * A + op["amp"] * np.sin(op["ang"]) * B
        r2 = np.random.default_rng([c["seed"], op["k"], 96])
        return (X - X.mean(0)) @ a.T * 1e-2 + r2.normal(size=X.shape) * op["noise"] * hmin * 1e-2 + op["shift"]
    return u


def history(c):
    import femlib as F, jax.numpy as jnp
    from jax_am.fem.models import Plasticity
    F.tick(6)
    m = c["mesh"]
    X, cells = G.build(m)
    prob = F.make(Plasticity, m, X, cells, vec=3)
    ref = Ref(prob, m, X, cells, F)
    u = states(c, X, cells)
    scale = np.max(np.sum(np.abs(ref.g) * ref.W[..., None, None], axis=1))
    nupd, yielded, nobs = 0, False, 0
    trace = []
    def tol(sol):
        # round-off of the (possibly large, cancelling) trial stress
        return 1e-11 * scale * (SIG0 + E_ * np.max(np.abs(ref.strain(sol) - ref.eps)) + np.max(np.abs(ref.sig))) * 20
    for op in c["ops"]:
        sol = u(op)
        k = op["op"]
        trace.append(k)
        if k == "update":
            prob.update_stress_strain(jnp.array(sol)); yielded |= bool(ref.update(sol).any()); nupd += 1
        elif k == "residual":
            close(np.asarray(prob.compute_residual(jnp.array(sol))), ref.residual(sol), f"residual after {trace}", atol=tol(sol), rtol=0); nobs += 1
        elif k == "newton":
            r = np.asarray(prob.newton_update(jnp.array(sol)))
            close(r, ref.residual(sol), f"residual of the tangent assembly after {trace}", atol=tol(sol), rtol=0); nobs += 1
            q = ref.trial(sol)[2]
            if np.min(np.abs(q - SIG0)) > 1e-3 * SIG0:
                K = weak.tangent(prob, sol.size)
                v = np.random.default_rng([c["seed"], 97]).normal(size=sol.shape)
                jv = np.imag(ref.residual(sol + 1e-30j * v)) / 1e-30
                close(K @ v.reshape(-1), jv.reshape(-1), f"tangent after {trace}", atol=1e-9 * np.max(abs(K) @ np.abs(v).reshape(-1)), rtol=0)
        elif k == "avg":
            av = np.asarray(prob.compute_avg_stress())
            exp = np.einsum('cqij,cq->ij', ref.sig, ref.W) / ref.W.sum()
            close(av, exp, f"average stress after {trace}", atol=1e-9 * (SIG0 + np.max(np.abs(ref.sig))), rtol=0); nobs += 1
        # admissibility of the observable state at once: residual at the stored state is the stored stress
    # final: state as seen by the residual at two new displacement states, and the average
    for j in range(2):
        sol = u(dict(amp=.4 * (j + 1), ang=1.3 * j, noise=.1, k=100 + j, shift=0.))
        close(np.asarray(prob.compute_residual(jnp.array(sol))), ref.residual(sol), f"residual after {trace}", atol=tol(sol), rtol=0)
    av = np.asarray(prob.compute_avg_stress())
    close(av, np.einsum('cqij,cq->ij', ref.sig, ref.W) / ref.W.sum(), f"average stress after {trace}", atol=1e-9 * (SIG0 + np.max(np.abs(ref.sig))), rtol=0)
    if len(cells) == 1 or c["path"] == "affine0":
        dev = av - np.trace(av) / 3 * I3
        expect(np.sqrt(1.5 * np.sum(dev * dev)) <= SIG0 * (1 + 1e-9), "average stress outside the yield surface", q=float(np.sqrt(1.5 * np.sum(dev * dev))))
    return info(yielded and nupd >= 2, m["et"], "yielded" if yielded else "elastic", f"updates={nupd}", c["path"])


def loading(c):
    """Quasi-static displacement-controlled loading with the solver: equilibrium and state at every step."""
    import femlib as F, jax.numpy as jnp
    from jax_am.fem.models import Plasticity
    from jax_am.fem.solver import solver
    F.tick(4)
    m = c["mesh"]
    X, cells = G.build(m)
    class Stop(Exception):
        pass
    class P(Plasticity):
        _calls = 0
        def newton_update(self, sol):
            self._calls += 1
            if self._calls > 40:
                raise Stop()
            return super().newton_update(sol)
    L = m["L"][2]
    bot = lambda x: jnp.abs(x[2]) < 1e-6
    top = lambda x: jnp.abs(x[2] - L) < 1e-6
    rng = np.random.default_rng([c["seed"], 98])
    dirn = np.array([.3, .2, 1.]) * rng.uniform(.5, 1, size=3) * rng.choice([-1., 1.], size=3)
    def bcs(a):
        z = lambda x: 0.
        return [[bot] * 3 + [top] * 3, [0, 1, 2, 0, 1, 2], [z] * 3 + [(lambda x, v=float(a * dirn[k] * L): v) for k in range(3)]]
    prob = F.make(P, m, X, cells, vec=3, dirichlet_bc_info=bcs(0.))
    ref = Ref(prob, m, X, cells, F)
    con = (np.abs(X[:, 2]) < 1e-6) | (np.abs(X[:, 2] - L) < 1e-6)
    yielded = False
    u = jnp.zeros(X.shape)
    n = 0
    for a in c["steps"]:
        prob.update_Dirichlet_boundary_conditions(bcs(a * 1e-2))
        prob._calls = 0
        try:
            u = solver(prob, linear=False, initial_guess=u if c["warm"] else None, use_petsc=c["petsc"])
        except Stop:
            return info(n > 1 and yielded, "stopped: Newton needs more than 40 steps", f"steps={n}")
        s = np.asarray(u)
        r = ref.residual(s)
        rs = np.max(np.sum(np.abs(ref.g) * ref.W[..., None, None], axis=1)) * SIG0
        expect(np.max(np.abs(r[~con]), initial=0.) <= 1e-4 + 1e-6 * rs, f"step {n + 1}: internal forces at free nodes do not balance", got=float(np.max(np.abs(r[~con]), initial=0.)))
        close(s[np.abs(X[:, 2]) < 1e-6], 0 * s[np.abs(X[:, 2]) < 1e-6], "clamped end moves", atol=1e-6, rtol=0)
        close(s[np.abs(X[:, 2] - L) < 1e-6], np.broadcast_to(a * 1e-2 * dirn * L, s[np.abs(X[:, 2] - L) < 1e-6].shape), "driven end", atol=1e-6, rtol=0)
        prob.update_stress_strain(u)
        yielded |= bool(ref.update(s).any())
        av = np.asarray(prob.compute_avg_stress())
        close(av, np.einsum('cqij,cq->ij', ref.sig, ref.W) / ref.W.sum(), f"average stress at step {n + 1}", atol=1e-8 * SIG0, rtol=0)
        n += 1
    return info(yielded and n >= 2, m["et"], "yielded" if yielded else "elastic", f"steps={n}", "petsc" if c["petsc"] else "jax")


T3 = [e for e in G.ELEMS if G.DIM[e] == 3]
op = st.fixed_dictionaries({"op": st.sampled_from(["update", "update", "residual", "newton", "avg", "update"]), "amp": st.sampled_from([1., .1, .3, -1., -.3, 2., 0.]),
                            "ang": st.sampled_from([0., .5, 1.5708, 3.0]), "noise": st.sampled_from([0., .1, .5]), "k": st.integers(0, 3), "shift": st.sampled_from([0., .01])})


@st.composite
def hist(draw):
    et = draw(st.sampled_from(T3))
    mc = {"HEX20": 2, "HEX27": 1, "TET10": 6}.get(et, 12)
    m = draw(strat.meshes(ets=[et], max_cells=mc))
    return dict(mesh=m, path=draw(st.sampled_from(["gen", "vol"])), seed=draw(strat.seeds), ops=draw(st.lists(op, min_size=3, max_size=7)))


@st.composite
def loads(draw):
    et = draw(st.sampled_from(["HEX8", "TET4", "HEX8", "TET10"]))
    m = draw(strat.meshes(ets=[et], max_cells=6 if et == "TET10" else 8, geoms=("box",), drop=False, affine_too=False))
    m["L"] = [1., 1., 1.]
    return dict(mesh=m, seed=draw(strat.seeds), petsc=draw(st.booleans()), warm=draw(st.booleans()),
                steps=draw(st.lists(st.sampled_from([.5, .3, .7, .1, .2, -.2, -.5, 0., 1., 1.5]), min_size=2, max_size=4)))


FACETS = [Facet("history", hist(), history, quick=72, thorough=1500), Facet("loading", loads(), loading, quick=32, thorough=500)]
