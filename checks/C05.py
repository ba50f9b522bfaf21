import numpy as np
from hypothesis import strategies as st
from vp import Facet, Violation, info, expect, close, fail
import strat, femgen as G, weak

PROPERTY = "C05"
LEVEL = "exploration"
RULE = "Hypothesis draws well-posed boundary value problems (any element type, symmetric or not, linear or mildly nonlinear, any mix of terms), solver options, and histories of updates and solves; oracle: independent assembly + dense Newton; a case is non-trivial if there are free and constrained unknowns or a nonlinear form"
ASSUMPTIONS = ["reference Newton converges in at most 12 iterations from the same start (otherwise the case is discarded and counted)"]

MAX_NEWTON = 60


def counting(F):
    class Counting(F.FEM):
        _calls = 0
        def newton_update(self, sol):
            self._calls += 1
            if self._calls > MAX_NEWTON:
                raise Violation(f"the nonlinear solve does not converge (more than {MAX_NEWTON} Newton steps) where Newton's method converges")
            return super().newton_update(sol)
    return Counting


opts = st.fixed_dictionaries({"linear": st.booleans(), "precond": st.booleans(), "petsc": st.booleans(), "guess": st.sampled_from(["none", "near", "zero", "bc"])})


def solve(prob, o, c, ref, D, fm):
    from jax_am.fem.solver import solver
    import jax.numpy as jnp
    lin = o["linear"] and not c["nonlin"]
    guess = None
    n, v = ref.shape
    if not lin and o["guess"] != "none":
        rng = np.random.default_rng([c["seed"], 61])
        if o["guess"] == "near":
            guess = ref + .05 * rng.normal(size=ref.shape)
        elif o["guess"] == "zero":
            guess = np.zeros_like(ref)
        else:
            con, val = weak.split_dofs(D, n, v)
            guess = np.where(con, val, 0.).reshape(n, v)
        guess = jnp.array(guess)
    prob._calls = 0
    return np.asarray(solver(prob, linear=lin, precond=o["precond"], initial_guess=guess, use_petsc=o["petsc"])), lin


def limit(lin, petsc, r0, scale):
    """Newton iteration stops at a residual norm of 1e-6; a single linear PETSc solve has PETSc's default
    relative tolerance 1e-5 (of the preconditioned residual), a single linear JAX solve 1e-10."""
    r0 = np.linalg.norm(r0)
    return (5e-5 if petsc else 1e-7) * (1e-3 + r0) if lin else 1.05e-6 + 1e-11 * (r0 + scale)


def judge(sol, ref, D, fm, what, lin, petsc):
    k = 50. if lin and petsc else 1.
    n, v = ref.shape
    expect(sol.shape == ref.shape, f"{what}: wrong shape of the solution", got=sol.shape)
    expect(np.all(np.isfinite(sol)), f"{what}: non-finite solution")
    con, val = weak.split_dofs(D, n, v)
    s = 1 + np.max(np.abs(ref))
    close(sol.reshape(-1)[con], val[con], f"{what}: Dirichlet value not met", atol=k * 2e-6 * s, rtol=0)
    r = weak.ref_residual(fm, sol).reshape(-1)
    r0 = weak.ref_residual(fm, np.where(con, val, 0.).reshape(n, v)).reshape(-1)
    rn, lim = np.linalg.norm(r[~con]), limit(lin, petsc, r0[~con], weak.ref_scale(fm, sol))
    expect(rn <= lim, f"{what}: residual at the free unknowns does not vanish", res=rn, limit=lim, initial=np.linalg.norm(r0[~con]))
    atol = k * 5e-5 * s
    if not np.max(np.abs(sol - ref)) <= atol:      # ill-conditioned: what the residual tolerance allows
        K = weak.ref_dense_jac(fm, ref)[np.ix_(~con, ~con)]
        atol = max(atol, 4 * np.linalg.norm(np.linalg.inv(K), 2) * lim) if len(K) else atol
    close(sol, ref, f"{what}: solution differs from the reference solution", atol=atol, rtol=0)


def large(c):
    """Hundreds of unknowns, where Krylov solvers really iterate: judged by the independent residual."""
    import femlib as F
    import jax.numpy as jnp
    from jax_am.fem.solver import solver
    F.tick(8)
    form = c["form"]
    X, cells = G.build(form["mesh"])
    dinfo, D = weak.dirichlet_info(form, X, cells, form["seed"], F)
    prob, fm = weak.make_problem(form, base=counting(F), dirichlet=dinfo, X=X, cells=cells)
    n, v = len(X), form["vec"]
    con, val = weak.split_dofs(D, n, v)
    u0 = np.where(con, val, 0.).reshape(n, v)
    r0 = weak.ref_residual(fm, u0).reshape(-1)
    sols = []
    for o in c["opts"]:
        lin = o["linear"] and not form["nonlin"]
        what = "linear=%s petsc=%s precond=%s" % (lin, o["petsc"], o["precond"])
        prob._calls = 0
        guess = None if lin or o["guess"] == "none" else jnp.array(u0)
        sol = np.asarray(solver(prob, linear=lin, precond=o["precond"], initial_guess=guess, use_petsc=o["petsc"]))
        expect(sol.shape == (n, v) and np.all(np.isfinite(sol)), f"{what}: shape or non-finite solution")
        loose = lin and o["petsc"]
        s = 1 + np.max(np.abs(sol))
        close(sol.reshape(-1)[con], val[con], f"{what}: Dirichlet value not met", atol=(1e-4 if loose else 2e-6) * s, rtol=0)
        r = weak.ref_residual(fm, sol).reshape(-1)[~con]
        lim = limit(lin, o["petsc"], r0[~con], weak.ref_scale(fm, sol))
        expect(np.linalg.norm(r) <= lim, f"{what}: residual at the free unknowns does not vanish", res=np.linalg.norm(r), initial=np.linalg.norm(r0[~con]))
        sols.append((sol, what, loose))
    for sol, what, loose in sols[1:]:
        close(sol, sols[0][0], f"{what} and {sols[0][1]} differ", atol=(5e-3 if loose or sols[0][2] else 1e-3) * s, rtol=0)
    return info(len(cells) > 60, form["mesh"]["et"], f"unknowns~{n * v // 200 * 200}")


@st.composite
def larges(draw):
    et = draw(st.sampled_from(["QUAD4", "TRI3", "HEX8", "TET4", "QUAD8", "TET10"]))
    N = {"QUAD4": (14, 10), "TRI3": (10, 12), "HEX8": (5, 5, 6), "TET4": (3, 5, 4), "QUAD8": (8, 7), "TET10": (3, 2, 3)}[et]
    N = [k + draw(st.integers(0, 3)) for k in N]
    m = dict(et=et, N=N, L=[draw(st.sampled_from([1., .7, 1.5])) for _ in N], geom=draw(st.sampled_from(["box", "jitter", "affine"])), seed=draw(strat.seeds), amp=.5, perm=draw(st.booleans()))
    f = draw(weak.forms(mesh=st.just(m)))
    f["flux"] = True; f["wellposed"] = draw(st.sampled_from(["sym", "gen"]))
    f["vec"] = min(f["vec"], 1 if et in ("TET10", "QUAD8") else 2)
    f["dir"] = [dict(draw(weak.pred), kind="facet")]
    f["nonlin"] = draw(st.sampled_from([False, False, True])); f["sc"] = draw(st.sampled_from([1., 1e4]))
    return {"form": f, "opts": [dict(draw(opts), petsc=k) for k in draw(st.permutations([True, False]))]}


def discard_or_ref(fm, D, start=None):
    return weak.ref_solve(fm, D, start)[0]


def bvp(c):
    import femlib as F
    F.tick(15)
    form = c["form"]
    X, cells = G.build(form["mesh"])
    dinfo, D = weak.dirichlet_info(form, X, cells, form["seed"], F)
    prob, fm = weak.make_problem(form, base=counting(F), dirichlet=dinfo, X=X, cells=cells)
    ref = discard_or_ref(fm, D)
    if ref is None:
        return info(False, "discarded: reference Newton fails")
    lab = []
    for o in c["opts"]:
        sol, lin = solve(prob, o, form, ref, D, fm)
        judge(sol, ref, D, fm, "linear=%s petsc=%s precond=%s guess=%s" % (lin, o["petsc"], o["precond"], o["guess"]), lin, o["petsc"])
        lab += ["petsc" if o["petsc"] else "jax", "linear path" if lin else "newton path"]
    return info(0 < len(D) < ref.size or form["nonlin"], form["mesh"]["et"], form["wellposed"], "nonlinear" if form["nonlin"] else "linear", *lab)


def history(c):
    """One problem object, a sequence of boundary-value / internal-variable updates and solves,
    each judged against the reference for the current data only."""
    import femlib as F
    import jax.numpy as jnp
    F.tick(8)
    form = c["form"]
    X, cells = G.build(form["mesh"])
    dinfo, D = weak.dirichlet_info(form, X, cells, form["seed"], F)
    prob, fm = weak.make_problem(form, base=counting(F), dirichlet=dinfo, X=X, cells=cells)
    rng = np.random.default_rng([form["seed"], 71])
    prev = None
    nsolve = nupd = 0
    for op in c["ops"]:
        if op["op"] == "dirichlet":
            f2 = dict(form, dir=[dict(p, seed=p["seed"] + op["k"]) if op["move"] else p for p in form["dir"]])
            dinfo, D = weak.dirichlet_info(f2, X, cells, form["seed"] + 1 + op["k"], F)
            prob.update_Dirichlet_boundary_conditions(dinfo); nupd += 1
        elif op["op"] == "internal":
            iv = dict(prob.internal_vars)
            if fm.ivf:
                fm.ivf = [rng.uniform(.2, 1, size=a.shape) for a in fm.ivf]; iv["laplace"] = [jnp.array(a) for a in fm.ivf]; nupd += 1
            if fm.ivn:
                fm.ivn = [[rng.uniform(.2, 1, size=a.shape) for a in l] for l in fm.ivn]; iv["neumann"] = [[jnp.array(a) for a in l] for l in fm.ivn]
            prob.internal_vars = iv
        else:
            ref = discard_or_ref(fm, D)
            if ref is None:
                return info(False, "discarded: reference Newton fails")
            o = op["opt"]
            sol, lin = solve(prob, o, form, ref, D, fm)
            judge(sol, ref, D, fm, f"solve number {nsolve + 1} after {nupd} updates (petsc={o['petsc']}, linear={lin})", lin, o["petsc"])
            nsolve += 1
    return info(nsolve >= 2 and nupd >= 1, form["mesh"]["et"], f"solves={nsolve}", f"updates={nupd}")


def relax(c):
    """Dynamic relaxation: the other route to the equilibrium of a problem that has an energy."""
    import femlib as F
    from jax_am.fem.solver import dynamic_relax_solve
    F.tick(15)
    form = c["form"]
    X, cells = G.build(form["mesh"])
    dinfo, D = weak.dirichlet_info(form, X, cells, form["seed"], F)
    prob, fm = weak.make_problem(form, dirichlet=dinfo, X=X, cells=cells)
    ref = discard_or_ref(fm, D)
    if ref is None:
        return info(False, "discarded: reference Newton fails")
    tol = c["tol"]
    con, val = weak.split_dofs(D, *ref.shape)
    guess = linear_start(fm, D, con, val)
    zero = np.where(con, val, 0.).reshape(guess.shape)      # the linear start is found by an iterative solver: any start nearby has to settle
    if not all(relaxes(fm, g, con, tol) for g in (guess, zero, .5 * (zero + guess))):
        return info(False, "discarded: outside the stability of explicit relaxation")
    sol = np.asarray(dynamic_relax_solve(prob, tol=tol, info=False, info_force=False))
    what = "dynamic relaxation"
    expect(sol.shape == ref.shape, f"{what}: wrong shape of the solution", got=sol.shape)
    expect(np.all(np.isfinite(sol)), f"{what}: non-finite solution")
    s = 1 + np.max(np.abs(ref))
    close(sol.reshape(-1)[con], val[con], f"{what}: Dirichlet value not met", atol=2e-6 * s, rtol=0)
    r = weak.ref_residual(fm, sol).reshape(-1)
    expect(np.max(np.abs(r[~con]), initial=0.) <= 1.01 * tol + 1e-9 * (1 + np.max(np.abs(r))), f"{what}: residual at the free unknowns exceeds the requested tolerance", res=np.max(np.abs(r[~con]), initial=0.), tol=tol)
    K = weak.ref_dense_jac(fm, ref)[np.ix_(~con, ~con)]
    if len(K):
        amp = np.linalg.norm(np.linalg.inv(K), np.inf)
        close(sol, ref, f"{what}: solution differs from the reference solution", atol=4 * amp * (tol + 1e-8) + 2e-6 * s, rtol=0)
    r0 = weak.ref_residual(fm, guess).reshape(-1)
    moved = np.max(np.abs(r0[~con]), initial=0.) > tol
    return info(form["nonlin"] and moved, form["mesh"]["et"], "relaxation needed" if moved else "linear guess is enough")


def relaxes(fm, guess, con, tol):
    """Does damped explicit relaxation with a fixed Gershgorin mass (with a margin of 15 %) settle from this start?"""
    M = 1.1 ** 2 / 4 / 1.15 * np.abs(weak.ref_dense_jac(fm, guess)).sum(1)
    M[con] = 1.
    f = lambda q: np.where(con, 0., weak.ref_residual(fm, q.reshape(guess.shape)).reshape(-1))
    q = guess.reshape(-1).copy(); R = f(q); v = -.5 * R / M
    for _ in range(1500):
        if not np.all(np.isfinite(R)) or np.max(np.abs(q)) > 1e6:
            return False
        if np.max(np.abs(R), initial=0.) <= tol:
            return True
        q = q + v; R0, R = R, f(q)
        t = max((R - R0) @ v / max(v @ (M * v), 1e-300), 0.)
        k = min(max(2 * np.sqrt(t), 1e-3), 3.9)
        v = (2 - k) / (2 + k) * v - 2 / (2 + k) * R / M
    return False


def linear_start(fm, D, con, val):
    u = np.where(con, val, 0.)
    n = (len(fm.X), fm.v)
    z = np.zeros(n)
    J = weak.ref_dense_jac(fm, z)
    r = weak.ref_residual(fm, z).reshape(-1) + J @ u
    if (~con).any():
        u[~con] = -np.linalg.solve(J[np.ix_(~con, ~con)], r[~con])
    return u.reshape(n)


op = st.one_of(
    st.fixed_dictionaries({"op": st.just("solve"), "opt": opts}),
    st.fixed_dictionaries({"op": st.just("dirichlet"), "k": st.integers(0, 9), "move": st.booleans()}),
    st.fixed_dictionaries({"op": st.just("internal")}))


@st.composite
def histories(draw):
    form = draw(weak.solvable(max_dofs=60, n_dir=1))
    pre = draw(st.lists(op, min_size=0, max_size=3))
    k = draw(st.integers(0, 9))
    ops = pre + [{"op": "solve", "opt": draw(opts)}, draw(st.sampled_from([{"op": "dirichlet", "k": k, "move": True}, {"op": "dirichlet", "k": k, "move": False}, {"op": "internal"}])), {"op": "solve", "opt": draw(opts)}]
    return {"form": form, "ops": ops}


FACETS = [
    Facet("bvp", st.fixed_dictionaries({"form": weak.solvable(scaled=True), "opts": st.lists(opts, min_size=2, max_size=2)}), bvp, quick=72, thorough=2500),
    Facet("large", larges(), large, quick=12, thorough=400),
    Facet("history", histories(), history, quick=28, thorough=800),
    Facet("relax", st.fixed_dictionaries({"form": weak.solvable(max_dofs=60, sym=True, n_dir=1), "tol": st.sampled_from([1e-6, 1e-7, 1e-5])}), relax, quick=24, thorough=600),
]
