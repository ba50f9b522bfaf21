import numpy as np
from hypothesis import strategies as st
from vp import Facet, Violation, info, expect, close, fail
import strat, femgen as G, weak
from C05 import counting

PROPERTY = "C07"
LEVEL = "exploration"
RULE = "Hypothesis draws symmetric boundary value problems on boxes and sheared boxes (any element type and numbering), one or two periodic axis pairs, the components they apply to, Dirichlet data, backend and path; oracle: dense solution of the reduced constrained system; non-trivial if the constraint changes the solution"
ASSUMPTIONS = ["the tangent is symmetric (documented requirement of the saddle-point solver MINRES)", "periodic point pairs match geometrically"]


def build(c):
    """Box of unit-ish extents, optionally sheared: x' = A x + t (translations stay translations)."""
    m = c["form"]["mesh"]; et = m["et"]; d = G.DIM[et]
    box = dict(m, geom="box")
    X, cells = G.build(box)
    X = X * c["size"]
    rng = np.random.default_rng([m["seed"], 101])
    A = np.eye(d); t = np.zeros(d)
    if c["shear"]:
        A = np.eye(d) + rng.uniform(-.2, .2, size=(d, d))
        t = rng.uniform(-1, 1, size=d) * c["size"]
    return X, cells, A, t


def problem(c, F, jnp, shift=0):
    form = c["form"]
    m = form["mesh"]; et = m["et"]; d = G.DIM[et]; v = form["vec"]
    Xb, cells, A, t = build(c)
    X = Xb @ A.T + t
    L = np.array(m["L"][:d]) * c["size"]
    Ai, tj = jnp.array(np.linalg.inv(A)), jnp.array(t)
    back = lambda x: Ai @ (x - tj)
    tol = 1e-5 * c["size"]
    rng = np.random.default_rng([form["seed"] + shift, 102])
    axes = [c["axis"] % d] + ([(c["axis"] + 1) % d] if c["two"] else [])
    locA, locB, maps, vecs, pairs = [], [], [], [], []
    for a in axes:
        comps = [k for k in range(v) if (c["comps" if a == axes[0] else "comps2"] >> k) & 1] or [0]
        for k in comps:
            rev = bool(c["reverse"])
            lo = (lambda x, a=a: jnp.abs(back(x)[a]) < tol)
            hi = (lambda x, a=a: jnp.abs(back(x)[a] - L[a]) < tol)
            sh = A[:, a] * L[a]
            locA.append(hi if rev else lo); locB.append(lo if rev else hi)
            maps.append(lambda x, sh=(-sh if rev else sh): x + sh); vecs.append(k)
            ia = np.flatnonzero(np.abs(Xb[:, a]) < tol)
            for i in ia:
                j = np.flatnonzero(np.max(np.abs(Xb - (Xb[i] + np.eye(d)[a] * L[a])), axis=1) < tol)
                pairs.append((int(i), int(j[0]), k))
    # Dirichlet data on the sides of another axis, with values compatible with the periodicity
    da = [a for a in range(d) if a not in axes]
    dinfo = None; D = {}
    if da and c["dirichlet"]:
        a = da[0]
        vals = rng.normal(size=v) * .5; sl = rng.normal(size=v) * .3
        w = rng.normal(size=d) * .3 / c["size"]
        for k in axes:
            w[k] = 0.
        locs, vcs, vfs = [], [], []
        for side in (0., 1.)[:c["dirichlet"]]:
            for k in range(v):
                locs.append(lambda x, a=a, s=side: jnp.abs(back(x)[a] - s * L[a]) < tol)
                vcs.append(k)
                vfs.append(lambda x, k=k, s=side: vals[k] + s * sl[k] + jnp.dot(jnp.array(w), back(x)))
                for i in np.flatnonzero(np.abs(Xb[:, a] - side * L[a]) < tol):
                    D[(int(i), k)] = float(vals[k] + side * sl[k] + w @ Xb[i])
        dinfo = [locs, vcs, vfs]
    return X, cells, [locA, locB, maps, vecs], pairs, dinfo, D


def ref(fm, D, pairs, maxit=12):
    """Newton on the null space of all constraints (dense)."""
    n, v = len(fm.X), fm.v
    rows = []; rhs = []
    for (i, k), x in D.items():
        r = np.zeros(n * v); r[i * v + k] = 1; rows.append(r); rhs.append(x)
    for i, j, k in pairs:
        r = np.zeros(n * v); r[i * v + k] = 1; r[j * v + k] = -1; rows.append(r); rhs.append(0.)
    B = np.array(rows); g = np.array(rhs)
    u = np.linalg.lstsq(B, g, rcond=None)[0]
    if np.max(np.abs(B @ u - g)) > 1e-9:
        return None, None
    U, S, Vt = np.linalg.svd(B)
    rank = int(np.sum(S > 1e-9))
    Z = Vt[rank:].T
    for it in range(maxit):
        r = Z.T @ weak.ref_residual(fm, u.reshape(n, v)).reshape(-1)
        if np.linalg.norm(r) < 1e-10:
            return u.reshape(n, v), B
        J = weak.ref_dense_jac(fm, u.reshape(n, v))
        u = u - Z @ np.linalg.solve(Z.T @ J @ Z, r)
    return (u.reshape(n, v), B) if np.linalg.norm(r) < 1e-8 else (None, None)


def periodic(c):
    import femlib as F
    import jax.numpy as jnp
    from jax_am.fem.solver import solver
    F.tick(10)
    form = c["form"]
    X, cells, pinfo, pairs, dinfo, D = problem(c, F, jnp)
    base = counting(F)
    orig_make = F.make
    m = form["mesh"]
    # make_problem builds with F.make(cls, ...): pass the periodic data through
    def mk(cls_, mesh, X_, cells_, vec=1, **kw):
        return orig_make(cls_, mesh, X_, cells_, vec=vec, periodic_bc_info=pinfo, **kw)
    F.make = mk
    try:
        prob, fm = weak.make_problem(form, base=base, dirichlet=dinfo, X=X, cells=cells)
    finally:
        F.make = orig_make
    if c["eps"]:
        prob.p_num_eps = c["eps"]
    lin = c["linear"] and not form["nonlin"]
    for k, petsc in enumerate([c["petsc"]] + c["more"]):
        if k:       # the same problem object again: other Dirichlet values, other internal variables, other backend
            dinfo, D = problem(c, F, jnp, shift=k)[4:]
            if dinfo:
                prob.update_Dirichlet_boundary_conditions(dinfo)
            rng = np.random.default_rng([form["seed"], k, 103])
            iv = dict(prob.internal_vars)
            if fm.ivf:
                fm.ivf = [rng.uniform(.2, 1, size=a.shape) for a in fm.ivf]; iv["laplace"] = [jnp.array(a) for a in fm.ivf]
            if fm.ivn:
                fm.ivn = [[rng.uniform(.2, 1, size=a.shape) for a in l] for l in fm.ivn]; iv["neumann"] = [[jnp.array(a) for a in l] for l in fm.ivn]
            prob.internal_vars = iv
        u, B = ref(fm, D, pairs)
        if u is None:
            return info(False, "discarded")
        prob._calls = 0
        sol = np.asarray(solver(prob, linear=lin, use_petsc=petsc))
        s = 1 + np.max(np.abs(u))
        tol = 2e-3 if lin else 2e-4
        tag = f"solve {k + 1}: " if k else ""
        expect(sol.shape == u.shape and np.all(np.isfinite(sol)), tag + "finite solution of the right shape")
        for i, j, q in pairs:
            if abs(sol[i, q] - sol[j, q]) > tol * s:
                fail(tag + "periodic pair differs", nodes=(i, j), comp=q, a=float(sol[i, q]), b=float(sol[j, q]))
        for (i, q), x in D.items():
            if abs(sol[i, q] - x) > tol * s:
                fail(tag + "Dirichlet value not met next to periodic conditions", node=i, comp=q, got=float(sol[i, q]), expected=x)
        if not lin:         # equilibrium in every admissible direction, to the solver's tolerance
            U, S, Vt = np.linalg.svd(B)
            r = Vt[int(np.sum(S > 1e-9)):] @ weak.ref_residual(fm, sol).reshape(-1)
            expect(np.linalg.norm(r) <= 3e-6 + 1e-9 * s, tag + "residual of the converged periodic solution", got=float(np.linalg.norm(r)), limit=3e-6)
        close(sol, u, tag + f"periodic solution differs from the constrained reference (linear={lin}, petsc={petsc})", atol=5 * tol * s, rtol=0)
    return info(True, m["et"], "petsc" if c["petsc"] else "jax", "linear path" if lin else "newton path", f"pairs axes={2 if c['two'] else 1}", f"solves={1 + len(c['more'])}", f"p_num_eps={c['eps']}" if c["eps"] else "", f"dirichlet sides={len(dinfo[0]) // form['vec'] if dinfo else 0}",
                f"size={c['size']}", "partial comps" if (c["comps"] & ((1 << form["vec"]) - 1)) not in (0, (1 << form["vec"]) - 1) else "all comps")


@st.composite
def cases(draw):
    f = draw(weak.solvable(max_dofs=70, sym=True, geoms=("box",)))
    f["cauchy"] = []
    if not f["mass"]:
        f["mass"] = draw(st.booleans())
    c = dict(form=f, axis=draw(st.integers(0, 2)), two=draw(st.booleans()), comps=draw(st.integers(1, 7)), reverse=draw(st.booleans()),
             shear=draw(st.booleans()), dirichlet=draw(st.integers(0, 2)), linear=draw(st.booleans()), petsc=draw(st.sampled_from(PETSC)), comps2=draw(st.integers(1, 7)), eps=draw(st.sampled_from([None, None, .5, 2.])), more=draw(st.lists(st.sampled_from(PETSC), max_size=1)))
    d = G.DIM[f["mesh"]["et"]]
    if d == 2 and c["two"]:
        c["dirichlet"] = 0
    if c["dirichlet"] == 0 or (d == 2 and c["two"]):
        f["mass"] = True
    f["dir"] = []
    c["size"] = draw(st.sampled_from([1., 1., 1e-3, 1e-5, 1e-6]))     # metres, millimetres, micrometres
    if c["size"] < 1:       # pure flux in units where it stays of order one: all other terms vanish with the size
        f.update(mass=False, source=False, nonlin=False, sc=c["size"] ** (2. - d))
        c["two"] = c["two"] and d == 3; c["dirichlet"] = max(1, c["dirichlet"])
    return c


PETSC = [True, False]
FACETS = [Facet("periodic", cases(), periodic, quick=96, thorough=2000)]
