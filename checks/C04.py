import numpy as np
from hypothesis import strategies as st
from vp import Facet, info, expect, close, fail
import strat, femgen as G, weak

PROPERTY = "C04"
LEVEL = "exploration"
RULE = "Hypothesis draws meshes and weak forms as in C03, a state and perturbation directions; the assembled matrix is compared with the complex-step derivative of an independent residual; a case is non-trivial if the form is nonlinear, has internal variables or a Cauchy part"
ASSUMPTIONS = ["weak forms are analytic at the state"]


def tangent(c):
    import femlib as F
    import jax.numpy as jnp
    F.tick()
    prob, fm = weak.make_problem(c)
    rng = np.random.default_rng([c["seed"], 41])
    n = len(fm.X) * fm.v
    sol = rng.normal(size=(len(fm.X), fm.v)) * .7
    res = np.asarray(prob.newton_update(jnp.array(sol)))
    ref = weak.ref_residual(fm, sol)
    sc = max(np.max(np.abs(ref)), weak.ref_scale(fm, sol))
    close(res, ref, "residual returned when assembling the tangent", rtol=1e-8, scale=sc)
    A = weak.tangent(prob, n)
    expect(A.shape == (n, n) and np.all(np.isfinite(A.data)), "tangent has non-finite entries")
    absA = abs(A)
    for k in range(3):
        v = rng.normal(size=(len(fm.X), fm.v))
        ex = weak.ref_jvp(fm, sol, v).reshape(-1)
        close(A @ v.reshape(-1), ex, "tangent times a direction is not the derivative of the residual", rtol=1e-8, scale=np.max(absA @ np.abs(v.reshape(-1))))
    j = int(rng.integers(n))          # one full column, entry by entry
    e = np.zeros(n); e[j] = 1
    close(A[:, [j]].toarray()[:, 0], weak.ref_jvp(fm, sol, e.reshape(sol.shape)).reshape(-1), "a column of the tangent", rtol=1e-8, scale=np.max(absA.data))
    return info(c["nonlin"] or bool(fm.ivf or fm.ivm) or bool(c["cauchy"]), c["mesh"]["et"], "nonlinear" if c["nonlin"] else "linear",
                f"cauchy={len(c['cauchy'])}", "mass" if c["mass"] else "no mass", "cells>20" if len(fm.cells) > 20 else "cells<=20")


def history(c):
    """Tangents re-assembled along a sequence of states and internal variables."""
    import femlib as F
    import jax.numpy as jnp
    F.tick()
    form = c["form"]
    prob, fm = weak.make_problem(form)
    rng = np.random.default_rng([form["seed"], 43])
    n = len(fm.X) * fm.v
    for step in range(c["steps"]):
        sol = rng.normal(size=(len(fm.X), fm.v)) * .7
        if fm.ivf:
            fm.ivf = [rng.uniform(.2, 1, size=a.shape) for a in fm.ivf]; prob.internal_vars["laplace"] = [jnp.array(a) for a in fm.ivf]
        prob.newton_update(jnp.array(sol))
        A = weak.tangent(prob, n)
        v = rng.normal(size=sol.shape)
        close(A @ v.reshape(-1), weak.ref_jvp(fm, sol, v).reshape(-1), f"tangent at step {step + 1} of a history", rtol=1e-8, scale=np.max(abs(A) @ np.abs(v.reshape(-1))))
    return info(True, form["mesh"]["et"])


FACETS = [
    Facet("tangent", weak.forms(), tangent, quick=240, thorough=5000),
    Facet("history", st.fixed_dictionaries({"form": weak.forms(mesh=weak.big_meshes(scale=.4)), "steps": st.integers(2, 3)}), history, quick=32, thorough=600),
]
