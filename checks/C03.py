import numpy as np
from hypothesis import strategies as st
from vp import Facet, info, expect, close, fail
import strat, femgen as G, weak

PROPERTY = "C03"
LEVEL = "exploration"
RULE = "Hypothesis draws a mesh (all element types, 1-48 cells, renumbered, with dropped cells), a weak form with any subset of flux, mass, source, Neumann parts and Cauchy parts with internal variables, and a nodal field; a case is non-trivial if at least two kinds of terms are present or more than 20 cells"
ASSUMPTIONS = ["the quadrature rule itself is decided by C01/C02", "every boundary part selects at least one face"]


def labels(c, ncell):
    return [c["mesh"]["et"], "cells>20" if ncell > 20 else "cells<=20", f"neumann={len(c['neumann'])}", f"cauchy={len(c['cauchy'])}",
            "mass" if c["mass"] else "no mass", "flux" if c["flux"] else "no flux", "nonlinear" if c["nonlin"] else "linear"]


def field(c, fm, kind="random"):
    rng = np.random.default_rng([c["seed"], 21])
    return rng.normal(size=(len(fm.X), fm.v)) * .5


def residual(c):
    import femlib as F
    import jax.numpy as jnp
    F.tick()
    prob, fm = weak.make_problem(c)
    sol = field(c, fm)
    ref = weak.ref_residual(fm, sol)
    sc = max(np.max(np.abs(ref)), weak.ref_scale(fm, sol))
    got = np.asarray(prob.compute_residual(jnp.array(sol)))
    close(got, ref, "assembled residual differs from the weak form", rtol=1e-8, scale=sc)
    if c["seed"] % 3 == 0:
        close(np.asarray(prob.newton_update(jnp.array(sol))), ref, "residual returned with the tangent", rtol=1e-8, scale=sc)
    terms = c["flux"] + c["mass"] + c["source"] + bool(c["neumann"]) + bool(c["cauchy"])
    return info(terms >= 2 or len(fm.cells) > 20, *labels(c, len(fm.cells)))


def history(c):
    """Residuals of one problem object along changes of internal variables: no stale data."""
    import femlib as F
    import jax.numpy as jnp
    F.tick()
    form = c["form"]
    body = c["body"] and not form["source"]      # a nodal field whose image under get_body_map is the body force
    rng = np.random.default_rng([form["seed"], 31])
    B, b3 = rng.normal(size=(form["vec"],) * 2), float(rng.normal())
    ns = {"get_body_map": lambda self: (lambda u: jnp.array(B) @ u + b3 * u * jnp.sum(u * u))} if body else None
    prob, fm = weak.make_problem(form, extra_ns=ns)
    nt = bool(fm.ivf or fm.ivm or fm.ivn)
    for step in range(c["steps"]):
        sol = rng.normal(size=(len(fm.X), fm.v)) * .5
        iv = {}
        if fm.ivf:
            fm.ivf = [rng.uniform(.2, 1, size=a.shape) for a in fm.ivf]; iv["laplace"] = [jnp.array(a) for a in fm.ivf]
        if fm.ivm:
            fm.ivm = [rng.uniform(.2, 1, size=a.shape) for a in fm.ivm]; iv["mass"] = [jnp.array(a) for a in fm.ivm]
        if fm.ivn:
            fm.ivn = [[rng.uniform(.2, 1, size=a.shape) for a in l] for l in fm.ivn]; iv["neumann"] = [[jnp.array(a) for a in l] for l in fm.ivn]
        ref = weak.ref_residual(fm, sol)
        if body:
            old = rng.normal(size=(len(fm.X), fm.v)); iv["body"] = jnp.array(old)
            u = np.einsum('qn,cnv->cqv', fm.N, old[fm.cells])
            f = u @ B.T + b3 * u * np.sum(u * u, -1, keepdims=True)
            np.subtract.at(ref, fm.cells, np.einsum('cqv,qn,cq->cnv', f, fm.N, fm.JxW))
        prob.internal_vars = iv
        sc = max(np.max(np.abs(ref)), weak.ref_scale(fm, sol))
        close(np.asarray(prob.compute_residual(jnp.array(sol))), ref, f"residual after {step + 1} changes of the internal variables", rtol=1e-8, scale=sc)
    return info(nt or body, "body field" if body else "", *labels(form, len(fm.cells)))


FACETS = [
    Facet("residual", weak.forms(), residual, quick=320, thorough=6000),
    Facet("history", st.fixed_dictionaries({"form": weak.forms(mesh=weak.big_meshes(scale=.5)), "steps": st.integers(2, 3), "body": st.booleans()}), history, quick=40, thorough=800),
]
