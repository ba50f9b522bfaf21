"""C21 LBM dynamics: every written state of a run equals an independent model of the scheme."""
import numpy as np
import hypothesis.strategies as st
from vp import Facet, info, expect, fail, close
import femlib, lbmgen
from lbmref import Ref, LIQ, LG, GAS, WALL

PROPERTY = "C21"
LEVEL = "exploration"
RULE = ("a run counts as non-trivial when at least three written states were compared with the model while fluid moved "
        "(velocity above 1e-6 lattice units), heat flowed (temperatures differ by 1e-3) or a cell changed phase")
ASSUMPTIONS = ["where two surface directions tie within round-off either curvature is accepted", "walls enclose the domain, the mesh is in lattice units (as in every shipped application), 64-bit floats",
               "comparison with the model stops once a threshold decision is within round-off of a tie or the flow leaves the stable regime"]


def compare(o, ref, what):
    exp = ref.output()
    if not np.array_equal(o["phase"], exp["phase"]):
        k = np.argwhere(o["phase"] != exp["phase"])[0]
        fail(f"{what}: cell state differs from the scheme", at=tuple(int(x) for x in k), got=float(o["phase"][tuple(k)]), expected=int(exp["phase"][tuple(k)]))
    expect(np.array_equal(o["melted"], exp["melted"]), f"{what}: melted marker differs from the scheme")
    ok = ~ref.amb_kappa
    close(o["kappa"] * ok, exp["kappa"] * ok, f"{what}: curvature", rtol=2e-5, atol=1e-7)
    u = {"mass": 1., "rho": ref.o["C_rho"], "vel": ref.o["C_vel"], "T": ref.o["C_T"]}
    for k in ("mass", "rho", "vel", "T"):
        close(o[k] / u[k], exp[k] / u[k], f"{what}: {k} (lattice units)", rtol=1e-5, atol=1e-9)
    return exp


def follow(c):
    femlib.tick(4)
    P, ph = lbmgen.params_of(c), lbmgen.phase_of(c)
    fo = c["mode"] == "fluid"
    out, kept = lbmgen.run(P, ph, fo, stale=c["seed"] % 4 == 0)
    ref = Ref(P, ph, fo)
    n, k = ref.nsteps, c["interval"]
    expect(sorted(out) == list(range(n // k + 1)), f"written outputs {sorted(out)} are not those of {n} steps at interval {k}")
    expect(kept, "starting a run deleted files other than its own previous outputs")
    compare(out[0], ref, "initial state")
    moved = heat = False; cmp_ = 1
    for i in range(n):
        ref.step(out[i + 1]["kappa"] if k == 1 else None)
        if ref.doubt or ref.wild:
            break
        if (i + 1) % k == 0:
            e = compare(out[(i + 1) // k], ref, f"step {i + 1}")
            cmp_ += 1
            moved |= bool(np.max(np.abs(e["vel"])) / ref.o["C_vel"] > 1e-6)
            f = (ref.phase == LIQ) | (ref.phase == LG)
            heat |= bool(f.any() and np.ptp(e["T"][f]) / ref.o["C_T"] > 1e-3)
    ev = [a for a, z in ref.events.items() if z]
    return info(cmp_ >= 3 and (moved or heat or bool(ev)), c["mode"], c["kind"], *(["tie:" + ref.doubt] if ref.doubt else []), *(["wild"] if ref.wild else []),
                *(["moved"] if moved else []), *(["heat"] if heat else []), *["ev:" + a for a in ev], f"steps~{min(40, 10 * (cmp_ // 10))}")


def mirror(c):
    """the mirrored scene evolves into the mirrored states"""
    femlib.tick(4)
    ax = c["seed"] % 2
    P, ph = lbmgen.params_of(c), lbmgen.phase_of(c)
    fo = c["mode"] == "fluid"
    a, _ = lbmgen.run(P, ph, fo)
    key = ("x_pos", "y_pos")[ax]
    Q = dict(P, laser_path=dict(P["laser_path"], **{key: [c["n"][ax] * P["h"]["value"] - t for t in P["laser_path"][key]]}))
    b, _ = lbmgen.run(Q, np.flip(ph, ax).copy(), fo)
    ref = Ref(P, ph, fo)
    sgn = np.ones(3); sgn[ax] = -1
    k = 0
    for k in range(len(a)):
        if k:
            ref.step()
            if ref.doubt or ref.wild:
                break
        for q in ("phase", "melted", "mass", "rho", "vel", "T"):
            e = np.flip(a[k][q], ax) * (sgn if q == "vel" else 1.)
            s = {"rho": ref.o["C_rho"], "vel": ref.o["C_vel"], "T": ref.o["C_T"]}.get(q, 1.)
            close(b[k][q] / s, e / s, f"mirrored scene, step {k}: {q}", rtol=1e-5, atol=1e-9)
    return info(k >= 3 and not np.array_equal(ph, np.flip(ph, ax)), "mirror", c["mode"])


FACETS = [Facet("model", lbmgen.scenes(), follow, quick=80, thorough=1200),
          Facet("mirror", lbmgen.scenes(st_zero=True, intervals=False, max_steps=20), mirror, quick=8, thorough=100)]
