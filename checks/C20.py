"""C20 free-surface LBM bookkeeping: invariants over every written state of generated runs."""
import numpy as np
import hypothesis.strategies as st
from vp import Facet, info, expect, fail, close
import femlib, lbmgen
from lbmref import at, E, LIQ, LG, GAS, WALL

PROPERTY = "C20"
LEVEL = "exploration"
RULE = ("a history counts as non-trivial when some cell changed state or the fluid moved (histories) and, for the rest facet, "
        "when the scene holds liquid, interface and gas cells")
ASSUMPTIONS = ["walls enclose the domain, the mesh is in lattice units (as in every shipped application), 64-bit floats",
               "a history is followed until density leaves [0.3, 3] or speed exceeds 0.3 (unstable regime), and mass is judged while interface cells exist"]


def wrapped(ph):
    """the states a run starts from: gas next to liquid becomes interface"""
    near = np.any([at(ph, e) == LIQ for e in E[1:]], axis=0)
    return np.where((ph == GAS) & near, LG, ph)


def total(o, C):
    return float(np.sum(o["rho"][o["phase"] == LIQ]) / C + np.sum(o["mass"][o["phase"] == LG]))


def history(c):
    femlib.tick(4)
    P, ph0 = lbmgen.params_of(c), lbmgen.phase_of(c)
    fo = c["mode"] == "fluid"
    out, _ = lbmgen.run(P, ph0, fo)
    v = lambda k: P[k]["value"]
    wall = ph0 == WALL
    w0 = wrapped(ph0)
    o = out[0]
    expect(np.array_equal(o["phase"], w0), "initial state: gas next to liquid, and only that, must become interface")
    close(o["mass"][w0 == LG], np.full(int(np.sum(w0 == LG)), .5), "initial state: interface cells are half full", rtol=1e-6)
    expect(np.all(o["melted"] == 0), "initial state: something is already marked melted")
    m0 = total(o, v("rho0"))
    changed = moved = 0; seen = 1
    for k in sorted(out)[1:]:
        p, o = out[k - 1], out[k]
        ph = o["phase"]
        if not all(np.all(np.isfinite(o[a])) for a in ("rho", "vel", "T", "mass")):
            break
        fl = (ph == LIQ) | (ph == LG)
        r = o["rho"][fl] / v("rho0"); sp = np.max(np.abs(o["vel"])) * v("dt") / v("h")
        if r.size and (r.min() < .3 or r.max() > 3) or sp > .3:
            break
        what = f"step {k}"
        seen += 1
        expect(np.all(np.isin(ph, (LIQ, LG, GAS, WALL))), f"{what}: a cell is in no legal state")
        expect(np.array_equal(ph == WALL, wall), f"{what}: walls moved")
        dead = ~fl
        for a in ("mass", "vel", "T"):
            expect(not np.any(o[a][dead]), f"{what}: gas or wall cells carry {a}")
        expect(not np.any(o["vel"][ph != LIQ]), f"{what}: velocity reported outside the liquid")
        expect(np.all(np.isin(o["melted"], (0, 1))) and np.all(o["melted"] >= p["melted"]), f"{what}: the melted marker reverted or is not 0/1")
        if not fo:
            Ts = v("T_solidus")
            sure = np.abs(p["T"] - Ts) > 1e-5 * Ts
            exp = (p["melted"] > 0) | (p["T"] > Ts)
            expect(np.array_equal((o["melted"] > 0)[sure], exp[sure]), f"{what}: the melted marker is not the history of temperatures above solidus")
        if np.any(ph == LG):
            close(total(o, v("rho0")), m0, f"{what}: total mass", rtol=3e-6)
        changed += int(np.sum(ph != p["phase"])); moved |= sp > 1e-6
    return info(seen >= 3 and (changed or moved), c["mode"], c["kind"], *(["changed"] if changed else []), *(["moved"] if moved else []),
                *(["cut"] if seen < len(out) else []), f"steps~{10 * (seen // 10)}")


def rest(c):
    """nothing drives the fluid (or it is solid): it must stay exactly where and as it was"""
    femlib.tick(4)
    c = dict(c, lat=dict(c["lat"], heat=0.))
    if c["mode"] == "fluid":
        c["lat"].update(g=0., st=0., rp=0.)
    P, ph0 = lbmgen.params_of(c), lbmgen.phase_of(c)
    out, _ = lbmgen.run(P, ph0, c["mode"] == "fluid")
    w0 = wrapped(ph0)
    lg = w0 == LG
    stable = lg & np.any([at(w0, e) == LIQ for e in E[1:]], axis=0) & np.any([at(w0, e) == GAS for e in E[1:]], axis=0)
    tidy = bool(np.all(stable == lg)) and bool(lg.any())
    for k in sorted(out)[1:]:
        o = out[k]; fl = (o["phase"] == LIQ) | (o["phase"] == LG)
        close(o["rho"] / P["rho0"]["value"], np.ones(ph0.shape), f"step {k}: density of fluid at rest", rtol=1e-6)
        close(o["vel"] * P["dt"]["value"] / P["h"]["value"], np.zeros(ph0.shape + (3,)), f"step {k}: velocity of fluid at rest", atol=1e-10)
        if c["mode"] != "fluid":
            close(o["T"][fl] / P["T0"]["value"], np.ones(int(fl.sum())), f"step {k}: temperature without heating", rtol=1e-6)
        if tidy:
            expect(np.array_equal(o["phase"], w0), f"step {k}: cell states change although nothing moves")
            close(o["mass"][lg], np.full(int(lg.sum()), .5), f"step {k}: fill of the interface at rest", rtol=1e-6)
    return info(tidy and bool(np.any(w0 == LIQ)) and bool(np.any(w0 == GAS)), c["mode"], c["kind"], "tidy" if tidy else "untidy")


FACETS = [Facet("history", lbmgen.scenes(intervals=False), history, quick=72, thorough=900),
          Facet("rest", lbmgen.scenes(modes=("solid", "fluid"), max_steps=20, intervals=False), rest, quick=16, thorough=120)]
