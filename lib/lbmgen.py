"""Scenes for the LBM checks: JSON case -> (parameters, initial phase); runner for the real code."""
import contextlib, io, os, shutil, sys, tempfile
import numpy as np
import hypothesis.strategies as st
from lbmref import LIQ, LG, GAS, WALL

flo = lambda a, b: st.integers(0, 1000).map(lambda k: round(a + (b - a) * k / 1000, 9))


@st.composite
def scenes(draw, modes=("hot", "fluid", "solid", "hot"), max_n=9, max_steps=60, intervals=True, st_zero=False):
    c = {"n": [draw(st.integers(5, max_n)), draw(st.integers(5, max_n)), draw(st.integers(6, max_n))],
         "kind": draw(st.sampled_from(["pool", "bumpy", "dam", "drop", "pool+drop", "random"])),
         "level": draw(flo(0.2, 0.8)), "seed": draw(st.integers(0, 2 ** 20)), "obst": draw(st.sampled_from([0, 0, 0, 1, 2])),
         "mode": draw(st.sampled_from(list(modes)))}
    c["units"] = {"h": draw(st.sampled_from([1e-6, 6e-6, 3.3e-5, 1e-3, 0.01])), "rho0": draw(st.sampled_from([1000., 8440., 2700.])),
                  "T0": draw(st.sampled_from([300., 700., 1500., 2500.])), "M0": draw(st.sampled_from([0.018, 0.0614])),
                  "p": draw(flo(0.0005, 0.02))}
    c["lat"] = {"g": draw(st.sampled_from([1., 1., 0., 1.])) * draw(flo(0.001, 0.03)), "nu": draw(flo(0.02, 0.4)),
                "st": 0. if st_zero else draw(st.sampled_from([1., 0., 1.])) * draw(flo(0.001, 0.06)),
                "stg": draw(st.sampled_from([0., 1., 1.])) * draw(flo(-0.02, 0.02)),
                "rp": draw(st.sampled_from([0., 0.54, 0.9])), "c": draw(st.sampled_from([0.3, 1., 5., 100.])),
                "al": draw(flo(0.01, 0.3)), "as": draw(flo(0.01, 0.3)), "eps": draw(st.sampled_from([0., 0.3, 1.])),
                "hc": draw(st.sampled_from([0., 0.02, 0.2])), "Lf": draw(st.sampled_from([0., 0.1, 0.6])), "Le": draw(flo(5., 40.)),
                "Ts": draw(flo(1.15, 2.5)), "dTl": draw(flo(0.02, 0.4)), "dTe": draw(flo(0.3, 4.)),
                "heat": draw(st.sampled_from([0.5, 1., 0.1, 0.])), "beam": draw(flo(0.8, 4.))}
    nseg = draw(st.integers(1, 3))
    tot = draw(st.sampled_from([24, 40, max_steps, 8, 15]))
    c["segs"] = [[draw(flo(-.4, .4)), draw(flo(-.4, .4)), draw(st.sampled_from([1., 1., 0., 0.5])), max(1, tot // nseg)] for _ in range(nseg)]
    c["start"] = [draw(flo(0.3, 0.7)), draw(flo(0.3, 0.7))]
    c["interval"] = draw(st.sampled_from([1, 1, 1, 1, 1, 1, 2, 3, 70])) if intervals else 1
    return c


def phase_of(c):
    Nx, Ny, Nz = c["n"]
    rng = np.random.default_rng(c["seed"])
    X, Y, Z = np.meshgrid(*[(np.arange(n) + .5) / n for n in c["n"]], indexing="ij")
    k = c["kind"]; lv = c["level"]
    ph = np.full((Nx, Ny, Nz), GAS)
    full = int(np.clip(round((lv if k != "pool+drop" else .5 * lv) * (Nz - 2)), 1, Nz - 4))   # liquid layers; interface and gas fit above
    zi = np.arange(Nz)[None, None, :]
    if k in ("pool", "pool+drop"):
        ph[:, :, 1:1 + full] = LIQ
    if k == "bumpy":
        hm = 1 + full + rng.integers(-1, 2, (Nx, Ny))
        ph[np.broadcast_to(zi < hm[:, :, None], ph.shape)] = LIQ
    if k == "dam":
        a = rng.integers(0, 2)
        ph[((X, Y)[a] < lv) & (Z < rng.uniform(.5, 1))] = LIQ
    if k in ("drop", "pool+drop"):
        ctr = rng.uniform(.35, .65, 3)
        if k == "pool+drop":
            ctr[2] = rng.uniform(.6, .8)
        r = .15 + .3 * lv if k == "drop" else .15 + .15 * lv
        ph[(X - ctr[0]) ** 2 + (Y - ctr[1]) ** 2 + (Z - ctr[2]) ** 2 < r ** 2] = LIQ
    if k == "random":
        ph[rng.random((Nx, Ny, Nz)) < lv] = LIQ
    for _ in range(c["obst"]):
        ph[tuple(rng.integers(1, n - 1) for n in c["n"])] = WALL
    ph[0] = ph[-1] = WALL; ph[:, 0] = ph[:, -1] = WALL; ph[:, :, 0] = ph[:, :, -1] = WALL
    return ph


def params_of(c):
    u, l = c["units"], c["lat"]
    h, rho, K = u["h"], u["rho0"], u["T0"]
    dt = h * float(np.sqrt(u["p"] * rho / 101325))
    M = rho * h ** 3
    cc = l["c"]
    if c["mode"] == "hot":
        Ts = 0.7; Tl = 0.8; Lf = 0.05 * cc * (l["Lf"] > 0)
    else:
        Ts = l["Ts"]; Tl = Ts + l["dTl"]; Lf = l["Lf"] * cc
    Te = Tl + l["dTe"]
    R = 8.314 * K * dt ** 2 / (h ** 2 * u["M0"])
    V = {"Nx": c["n"][0], "Ny": c["n"][1], "Nz": c["n"][2], "h": h, "dt": dt, "rho0": rho, "T0": K, "M0": u["M0"],
         "gravity": l["g"] * h / dt ** 2, "dynamic_viscosity": l["nu"] * rho * h ** 2 / dt, "st_coeff": l["st"] * M / dt ** 2,
         "st_grad_coeff": l["stg"] * M / dt ** 2 / K, "rp_coeff": l["rp"],
         "laser_power": l["heat"] * cc * np.pi * l["beam"] ** 2 / 2 / 0.4 * M * h ** 2 / dt ** 3, "beam_size": l["beam"] * h,
         "absorbed_fraction": 0.4, "heat_capacity": cc * h ** 2 / dt ** 2 / K,
         "thermal_diffusivitity_l": l["al"] * h ** 2 / dt, "thermal_diffusivitity_s": l["as"] * h ** 2 / dt,
         "emissivity": l["eps"], "h_conv": l["hc"] * cc * M / dt ** 3 / K, "latent_heat_fusion": Lf * h ** 2 / dt ** 2,
         "latent_heat_evap": l["Le"] * R * h ** 2 / dt ** 2, "T_liquidus": Tl * K, "T_solidus": Ts * K, "T_evap": Te * K,
         "enthalpy_s": cc * Ts * h ** 2 / dt ** 2, "enthalpy_l": (cc * Tl + Lf) * h ** 2 / dt ** 2}
    x, y = c["start"][0] * c["n"][0], c["start"][1] * c["n"][1]
    # segment lengths vary, the scanning speed is one number: durations are length / speed
    v = 0.3
    xs, ys, sw = [x], [y], []
    for dx, dy, s, n in c["segs"]:
        L = v * (n + 0.4)
        nrm = float(np.hypot(dx, dy))
        ex, ey = (dx / nrm, dy / nrm) if nrm > 1e-3 else (1., 0.)
        xs.append(xs[-1] + L * ex); ys.append(ys[-1] + L * ey); sw.append(s)
    P = {k: {"value": (int(z) if k[0] == "N" else float(z)), "unit": ""} for k, z in V.items()}
    P["scanning_vel"] = {"value": v * h / dt}
    P["laser_path"] = {"x_pos": [float(a * h) for a in xs], "y_pos": [float(a * h) for a in ys], "switch": sw + [0]}
    P["output_interval"] = c["interval"]
    return P


FIELDS = ("phase", "mass", "rho", "kappa", "vel", "T", "melted")


OTHERS = ("keep.txt", "../outside.txt", "mesh.vtu", "sol_0000.vtu", "msh/box.msh", "../sol_0001.vtu", "../vtk/sol_0002.vtu")


def run(P, ph, fluid_only, stale=False):
    """Runs the real simulation in a scratch directory; returns {output number: fields}, other files."""
    import meshio
    import jax.numpy as jnp
    from jax_am.lbm.core import simulation
    from jax_am.common import box_mesh
    d = tempfile.mkdtemp(prefix="vp_lbm_")
    try:
        data = os.path.join(d, "data")
        if stale:
            os.makedirs(os.path.join(data, "vtk"))
            os.makedirs(os.path.join(data, "msh")); os.makedirs(os.path.join(d, "vtk"))
            for n in ("vtk/sol_0999.vtu",) + OTHERS:
                open(os.path.join(data, n), "w").write("x")
        N = ph.shape
        with contextlib.redirect_stdout(io.StringIO()):
            mesh = box_mesh(*N, *N)
            simulation(P, data, mesh, jnp.array(ph), fluid_only)
        out = {}
        for fn in sorted(os.listdir(os.path.join(data, "vtk"))):
            assert fn.startswith("sol_") and fn.endswith(".vtu"), fn
            m = meshio.read(os.path.join(data, "vtk", fn))
            k = {a: np.asarray(m.cell_data[a][0], dtype=float) for a in FIELDS}
            out[int(fn[4:-4])] = {a: (z.reshape(N + (3,)) if a == "vel" else z.reshape(N)) for a, z in k.items()}
        kept = (not stale) or all(os.path.exists(os.path.join(data, n)) for n in OTHERS)
        return out, kept
    finally:
        shutil.rmtree(d, ignore_errors=True)
