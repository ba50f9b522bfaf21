import os, shutil, tempfile, contextlib, io
import numpy as np
from hypothesis import strategies as st
from vp import Facet, Violation, info, expect, close, fail
import cfdref as R, femlib

PROPERTY = "C16"
LEVEL = "exploration"
RULE = "Hypothesis draws grids, moving-window sizes, laser histories (start, speed, switch-off, surface or body source), material laws, cooling and Marangoni data and drives several coupled steps; oracle: every step's state is recomputed from the previous one by an independent model (cell-wise implicit energy balance, Gaussian laser at the current position, window placement, prediction/projection, convective terms, running maximum of the liquid fraction), energy totals, mirror symmetry, second solver on the same mesh, files written; non-trivial if the laser heats and at least one cell melts or the window moves"
ASSUMPTIONS = ["window mesh has the spacing of the full mesh", "body heat source with positive speed and power", "time step and Marangoni coefficient keep the explicit convection at a Courant number of order one or less"]


def run(c):
    import jax.numpy as J, meshio
    from jax_am.cfd import cfd_am as M
    from jax_am.common import box_mesh
    femlib.tick(12)
    N, n = list(c["N"]), list(c["n"])
    dx = c["dx"]
    h = np.array([dx, dx * c["ay"], dx * c["az"]])
    L = [float(a * b) for a, b in zip(N, h)]
    mesh = M.mesh3d(L, list(N))
    same = c["same"]
    if same: n = list(N)
    local = mesh if same else M.mesh3d([float(a * b) for a, b in zip(n, h)], list(n))
    rho, visco = 8440., 7e-3
    Ts, Tl, lat, Tref = 1563., 1623., c["lat"], 300.
    xp = lambda T: np if isinstance(T, np.ndarray) else J
    cp = lambda T: .2441 * xp(T).clip(T, 300, 1563) + 338.39
    k = lambda T: .0163105 * xp(T).clip(T, 300, 1563) + 4.5847
    dt = c["fo"] * dx**2 * rho * 600 / 20
    rb = c["rb"] * dx
    eta = .43
    speed = c["speed"] * dx / dt
    P = c["heat"] * rho * 600 * h[2] / dt * np.pi * rb**2 / 2 / eta
    mar = c["mar"] * visco * .2 / dt / (600 / dx) if c["mar"] else 0.
    X0 = [L[0] * c["x0"] + .137 * dx, L[1] / 2 if c["sym"] else L[1] * c["y0"] + .131 * dx, L[2]]
    toff = (c["on"] + .5) * dt
    depth = c["depth"] * h[2]
    P, mar, speed, X0, toff, depth = float(P), float(mar), float(speed), [float(v) for v in X0], float(toff), float(depth)     # as parsed from a parameter file
    phi = float(depth * speed * rb**2 / P) if P else 1.
    tmp = tempfile.mkdtemp()
    args = dict(mesh=mesh, mesh_local=local, meshio_mesh=box_mesh(*N, *L), data_dir=tmp, cp=cp, k=k, rho=rho, visco=visco, Marangoni=mar, dt=dt, t_OFF=toff, speed=speed, X0=X0, rb=rb, eta=eta, P=P, T_ref=Tref, Ts=Ts, Tl=Tl, latent_heat=lat,
                heat_source=c["src"], write_sol_interval=c["wi"], phi=phi)
    if c["loss"]: args.update(h=c["loss"] * 20 / dx * .05, emissivity=.4)
    if c["sb"]: args.update(stefan_boltzmann=5.67e-8 * 1e4)
    hc, sb, em = args.get("h", 0.), args.get("stefan_boltzmann", 5.67e-8), args.get("emissivity", 0.)
    melted = moved = False
    quiet = contextlib.redirect_stdout(io.StringIO())
    try:
        sols = os.path.join(tmp, "vtk/cfd/sols")
        os.makedirs(sols)
        for f in ("u099.vtu", "old.txt"): open(os.path.join(sols, f), "w").write("stale")
        for f in (os.path.join(tmp, "keep.txt"), os.path.join(tmp, "vtk/cfd/keep.txt")): open(f, "w").write("keep")
        with quiet:
            S = M.AM_3d(args)
        expect(os.listdir(sols) == [] and os.path.exists(os.path.join(tmp, "keep.txt")) and os.path.exists(os.path.join(tmp, "vtk/cfd/keep.txt")), "a new run clears exactly its own old solution files")
        V = float(np.prod(h)); cells = int(np.prod(N))
        X = np.stack(np.meshgrid(*[(np.arange(a) + .5) * b for a, b in zip(N, h)], indexing="ij"), -1)
        g = lambda a: np.asarray(getattr(S, a))
        expect(np.all(g("T") == Tref) and not np.any(g("vel")) and not np.any(g("solidID")) and S.t == 0, "initial state")
        first = None; pwin = None
        for step in range(c["steps"]):
            T, vel, conv, convT, gp, sid, t = [g(a).copy() for a in ("T", "vel", "conv", "conv_T", "grad_p0", "solidID")] + [float(S.t)]
            expect(abs(t - step * dt) <= 1e-9 * dt * (step + 1), "time of a step", got=t, expected=step * dt)
            S.time_integration()
            T1, vel1, conv1, convT1, gp1, sid1 = [g(a) for a in ("T", "vel", "conv", "conv_T", "grad_p0", "solidID")]
            for nm, a in (("T", T1), ("vel", vel1), ("conv_T", convT1), ("conv", conv1), ("grad_p0", gp1)):
                expect(np.all(np.isfinite(a)), f"{nm} is not finite after a step", step=step)
            on = P if t < toff else 0.
            xl, yl = X0[0] + t * speed, X0[1]
            # --- energy
            r2 = (X[..., 0] - xl)**2 + (X[..., 1] - yl)**2
            gauss = 2 * on * eta / np.pi / rb**2 * np.exp(-2 * r2 / rb**2)
            q = -hc * (T[:, :, -1, 0] - Tref) - sb * em * (T[:, :, -1, 0]**4 - Tref**4)
            Q = np.zeros(N)
            if c["src"] == 0:
                q = q + gauss[:, :, -1]
            else:
                Q = gauss / depth * ((L[2] - X[..., 2]) <= depth * (1 + 1e-9))
            vals = [np.zeros(cells // N[s // 2]) for s in range(5)] + [q.ravel()]
            cpv = (cp(T) + lat / (Tl - Ts) * ((T > Ts) & (T < Tl)))[..., 0]
            f = lambda W: R.residual(W, h, k, [1] * 6, vals, -rho * cpv * (W - T[..., 0]) / dt - rho * cpv * convT[..., 0] + Q)
            r0, r = np.linalg.norm(f(T[..., 0])), np.linalg.norm(f(T1[..., 0]))
            fl0 = 1e-12 * cells * V * rho * cpv.max() / dt * np.abs(T1).max()
            expect(r <= 3e-5 * r0 + fl0, "energy balance of every cell with the laser at its current position", step=step, residual=float(r), initial=float(r0))
            stored = (rho * cpv * (T1 - T)[..., 0] / dt * V).sum()
            supply = q.sum() * V / h[2] + ((Q - rho * cpv * convT[..., 0]) * V).sum()
            expect(abs(stored - supply) <= np.sqrt(cells) * (3e-5 * r0 + fl0), "stored energy changes by absorbed power minus losses", stored=float(stored), supplied=float(supply), step=step)
            # --- solid marker
            liq = (np.clip(T1, Ts, Tl) - Ts) / (Tl - Ts)
            close(sid1, np.maximum(sid, liq), "melted marker = running maximum of the liquid fraction", atol=1e-12, rtol=0)
            melted |= bool(np.any(liq > 0))
            # --- window
            w = [int(v) for v in S.get_moving_box_boundary(t)]
            for ax in range(3):
                a, b = w[2 * ax:2 * ax + 2]
                expect(0 <= a and b <= N[ax] and b - a == n[ax], "moving window inside the domain, of the window mesh's size", axis=ax, window=(a, b), cells=N[ax])
            expect(w[5] == N[2], "moving window reaches the top surface")
            for ax, p in ((0, xl), (1, yl)):
                want = np.clip(p / h[ax] - n[ax] / 2, 0, N[ax] - n[ax])
                expect(abs(w[2 * ax] - want) <= 1. + 1e-9, "moving window centred on the laser", axis=ax, got=w[2 * ax], expected=float(want))
            moved |= pwin is not None and w != pwin
            pwin = w
            B = (slice(w[0], w[1]), slice(w[2], w[3]), slice(w[4], w[5]))
            out = np.ones(N, bool); out[B] = False
            for nm, a, b in (("velocity", vel, vel1), ("pressure gradient", gp, gp1), ("momentum convection", conv, conv1), ("heat convection", convT, convT1)):
                expect(np.array_equal(a[out], b[out]), f"{nm} outside the window is touched", step=step)
            # --- flow in the window
            Tw, lw = T1[B], liq[B]
            top, lt = Tw[:, :, -1, 0], lw[:, :, -1, 0]
            pad = np.pad(top, 1, "edge")
            m = np.zeros((n[0], n[1], 1, 3))
            m[:, :, 0, 0] = (pad[2:, 1:-1] - pad[:-2, 1:-1]) / 2 / h[0] * mar / visco * lt
            m[:, :, 0, 1] = (pad[1:-1, 2:] - pad[1:-1, :-2]) / 2 / h[1] * mar / visco * lt
            z = np.zeros(3)
            vBC = [[0, 0, 0, 0, 0, 2], [z] * 5 + [m]]
            vv = [[np.zeros(int(np.prod(n)) // n[s // 2]) for s in range(5)] + [m[..., i].ravel() * visco] for i in range(3)]
            pred, wv, G, err, perr, gap, _, _ = R.velocity_step(vel[B], conv[B], gp[B], lw, h, dt, rho, visco, [[0, 0, 0, 0, 0, 1]] * 2 + [[0] * 6], vv, vBC)
            s = np.abs(pred).max() + np.abs(wv).max()
            tolv = 20 * (2 * err + dt / rho * perr) + 1e-7 * s
            close(vel1[B], wv, "flow in the window", atol=tolv, rtol=0)
            close(gp1[B], G, "pressure gradient in the window", atol=rho / dt * tolv + 1e-7 * np.abs(G).max(), rtol=0)
            solid = lw[..., 0] == 0
            drag = 1e12 * dt                        # Darcy drag of solid cells over inertia
            if np.any(solid):
                expect(np.abs(pred[solid]).max(initial=0) <= 10 / drag * (np.abs(vel[B]).max() + dt * np.abs(conv[B]).max() + dt / rho * np.abs(gp[B]).max() + np.abs(m).max() * h[2] * visco * dt / rho / h.min()**2) + (20 * err + 1e-5 * np.abs(pred).max()), "predicted velocity in solid cells")
            vf = R.face_vels(vel1[B], h, vBC)
            ct, cv = R.div(Tw, vf, h), R.div(vel1[B], vf, h)
            vs = np.abs(vel1[B]).max() + np.abs(m).max() * h[2]
            close(convT1[B], ct, "heat convection in the window", atol=1e-10 * vs * np.abs(Tw).max() / h.min(), rtol=1e-8)
            close(conv1[B], cv, "momentum convection in the window", atol=1e-10 * vs * vs / h.min(), rtol=1e-8)
            if mar == 0.:
                expect(not np.any(vel1), "no flow without a driving force")
            if c["sym"]:
                d = np.abs(T1 - Tref).max()
                close(T1, T1[:, ::-1], "temperature symmetric about the scan line", atol=1e-3 * d, rtol=0)
            if first is None: first = T1.copy()
            if (step + 1) % c["wi"] == 0:
                with quiet:
                    S.write_sols(step + 1); S.inspect_sol(step + 1, c["steps"])
                files = sorted(os.listdir(sols))
                expect(f"u{(step + 1) // c['wi']:03d}.vtu" in files and len(files) == (step + 1) // c["wi"], "solution files", got=files)
                r = meshio.read(os.path.join(sols, files[-1]))
                for nm, a in (("T", T1), ("vel", vel1), ("solidID", sid1)):
                    want = a.reshape(cells, -1).astype(np.float32)
                    expect(np.array_equal(np.asarray(r.cell_data[nm][0]).reshape(want.shape), want), f"{nm} in the solution file")
                P8 = np.asarray(r.points)[np.asarray(r.cells[0].data)].mean(1)
                close(P8, X.reshape(-1, 3), "solution file: cell centres in the order of the data", rtol=1e-6)
        if c["second"]:
            with quiet:
                S2 = M.AM_3d(args)
            S2.time_integration()
            close(np.asarray(S2.T), first, "a second solver on the same mesh gives the same first step", rtol=1e-9)
            with quiet:
                S2.write_sols(1234 * c["wi"])
            expect(os.path.exists(os.path.join(sols, "u1234.vtu")), "solution file of a late step", got=sorted(os.listdir(sols)))
            S2.T = S2.T.at[0, 0, 0, 0].set(np.nan if c["steps"] % 2 else np.inf)
            try:
                with quiet: S2.inspect_sol(1, 1)
            except ValueError:
                pass
            else:
                fail("inspect_sol accepts a non-finite temperature")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return info((melted or moved) and c["heat"] > 0, "melt" if melted else "no melt", "window moves" if moved else "window stays", "body" if c["src"] else "surface", "off" if c["on"] < c["steps"] else "on", "same mesh" if same else "window")


@st.composite
def cases(draw):
    N, n = draw(st.sampled_from([((8, 6, 4), (4, 4, 2)), ((7, 4, 3), (3, 4, 3)), ((6, 6, 3), (5, 4, 2)), ((10, 4, 4), (4, 2, 3))]))
    return dict(N=list(N), n=list(n), same=draw(st.sampled_from([False] * 4 + [True])), dx=draw(st.sampled_from([1e-5, 2e-6])), ay=draw(st.sampled_from([1., .7])), az=draw(st.sampled_from([1., 1.5])), fo=draw(st.sampled_from([.1, .5])),
                rb=draw(st.sampled_from([1.5, 3.])), speed=draw(st.sampled_from([.3, 1.1, .05])), heat=draw(st.sampled_from([2500., 6000., 900., 0.])), mar=draw(st.sampled_from([-1., 0., .3])), x0=draw(st.sampled_from([.3, .05, .8])), y0=draw(st.sampled_from([.4, .1, .9])),
                sym=draw(st.booleans()), on=draw(st.sampled_from([5, 3, 2, 4, 1, 0, 7])), depth=draw(st.sampled_from([.9, 1.7, 2.2])), lat=draw(st.sampled_from([270000., 0.])), src=draw(st.sampled_from([0, 0, 1])), loss=draw(st.sampled_from([0, 1])), sb=draw(st.booleans()), wi=draw(st.integers(1, 3)), steps=draw(st.integers(3, 7)), second=draw(st.booleans()))


cases = cases().filter(lambda c: not (c["src"] == 1 and c["heat"] == 0.))
FACETS = [Facet("coupled", cases, run, quick=96, thorough=1500)]
