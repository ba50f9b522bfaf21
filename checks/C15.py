import numpy as np
from hypothesis import strategies as st
from vp import Facet, Violation, info, expect, close, fail
import cfdref as R, femlib

PROPERTY = "C15"
LEVEL = "exploration"
RULE = "Hypothesis draws grids (2-D and 3-D), coefficients, conductivity and heat-capacity laws, boundary types and values, sources, melt states and histories of consecutive solves on the same and on a second solver; oracle: the discrete balance of every cell recomputed by an independent face-flux model at the returned state (residual within the solver's own tolerance), dense reference solution of prediction and projection, exact rest states; non-trivial if sources, boundary data or initial state drive a change"
ASSUMPTIONS = ["positive conductivity and heat capacity; boundary types given for every side (Dirichlet value or influx)", "projection tested with the compatible velocity boundaries of the package: walls and shear-driven top", "default solver tolerances (1e-5 energy, 1e-6 or as passed for linear solves, 1e-10 velocity)"]


def mk(c):
    from jax_am.cfd import cfd_am as M
    N, L = list(c["N"]), c["L"]
    return M, (M.mesh3d if len(N) == 3 else M.mesh2d)(list(L), N), np.array(L, float) / np.array(N)


def sides(c, N, rng, amp, vals=None):
    V = []
    for s in range(2 * len(N)):
        n = int(np.prod(N)) // N[s // 2]
        V.append(rng.standard_normal(n) * amp if c["bcvar"] else np.full(n, rng.standard_normal() * amp))
    return V


KLAW = {"const": lambda a: (lambda T: a + 0. * T), "lin": lambda a: (lambda T: a * (1 + .1 * T)), "clip": lambda a: (lambda T, xp=None: a * (1 + .2 * clip(T)))}


def clip(T):
    import jax.numpy as J
    return (np if isinstance(T, np.ndarray) else J).clip(T, -1., 1.)


def mesh_intact(m, conn):
    try:
        same = np.array_equal(np.asarray(m.cell_conn), np.asarray(conn))
    except Exception as e:
        fail('the mesh passed in is unusable after a step', error=type(e).__name__)
    expect(same, 'a step changed the mesh passed in')


def poisson(c):
    import jax, jax.numpy as J
    femlib.tick()
    M, m, h = mk(c)
    N = list(c["N"])
    rng = np.random.default_rng(c["seed"])
    n = int(np.prod(N))
    types = list(c["types"][:2 * len(N)])
    values = sides(c, N, rng, 1.)
    rel = c["mode"] == "relative"
    lam = 0. if rel or c["lam"] == 0 else c["lam"]
    if rel:
        types = [1] * len(types)
        if c["bc"] == "none": types, values = None, None
    elif all(t == 1 for t in types) and lam == 0.:
        types[c["seed"] % len(types)] = 0
    s1 = rng.standard_normal(n)
    V = float(np.prod(h))
    if rel:   # compatible data
        b = R.boundary_flux(np.zeros(N), h, 1., types, values).sum() if types else 0.
        s1 = s1 - s1.mean() - b / (n * V)
    src = lambda U, s: s - lam * U
    if c["nosrc"] and not rel:     # no source function: nothing is added
        src, lam, s1 = None, 0., np.zeros(n)
        if all(t == 1 for t in types): types[c["seed"] % len(types)] = 0
    jv = None if values is None else [J.asarray(v) for v in values]
    if c["mode"] == "nonlinear":
        a = c["mu"]
        kf = lambda T: a * (1 + .15 * (np if isinstance(T, np.ndarray) else J).tanh(T))
        eqn = M.poisson(m, nonlinear=True, mu_fn=kf, source_fn=src, bc_type=types, bc_value=jv)
    else:
        kf = c["mu"]
        eqn = M.poisson(m, mu=kf, source_fn=src, bc_type=types, bc_value=jv)
    for rep in range(c["reps"]):
        if rep:                    # a second solve with other data on the same object
            s1 = s1 * -1.5
            if types is not None:
                values = [-1.5 * v for v in values] if rel else sides(c, N, rng, 1.)
                if not rel: types = types[::-1] if not all(t == 1 for t in types) else types
                eqn.set_bc(types, [J.asarray(v) for v in values])
        if c["mode"] == "nonlinear":
            init = J.asarray(rng.standard_normal(n)) if c["init"] else None
            U, it = M.solver_nonlinear(eqn, J.asarray(s1), **({} if init is None else {"init": init}), precond=c["precond"])
            U0 = np.zeros(N) if init is None else np.asarray(init).reshape(N)
            tol = 1e-5
            if int(it) >= 50:
                return info(False, "inconclusive: Newton stopped at its iteration cap")
        else:
            U = M.solver_linear(eqn, J.asarray(s1), tol=c["tol"], precond=c["precond"], relative=rel)
            U0 = np.zeros(N); tol = c["tol"]
        U = np.asarray(U).reshape(N)
        expect(np.all(np.isfinite(U)), "solution is not finite")
        f = lambda W: R.residual(W, h, kf, types, values, s1.reshape(N) - lam * W)
        r0, r = f(U0), f(U)
        expect(np.linalg.norm(r) <= 3 * tol * (n if rel else 1) * np.linalg.norm(r0) + 1e-11 * V / h.min()**2 * (1 + np.abs(U).max()) * n, "discrete balance of the returned solution", residual=float(np.linalg.norm(r)), initial=float(np.linalg.norm(r0)), tol=tol, solve=rep)
        if rel:
            expect(abs(U.flat[0]) <= 1e-6 * (1 + np.abs(U).max()), "relative solve: first cell is the reference (zero)", got=float(U.flat[0]))
        # the compiled pieces agree with the model at an arbitrary state
        W = rng.standard_normal(N)
        close(np.asarray(eqn.compute_residual(J.asarray(W.ravel()), J.asarray(s1))).reshape(N), f(W), "compute_residual", rtol=1e-10)
    return info(True, c["mode"], f"{len(N)}d", "precond" if c["precond"] else "plain")


def energy(c):
    import jax.numpy as J
    femlib.tick()
    M, m, h = mk(c)
    N = list(c["N"])
    sh = N + [1]
    rng = np.random.default_rng(c["seed"])
    V = float(np.prod(h)); n = int(np.prod(N))
    Ts, Tl, rho, lat = 1., 1.4, c["rho"], c["lat"]
    kk = c["k"]
    xp = lambda T: np if isinstance(T, np.ndarray) else J
    k = {"const": lambda T: kk + 0 * T, "lin": lambda T: kk * (1 + .2 * T), "clip": lambda T: kk * (.5 + .4 * xp(T).clip(T, .2, 1.2))}[c["klaw"]]
    cp = {"const": lambda T: 2. + 0 * T, "clip": lambda T: 1 + .3 * xp(T).clip(T, .1, 1.1)}[c["cplaw"]]
    dt = c["fo"] * rho * h.min()**2 / kk
    types = list(c["types"])
    args = dict(mesh=m, cp=cp, k=k, rho=rho, dt=dt, Ts=Ts, Tl=Tl, latent_heat=lat)
    eqns = [M.energy_eqn(args)]
    for e in eqns: e.bc_fn = lambda b: (types, list(b))
    conn = J.copy(m.cell_conn)
    if c["rest"]:
        T = np.full(sh, c["T0"]); q = 0.; types = [1] * 6
    else:
        T = rng.uniform(.2, 1.8, sh) if c["state"] == "rough" else np.full(sh, c["T0"])
        q = c["q"]
    for step in range(c["steps"]):
        vals = [np.where(True, (rng.uniform(.3, 1.7) if t == 0 else 0), 0) * np.ones(int(np.prod(N)) // N[s // 2]) + (rng.standard_normal(int(np.prod(N)) // N[s // 2]) * (.1 if t == 0 else q * kk / h.min()) if not c["rest"] else 0.) for s, t in enumerate(types)]
        conv = rng.standard_normal(sh) * (0 if c["rest"] else c["conv"]) / dt * .1
        Q = rng.uniform(0, 1, sh) * (0 if c["rest"] else q) * rho / dt
        cpv = cp(T) + lat / (Tl - Ts) * ((T > Ts) & (T < Tl))
        if c["second"] and step == 1:        # another solver, other data, on the same mesh
            e2 = M.energy_eqn(dict(args, rho=2 * rho)); e2.bc_fn = lambda b: (types, list(b))
            e2.update(J.asarray(T * .5), J.asarray(conv), J.asarray(Q), bc_args=[J.asarray(v) for v in vals], cell_conn=conn)
            mesh_intact(m, conn)
        Tn, BCs, it = eqns[0].update(J.asarray(T), J.asarray(conv), J.asarray(Q), bc_args=[J.asarray(v) for v in vals], cell_conn=conn)
        Tn = np.asarray(Tn)
        mesh_intact(m, conn)
        expect(Tn.shape == tuple(sh) and np.all(np.isfinite(Tn)), "temperature after a step")
        for a, b in zip(BCs[1], vals): close(a, b, "boundary values returned by the step")
        if c["rest"]:
            close(Tn, T, "uniform state without forcing stays", rtol=1e-12)
        if int(it) >= 50:
            return info(False, "inconclusive: Newton stopped at its iteration cap")
        T0 = T[..., 0]
        f = lambda W: R.residual(W, h, k, types, vals, -rho * cpv[..., 0] * (W - T0) / dt - rho * cpv[..., 0] * conv[..., 0] + Q[..., 0])
        r0, r = f(T0), f(Tn[..., 0])
        fl = 1e-12 * n * V * (rho * cpv.max() / dt + 4 * kk / h.min()**2) * 2
        expect(np.linalg.norm(r) <= 3e-5 * np.linalg.norm(r0) + fl, "implicit energy balance of every cell", residual=float(np.linalg.norm(r)), initial=float(np.linalg.norm(r0)), step=step, iterations=int(it))
        stored = (rho * cpv * (Tn - T) / dt * V).sum()
        supplied = R.boundary_flux(Tn[..., 0], h, k, types, vals).sum() + ((Q - rho * cpv * conv) * V).sum()
        expect(abs(stored - supplied) <= np.sqrt(n) * 3e-5 * np.linalg.norm(r0) + fl * n, "total energy change = boundary supply + sources", stored=float(stored), supplied=float(supplied))
        T = Tn
    return info(not c["rest"], c["klaw"], "latent" if lat else "no latent", "dirichlet" if 0 in types else "flux only", "second solver" if c["second"] else "one solver")


def velocity(c):
    import jax.numpy as J
    femlib.tick()
    M, m, h = mk(c)
    N = list(c["N"])
    rng = np.random.default_rng(c["seed"])
    rho, visco = c["rho"], c["mu"]
    dt = c["fo"] * rho * h.min()**2 / visco
    eqn = M.velocity_eqn(dict(dt=dt, rho=rho, visco=visco, mesh=m, mesh_local=m))
    nt = N[0] * N[1]
    def bc(mar):
        v0 = J.zeros(3)
        z = [J.zeros(k) for k in m.surf_set_num]
        return [[0, 0, 0, 0, 0, 2], [v0] * 5 + [mar]], [[0, 0, 0, 0, 0, 1], [0, 0, 0, 0, 0, 1], [0] * 6], [z[:5] + [mar[..., i].flatten() * visco] for i in range(3)]
    eqn.bc_fn = bc
    conn = J.copy(m.cell_conn)
    v = rng.standard_normal(N + [3]) * c["v0"]; gp = rng.standard_normal(N + [3]) * c["p0"] * rho / dt
    for step in range(c["steps"]):
        fl = {"liquid": np.ones(N), "solid": np.zeros(N), "mixed": (rng.random(N) < .6) * 1., "mushy": np.where(rng.random(N) < .3, rng.random(N), (rng.random(N) < .6) * 1.)}[c["fl"]][..., None]
        mar = rng.standard_normal([N[0], N[1], 1, 3]) * c["shear"] / h[2]; mar[..., 2] = 0
        conv = rng.standard_normal(N + [3]) * c["conv"] / dt
        vn, BCs, gn = eqn.update(J.asarray(v), J.asarray(conv), J.asarray(gp), J.asarray(fl), J.asarray(mar), conn)
        vn, gn = np.asarray(vn), np.asarray(gn)
        mesh_intact(m, conn)
        vals = [[np.zeros(k) for k in m.surf_set_num[:5]] + [(mar[..., i].ravel() * visco)] for i in range(3)]
        z = np.zeros(3)
        vBC = [[0, 0, 0, 0, 0, 2], [z] * 5 + [mar]]
        pred, w, G, err, perr, gap, p, d = R.velocity_step(v, conv, gp, fl, h, dt, rho, visco, [[0, 0, 0, 0, 0, 1]] * 2 + [[0] * 6], vals, vBC)
        s = np.abs(pred).max() + np.abs(w).max()
        tolv = 20 * (err + dt / rho * perr) + 20 * err + 1e-8 * s
        expect(np.all(np.isfinite(vn)) and np.all(np.isfinite(gn)), "velocity step is not finite")
        close(vn, w, "velocity after prediction and projection", atol=tolv, rtol=0)
        close(gn, G, "pressure gradient", atol=rho / dt * tolv + 1e-8 * np.abs(G).max(), rtol=0)
        close(vn - pred, -dt / rho * (gn - gp), "correction = -dt/rho times the pressure increment's gradient", atol=tolv, rtol=0)
        # with the compact face gradient of that pressure the corrected face velocities are divergence free
        vf = R.face_vels(pred, h, vBC)
        q = 0
        for ax in range(3):
            e = R.ext(p, R.ZERO, h, ax)
            q = q + R.net(vf[ax] - dt / rho * np.diff(e, axis=ax) / h[ax], ax) / h[ax]
        close(q, 0 * q, "reference projection", atol=1e-7 * (np.abs(d).max() * dt / rho + 1e-300), rtol=0)
        v, gp = vn, gn
    return info(True, c["fl"], "shear" if c["shear"] else "no shear")


SH3 = st.sampled_from([(3, 4, 3), (2, 2, 2), (4, 3, 2), (5, 2, 4), (1, 4, 3), (6, 1, 1)])
SH2 = st.sampled_from([(4, 5), (3, 2), (1, 6), (2, 2)])
asp = st.sampled_from([1., .5, 2.])


@st.composite
def pcases(draw):
    mode = draw(st.sampled_from(["linear", "linear", "nonlinear", "relative"]))
    N = draw(SH3) if draw(st.booleans()) else draw(SH2)
    sc = draw(st.sampled_from([1., .01]))
    return dict(N=list(N), L=[k * sc * draw(asp) for k in N], mode=mode, mu=draw(st.sampled_from([1., .2, 30.])), lam=draw(st.sampled_from([0., 1., 50.])), nosrc=draw(st.sampled_from([False] * 5 + [True])), types=draw(st.lists(st.integers(0, 1), min_size=6, max_size=6)),
                bc=draw(st.sampled_from(["some", "none"])), bcvar=draw(st.booleans()), tol=draw(st.sampled_from([1e-6, 1e-10])), precond=draw(st.booleans()), init=draw(st.booleans()), reps=draw(st.integers(1, 2)), seed=draw(st.integers(0, 10**6)))


@st.composite
def ecases(draw):
    N = draw(SH3)
    sc = draw(st.sampled_from([1., 1e-3]))
    return dict(N=list(N), L=[k * sc * draw(asp) for k in N], rho=draw(st.sampled_from([1., 8000.])), lat=draw(st.sampled_from([0., 3.])), k=draw(st.sampled_from([1., 20.])), klaw=draw(st.sampled_from(["const", "lin", "clip"])), cplaw=draw(st.sampled_from(["const", "clip"])),
                fo=draw(st.sampled_from([.1, 1., 20.])), types=draw(st.just([1] * 6) | st.lists(st.integers(0, 1), min_size=6, max_size=6)), rest=draw(st.sampled_from([False] * 5 + [True])), T0=draw(st.sampled_from([.3, 1.2, 1.7])), state=draw(st.sampled_from(["rough", "uniform"])),
                q=draw(st.sampled_from([0., .05, .5])), conv=draw(st.sampled_from([0., 1.])), steps=draw(st.integers(1, 4)), second=draw(st.booleans()), seed=draw(st.integers(0, 10**6)))


@st.composite
def vcases(draw):
    N = draw(st.sampled_from([(3, 4, 3), (2, 2, 2), (4, 3, 2), (5, 2, 4)]))
    sc = draw(st.sampled_from([1., 1e-4]))
    return dict(N=list(N), L=[k * sc * draw(asp) for k in N], rho=draw(st.sampled_from([1., 8000.])), mu=draw(st.sampled_from([1., 7e-3])), fo=draw(st.sampled_from([.05, 1., 10.])), v0=draw(st.sampled_from([0., 1.])), p0=draw(st.sampled_from([0., .5])), conv=draw(st.sampled_from([0., .3])),
                shear=draw(st.sampled_from([0., 1., 1.])), fl=draw(st.sampled_from(["liquid", "mixed", "mushy", "solid"])), steps=draw(st.integers(1, 4)), seed=draw(st.integers(0, 10**6)))


FACETS = [Facet("poisson", pcases(), poisson, quick=160, thorough=2500), Facet("energy", ecases(), energy, quick=120, thorough=2000), Facet("velocity", vcases(), velocity, quick=120, thorough=2000)]
