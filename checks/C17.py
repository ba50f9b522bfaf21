import numpy as np
from hypothesis import strategies as st
from vp import Facet, Violation, info, expect, close, fail
import femlib

PROPERTY = "C17"
LEVEL = "exploration"
RULE = "Hypothesis draws grids, spacings, thermal states (solid, mushy, liquid, mixed, with arbitrary ghost layers), material and laser data and multi-step laser histories; oracle: an independent scalar-loop forward-Euler model of the heat equation with Robin and laser fluxes, plus exact rest, energy balance, mirror/transposition symmetry and the maximum principle; non-trivial if the state changes"
ASSUMPTIONS = ["explicit time step within the diffusive stability limit", "double precision enabled (the solver itself also runs in single precision)"]
KEYS = ("eta", "r", "rho", "h", "eps", "SB", "T0", "Ts", "Tl", "L")


def mat(T, a):
    fl = min(max((T - a["Ts"]) / (a["Tl"] - a["Ts"]), 0.), 1.)
    Tc = min(max(T, 300.), a["Tl"])
    return fl, .0163 * Tc + 4.5847, .2441 * Tc + 338.39 + (a["L"] if 0 < fl < 1 else 0.)


def model(T, xl, yl, P, d, dt, a, x, y):
    """One step; ghost layers around the body. Returns new state, (flux into the body per face area of each boundary face)."""
    n = [s - 2 for s in T.shape]
    G = T.copy()
    flux = 0.
    A = [d[1] * d[2], d[0] * d[2], d[0] * d[1]]
    for ax in range(3):
        for hi in (0, 1):
            for I in np.ndindex(*[1 if k == ax else n[k] for k in range(3)]):
                c = [i + 1 for i in I]; c[ax] = n[ax] if hi else 1
                g = list(c); g[ax] += 1 if hi else -1
                c, g = tuple(c), tuple(g)
                Tf = .5 * (T[c] + T[g])
                q = -a["h"] * (Tf - a["T0"]) - a["SB"] * a["eps"] * (Tf**4 - a["T0"]**4)     # into the body
                if ax == 2 and hi:
                    q += 2 * P * a["eta"] / np.pi / a["r"]**2 * np.exp(-2 * ((x[c[0] - 1] - xl)**2 + (y[c[1] - 1] - yl)**2) / a["r"]**2)
                G[g] = T[c] + q / mat(T[c], a)[1] * d[ax]
                flux += q * A[ax]
    N = G.copy()
    for I in np.ndindex(*n):
        c = tuple(i + 1 for i in I)
        _, k, cp = mat(T[c], a)
        s = 0.
        for ax in range(3):
            u, v = list(c), list(c)
            u[ax] -= 1; v[ax] += 1
            s += (G[tuple(u)] - 2 * G[c] + G[tuple(v)]) / d[ax]**2
        N[c] = G[c] + dt * k / a["rho"] / cp * s
    return N, flux


def used(T):
    """the entries that are state: body cells and the six ghost faces"""
    m = np.zeros(T.shape, int)
    for ax in range(3):
        i = [slice(None)] * 3
        for e in (0, -1):
            i[ax] = e
            m[tuple(i)] += 1
    return m <= 1


def run(c):
    import jax.numpy as J
    from jax_am.cfd import gamma as M
    femlib.tick()
    n = list(c["n"]); rng = np.random.default_rng(c["seed"])
    d = [c["dx"] * a for a in c["asp"]]
    a = dict(eta=c["eta"], r=c["r"] * d[0], rho=c["rho"], h=c["h"], eps=c["eps"], SB=5.67e-8, T0=c["T0"], Ts=1563., Tl=1623., L=c["L"])
    x, y, z = [np.linspace(d[k] / 2, d[k] / 2 + d[k] * (n[k] - 1), n[k]) for k in range(3)]
    Xg, Yg, _ = np.meshgrid(x, y, z, indexing="ij")
    T = {"ambient": np.full([k + 2 for k in n], a["T0"]), "solid": rng.uniform(300, 1500, [k + 2 for k in n]), "mixed": rng.uniform(280, 2500, [k + 2 for k in n]),
         "mushy": rng.uniform(1500, 1690, [k + 2 for k in n]), "liquid": rng.uniform(1650, 2600, [k + 2 for k in n]), "cold": rng.uniform(200, 299.9, [k + 2 for k in n])}[c["state"]]
    kmax = .0163 * 1623 + 4.5847
    dt = c["fo"] * a["rho"] * 400 * min(d)**2 / kmax
    P0 = c["heat"] * a["rho"] * 400 * d[2] / dt * np.pi * a["r"]**2 / 2 / a["eta"]
    kw = lambda P, xl, yl, T, dd=d, X=Xg, Y=Yg: np.asarray(M.update_T(J.asarray(T), xl, yl, J.asarray(X), J.asarray(Y), P, *dd, dt, dict(a)))
    m = used(T)
    V = d[0] * d[1] * d[2]
    changed = lit = False
    L = [n[k] * d[k] for k in range(3)]
    for s in range(c["steps"]):
        xl, yl = (rng.uniform(-.2, 1.2) * L[0], rng.uniform(-.2, 1.2) * L[1])
        P = P0 * (c["on"][s % len(c["on"])])
        T1 = kw(P, xl, yl, T)
        ref, flux = model(T, xl, yl, P, d, dt, a, x, y)
        sc = np.abs(ref[m]).max()
        close(T1[m], ref[m], "forward-Euler step with Robin and laser fluxes", atol=1e-10 * sc, rtol=0)
        B = (slice(1, -1),) * 3
        changed |= bool(np.any(T1[B] != T[B]))
        if c["state"] == "ambient" and P == 0. and np.all(T[m] == a["T0"]):
            expect(np.all(T1[m] == a["T0"]), "a body at ambient without laser stays at ambient")
        if np.all(T[B] <= 300) or np.all(T[B] >= 1623):       # constant properties: energy is exactly balanced
            cp = mat(float(T[1, 1, 1]), a)[2]
            close((T1 - T)[B].sum() * a["rho"] * cp * V, flux * dt, "energy change = net boundary flux", atol=1e-10 * a["rho"] * cp * V * sc * T.size, rtol=1e-9)
        lit |= P != 0.
        if not lit and c["h"] * max(d) < .2 and s > 0 and T[B].min() >= a["T0"]:
            expect(T1[B].max() <= T[B].max() * (1 + 1e-12) and T1[B].min() >= min(T[B].min(), a["T0"]) * (1 - 1e-12), "without laser temperatures stay between ambient and the previous maximum", lo=float(T1[B].min()), hi=float(T1[B].max()))
        # symmetry: mirror in x / in y, exchange x and y
        M1 = kw(P, L[0] - xl, yl, T[::-1])
        close(M1[::-1][m], T1[m], "mirrored scene gives the mirrored result (x)", atol=1e-9 * sc, rtol=0)
        if c["sym"]:
            M1 = kw(P, xl, L[1] - yl, T[:, ::-1])
            close(M1[:, ::-1][m], T1[m], "mirrored scene gives the mirrored result (y)", atol=1e-9 * sc, rtol=0)
            M1 = kw(P, yl, xl, T.transpose(1, 0, 2), [d[1], d[0], d[2]], Yg.transpose(1, 0, 2), Xg.transpose(1, 0, 2))
            close(M1.transpose(1, 0, 2)[m], T1[m], "exchanging x and y exchanges the result", atol=1e-9 * sc, rtol=0)
        T = T1
    return info(changed, c["state"], "laser" if P0 and any(c["on"]) else "no laser")


def props(c):
    import jax.numpy as J
    from jax_am.cfd import gamma as M
    a = dict(Ts=c["Ts"], Tl=c["Ts"] + c["dT"], L=c["L"])
    T = np.array(c["T"] + [a["Ts"], a["Tl"], 300.])
    fl, k, cp = [np.asarray(v) for v in M.update_mat(J.asarray(T), dict(a))]
    for i, t in enumerate(T):
        w = mat(float(t), a)
        if min(abs(t - a["Ts"]), abs(t - a["Tl"])) < 1e-6 and i < len(c["T"]):
            continue
        close([fl[i], k[i], cp[i]], w, "liquid fraction, conductivity, heat capacity", rtol=1e-12) if i < len(c["T"]) else close([fl[i], k[i], cp[i]], w, "material at the phase limits", rtol=1e-12)
    return info(True)


SH = st.sampled_from([(3, 4, 2), (2, 2, 2), (4, 2, 3), (1, 3, 2), (5, 4, 3)])


@st.composite
def cases(draw):
    return dict(n=list(draw(SH)), dx=draw(st.sampled_from([1e-5, 1e-3])), asp=[1., draw(st.sampled_from([1., 2., .8])), draw(st.sampled_from([1., 1.5]))], eta=draw(st.sampled_from([.43, 1.])), r=draw(st.sampled_from([1., 5.])), rho=draw(st.sampled_from([8440., 1000.])), h=draw(st.sampled_from([10., 0., 1e4])), eps=draw(st.sampled_from([.4, 0., 1.])),
                T0=draw(st.sampled_from([298., 250., 600.])), L=draw(st.sampled_from([4833.3, 0.])), state=draw(st.sampled_from(["ambient", "solid", "mixed", "mushy", "liquid", "cold"])), fo=draw(st.sampled_from([.12, .03])), heat=draw(st.sampled_from([0., 200., 2000.])), on=draw(st.lists(st.integers(0, 1), min_size=1, max_size=3)), steps=draw(st.integers(1, 4)), sym=draw(st.booleans()), seed=draw(st.integers(0, 10**6)))


pc = st.fixed_dictionaries({"Ts": st.sampled_from([1563., 900.]), "dT": st.sampled_from([60., 5.]), "L": st.sampled_from([0., 5000.]), "T": st.lists(st.floats(0, 4000), min_size=3, max_size=3)})
FACETS = [Facet("step", cases(), run, quick=640, thorough=6000), Facet("material", pc, props, quick=160, thorough=3000)]
