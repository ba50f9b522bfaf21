import contextlib, importlib, io, json, os, tempfile
import numpy as np
from hypothesis import strategies as st
from vp import Facet, Violation, info, expect, close, fail
import strat
from C19 import neper, no_plots

PROPERTY = "C28"
LEVEL = "exploration"
RULE = "Hypothesis draws grids, domains, grain maps, time steps of both solvers, output intervals, temperature histories and laser paths; the drivers run with a recording grain solver and a temperature solver that produces a known history; oracle: linear interpolation of that history in time at the cell centroids, and the analytic laser temperature at the nominal laser position; non-trivial if the temperature field varies in space and time over several steps"
ASSUMPTIONS = ["the grain and temperature solvers themselves are C16 and C18; here they are stand-ins that record what they are given", "polycrystal files as Neper writes them"]


def recorder(log):
    class PF:
        def __init__(self, pf_args, polycrystal):
            self.pf_args, self.polycrystal = pf_args, polycrystal
        def ini_cond(self):
            return np.full((len(self.polycrystal.centroids), 2), 1.)
        def clean_sols(self):
            log.append(("clean",))
        def stepper(self, state, t, params):
            y = np.asarray(state[0]) + 1.
            log.append(("step", float(state[1]), float(t), np.asarray(state[0])[0, 0], np.asarray(params[0]).copy()))
            return (y, t), y
        def inspect_sol(self, sol, sol0, T, ts, step):
            log.append(("inspect", int(step)))
        def write_sols(self, sol, T, step):
            log.append(("write", int(step), float(np.asarray(sol)[0, 0]), np.asarray(T).copy()))
    return PF


@contextlib.contextmanager
def driver(name, tmp, **repl):
    """the driver's module, working in a scratch directory with some of its collaborators replaced"""
    M = importlib.import_module(name)
    old = {k: getattr(M, k) for k in list(repl) + ["__file__"]}
    for k, v in repl.items():
        setattr(M, k, v)
    M.__file__ = os.path.join(tmp, "example.py")
    try:
        with no_plots(), contextlib.redirect_stdout(io.StringIO()):
            yield M
    finally:
        for k, v in old.items():
            setattr(M, k, v)


def crystal(c, tmp, sub="data"):
    N, L = c["N"], c["L"]
    g = np.random.default_rng([c["seed"], 281]).integers(0, c["grains"], size=int(np.prod(N)))
    g[:c["grains"]] = np.arange(c["grains"])
    P, C = neper(os.path.join(tmp, sub, "neper"), N, L, g)
    return P[C].mean(1)


def base(c):
    return dict(id=1, dim=3, num_oris=2, num_grains=c["grains"], domain_x=c["L"][0], domain_y=c["L"][1], domain_z=c["L"][2], T_liquidus=1623., T_ambient=300., gas_const=8.3, Qg=1.4e5, L0=3.5e3, kappa_g=2.77e-6, m_g=2.4e5,
                anisotropy=0., ad_hoc=1., write_sol_interval=c["wint"], check_sol_interval=c["cint"], dt=c["dt"], t_OFF=c["dt"] * c["steps"])


def chain(log, c, times, what):
    """one step per time, each from the previous state; outputs at the requested steps"""
    st_ = [e for e in log if e[0] == "step"]
    expect(len(st_) == len(times) - 1, f"{what}: number of steps", got=len(st_), expected=len(times) - 1)
    for i, (_, t0, t1, y, T) in enumerate(st_):
        close([t0, t1], [times[i], times[i + 1]], f"{what}: step {i + 1} does not go from one time to the next", rtol=1e-9, atol=1e-9 * c["dt"])
        expect(y == i + 1., f"{what}: step {i + 1} does not start from the previous result", got=y)
    wr = [(e[1], e[2]) for e in log if e[0] == "write"]
    want = [(k, k + 1.) for k in range(len(times)) if k % c["wint"] == 0]
    expect(wr == want, f"{what}: written steps (step, state)", got=wr, expected=want)
    ins = [e[1] for e in log if e[0] == "inspect"]
    expect(ins == [k for k in range(1, len(times)) if k % c["cint"] == 0], f"{what}: inspected steps", got=ins)
    return st_


def coupled(c):
    import yaml
    N, L = c["N"], c["L"]
    dtc = c["dt"] * c["ratio"]
    rng = np.random.default_rng([c["seed"], 282])
    nT = int(np.ceil(c["steps"] / c["ratio"])) + 4
    a, b = rng.normal(size=(nT, 3)), rng.normal(size=nT)
    fld = lambda k, X: 300. + 50. * (X / np.array(L) @ a[k] + b[k]) + 20. * np.prod(X / np.array(L) - .3, -1)
    log, ncfd = [], []

    class CFD:
        def __init__(self, args):
            self.k, self.t, self.args = 0, 0., args
            x = np.meshgrid(*[(np.arange(n) + .5) * l / n for n, l in zip(N, L)], indexing="ij")
            self.X = np.stack(x, -1)
            expect(tuple(args["mesh"].shape) == tuple(N), "coupled: the temperature solver's grid is not the crystal's", got=tuple(args["mesh"].shape), expected=tuple(N))
            lm = args["mesh_local"]
            expect(all(0 < m <= n for m, n in zip(lm.shape, N)), "coupled: fine window outside the grid")
            close(np.asarray(lm.dX), np.asarray(args["mesh"].dX), "coupled: cell sizes of the fine window", rtol=1e-9)
            close(np.asarray(args["mesh"].dX), np.array(L) / np.array(N), "coupled: cell sizes", rtol=1e-9)
            self.set()
        def set(self):
            self.T = fld(min(self.k, nT - 1), self.X)[..., None]
        def time_integration(self):
            self.k += 1; self.t += dtc; self.set(); ncfd.append(self.k)
        def clean_sols(self): pass
        def write_sols(self, step): log.append(("cfdwrite", int(step), self.k))
        def inspect_sol(self, step, num): pass

    with tempfile.TemporaryDirectory() as tmp:
        cent = crystal(c, tmp)
        yaml.safe_dump(base(c), open(os.path.join(tmp, "pf_params.yaml"), "w"))
        json.dump(dict(dt=dtc, t_OFF=c["dt"] * c["steps"], write_sol_interval=c["wint"], check_sol_interval=c["cint"], T_ref=300.), open(os.path.join(tmp, "cfd_params.json"), "w"))
        with driver("applications.phase_field.coupled.example", tmp, AM_3d=CFD, PFSolver=recorder(log)) as M:
            M.coupled_integrator()
    times = np.arange(c["steps"] + 1) * c["dt"]
    for i, (_, _, t, _, T) in enumerate(chain(log, c, times, "coupled")):
        k = int(np.floor(t / dtc * (1 + 1e-12))); w = t / dtc - k
        want = (1 - w) * fld(k, cent) + w * fld(k + 1, cent)
        close(T.reshape(-1), want, f"coupled: temperature handed to grain step {i + 1}, at {t / dtc:.3f} temperature steps", atol=1e-6 * 500, rtol=0)
    close([e[3] for e in log if e[0] == "write"][0].reshape(-1), fld(0, cent), "coupled: temperature written with the initial state", atol=5e-4, rtol=0)
    cw = [(e[1], e[2]) for e in log if e[0] == "cfdwrite"]
    expect(all(s == k and s % c["wint"] == 0 for s, k in cw) and [s for s, _ in cw] == sorted(set(s for s, _ in cw)), "coupled: temperature outputs are not those of the requested steps", got=cw)
    return info(c["steps"] > c["ratio"] and np.prod(N) > 1, f"ratio={c['ratio']}", "several temperature steps" if c["steps"] > c["ratio"] else "one temperature step")


def laser(cent, pos, d, vel, cap, Q=25.):
    R = cent - pos
    r = np.linalg.norm(R, axis=1)
    T = 300. + Q / (2 * np.pi * 27.) / r * np.exp(-vel / (2 * 5.2e-6) * (r + R @ d))
    return np.minimum(T, 2000.) if cap else T


def scan(c):
    """laser paths over several segments"""
    import yaml
    log = []
    L = np.array(c["L"])
    corners = np.array(c["corners"]) * L
    seg = np.diff(corners, axis=0)
    ln = np.linalg.norm(seg, axis=1)
    dt = float(np.min(ln) / c["vel"] / c["persteps"])
    p = dict(base(c), dt=dt, vel=c["vel"], laser_path=dict(x_pos=corners[:, 0].tolist(), y_pos=corners[:, 1].tolist(), z_pos=corners[:, 2].tolist(), switch=[1] * (len(corners) - 1) + [0]))
    c = dict(c, dt=dt)
    with tempfile.TemporaryDirectory() as tmp:
        cent = crystal(c, tmp, "data/example")
        yaml.safe_dump(p, open(os.path.join(tmp, "pf_params.yaml"), "w"))
        with driver("applications.phase_field.multi_scan.example", tmp, PFSolver=recorder(log)) as M:
            ts, xs, ys, zs, ps, md = [np.asarray(a) for a in M.read_path(M.set_params())]
            M.integrator()
    pos = np.stack([xs, ys, zs], 1)
    S = np.concatenate([[0.], np.cumsum(ln / c["vel"])])
    expect(np.all(np.diff(ts) > -1e-9 * dt) and ts[0] == 0. and ts[-1] < S[-1] + 1e-9 * dt, "scan: times do not run from zero to the end of the path")
    starts = []
    for k in range(len(ln)):
        on = (ts >= S[k] - 1e-6 * dt) & (ts < S[k + 1] - 1e-6 * dt)
        near = (np.abs(ts - S[k + 1]) <= 1e-6 * dt)
        j = np.flatnonzero(on)
        expect(len(j) > 0, "scan: a segment of the path has no time step", segment=k)
        while len(j) > 1 and ts[j[1]] - ts[j[0]] < 1e-6 * dt:      # the end of the previous segment, met to round-off
            j = j[1:]
        t = ts[j]
        close(t, S[k] + dt * np.arange(len(j)), f"scan: times on segment {k + 1}", atol=1e-6 * dt, rtol=0)
        expect(abs(S[k + 1] - t[-1]) <= dt * (1 + 1e-6), "scan: a segment ends early", segment=k)
        nom = corners[k] + np.outer((t - S[k]) * c["vel"], seg[k] / ln[k])
        # the segment's samples, ties at its end being either segment's
        use = ~np.any(np.abs(ts[j][:, None] - S[None, :]) <= 1e-6 * dt, axis=1) | (np.arange(len(j)) > 0)
        err = np.linalg.norm(pos[j] - nom, axis=1)
        expect(np.all(err[use] <= c["vel"] * dt * (1 + 1e-6)), "scan: laser more than one time step's travel from its place on the path", got=float(np.max(err[use], initial=0)), limit=c["vel"] * dt)
        close(md[j][use], np.broadcast_to(seg[k] / ln[k], md[j][use].shape), "scan: direction of motion", atol=1e-12)
        expect(np.all(ps[j][use] == 1), "scan: laser switched off during a segment")
        off = pos[j] - corners[k]
        close((off - np.outer(off @ seg[k] / ln[k], seg[k] / ln[k]))[use], 0. * off[use], "scan: laser leaves the path", atol=1e-12 * np.max(L))
    for i, (_, _, t, _, T) in enumerate(chain(log, c, ts, "scan")):
        close(T.reshape(-1), laser(cent, pos[i], md[i], c["vel"], True), f"scan: temperature of step {i + 1} is not that of the laser at the start of the step", rtol=2e-4, atol=1e-2)
    for e in log:
        if e[0] == "write":
            close(e[3].reshape(-1), laser(cent, pos[e[1]], md[e[1]], c["vel"], True), "scan: written temperature", rtol=2e-4, atol=1e-2)
    return info(len(ts) > 3, f"segments={len(ln)}")


def single(c):
    """single-track and directional-solidification drivers"""
    import yaml
    log = []
    quench = c["kind"] == "quench"
    name = "applications.phase_field." + dict(quench="solidification.example", track="simple.example", ramp="simple.example_grf")[c["kind"]]
    L = np.array(c["L"])
    p = base(c)
    p["num_oris"] = 3 if quench else 2
    with tempfile.TemporaryDirectory() as tmp:
        cent = crystal(c, tmp)
        yaml.safe_dump(p, open(os.path.join(tmp, "pf_params.yaml"), "w"))
        with driver(name, tmp, PFSolver=recorder(log)) as M:
            M.integrator()
    times = np.arange(c["steps"] + 1) * c["dt"]
    vel = .6 * L[0] / p["t_OFF"]
    def field(t):
        if quench:
            return 1623. + 5e5 * cent[:, 2] - 1e5 * t
        if c["kind"] == "ramp":     # power 35 -> 15, speed 0.5 -> 1.5 of the average, position its integral
            s = t / p["t_OFF"]
            return laser(cent, np.array([.2 * L[0] + vel * t * (.5 + .5 * s), .5 * L[1], L[2]]), np.array([1., 0, 0]), vel * (.5 + s), False, 35. - 20. * s)
        return laser(cent, np.array([.2 * L[0] + vel * t, .5 * L[1], L[2]]), np.array([1., 0, 0]), vel, False)
    for i, (_, t0, _, _, T) in enumerate(chain(log, c, times, c["kind"])):
        close(T.reshape(-1), field(t0), f"{c['kind']}: temperature of step {i + 1} is not that at the start of the step", rtol=1e-3, atol=1e-2)
    for e in log:
        if e[0] == "write":
            close(e[3].reshape(-1), field(times[e[1]]), f"{c['kind']}: written temperature", rtol=1e-3, atol=1e-2)
    return info(c["steps"] > 1, c["kind"])


common = dict(N=st.tuples(*[st.integers(2, 5)] * 3).map(list), L=st.sampled_from([[1e-3, 2e-4, 1e-4], [1e-4, 1e-4, 3e-4], [2e-4, 1e-3, 1e-4]]), grains=st.sampled_from([1, 3, 2]), seed=strat.seeds, wint=st.sampled_from([1, 2, 3, 5]), cint=st.sampled_from([1, 2, 4]))
cou = st.fixed_dictionaries(dict(common, dt=st.sampled_from([2e-7, 1e-6, 1e-5]), ratio=st.sampled_from([5, 2, 1, 2.5, 1.5, 3.7, 7]), steps=st.integers(1, 24)))
frac = st.sampled_from([.1, .25, .5, .77, .9])
sca = st.fixed_dictionaries(dict(common, dt=st.just(1.), steps=st.just(1), vel=st.sampled_from([.25, 1.]), persteps=st.sampled_from([2.5, 3., 4.3]), corners=st.lists(st.tuples(frac, frac, st.sampled_from([1., 1., .8])).map(list), min_size=2, max_size=4)
                                 .filter(lambda q: all(a != b for a, b in zip(q, q[1:])))))
sin = st.fixed_dictionaries(dict(common, kind=st.sampled_from(["track", "quench", "ramp"]), dt=st.sampled_from([2e-7, 1e-6, 1e-5]), steps=st.integers(1, 12)))

FACETS = [Facet("coupled", cou, coupled, quick=96, thorough=3000), Facet("scan", sca, scan, quick=48, thorough=1500), Facet("single", sin, single, quick=54, thorough=1000)]
