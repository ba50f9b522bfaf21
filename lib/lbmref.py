"""Independent numpy model of the free-surface thermal lattice Boltzmann scheme (D3Q19).

Own velocity ordering, whole-array shifts instead of per-cell gathers.  `Ref.step` advances one
step; `Ref.doubt` turns True once a threshold comparison is within round-off of a tie (from then
on the model and the code may legitimately part), `Ref.wild` once the flow has left the regime
in which the scheme is stable."""
import itertools
import numpy as np

LIQ, LG, GAS, WALL = 0, 1, 2, 3
E = [e for e in itertools.product((-1, 0, 1), repeat=3) if sum(map(abs, e)) <= 2]
E.sort(key=lambda e: (sum(map(abs, e)), e))
assert len(E) == 19 and E[0] == (0, 0, 0)
W = np.array([{0: 1 / 3, 1: 1 / 18, 2: 1 / 36}[sum(map(abs, e))] for e in E])
OPP = [E.index(tuple(-x for x in e)) for e in E]
EV = np.array(E, dtype=float)


def at(a, e):
    """value of field a at x + e"""
    return np.roll(a, (-e[0], -e[1], -e[2]), axis=(0, 1, 2))


def lattice(p):
    """physical parameters -> lattice units (h = dt = rho0 = T0 = M0 = 1)"""
    v = lambda k: p[k]["value"]
    L, t, d, K, mol = v("h"), v("dt"), v("rho0"), v("T0"), v("M0")
    M = d * L ** 3
    o = {}
    o["p_atm"] = 101325 * L * t ** 2 / M
    o["R"] = 8.314 * K * t ** 2 / (L ** 2 * mol)              # J/(K mol) -> per lattice mole of mass M
    o["SB"] = 5.67e-8 * t ** 3 * K ** 4 / M
    o["g"] = v("gravity") * t ** 2 / L
    o["nu"] = v("dynamic_viscosity") / d * t / L ** 2
    o["st"] = v("st_coeff") * t ** 2 / M
    o["stg"] = v("st_grad_coeff") * K * t ** 2 / M
    o["rp"] = v("rp_coeff")
    o["P"] = v("laser_power") * v("absorbed_fraction") * t ** 3 / (M * L ** 2)
    o["beam"] = v("beam_size") / L
    o["c"] = v("heat_capacity") * K * t ** 2 / L ** 2
    o["al"] = v("thermal_diffusivitity_l") * t / L ** 2
    o["as"] = v("thermal_diffusivitity_s") * t / L ** 2
    o["eps"] = v("emissivity")
    o["hc"] = v("h_conv") * t ** 3 * K / M
    o["Le"] = v("latent_heat_evap") * t ** 2 / L ** 2
    o["Tl"], o["Ts"], o["Te"] = v("T_liquidus") / K, v("T_solidus") / K, v("T_evap") / K
    o["Hs"], o["Hl"] = v("enthalpy_s") * t ** 2 / L ** 2, v("enthalpy_l") * t ** 2 / L ** 2
    o["C_rho"], o["C_vel"], o["C_T"], o["C_len"] = d, L / t, K, L
    return o


def path(p):
    """laser position / switch per step boundary"""
    lp, v, dt = p["laser_path"], p["scanning_vel"]["value"], p["dt"]["value"]
    T, X, Y, S = [], [], [], []
    t0 = 0.0
    for i in range(len(lp["x_pos"]) - 1):
        a = np.array([lp["x_pos"][i], lp["y_pos"][i]])
        b = np.array([lp["x_pos"][i + 1], lp["y_pos"][i + 1]])
        dur = np.sqrt(np.sum((b - a) ** 2)) / v
        n = len(np.arange(t0, t0 + dur + 1e-10, dt))
        X += list(np.linspace(a[0], b[0], n)); Y += list(np.linspace(a[1], b[1], n)); S += [lp["switch"][i]] * n
        t0 += dur
    return np.array(X), np.array(Y), np.array(S, dtype=float)


class Ref:
    def __init__(self, p, phase0, fluid_only=False, centroids=None):
        self.o = lattice(p); self.fluid_only = fluid_only
        self.X, self.Y, self.S = path(p)
        self.nsteps = len(self.X) - 1
        N = phase0.shape
        self.N = N
        self.cx, self.cy = np.meshgrid(np.arange(N[0]) + .5, np.arange(N[1]) + .5, indexing="ij")
        ph = phase0.copy()
        near = np.zeros(N, bool)
        for e in E[1:]:
            near |= at(phase0, e) == LIQ
        new = (phase0 == GAS) & near
        ph[new] = LG
        self.phase = ph
        self.f = [np.full(N, w) for w in W]
        self.h = [np.full(N, w) * self.o["c"] for w in W]
        H1 = np.full(N, self.o["c"]); T1 = self.temperature(H1); z = [np.zeros(N)] * 3
        self.h = [np.where(new, self.heq(q, H1, T1, z), self.h[q]) for q in range(19)]   # fresh interface cells: at equilibrium
        self.mass = np.where(ph == LG, 0.5, np.where(new, 0., 1.))
        self.total = self.tally()
        self.kappa = np.zeros(N); self.melted = np.zeros(N)
        self.i = 0
        self.doubt = self.wild = False
        self.amb_kappa = np.zeros(N, bool)
        self.events = dict(lg2liq=0, gas2lg=0, lg2gas=0, liq2lg=0, adhoc=0, melt=0, evap=0)

    def maybe(self, why, cond):
        if cond and not self.doubt:
            self.doubt = why

    def tally(self):
        rho = sum(self.f)
        return float(np.sum(rho[self.phase == LIQ]) + np.sum(self.mass[self.phase == LG]))

    def temperature(self, H):
        o = self.o
        T = np.where(H < o["Hs"], H / o["c"], o["Tl"] + (H - o["Hl"]) / o["c"])
        if o["Hl"] > o["Hs"]:
            s = (H - o["Hs"]) / (o["Hl"] - o["Hs"])
            T = np.where((H >= o["Hs"]) & (H < o["Hl"]), o["Ts"] + s * (o["Tl"] - o["Ts"]), T)
        return T

    @staticmethod
    def feq(q, rho, u):
        cu = sum(E[q][k] * u[k] for k in range(3)); uu = sum(x * x for x in u)
        return W[q] * rho * (1 + 3 * cu + 4.5 * cu ** 2 - 1.5 * uu)

    def heq(self, q, H, T, u):
        c = self.o["c"]
        r = Ref.feq(q, c * T, u)
        return r + (H - c * T) if q == 0 else r

    def output(self):
        o = self.o
        rho = sum(self.f)
        safe = np.where(rho == 0, 1., rho)
        u = np.stack([sum(E[q][k] * self.f[q] for q in range(19)) / safe for k in range(3)], -1)
        u[self.phase != LIQ] = 0
        return dict(phase=self.phase, mass=self.mass, rho=safe * o["C_rho"], kappa=self.kappa,
                    vel=u * o["C_vel"], T=self.temperature(sum(self.h)) * o["C_T"], melted=self.melted)

    def step(self, seen_kappa=None):
        """seen_kappa: the curvature the code reported for this step; it settles which of several directions
        that tie within round-off was taken (never accepted unless it is one of the tied ones)."""
        o, ph = self.o, self.phase
        i = self.i; self.i += 1
        if self.fluid_only:
            self.h = [np.full(self.N, w) * (o["Hl"] + 1.) for w in W]
        f, h = self.f, self.h
        fluid = (ph == LIQ) | (ph == LG)
        rho = sum(f); H = sum(h); T = self.temperature(H)
        tie = lambda a, b, s=1.0: bool(np.any((np.abs(a - b) < 1e-9 * s)[fluid]))
        if not self.fluid_only:
            self.maybe("T", tie(T, o["Ts"]) or tie(H, o["Hs"], o["c"]) or tie(H, o["Hl"], o["c"]))
            self.events["melt"] += int(np.any((T > o["Ts"])[fluid]))
        self.melted = np.where(T > o["Ts"], 1., self.melted)
        vof = np.where(ph == LIQ, rho, np.where(ph == LG, self.mass, np.where(ph == GAS, 0., 1.)))
        ax = [(1, 0, 0), (0, 1, 0), (0, 0, 1)]
        neg = lambda e: tuple(-x for x in e)
        phi = [(at(vof, e) - at(vof, neg(e))) / 2 for e in ax]
        K = []
        for k in range(3):
            a, b = [ax[j] for j in range(3) if j != k]
            Hh = sum(at(vof, tuple(s * x for x in ax[k])) for s in range(-3, 4))
            s2 = lambda m, n: at(Hh, tuple(m * x + n * y for x, y in zip(a, b)))
            Ha, Hb = (s2(1, 0) - s2(-1, 0)) / 2, (s2(0, 1) - s2(0, -1)) / 2
            Haa, Hbb = s2(1, 0) - 2 * Hh + s2(-1, 0), s2(0, 1) - 2 * Hh + s2(0, -1)
            Hab = (s2(1, 1) + s2(-1, -1) - s2(1, -1) - s2(-1, 1)) / 4
            K.append(-(Haa * (1 + Hb ** 2) + Hbb * (1 + Ha ** 2) - 2 * Hab * Ha * Hb) / (1 + Ha ** 2 + Hb ** 2) ** 1.5)
        A = np.abs(np.array(phi)); K = np.array(K)
        sel = np.argmax(A, axis=0)          # first maximum: x before y before z
        kappa = np.take_along_axis(K, sel[None], 0)[0]
        amb = np.zeros(self.N, bool)
        top = np.max(A, axis=0)
        if i == 0:
            # at the start all liquid cells hold one same number (1 up to round-off), interface cells 0.5 up to their own
            # round-off: only ties that do not depend on those are exact
            v2 = vof + 1e-3 * vof * (ph == LIQ) + 1e-3 * vof * (ph == LG) * np.random.default_rng(0).uniform(.2, 1, self.N)
            A2 = np.abs(np.array([(at(v2, e) - at(v2, neg(e))) / 2 for e in ax]))
            s2_ = np.take_along_axis(A2, sel[None], 0)[0]
        for k in range(3):
            tie_k = top - A[k] < 1e-9
            if i == 0:
                tie_k &= np.abs(s2_ - A2[k]) > 1e-9
            amb |= tie_k & (np.abs(K[k] - kappa) > 1e-7)
        if seen_kappa is not None and np.any(amb):
            gap = np.where(top[None] - A < 1e-9, np.abs(K - seen_kappa[None]), np.inf)
            kappa = np.where(amb, np.take_along_axis(K, np.argmin(gap, axis=0)[None], 0)[0], kappa)
            amb = np.zeros(self.N, bool)
        self.amb_kappa = amb
        if o["st"] != 0 and np.any(amb & fluid & (top > 1e-9) & ~(T < o["Ts"])):
            self.maybe("kappa", True)
        self.kappa = kappa
        nrm = np.sqrt(sum(x ** 2 for x in phi))
        with np.errstate(all="ignore"):
            n = [np.where(nrm > 0, x / np.where(nrm > 0, nrm, 1), 0.) for x in phi]
        bad = lambda e: (at(ph, e) == GAS) | (at(ph, e) == WALL)
        nb = lambda e: np.where(bad(e), T, at(T, e))
        gT = [(nb(e) - nb(neg(e))) / 2 for e in ax]
        nT = sum(a * b for a, b in zip(n, gT))
        with np.errstate(all="ignore"):
            ex = np.where(fluid, np.exp(np.where(fluid, o["Le"] * (T - o["Te"]) / (o["R"] * np.where(fluid, T, 1.) * o["Te"]), 0)), 0)
        F = []
        for k in range(3):
            Fk = o["st"] * kappa * phi[k] + o["stg"] * (gT[k] - nT * n[k]) * nrm * 2 * vof + o["rp"] * o["p_atm"] * ex * phi[k]
            if k == 2:
                Fk = Fk - rho * o["g"]
            F.append(np.where(fluid, Fk, 0.))
        q_loss = nrm * (o["hc"] * (1 - T) + o["SB"] * o["eps"] * (1 - T ** 4)) * 2 * vof
        lx, ly, sw = self.X[i + 1] / o["C_len"], self.Y[i + 1] / o["C_len"], self.S[i + 1]
        r2 = (self.cx - lx) ** 2 + (self.cy - ly) ** 2
        q_las = sw * 2 * o["P"] / (np.pi * o["beam"] ** 2) * np.exp(-2 * r2 / o["beam"] ** 2)
        Q = np.maximum(-phi[2], 0) * q_las[:, :, None] * 2 * vof + q_loss
        rs = np.where(rho == 0, 1., rho)
        solid = T < o["Ts"]
        u = [np.where((rho == 0) | solid, 0., (sum(E[q][k] * f[q] for q in range(19)) + 0.5 * F[k]) / rs) for k in range(3)]
        tn = 3 * o["nu"] + .5
        th = np.where(solid, 3 * o["as"] + .5, 3 * o["al"] + .5)
        fc, hcol = [], []
        for q in range(19):
            eu = sum(E[q][k] * u[k] for k in range(3))
            G = (1 - .5 / tn) * W[q] * sum((3 * (E[q][k] - u[k]) + 9 * eu * E[q][k]) * F[k] for k in range(3))
            fq = np.where(solid, W[q] * rho, f[q] + (self.feq(q, rho, u) - f[q]) / tn + G)
            hq = h[q] + (self.heq(q, H, T, u) - h[q]) / th + W[q] * Q / rs
            fc.append(np.where(fluid, fq, 0.)); hcol.append(np.where(fluid, hq, 0.))
        speed = np.sqrt(sum(x ** 2 for x in u))[fluid]
        if speed.size and (not np.all(np.isfinite(speed)) or speed.max() > 0.3):
            self.wild = True
        # streaming
        fs, hs = [], []
        for q in range(19):
            src = neg(E[q]); ps = at(ph, src)
            a = at(fc[q], src)
            a = np.where(ps == WALL, fc[OPP[q]], a)
            a = np.where(ps == GAS, self.feq(q, 1., u) + self.feq(OPP[q], 1., u) - fc[OPP[q]], a)
            fs.append(np.where(fluid, a, 0.))
            b = at(hcol[q], src)
            b = np.where(ps == WALL, W[q] * o["c"], b)      # equilibrium at T0 = 1, at rest (liquid heat content c*T0)
            b = np.where(ps == GAS, hcol[OPP[q]], b)
            hs.append(np.where(fluid, b, 0.))
        dm = np.zeros(self.N)
        for q in range(1, 19):
            pn = at(ph, E[q])
            ex_ = at(fc[OPP[q]], E[q]) - fc[q]
            dm += np.where(pn == LIQ, ex_, np.where(pn == LG, ex_ * (vof + at(vof, E[q])) / 2, 0.))
        mass = np.where(ph == LIQ, rho, np.where(ph == LG, self.mass + dm, 0.))
        self.f, self.h = fs, hs
        r2_ = sum(fs)
        th_ = 1e-3
        islg = ph == LG
        self.maybe("mass", np.any((np.abs(mass - (1 + th_) * r2_) < 1e-9)[islg]) or np.any((np.abs(mass + th_ * r2_) < 1e-9)[islg]))
        ev = self.events
        p1 = np.where(islg & (mass > (1 + th_) * r2_), LIQ, ph)
        ev["lg2liq"] += int(np.sum(p1 != ph))
        any_nb = lambda a, s: np.any([at(a, e) == s for e in E[1:]], axis=0)
        conv = (p1 == GAS) & any_nb(p1, LIQ)
        ev["gas2lg"] += int(np.sum(conv))
        if np.any(conv):
            wts = [((at(p1, e) == LIQ) | (at(p1, e) == LG)).astype(float) for e in E]
            cnt = np.where(conv, sum(wts), 1.)
            avg = lambda a: sum(w * at(a, e) for w, e in zip(wts, E)) / cnt
            ra, ua, Ha_, Ta = avg(rho), [avg(x) for x in u], avg(H), avg(T)
            for q in range(19):
                self.f[q] = np.where(conv, self.feq(q, ra, ua), self.f[q])
                self.h[q] = np.where(conv, self.heq(q, Ha_, Ta, ua), self.h[q])
        p2 = np.where(conv, LG, p1); mass = np.where(conv, 0., mass)
        r3 = sum(self.f)
        p3 = np.where((p2 == LG) & (mass < -th_ * r3), GAS, p2)
        ev["lg2gas"] += int(np.sum(p3 != p2))
        c4 = (p3 == LIQ) & any_nb(p3, GAS)
        ev["liq2lg"] += int(np.sum(c4))
        p4 = np.where(c4, LG, p3); mass = np.where(c4, r3, mass)
        g5 = (p4 == LG) & ~any_nb(p4, LIQ)
        l5 = (p4 == LG) & ~g5 & ~any_nb(p4, GAS)
        ev["adhoc"] += int(np.sum(g5) + np.sum(l5))
        p5 = np.where(g5, GAS, np.where(l5, LIQ, p4))
        self.phase, self.mass = p5, mass
        nlg = int(np.sum(p5 == LG))
        if nlg:
            self.mass = np.where(p5 == LG, mass + (self.total - self.tally()) / nlg, mass)
        dead = (p5 == GAS) | (p5 == WALL)
        self.mass = np.where(dead, 0., self.mass)
        self.f = [np.where(dead, 0., x) for x in self.f]; self.h = [np.where(dead, 0., x) for x in self.h]
        r = sum(self.f)[~dead]
        if r.size and (not np.all(np.isfinite(r)) or r.min() < 0.3 or r.max() > 3):
            self.wild = True
