import contextlib, io, os, pickle, sys, tempfile, types
import numpy as np
from hypothesis import strategies as st
from vp import Facet, Violation, info, expect, close, fail
import strat, femgen as G

PROPERTY = "C27"
LEVEL = "exploration"
RULE = "Hypothesis draws unit cells (size, resolution, inclusion, moduli), macroscopic deformations, repeated solves on one object, composite blocks, displacement fields and surrogate networks; oracle: an independent periodic dense Newton solution of the hyperelastic unit cell, independent energies, internal forces and tractions, and hand-evaluated networks; non-trivial if the material is heterogeneous and the deformation non-zero"
ASSUMPTIONS = ["torch is not installed here: a stand-in provides the Dataset and DataLoader names the modules import (no property depends on them)", "macroscopic displacement gradients up to 0.15, where the Newton iteration from the undeformed state converges"]


def modules():
    if "torch" not in sys.modules:
        try:
            import torch
        except ImportError:
            t, u, d = types.ModuleType("torch"), types.ModuleType("torch.utils"), types.ModuleType("torch.utils.data")
            class Loader:
                def __init__(self, ds, batch_size=1, shuffle=False):
                    self.dataset, self.batch_size = ds, batch_size
                def __iter__(self):
                    n = len(self.dataset)
                    for i in range(0, n, self.batch_size):
                        b = [self.dataset[j] for j in range(i, min(i + self.batch_size, n))]
                        yield np.stack([q[0] for q in b]), np.stack([q[1] for q in b])
            t.manual_seed = lambda s: None
            d.Dataset, d.DataLoader = object, Loader
            t.utils, u.data = u, d
            sys.modules.update({"torch": t, "torch.utils": u, "torch.utils.data": d})
    argv, sys.argv = sys.argv, ["x"]
    try:
        import applications.fem.multi_scale.arguments as A
        import applications.fem.multi_scale.fem_model as M
        import applications.fem.multi_scale.rve as R
        import applications.fem.multi_scale.trainer as T
        import applications.fem.multi_scale.utils as U
    finally:
        sys.argv = argv
    import matplotlib
    matplotlib.rcParams["text.usetex"] = False
    return A.args, M, R, T, U


def set_args(args, c):
    args.L, args.num_hex, args.ratio = c["L"], c["n"], c["ratio"]
    args.E_in, args.E_out, args.nu_in, args.nu_out = c["E_in"], c["E_out"], c["nu_in"], c["nu_out"]


def psi(Fm, E, nu):
    """compressible neo-Hookean energy density; analytic"""
    mu, ka = E / 2 / (1 + nu), E / 3 / (1 - 2 * nu)
    J = np.linalg.det(Fm) if Fm.dtype != complex else det3(Fm)
    I1 = np.sum(Fm * Fm, axis=(-1, -2))
    return mu / 2 * (J ** (-2 / 3) * I1 - 3) + ka / 2 * (J - 1) ** 2


def det3(A):
    return (A[..., 0, 0] * (A[..., 1, 1] * A[..., 2, 2] - A[..., 1, 2] * A[..., 2, 1]) - A[..., 0, 1] * (A[..., 1, 0] * A[..., 2, 2] - A[..., 1, 2] * A[..., 2, 0])
            + A[..., 0, 2] * (A[..., 1, 0] * A[..., 2, 1] - A[..., 1, 1] * A[..., 2, 0]))


def cof(A):
    c = np.empty_like(A)
    for i in range(3):
        for j in range(3):
            a, b = [k for k in range(3) if k != i], [k for k in range(3) if k != j]
            c[..., i, j] = (-1) ** (i + j) * (A[..., a[0], b[0]] * A[..., a[1], b[1]] - A[..., a[0], b[1]] * A[..., a[1], b[0]])
    return c


def pk1(Fm, E, nu):
    mu, ka = (E / 2 / (1 + nu))[..., None, None], (E / 3 / (1 - 2 * nu))[..., None, None]
    J = det3(Fm)[..., None, None]
    I1 = np.sum(Fm * Fm, axis=(-1, -2))[..., None, None]
    cf = cof(Fm)
    return mu * J ** (-2 / 3) * Fm - mu / 3 * I1 * J ** (-5 / 3) * cf + ka * (J - 1) * cf


class Cell:
    """independent discretisation data: trilinear hexahedra, the code's quadrature points and weights"""
    def __init__(self, prob, F):
        self.X, self.cells = np.asarray(prob.mesh.points), np.asarray(prob.mesh.cells)
        m = {"et": "HEX8"}
        xi, self.xq = F.quad_ref(prob, m, self.X, self.cells)
        J = G.jac("HEX8", self.X[self.cells], xi)
        self.W = np.asarray(prob.JxW)
        self.g = np.einsum('qnj,cqji->cqni', G.dshape("HEX8", xi), np.linalg.inv(J))

    def H(self, u):
        return np.einsum('cqni,cnv->cqvi', self.g, u[self.cells])

    def forces(self, P):
        r = np.zeros((len(self.X), 3), dtype=P.dtype)
        np.add.at(r, self.cells, np.einsum('cqvi,cqni,cq->cnv', P, self.g, self.W))
        return r

    def stiffness(self, Fm, E, nu):
        nc, nn = self.cells.shape
        Ke = np.zeros((nc, nn * 3, nn * 3))
        for a in range(nn):
            for v in range(3):
                Fp = Fm.astype(complex); Fp[:, :, v, :] += 1e-30j * self.g[:, :, a, :]
                Ke[:, :, a * 3 + v] = np.einsum('cqvi,cqni,cq->cnv', pk1(Fp, E, nu).imag / 1e-30, self.g, self.W).reshape(nc, -1)
        d = (self.cells[:, :, None] * 3 + np.arange(3)).reshape(nc, -1)
        K = np.zeros((len(self.X) * 3,) * 2)
        for e in range(nc):
            K[np.ix_(d[e], d[e])] += Ke[e]
        return K


def inclusion(c, x, units):
    hit = np.zeros(x.shape[:-1], bool)
    near = np.zeros(x.shape[:-1], bool)
    for i in np.ndindex(*units):
        d = np.max(np.abs(x - (np.array(i) + .5) * c["L"]), axis=-1)
        hit |= d < c["L"] * c["ratio"]
        near |= np.abs(d - c["L"] * c["ratio"]) < 1e-9 * c["L"]
    return hit, near.any()


def rve(c):
    import femlib as F, jax.numpy as jnp
    F.tick(4)
    args, M, R, T, U = modules()
    set_args(args, c)
    with tempfile.TemporaryDirectory() as tmp, contextlib.redirect_stdout(io.StringIO()):
        prob = R.rve_problem(tmp)
        ref = Cell(prob, F)
        L, X = c["L"], ref.X
        hit, near = inclusion(c, ref.xq, (1, 1, 1))
        if near:
            return info(False, "discarded: quadrature point on the interface")
        E, nu = np.where(hit, c["E_in"], c["E_out"]), np.where(hit, c["nu_in"], c["nu_out"])
        close(np.asarray(prob.E), E, "stiffness of the unit cell"); close(np.asarray(prob.nu), nu, "Poisson's ratio of the unit cell")
        # periodic reduction: nodes with the same coordinates modulo L
        key = {}
        red = np.empty(len(X), int)
        for i, x in enumerate(np.round(X / L * c["n"]).astype(int) % c["n"]):
            red[i] = key.setdefault(tuple(x), len(key))
        B = np.zeros((len(X), len(key))); B[np.arange(len(X)), red] = 1.
        B3 = np.kron(B, np.eye(3))
        free = np.arange(len(key) * 3) >= 0
        free[[red[np.argmin(np.sum(X ** 2, 1))] * 3 + k for k in range(3)]] = False
        nontriv = False
        for k, hf in enumerate(c["hs"]):
            H = np.array([[hf[0], hf[3], hf[4]], [hf[3], hf[1], hf[5]], [hf[4], hf[5], hf[2]]])
            # reference: Newton on the independent periodic degrees of freedom
            w = np.zeros(len(key) * 3); ok = False
            for it in range(15):
                u = (B3 @ w).reshape(-1, 3)
                Fm = np.eye(3) + H + ref.H(u)
                if np.min(det3(Fm)) <= 0.05:
                    break
                r = B3.T @ ref.forces(pk1(Fm, E, nu)).reshape(-1)
                if np.linalg.norm(r[free]) < 1e-11 * max(c["E_in"], c["E_out"]) * L ** 2:
                    ok = True; break
                K = B3.T @ ref.stiffness(Fm, E, nu) @ B3
                w[free] -= np.linalg.solve(K[np.ix_(free, free)], r[free])
            if not ok:
                return info(False, "discarded: reference Newton does not converge")
            en = np.sum(psi(Fm, E, nu) * ref.W)
            orig, calls = R.solver, []
            def flaky(p, *a, **kw):          # the direct solve diverges
                calls.append(1)
                out = orig(p, *a, **kw)
                return out * jnp.nan if len(calls) == 1 else out
            if c["fail"] and k == 0:
                R.solver = flaky
            try:
                sol, data = R.solve_rve_problem(prob, jnp.array(hf))
            finally:
                R.solver = orig
            sol, data = np.asarray(sol), np.asarray(data)
            hm = max(np.max(np.abs(H)), 1e-3) * L
            what = f"unit cell, deformation {k + 1}"
            close(sol, u, f"{what}: periodic fluctuation", atol=2e-4 * hm, rtol=0)
            en0 = max(en, 1e-6 * max(c["E_in"], c["E_out"]) * L ** 3)
            close(data[:6], hf, f"{what}: recorded deformation", atol=1e-14)
            close(data[6], en, f"{what}: homogenised energy", atol=1e-4 * en0, rtol=0)
            close(float(prob.compute_energy(jnp.array(sol))), np.sum(psi(np.eye(3) + H + ref.H(sol), E, nu) * ref.W), f"{what}: energy of a given fluctuation", atol=1e-10 * en0 + 1e-12 * np.max(E) * L ** 3, rtol=1e-9)
            close(np.asarray(prob.fluc_to_disp(jnp.array(sol))), X @ H.T + sol, f"{what}: displacement from fluctuation", atol=1e-12 * L)
            rnd = np.random.default_rng([c["seed"], k]).normal(size=X.shape) * .02 * L / c["n"]
            close(np.asarray(prob.compute_residual(jnp.array(rnd))), ref.forces(pk1(np.eye(3) + H + ref.H(rnd), E, nu)), f"{what}: residual is not the internal force at the total deformation", atol=1e-10 * np.max(E) * L ** 2, rtol=1e-9)
            nontriv |= c["E_in"] != c["E_out"] and np.max(np.abs(H)) > 0 and hit.any() and not hit.all()
    return info(nontriv, f"n={c['n']}", "homogeneous" if c["E_in"] == c["E_out"] else "heterogeneous", f"deformations={len(c['hs'])}", "direct solve fails" if c["fail"] else "direct solve")


def block(c):
    import femlib as F, jax, jax.numpy as jnp
    from jax_am.common import box_mesh
    from jax_am.fem.generate_mesh import Mesh
    F.tick(10)
    args, M, R, T, U = modules()
    set_args(args, c)
    args.num_units_x, args.num_units_y, args.num_units_z = c["units"]
    L = c["L"]; un = np.array(c["units"])
    mm = box_mesh(*[int(k) for k in un * c["n"]], *[float(k) for k in un * L])
    mesh = Mesh(mm.points, mm.cells_dict["hexahedron"])
    rng = np.random.default_rng([c["seed"], 271])
    mode, inf = c["mode"]
    wl, wq = rng.uniform(-1, 1, size=6), rng.uniform(-1, 1, size=6)
    old = M.get_nn_batch_forward
    M.get_nn_batch_forward = lambda hyper: (lambda C: C @ jnp.array(wl) + (C ** 2) @ jnp.array(wq))     # stands in for trained weights
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            prob = M.HyperElasticity(mesh, vec=3, dim=3, additional_info=(mode, inf))
    finally:
        M.get_nn_batch_forward = old
    ref = Cell(prob, F)
    X = ref.X
    if mode == "dns":
        hit, near = inclusion(c, ref.xq, c["units"])
        if near and inf is None:
            return info(False, "discarded: quadrature point on the interface")
        sel = hit if inf is None else np.full(hit.shape, inf == "in")
        E, nu = np.where(sel, c["E_in"], c["E_out"]), np.where(sel, c["nu_in"], c["nu_out"])
        ener = lambda Fm: psi(Fm, E, nu)
        stress = lambda Fm, E=E, nu=nu: pk1(Fm, E, nu)
        Es = max(c["E_in"], c["E_out"])
        with_face = lambda Fm: pk1(Fm, np.array(c["E_in"] if inf == "in" else c["E_out"]), np.array(c["nu_in"] if inf == "in" else c["nu_out"]))
    else:
        idx = [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]
        flat = lambda Fm: np.stack([np.sum(Fm[..., :, i] * Fm[..., :, j], axis=-1) for i, j in idx], -1)
        ener = lambda Fm: flat(Fm) @ wl + flat(Fm) ** 2 @ wq
        def stress(Fm):
            g = wl + 2 * flat(Fm) * wq
            S = np.zeros(Fm.shape)
            for k, (i, j) in enumerate(idx):
                S[..., i, j] += g[..., k]; S[..., j, i] += g[..., k]
            return Fm @ S
        with_face, Es, hit = stress, 10., np.ones(1, bool)
    u = rng.normal(size=X.shape) * .05 * L / c["n"] + X @ (rng.normal(size=(3, 3)) * .04).T
    Fm = np.eye(3) + ref.H(u)
    if np.min(det3(Fm)) < .2:
        return info(False, "discarded: nearly inverted element")
    vol = np.prod(un * L)
    close(float(prob.compute_energy(jnp.array(u))), np.sum(ener(Fm) * ref.W), f"{mode}: total energy", atol=1e-10 * Es * vol, rtol=1e-10)
    close(np.asarray(prob.compute_residual(jnp.array(u))), ref.forces(stress(Fm)), f"{mode}: residual is not the internal force", atol=1e-10 * Es * L ** 2, rtol=1e-9)
    # force on a plane: constant stress under an affine deformation
    A = rng.normal(size=(3, 3)) * .06
    ax, side = c["face"]
    pos = float(un[ax] * L) * side
    touch = mode == "dns" and inf is None and c["ratio"] >= .5
    if not touch:
        fn = lambda p: jnp.abs(p[ax] - pos) < 1e-6 * L
        area = np.prod(np.delete(un * L, ax))
        got = np.asarray(prob.compute_traction(fn, jnp.array(X @ A.T)))
        close(got, with_face(np.eye(3) + A)[:, 2] * area, f"{mode}: force through a face (third column of the stress, integrated)", atol=1e-9 * Es * area, rtol=1e-9)
    return info(mode == "nn" or (hit.any() and not hit.all()), mode, str(inf), "x".join(map(str, c["units"])))


def surrogate(c):
    import femlib as F, jax, jax.numpy as jnp
    F.tick(30)
    args, M, R, T, U = modules()
    rng = np.random.default_rng([c["seed"], 272])
    h = rng.normal(size=6)
    H = np.array([[h[0], h[3], h[4]], [h[3], h[1], h[5]], [h[4], h[5], h[2]]])
    close(np.asarray(U.flat_to_tensor(jnp.array(h))), H, "tensor from its six components", atol=1e-14)
    close(np.asarray(U.tensor_to_flat(U.flat_to_tensor(jnp.array(h)))), h, "six components of a symmetric tensor (round trip)", atol=1e-14)
    Fm = H + np.eye(3); C = Fm.T @ Fm
    fl = np.array([C[0, 0], C[1, 1], C[2, 2], C[0, 1], C[0, 2], C[1, 2]])
    a, b = T.H_to_C(jnp.array(h))
    close(np.asarray(a), fl, "right Cauchy-Green components", atol=1e-12, rtol=1e-12); close(np.asarray(b), C, "right Cauchy-Green tensor", atol=1e-12, rtol=1e-12)
    old, olda = T.data_dir, (args.activation, args.width_hidden, args.n_hidden, args.batch_size, args.L)
    with tempfile.TemporaryDirectory() as tmp, contextlib.redirect_stdout(io.StringIO()):
        try:
            T.data_dir = tmp
            args.activation, args.width_hidden, args.n_hidden, args.batch_size, args.L = c["act"], c["width"], c["depth"], c["batch"], c["L"]
            # stored samples are read back as deformations and energy densities
            d = os.path.join(tmp, "numpy/training/09052022"); os.makedirs(d)
            rows = rng.normal(size=(c["N"], 7)); rows[:, 6] = rng.uniform(1, 5, size=c["N"])
            for i, r in enumerate(rows):
                np.save(os.path.join(d, f"{i:05d}.npy"), r)
            Hs, en = T.load_data()
            o, o2 = np.argsort(np.asarray(Hs)[:, 0]), np.argsort(rows[:, 0])
            close(np.asarray(Hs)[o], rows[o2, :6], "stored deformations", atol=1e-14)
            close(np.asarray(en)[o], rows[o2, 6:] / c["L"] ** 3, "energy densities of the stored samples", rtol=1e-12)
            data = T.transform_data(Hs, en)
            Fs = np.stack([np.array([[r[0], r[3], r[4]], [r[3], r[1], r[5]], [r[4], r[5], r[2]]]) for r in np.asarray(Hs)]) + np.eye(3)
            Cs = np.swapaxes(Fs, 1, 2) @ Fs
            close(data, np.hstack([np.stack([Cs[:, 0, 0], Cs[:, 1, 1], Cs[:, 2, 2], Cs[:, 0, 1], Cs[:, 0, 2], Cs[:, 1, 2]], 1), np.asarray(en)]), "training samples", atol=1e-11, rtol=1e-11)
            tr, va, te, ltr, lva, lte = T.shuffle_data(data)
            allr = np.concatenate([tr, va, te])
            expect(allr.shape == data.shape and np.array_equal(allr[np.lexsort(allr.T)], data[np.lexsort(data.T)]), "training, validation and test sets do not partition the data")
            n1, n2 = int(.8 * len(data)), int(.9 * len(data))
            expect((len(tr), len(va), len(te)) == (n1, n2 - n1, len(data) - n2), "sizes of the data sets", got=(len(tr), len(va), len(te)))
            got = [np.concatenate([np.asarray(x) for x, _ in l]) for l in (ltr, lva, lte)]
            gy = [np.concatenate([np.asarray(y) for _, y in l]) for l in (ltr, lva, lte)]
            for g, y, s in zip(got, gy, (tr, va, te)):
                close(g, s[:, :-1], "batches of the data loader (inputs)"); close(y, s[:, -1], "batches of the data loader (targets)")
            # stored network weights
            init, fwd = T.get_mlp()
            _, params = init(jax.random.PRNGKey(c["seed"] % 1000), (-1, 6))
            with open(T.get_path_pickle("m"), "wb") as f:
                pickle.dump(params, f)
            x = va[:, :-1]
            y = x
            act = {"tanh": np.tanh, "relu": lambda z: np.maximum(z, 0), "sigmoid": lambda z: 1 / (1 + np.exp(-z)), "softplus": lambda z: np.logaddexp(z, 0),
                   "selu": lambda z: 1.0507009873554804934193349852946 * np.where(z > 0, z, 1.6732632423543772848170429916717 * np.expm1(np.minimum(z, 0)))}[c["act"]]
            layers = [p for p in params if len(p)]
            expect(len(layers) == c["depth"] + 1 and all(p[0].shape[1] == (c["width"] if i < c["depth"] else 1) for i, p in enumerate(layers)), "network does not have the requested layers")
            for i, (W, b) in enumerate(layers):
                y = y @ np.asarray(W, float) + np.asarray(b, float)
                if i < len(layers) - 1:
                    y = act(y)
            net = T.get_nn_batch_forward("m")
            p = np.asarray(net(jnp.array(x)))
            close(p, y.reshape(-1), "stored network evaluated", atol=1e-5 * (1 + np.max(np.abs(y))), rtol=0)
            mse, st_, sp = T.evaluate_errors(va, tr, net)
            lo, hi = tr[:, -1].min(), tr[:, -1].max()
            close(np.asarray(st_), (va[:, -1] - lo) / (hi - lo), "true values scaled by the training range", rtol=1e-9, atol=1e-9)
            close(np.asarray(sp), (p - lo) / (hi - lo), "predictions scaled by the training range", rtol=1e-9, atol=1e-9)
            close(float(mse), np.mean(((va[:, -1] - p) / (hi - lo)) ** 2), "scaled mean square error", rtol=1e-9)
        finally:
            T.data_dir = old
            args.activation, args.width_hidden, args.n_hidden, args.batch_size, args.L = olda
    return info(True, c["act"], f"depth={c['depth']}")


mat = dict(E_in=st.sampled_from([1e3, 1e2, 10.]), E_out=st.sampled_from([1e2, 50., 1e3]), nu_in=st.sampled_from([.3, .2, .4]), nu_out=st.sampled_from([.4, .3, .1]))
hval = st.sampled_from([0., .05, -.05, .1, -.08, .02, .12])


@st.composite
def cells(draw):
    m = {k: draw(v) for k, v in mat.items()}
    if not draw(st.integers(0, 4)):
        m.update(E_in=m["E_out"], nu_in=m["nu_out"])
    return dict(m, L=draw(st.sampled_from([1., .5, 2.])), n=draw(st.sampled_from([3, 2, 3, 2, 3, 4])), ratio=draw(st.sampled_from([.3, .2, .41])), seed=draw(strat.seeds), fail=draw(st.integers(0, 3)) == 1,
                hs=draw(st.lists(st.lists(hval, min_size=6, max_size=6), min_size=1, max_size=2)))


@st.composite
def blocks(draw):
    m = {k: draw(v) for k, v in mat.items()}
    units = draw(st.sampled_from([(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (1, 2, 3)]))
    return dict(m, L=draw(st.sampled_from([1., .5, 2.])), n=draw(st.sampled_from([2, 3])), ratio=draw(st.sampled_from([.3, .2, .41])), seed=draw(strat.seeds), units=list(units),
                mode=list(draw(st.sampled_from([("dns", None), ("dns", None), ("dns", "in"), ("dns", "out"), ("nn", None)]))), face=list(draw(st.sampled_from([(2, 1), (2, 0)]))))


sur = st.fixed_dictionaries({"seed": strat.seeds, "act": st.sampled_from(["tanh", "selu", "relu", "sigmoid", "softplus"]), "width": st.sampled_from([4, 16, 7]), "depth": st.sampled_from([1, 2, 4]), "batch": st.sampled_from([32, 4, 1]),
                             "N": st.sampled_from([20, 33, 11, 47]), "L": st.sampled_from([1., 2., .5])})

FACETS = [Facet("rve", cells(), rve, quick=14, thorough=500), Facet("block", blocks(), block, quick=40, thorough=1000), Facet("surrogate", sur, surrogate, quick=24, thorough=400)]
