"""Shared Hypothesis strategies (all yield JSON-serialisable values)."""
from hypothesis import strategies as st
import femgen

seeds = st.integers(0, 2**20)


def sizes(et, max_cells=12):
    d = femgen.DIM[et]
    per = {("TET4"): 6, ("TET10"): 6, "TRI3": 2, "TRI6": 2}.get(et, 1)
    lim = max(1, max_cells // per)
    @st.composite
    def s(draw):
        N = []
        left = lim
        for k in range(d):
            hi = max(1, min(left, 6 if d == 2 else 4))
            n = draw(st.integers(1, hi)); N.append(n); left = max(1, left // n)
        perm = draw(st.permutations(range(d)))
        return [N[i] for i in perm]
    return s()


@st.composite
def meshes(draw, ets=femgen.ELEMS, max_cells=12, geoms=("box", "affine", "jitter", "curved"), drop=True, affine_too=True, perm=None):
    et = draw(st.sampled_from(list(ets)))
    m = dict(et=et, N=draw(sizes(et, max_cells)), L=[draw(st.sampled_from([1.0, 0.5, 2.0, 3.0, 0.1])) for _ in range(femgen.DIM[et])],
             geom=draw(st.sampled_from(list(geoms))), seed=draw(seeds), amp=draw(st.sampled_from([1.0, 0.5])),
             perm=draw(st.booleans()) if perm is None else perm)
    Lm = m["L"]
    # keep aspect ratios of cells moderate
    h = [l / n for l, n in zip(Lm, m["N"])]
    if max(h) / min(h) > 8:
        m["L"] = [float(n) for n in m["N"]]
    if affine_too:
        m["affine_too"] = draw(st.booleans())
    if drop:
        m["drop"] = draw(st.integers(0, 3))
    return m
