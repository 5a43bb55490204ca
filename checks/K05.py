"""Greedy determinantal point process."""
import numpy as np
import torch
from hypothesis import strategies as st

from models.nets import T, arr, rng_of
from vlib.core import Inconclusive, close, equal, facet, require

RULE = ("a case is quality scores, feature vectors and a diversity strength; non-trivial = three or more items with a "
        "selection that differs from sorting by quality")


@st.composite
def cases(draw):
    rng = rng_of(draw)
    n, d = draw(st.sampled_from([1, 2, 3, 4, 5, 6])), draw(st.integers(1, 3))
    lo, hi = draw(st.sampled_from([(0.3, 3), (0.9, 1.1)]))
    f = np.round(rng.uniform(-2, 2, (n, d)), 2)
    if draw(st.booleans()) and n > 1:
        f[rng.randint(n)] = f[rng.randint(n)] * (1 if rng.rand() < 0.5 else 1.3)  # near duplicates
    if draw(st.integers(0, 3)) == 0:
        f = f * np.array([[0.002]])  # short vectors are normalised too
    return dict(n=n, d=d, q=np.round(rng.uniform(lo, hi, (n, 1)), 2).tolist(), f=f.tolist(),
                alpha=draw(st.sampled_from([0.0, 0.5, 0.9, 0.99])))


@facet(cases(), quick=1500, shards=6)
def greedy_selection(case, rec):
    from reagent.prediction.ranking.predictor_wrapper import DeterminantalPointProcessPredictorWrapper

    c = case
    q, f = np.array(c["q"]), np.array(c["f"])
    nrm = np.linalg.norm(f, axis=1, keepdims=True)
    if (nrm < 1e-5).any():
        raise Inconclusive("zero vector")
    fn = f / nrm
    L = c["alpha"] * (q @ q.T) * (fn @ fn.T)
    np.fill_diagonal(L, q[:, 0] ** 2)
    m = DeterminantalPointProcessPredictorWrapper(c["alpha"])
    chosen, dets, gL, B = m(T(c["q"]), T(c["f"]))
    close(gL, L, "kernel", rtol=1e-3, atol=1e-3)
    close(B, c["alpha"] ** 0.5 * q * fn, "feature matrix", rtol=1e-3, atol=1e-3)
    got = chosen.tolist()
    equal(sorted(got), list(range(c["n"])), "every item is selected exactly once")
    sel = []
    for step in range(c["n"]):
        vals = {i: np.linalg.det(L[np.ix_(sel + [i], sel + [i])]) for i in range(c["n"]) if i not in sel}
        for i in range(c["n"]):
            if i in vals:
                close(dets[step, i], vals[i], f"step {step}: determinant with item {i}", rtol=5e-3, atol=5e-3)
            else:
                require(float(dets[step, i]) < -1e30, "step %d: the already chosen item %d has value %s", step, i, float(dets[step, i]))
        best = max(vals.values())
        require(vals[got[step]] >= best - 1e-3 * max(1, abs(best)),
                "step %d picks item %d (%.5f) although %.5f is possible", step, got[step], vals[got[step]], best)
        sel.append(got[step])
    rec.nt(c["n"] > 2 and got != np.argsort(-q[:, 0]).tolist())
