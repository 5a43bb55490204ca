"""Action normalisation and its inverse."""
import numpy as np
import torch
from hypothesis import strategies as st

from models import norm
from vlib.core import close, equal, facet, raises, require

RULE = ("a case is a map of continuous-action ranges (any ids, any order), actions inside and outside "
        "the ranges and normalised outputs inside and outside [-1, 1]; non-trivial = two or more "
        "dimensions with different ranges")
EPS = 1e-6


@st.composite
def cases(draw):
    sp = draw(norm.spec(("CONTINUOUS_ACTION",), max_size=5))
    n = draw(st.integers(1, 4))
    o = norm.order(sp)
    return dict(spec=sp, acts=[[draw(norm.value(f)) for _, f in o] for _ in range(n)],
                outs=[[draw(st.one_of(norm.r3(-1, 1), norm.r3(-3, 3), st.sampled_from([-1.0, 1.0, 0.0])))
                       for _ in o] for _ in range(n)])


@facet(cases(), quick=2200, shards=6)
def inverse_of_each_other(case, rec):
    from reagent.preprocessing.postprocessor import Postprocessor
    from reagent.preprocessing.preprocessor import Preprocessor

    o = norm.order(case["spec"])
    pre = Preprocessor(norm.params(case["spec"]), use_gpu=False)
    post = Postprocessor(norm.params(case["spec"]), use_gpu=False)
    lo = np.array([f["min_value"] for _, f in o])
    hi = np.array([f["max_value"] for _, f in o])
    a = np.array(case["acts"])
    x = pre(torch.tensor(a, dtype=torch.float32), torch.ones(a.shape))
    require(bool((x.abs() <= 1).all()), "normalised action outside [-1, 1]")
    close(x, np.array(norm.expected(case["spec"], case["acts"], np.ones_like(a).tolist())),
          "normalised action", atol=1e-4)
    back = post(x)
    scale = float((hi - lo).max())
    close(back, np.clip(a, lo, hi), "action after normalising and restoring (clipped to its range)",
          rtol=1e-5, atol=3e-6 * scale + 1e-5)
    y = torch.tensor(case["outs"], dtype=torch.float32)
    z = post(y)
    tol = 1e-5 * scale + 1e-5
    require(bool((z.numpy() >= lo - tol).all() and (z.numpy() <= hi + tol).all()),
            f"restored action {z.tolist()} outside [{lo}, {hi}]")
    yc = np.clip(np.array(case["outs"]), -1, 1)
    close(z, lo + (yc + 1) / 2 * (hi - lo), "restored action", rtol=1e-4, atol=1e-5 * scale + 1e-4)
    close(pre(z, torch.ones(z.shape)), yc, "normalised again", atol=2e-4)
    rec.nt(len({(f["min_value"], f["max_value"]) for _, f in o}) > 1)


@st.composite
def mixed(draw):
    return dict(spec=draw(norm.spec(max_size=4)), n=draw(st.integers(1, 3)),
                vals=draw(st.lists(norm.r3(-9, 9), min_size=30, max_size=30)))


@facet(mixed(), quick=500, shards=2)
def other_action_types(case, rec):
    """Discrete and unprocessed actions pass through; anything else, or a mix, is refused."""
    from reagent.preprocessing.postprocessor import Postprocessor

    ts = {f["feature_type"] for _, f in case["spec"]}
    mk = lambda: Postprocessor(norm.params(case["spec"]), use_gpu=False)
    if len(ts) > 1 or not ts <= {"CONTINUOUS_ACTION", "DISCRETE_ACTION", "DO_NOT_PREPROCESS"}:
        raises(AssertionError, mk, f"postprocessor for {sorted(ts)}")
        rec.nt()
        return
    p = mk()
    if ts <= {"DISCRETE_ACTION", "DO_NOT_PREPROCESS"}:
        w = len(case["spec"])
        x = torch.tensor(case["vals"][: w * case["n"]]).reshape(case["n"], w)
        close(p(x), x.numpy(), "pass through", rtol=0, atol=0)
        rec.nt()
    equal(list(p.input_prototype()[0].shape), [1, len(case["spec"])], "prototype")
