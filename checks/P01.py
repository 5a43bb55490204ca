"""Preprocessing transforms."""
import numpy as np
import torch
from hypothesis import strategies as st

from models import norm
from vlib.core import close, equal, facet, require

RULE = ("a case is a normalisation map (feature ids and parameters of any types), a batch of values "
        "including boundary values, and presence flags; non-trivial = at least two feature types and "
        "at least one present and one missing value")


@st.composite
def cases(draw, types=norm.TYPES):
    sp = draw(norm.spec(types))
    rows, pres = draw(norm.batch(sp))
    return dict(spec=sp, rows=rows, pres=pres, dtype=draw(st.sampled_from(["bool", "uint8", "float"])))


def run(case, train=False):
    from reagent.preprocessing.preprocessor import Preprocessor

    p = Preprocessor(norm.params(case["spec"]), use_gpu=False)
    p = p.train() if train else p.eval()
    pres = torch.tensor(case["pres"], dtype=getattr(torch, case["dtype"]))
    return p, p(torch.tensor(case["rows"], dtype=torch.float32), pres)


@facet(cases(), quick=2600, shards=8)
def each_feature_type_as_defined(case, rec):
    p, out = run(case)
    o = norm.order(case["spec"])
    equal(list(p.sorted_features), [i for i, _ in o], "feature order")
    want = norm.expected(case["spec"], case["rows"], case["pres"])
    close(out, np.array(want), f"preprocessed {[(i, f['feature_type']) for i, f in o]}",
          rtol=2e-4, atol=2e-4)
    equal(str(out.dtype), "torch.float32", "dtype")
    ts = {f["feature_type"] for _, f in o}
    flat = [x for r in case["pres"] for x in r]
    rec.nt(len(ts) > 1 and any(flat) and not all(flat))
    rec.label(*ts)


IN_TRAINING = tuple(t for t in norm.TYPES if t not in ("DISCRETE_ACTION", "CLIP_LOG"))


@facet(cases(IN_TRAINING), quick=500, shards=4)
def training_and_scripted_modes_agree(case, rec):
    """The output checks of training mode accept every valid output and do not change
    it; the traced module used for serving computes the same."""
    p, out = run(case, train=True)
    p2, out2 = run(case, train=False)
    close(out, out2.numpy(), "training mode against evaluation mode", rtol=0, atol=0)
    tr = torch.jit.trace(p2, p2.input_prototype())
    pres = torch.tensor(case["pres"], dtype=getattr(torch, case["dtype"]))
    o3 = tr(torch.tensor(case["rows"], dtype=torch.float32), pres.to(torch.uint8))
    close(o3, out2.numpy(), "traced module", rtol=1e-5, atol=1e-6)
    rec.nt(len(case["spec"]) > 1)
