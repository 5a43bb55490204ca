"""Sparse to dense."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import close, equal, facet, require, same

RULE = ("a case is an ordered list of known features and a batch of sparse rows with absent features, "
        "unknown features and explicit missing values; non-trivial = at least one absent and one "
        "unknown feature")
MISSING = -1337.1337


@st.composite
def cases(draw):
    feats = draw(st.lists(st.integers(0, 40), min_size=1, max_size=6, unique=True))
    # the marker itself cannot be a value: it is how a missing value is written
    val = st.one_of(st.floats(-1e4, 1e4, width=32).filter(lambda x: abs(x - MISSING) > 1e-2), st.just(0.0), st.integers(-5, 5).map(float))
    rows = draw(st.lists(st.dictionaries(
        st.one_of(st.sampled_from(feats), st.integers(0, 60)),
        st.one_of(val, val, val, st.none())), min_size=1, max_size=5))
    return dict(feats=feats, rows=[sorted(r.items()) for r in rows], zero=draw(st.booleans()),
                kind=draw(st.sampled_from(["int", "str"])))


@facet(cases(), quick=2200, shards=6)
def every_value_in_its_column(case, rec):
    from reagent.preprocessing import sparse_to_dense as m

    feats = case["feats"]
    cls = (m.PythonSparseToDenseProcessor if case["kind"] == "int"
           else m.StringKeySparseToDenseProcessor)
    key = int if case["kind"] == "int" else str
    rows = [{key(k): (float("nan") if v is None else v) for k, v in r} for r in case["rows"]]
    proc = cls(feats, set_missing_value_to_zero=case["zero"])
    value, presence = proc(rows)
    ref = [dict(map(tuple, r)) for r in case["rows"]]
    have = np.array([[r.get(f) is not None for f in feats] for r in ref])
    want = np.array([[r[f] if r.get(f) is not None else (0.0 if case["zero"] else MISSING)
                      for f in feats] for r in ref])
    close(value, want, "dense values", rtol=1e-6, atol=1e-6)
    same(presence, have if not case["zero"] else np.ones_like(have), "presence")
    equal(str(value.dtype), "torch.float32", "dtype")
    # same object, same rows: nothing carried over between batches
    v2, p2 = proc(list(reversed(rows)))
    close(v2, want[::-1], "second batch", rtol=1e-6, atol=1e-6)
    rec.nt(not have.all() and any(k not in feats for r in ref for k in r))
    rec.label(case["kind"], "zero fill" if case["zero"] else "marker")
