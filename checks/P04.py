"""Normalisation parameters identified from data, and their serialisation."""
import json
import math

import numpy as np
import torch
from hypothesis import strategies as st
from scipy import stats

from models import norm
from vlib.core import close, equal, facet, raises, require

RULE = ("a case is a list of feature values drawn from several families and identification settings, "
        "or a normalisation map to serialise; non-trivial = the identified type is not BINARY, or the "
        "map has two or more types")


@st.composite
def sample(draw):
    n = draw(st.integers(20, 90))
    kind = draw(st.sampled_from(["binary", "const", "prob", "enum", "bigenum", "negint", "normal",
                                 "exp", "bimodal", "wide", "int+frac"]))
    u = [x / 1000 for x in draw(st.lists(st.integers(1, 999), min_size=n, max_size=n))]
    if kind == "binary":
        v = [float(x > 0.5) for x in u]
    elif kind == "const":
        v = [round(u[0] * 9 - 3, 2)] * n
    elif kind == "prob":
        v = u
    elif kind == "enum":
        v = [float(int(x * 6)) for x in u]
    elif kind == "bigenum":
        v = [float(int(x * 5000)) for x in u]
    elif kind == "negint":
        v = [float(int(x * 7) - 3) for x in u]
    elif kind == "normal":
        v = [round(float(stats.norm.ppf(x)) * 3 + 1, 4) for x in u]
    elif kind == "exp":
        v = [round(-math.log(x) * 4, 4) - 1 for x in u]
    elif kind == "bimodal":
        v = [round(x if i % 2 else 50 + 3 * x, 4) for i, x in enumerate(u)]
    elif kind == "wide":
        v = [round(math.tan((x - 0.5) * 3.0), 4) for x in u]
    else:
        v = [float(int(x * 5)) + (0.5 if i == 3 else 0) for i, x in enumerate(u)]
    return kind, v


@st.composite
def cases(draw):
    kind, v = draw(sample())
    return dict(kind=kind, v=v, enum=draw(st.sampled_from([3, 5, 100])),
                qsize=draw(st.sampled_from([2, 4, 20])),
                k2=draw(st.sampled_from([0.5, 5.0, 50.0, 1000.0])),
                skip_box_cox=draw(st.booleans()), skip_quantiles=draw(st.booleans()),
                override=draw(st.sampled_from([None] * 5 + [
                    "CONTINUOUS", "CONTINUOUS_ACTION", "ENUM", "PROBABILITY", "BINARY",
                    "DO_NOT_PREPROCESS", "DISCRETE_ACTION"])))


def ident(v, enum):
    v = np.array(v)
    if np.isin(v, (0, 1)).all() or v.min() == v.max():
        return "BINARY"
    if v.min() >= 0 and v.max() <= 1:
        return "PROBABILITY"
    if v.min() >= 0 and len(set(v.tolist())) <= enum and (v == np.floor(v)).all():
        return "ENUM"
    return "CONTINUOUS"


@facet(cases(), quick=900, shards=8)
def identified_parameters(case, rec):
    from reagent.preprocessing.identify_types import identify_type
    from reagent.preprocessing.normalization import identify_parameter
    from reagent.preprocessing.preprocessor import Preprocessor

    v = np.array(case["v"])
    equal(identify_type(v.copy(), case["enum"]), ident(v, case["enum"]), "identified type")
    p = identify_parameter("f", v.copy(), case["enum"], case["qsize"], case["k2"],
                           case["skip_box_cox"], case["skip_quantiles"], case["override"])
    t = case["override"] or ident(v, case["enum"])
    close(p.min_value if t != "CONTINUOUS" or v.min() != v.max() else v.min(), v.min(), "min")
    rec.label(t, p.feature_type)
    rec.nt(t != "BINARY")
    if t == "CONTINUOUS":
        if v.min() == v.max():
            equal((p.feature_type, p.mean, p.stddev), ("CONTINUOUS", 0, 1), "constant feature")
            return
        close(p.max_value, v.max(), "max")
        k2 = stats.normaltest(v)[0]
        bc, lam = stats.boxcox(np.maximum(v - v.min(), 1e-4))
        k2b = stats.normaltest(bc)[0]
        sd = np.std(bc, ddof=1)
        box = (not case["skip_box_cox"] and not 0.9 <= lam <= 1.1 and k2 > k2b * 10
               and k2b <= case["k2"] and np.isfinite(sd) and sd < 1e8 and not np.isclose(sd, 0))
        if box:
            equal(p.feature_type, "BOXCOX", "type")
            close(p.boxcox_lambda, lam, "lambda")
            close(p.boxcox_shift, -v.min(), "shift")
            close(p.mean, bc.mean(), "mean of transformed values", rtol=1e-3, atol=1e-4)
            close(p.stddev, max(sd, 1.0), "stddev of transformed values", rtol=1e-3)
        elif k2 > case["k2"] and not case["skip_quantiles"]:
            equal(p.feature_type, "QUANTILE", "type")
            q = np.unique(np.quantile(v, np.arange(case["qsize"] + 1) / case["qsize"],
                                      method="interpolated_inverted_cdf"))
            require(p.boxcox_lambda is None and p.boxcox_shift is None, "Box-Cox parameters left over")
            a = np.array(p.quantiles)
            require((np.diff(a) > 0).all(), "quantiles not strictly increasing")
            # values equal up to rounding may or may not be merged
            require(all(np.isclose(a, x, atol=1e-7).any() for x in q)
                    and all(np.isclose(q, x, atol=1e-7).any() for x in a),
                    f"quantiles {a.tolist()}, expected {q.tolist()}")
        else:
            equal(p.feature_type, "CONTINUOUS", "type")
            require(p.boxcox_lambda is None and p.boxcox_shift is None, "Box-Cox parameters left over")
            close(p.mean, v.mean(), "mean", atol=1e-5)
            close(p.stddev, max(np.std(v, ddof=1), 1.0), "stddev", rtol=1e-3)
    else:
        equal(p.feature_type, t, "type")
        close(p.max_value, v.max(), "max")
        if t == "ENUM":
            equal(list(p.possible_values), sorted({int(x) for x in v}), "possible values")
        if t in ("CONTINUOUS_ACTION", "DO_NOT_PREPROCESS"):
            close(p.mean, v.mean(), "mean", atol=1e-5)
            close(p.stddev, max(np.std(v, ddof=1), 1.0), "stddev", rtol=1e-3)
    # the identified parameters can normalise the data they came from
    if p.feature_type == "QUANTILE" and len(p.quantiles) < 2 or t == "CONTINUOUS_ACTION" and v.min() == v.max():
        return
    if t in ("PROBABILITY", "BINARY") and case["override"] or t == "DISCRETE_ACTION":
        return
    pre = Preprocessor({7: p}, use_gpu=False)
    x = torch.tensor(v, dtype=torch.float32).unsqueeze(1)
    out = pre(x, torch.ones_like(x)).numpy()
    require(np.isfinite(out).all(), "normalised training data is not finite")
    if p.feature_type == "QUANTILE":
        s = out[np.argsort(v, kind="stable"), 0]
        require((np.diff(s) >= -1e-5).all() and s.min() >= 0 and s.max() <= 1 + 1e-6,
                "percentiles not increasing within [0, 1]")
    if t == "ENUM" and not case["override"]:
        require((out.sum(1) == 1).all(), "each training value activates one category")


@st.composite
def raw(draw):
    kind, v = draw(sample())
    n = draw(st.integers(1, len(v)))
    return dict(v=v[:n], poison=draw(st.sampled_from([None, None, None, "nan", "inf"])),
                at=draw(st.integers(0, n - 1)), name=draw(st.sampled_from(["a", "b"])),
                overrides=draw(st.sampled_from([None, {"a": "CONTINUOUS"}, {"b": "DO_NOT_PREPROCESS"}])),
                default=draw(st.sampled_from([None, None, "CONTINUOUS_ACTION"])))


@facet(raw(), quick=500, shards=4)
def metadata_from_raw_values(case, rec):
    from reagent.preprocessing.normalization import get_feature_norm_metadata

    v = list(case["v"])
    if case["poison"]:
        v[case["at"]] = float(case["poison"])
    cfg = dict(feature_overrides=case["overrides"], max_unique_enum_values=10, quantile_size=4,
               quantile_k2_threshold=1000.0, skip_box_cox=True, skip_quantiles=True)
    if case["default"]:
        cfg["default_feature_override"] = case["default"]
    run = lambda: get_feature_norm_metadata(case["name"], v, cfg)
    if len(v) < 20:
        equal(run(), None, "too few samples")
        return
    if case["poison"]:
        raises(AssertionError, run, f"feature values with {case['poison']}")
        rec.nt()
        return
    p = run()
    want = (case["overrides"] or {}).get(case["name"]) or case["default"] or ident(
        np.array(v, dtype=np.float32), 10)
    equal(p.feature_type, want, "type")
    rec.nt(want != "BINARY")


@st.composite
def maps(draw):
    return dict(spec=draw(norm.spec(max_size=8)), pick=draw(st.integers(0, 100)),
                over=draw(st.lists(st.tuples(norm.r3(-9, 0), norm.r3(1, 9)), min_size=8, max_size=8)))


@facet(maps(), quick=900, shards=4)
def serialised_maps_and_layout(case, rec):
    from reagent.preprocessing import normalization as n
    from reagent.preprocessing.preprocessor import Preprocessor

    ps = norm.params(case["spec"])
    ser = n.serialize(ps)
    ser = json.loads(json.dumps(ser))  # keys become strings, as in stored metadata
    back = n.deserialize(ser)
    equal(set(back), set(ps), "feature ids after a round trip")
    for i in ps:
        equal(back[i], ps[i], f"feature {i} after a round trip")
    o = norm.order(case["spec"])
    feats, starts = n.sort_features_by_normalization(ps)
    equal(list(feats), [i for i, _ in o], "feature order")
    ts = [f["feature_type"] for _, f in o]
    equal(list(starts), [sum(norm.TYPES.index(t) < k for t in ts) for k in range(len(norm.TYPES))],
          "start of each type")
    w = [norm.width(f) for _, f in o]
    equal(n.get_num_output_features(ps), sum(w), "number of output columns")
    equal(list(n.get_feature_start_indices(feats, ps)), [sum(w[:k]) for k in range(len(w))],
          "first column of each feature")
    pre = Preprocessor(back, use_gpu=False).eval()
    equal(list(pre(*pre.input_prototype()).shape), [1, sum(w)], "width of the preprocessed batch")
    rec.nt(len(set(ts)) > 1)
    act = [(i, f) for i, f in o if f["feature_type"] == "CONTINUOUS_ACTION"]
    if act:
        sub = {i: ps[i] for i, _ in reversed(act)}
        over = {i: case["over"][k] for k, (i, _) in enumerate(act) if (case["pick"] >> k) & 1}
        lo, hi = n.construct_action_scale_tensor(sub, over)
        close(lo, [[over[i][0] if i in over else f["min_value"] for i, f in act]], "action minimum")
        close(hi, [[over[i][1] if i in over else f["max_value"] for i, f in act]], "action maximum")
        rec.label("actions")
