"""Deriving normalisation parameters from a table (on an in-memory stand-in for PySpark)."""
import numpy as np
from hypothesis import strategies as st

from models import fakespark
from models.nets import rng_of
from vlib.core import Inconclusive, close, equal, facet, raises, require, same

RULE = "a case is a table's map column with options; non-trivial = two or more features, at least one long enough to identify"

OVERRIDES = ["CONTINUOUS", "BOXCOX", "PROBABILITY", "BINARY", "ENUM", "QUANTILE", "CONTINUOUS_ACTION", "DO_NOT_PREPROCESS"]


def values(rng, kind, n):
    if kind == "binary":
        return [float(x) for x in rng.randint(0, 2, n)]
    if kind == "prob":
        return [round(float(x), 3) for x in rng.uniform(0, 1, n)]
    if kind == "enum":
        return [float(x) for x in rng.randint(2, 6, n)]
    if kind == "normal":
        return [round(float(x), 3) for x in rng.normal(rng.randint(-5, 6), rng.uniform(0.5, 4), n)]
    if kind == "const":
        return [3.0] * n
    return [round(float(x), 3) for x in np.exp(rng.normal(0, 1.5, n)) + 1]


@st.composite
def columns(draw):
    rng = rng_of(draw)
    n = draw(st.sampled_from([20, 25, 40, 60]))
    fids = [int(x) for x in rng.permutation(200)[: draw(st.sampled_from([1, 2, 2, 3, 4]))]]
    short = draw(st.integers(0, 3))
    cols = {}
    for i, f in enumerate(fids):
        m = n if i < len(fids) - 1 and short != 1 or short > 1 else draw(st.sampled_from([19, 20, 21, n]))
        m = min(m, n)
        vals = values(rng, draw(st.sampled_from(["binary", "prob", "enum", "normal", "skewed"])), m)
        rows = sorted(int(x) for x in rng.permutation(n)[:m])
        cols[str(f)] = dict(zip([str(r) for r in rows], vals))
    opts = dict(max_unique_enum_values=draw(st.sampled_from([2, 3, 4, 100])), quantile_size=draw(st.sampled_from([3, 20, 31])),
                quantile_k2_threshold=draw(st.sampled_from([1000.0, 0.01])), skip_box_cox=draw(st.booleans()), skip_quantiles=draw(st.booleans()))
    over = {}
    for f in fids:
        if draw(st.integers(0, 3)) == 0:
            over[str(f)] = draw(st.sampled_from(OVERRIDES))
    wl = draw(st.sampled_from(["none", "none", "empty", "all", "some", "extra"]))
    white = None if wl == "none" else [] if wl == "empty" else list(fids) if wl == "all" else fids[: max(1, len(fids) // 2)] if wl == "some" else fids + [777]
    lens = [len(c) for c in cols.values()]
    k = draw(st.sampled_from(["min", "half", "over"]))
    return dict(n=n, cols=cols, opts=opts, over=over or None, white=white, cover=draw(st.booleans()),
                samples=min(lens) if k == "min" else max(1, min(lens) // 2) if k == "half" else min(lens) + 1, seed=draw(st.sampled_from([None, 0, 7])))


def metadata(c, f, vals):
    from reagent.preprocessing.normalization import get_feature_norm_metadata

    return get_feature_norm_metadata(f, vals, dict(c["opts"], feature_overrides=overrides(c)))


def overrides(c):
    return {int(k): v for k, v in c["over"].items()} if c["over"] else None


def expected(c, sampled, rec, run):
    """sampled: feature -> values; run() -> parameters"""
    white = set(c["white"] or [])
    want = {}
    for f, v in sampled.items():
        try:
            m = metadata(c, f, v)
        except AssertionError:  # the values are not fit for the type asked for: P04's matter
            rec.label("values that fit no type")
            return raises((AssertionError,), run, "parameters came out for values that do not fit the type asked for")
        if m is not None and (not white or f in white):
            want[f] = m
    if white and c["cover"] and set(want) != white:
        rec.label("uncovered whitelist")
        return raises(AssertionError, run, f"the whitelist {sorted(white)} was not covered by {sorted(want)} and nothing was raised")
    got = run()
    same(set(got), set(want), "the features with parameters")
    for f in want:
        same(got[f].asdict() if hasattr(got[f], "asdict") else vars(got[f]), want[f].asdict() if hasattr(want[f], "asdict") else vars(want[f]), f"feature {f}")
    if white:
        rec.label("whitelist")
    if c["over"]:
        rec.label("override")


@facet(columns(), 240, 4000, shards=8)
def parameters_from_rows(c, rec):
    from reagent.workflow.identify_types_flow import normalization_helper

    sampled = {int(f): list(v.values()) for f, v in c["cols"].items()}
    rows = [dict(feature_name=f, feature_values=v) for f, v in sampled.items()]
    rec.nt(len(rows) > 1 and any(len(v) >= 20 for v in sampled.values()))
    keep = [dict(r, feature_values=list(r["feature_values"])) for r in rows]
    white = None if c["white"] is None else list(c["white"])

    def run():
        return normalization_helper(**c["opts"], feature_overrides=overrides(c), whitelist_features=white, assert_whitelist_feature_coverage=c["cover"])(rows)

    expected(c, sampled, rec, run)
    same(rows, keep, "the rows after the call")
    same(white, c["white"], "the whitelist after the call")


@facet(columns(), 200, 3000, shards=8)
def parameters_from_a_table(c, rec):
    from reagent.workflow.identify_types_flow import identify_normalization_parameters
    from reagent.workflow.types import PreprocessingOptions, TableSpec

    fakespark.SESSION.tables.clear()
    rows = [dict(i=i, states={int(f): v[str(i)] for f, v in c["cols"].items() if str(i) in v}, other={int(f) + 1: 0.5 for f in c["cols"]})
            for i in range(c["n"])]
    fakespark.SESSION.tables["logs"] = fakespark.Frame(["i", "states", "other"], rows)
    fakespark.SESSION.tables["decoy"] = fakespark.Frame(["i", "states"], [dict(i=0, states={5: 1.0})])
    opts = PreprocessingOptions(num_samples=c["samples"], feature_overrides=overrides(c), whitelist_features=c["white"],
                                assert_whitelist_feature_coverage=c["cover"], **c["opts"])
    fakespark.SESSION.samplings.clear()

    def run():
        return identify_normalization_parameters(TableSpec(table_name="logs"), "states", opts, c["seed"])

    counts = {int(f): len(v) for f, v in c["cols"].items()}
    rec.nt(len(counts) > 1)
    if c["samples"] > min(counts.values()):
        rec.label("too few values")
        return raises(AssertionError, run, "fewer values than samples asked for were accepted")
    # one run to learn what was sampled, against which the parameters of a second run are judged
    try:
        run()
    except AssertionError:
        pass
    if len(fakespark.SESSION.samplings) != 1:
        raise Inconclusive("another way of sampling")
    s = fakespark.SESSION.samplings[0]
    same(set(s["fractions"]), set(counts), "the features sampled")
    for f, n in counts.items():
        close(s["fractions"][f] * n, c["samples"], f"the expected number of samples of feature {f} of {n} values")
        if c["samples"] == n:
            same(sorted(s["taken"][f]), sorted(c["cols"][str(f)].values()), f"the values of feature {f}, of which all were asked for")
        else:
            rec.label("subsampled")
        have = sorted(c["cols"][str(f)].values())
        for v in s["taken"].get(f, []):
            require(v in have, "feature %s was identified from %s, which is not one of its values", f, v)
            have.remove(v)
    if c["seed"] is None and any(n > c["samples"] for n in counts.values()):
        return
    equal(s["seed"], c["seed"], "the seed")
    expected(c, {f: v for f, v in s["taken"].items() if v}, rec, run)


def setup_module():
    fakespark.install()


setup_module()
