"""Feature normalisation, one feature and one value at a time, in float64."""
import math

from hypothesis import strategies as st

EPS = 1e-6
TYPES = ("BINARY", "PROBABILITY", "CONTINUOUS", "BOXCOX", "ENUM", "QUANTILE",
         "CONTINUOUS_ACTION", "DISCRETE_ACTION", "DO_NOT_PREPROCESS", "CLIP_LOG")

r3 = lambda lo, hi: st.floats(lo, hi).map(lambda x: round(x, 3))


@st.composite
def feature(draw, types=TYPES):
    t = draw(st.sampled_from(types))
    d = dict(feature_type=t)
    if t in ("CONTINUOUS", "BOXCOX"):
        d["mean"] = draw(r3(-5, 5))
        d["stddev"] = draw(r3(0.2, 8))
    if t == "BOXCOX":
        d["boxcox_lambda"] = draw(st.sampled_from([-1.5, -0.5, 0.25, 0.5, 2.0, 1.0]))
        d["boxcox_shift"] = draw(r3(-1, 6))
    if t == "ENUM":
        d["possible_values"] = draw(st.lists(st.integers(0, 50), min_size=1, max_size=5, unique=True))
    if t == "QUANTILE":
        n = draw(st.integers(2, 8))
        q = sorted(draw(st.lists(st.integers(-200, 200), min_size=n, max_size=n, unique=True)))
        d["quantiles"] = [x / 8 for x in q]
    if t == "CONTINUOUS_ACTION":
        d["min_value"] = draw(r3(-10, 10))
        d["max_value"] = round(d["min_value"] + draw(r3(0.5, 20)), 3)
    return d


@st.composite
def value(draw, f):
    t = f["feature_type"]
    if t == "BINARY":
        return draw(st.sampled_from([0.0, 1.0, 0.0, -2.0, 0.5]))
    if t == "PROBABILITY":
        return draw(st.one_of(st.sampled_from([0.0, 1.0, 0.01, 0.99]), r3(0, 1)))
    if t == "ENUM":
        return float(draw(st.one_of(st.sampled_from(f["possible_values"]), st.integers(0, 51))))
    if t == "QUANTILE":
        q = f["quantiles"]
        return draw(st.one_of(st.sampled_from(q), st.integers(-220 * 4, 220 * 4).map(lambda k: k / 32),
                              st.tuples(st.sampled_from(q), st.sampled_from([-1, 1])).map(
                                  lambda z: z[0] + z[1] / 16)))
    if t == "CONTINUOUS_ACTION":
        return draw(st.one_of(st.sampled_from([f["min_value"], f["max_value"]]),
                              r3(f["min_value"], f["max_value"]), r3(-40, 40)))
    if t == "CLIP_LOG":
        return draw(st.one_of(r3(0, 5), st.sampled_from([0.0, -1.0, 1e-7, 1e-3, 500.0])))
    if t == "BOXCOX":
        return draw(r3(-f["boxcox_shift"] + 0.05, -f["boxcox_shift"] + 10))
    return draw(r3(-60, 60))


@st.composite
def spec(draw, types=TYPES, min_size=1, max_size=7):
    n = draw(st.integers(min_size, max_size))
    ids = draw(st.lists(st.integers(1, 400), min_size=n, max_size=n, unique=True))
    return [[i, draw(feature(types))] for i in ids]


def order(sp):
    """Features in output order: by type, then by id."""
    return sorted(sp, key=lambda x: (TYPES.index(x[1]["feature_type"]), x[0]))


def width(f):
    return len(f["possible_values"]) if f["feature_type"] == "ENUM" else 1


def clamp(x, lo=-6.0, hi=6.0):
    return max(lo, min(hi, x))


def one(f, x, present):
    """Output columns of one feature."""
    t = f["feature_type"]
    if not present:
        return [0.0] * width(f)
    if t == "BINARY":
        return [0.0 if x == 0 else 1.0]
    if t == "PROBABILITY":
        p = min(max(x, 0.01), 0.99)
        return [math.log(p / (1 - p))]
    if t == "CONTINUOUS":
        return [clamp((x - f["mean"]) / f["stddev"])]
    if t == "BOXCOX":
        y = (max(x + f["boxcox_shift"], 1e-6) ** f["boxcox_lambda"] - 1) / f["boxcox_lambda"]
        return [clamp((y - f["mean"]) / f["stddev"])]
    if t == "ENUM":
        return [1.0 if x == v else 0.0 for v in f["possible_values"]]
    if t == "QUANTILE":
        q = f["quantiles"]
        if x >= q[-1]:
            return [1.0]
        if x <= q[0]:
            return [0.0]
        k = max(i for i in range(len(q)) if q[i] <= x)
        return [(k + (x - q[k]) / (q[k + 1] - q[k])) / (len(q) - 1)]
    if t == "CONTINUOUS_ACTION":
        y = (x - f["min_value"]) / (f["max_value"] - f["min_value"]) * 2 * (1 - EPS) - 1 + EPS
        return [clamp(y, -1 + EPS, 1 - EPS)]
    if t == "DISCRETE_ACTION":
        return [clamp(x)]
    if t == "DO_NOT_PREPROCESS":
        return [x]
    if t == "CLIP_LOG":
        return [clamp(math.log(max(x, EPS)))]
    raise AssertionError(t)


def params(sp):
    from reagent.parameters import NormalizationParameters

    return {i: NormalizationParameters(**f) for i, f in sp}


def expected(sp, rows, presence):
    """rows / presence are in output order (see order())."""
    o = order(sp)
    return [[c for (i, f), x, p in zip(o, r, pr) for c in one(f, x, p)]
            for r, pr in zip(rows, presence)]


@st.composite
def batch(draw, sp, min_rows=1, max_rows=5):
    o = order(sp)
    n = draw(st.integers(min_rows, max_rows))
    rows = [[draw(value(f)) for _, f in o] for _ in range(n)]
    pres = [[draw(st.integers(0, 3)) > 0 for _ in o] for _ in range(n)]
    return rows, pres
