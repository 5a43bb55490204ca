"""One-step counterfactual policy evaluation."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from models import cpe
from models.nets import T, arr, rng_of
from vlib.core import Inconclusive, close, equal, facet, raises, require, same

RULE = ("a case is a page of logged rows with target propensities and reward predictions, or a set of estimates; "
        "non-trivial = four or more rows with importance weights other than one")


def _hp(c):
    from reagent.evaluation.doubly_robust_estimator import DoublyRobustHP

    return DoublyRobustHP(bootstrap_num_samples=20)


def check_estimate(e, values, logged_mean, msg):
    if abs(logged_mean - 1e-6) < 1e-5:
        raise Inconclusive
    k = 0.0 if logged_mean < 1e-6 else 1.0 / logged_mean
    v = float(np.mean(values))
    close(e.raw, v, msg, rtol=1e-4, atol=1e-4)
    close(e.normalized, e.raw * k, msg + " normalized by the logged score", rtol=1e-3, atol=1e-6)
    if not math.isnan(float(e.raw_std_error)):
        close(e.normalized_std_error, float(e.raw_std_error) * k, msg + " normalized error", rtol=1e-3, atol=1e-6)


@facet(cpe.pages(min_eps=2), quick=900, shards=4)
def estimates(case, rec):
    from reagent.evaluation.doubly_robust_estimator import DoublyRobustEstimator

    c = case
    np.random.seed(c["seed"])
    page = cpe.build(c)
    before = [t.clone() for t in page if t is not None]
    out = DoublyRobustEstimator().estimate(page, _hp(c))
    r = np.array(c["reward"])
    for e, v, name in zip(out, cpe.one_step(c), ("direct method", "inverse propensity", "doubly robust")):
        check_estimate(e, v, r.mean(), name)
    for a, b in zip(before, [t for t in page if t is not None]):
        same(b, a, "page untouched")
    if c["kind"] == "logged":
        close(out[1].raw, r.mean(), "evaluating the logging policy gives the logged mean", atol=1e-4)
    # a perfect reward model makes doubly robust and direct method agree
    rows = np.arange(len(r))
    mr = np.array(c["mr"])
    mr[rows, c["action"]] = r[:, 0]
    perfect = dict(c, mr=mr.tolist(), mrl=r.tolist())
    o2 = DoublyRobustEstimator().estimate(cpe.build(perfect), _hp(c))
    close(o2[2].raw, o2[0].raw, "doubly robust with a perfect model", atol=1e-4)
    # rows in another order give the same estimates
    p = np.random.RandomState(c["seed"]).permutation(len(r))
    d = dict(c, **{k: np.array(c[k])[p].tolist() for k in ("action", "logged", "prop", "reward", "mr", "mrl", "mv")})
    for x, y in zip(DoublyRobustEstimator().estimate(cpe.build(d), _hp(c)), out):
        close(x.raw, y.raw, "order of rows", atol=1e-4)
    rho = cpe.parts(c)[0]
    rec.nt(len(r) >= 4 and (np.abs(rho - 1) > 1e-3).any())
    rec.label(c["kind"], "normalised" if r.mean() > 1e-6 else "not normalised")


@facet(cpe.pages(min_eps=5, max_eps=20), quick=60, shards=2)
def errors(case, rec):
    """Each estimate's error is the bootstrapped error of the mean of its own per-row values."""
    from reagent.evaluation.doubly_robust_estimator import DoublyRobustEstimator, DoublyRobustHP

    c = case
    np.random.seed(c["seed"])
    n = len(c["reward"])
    if n < 8:
        return
    out = DoublyRobustEstimator().estimate(cpe.build(c), DoublyRobustHP(bootstrap_num_samples=900))
    for e, v, name in zip(out, cpe.one_step(c), ("direct method", "inverse propensity", "doubly robust")):
        want = v.std() / math.sqrt(int(0.25 * n))
        require(abs(float(e.raw_std_error) - want) <= 0.3 * want + 1e-4, "error of %s: %s, expected about %s", name, e.raw_std_error, want)
    rec.nt(True)


@st.composite
def samples(draw):
    rng = rng_of(draw)
    n = draw(st.one_of(st.integers(8, 60), st.integers(60, 300)))
    return dict(x=arr(rng, (n,)), pct=draw(st.sampled_from([0.25, 0.5, 1.0])), tensor=draw(st.booleans()),
                seed=draw(st.integers(0, 2**31 - 1)))


@facet(samples(), quick=150, shards=2)
def bootstrap(case, rec):
    """The bootstrapped error of the mean is the spread of means of resamples of the requested size."""
    from reagent.evaluation.cpe import bootstrapped_std_error_of_mean

    c = case
    np.random.seed(c["seed"])
    x = np.array(c["x"])
    got = float(bootstrapped_std_error_of_mean(T(c["x"]) if c["tensor"] else x, sample_percent=c["pct"],
                                               num_samples=1000))
    want = x.std() / math.sqrt(int(c["pct"] * len(x)))
    require(abs(got - want) <= 0.2 * want + 1e-6, "standard error %s, expected about %s", got, want)
    rec.nt(x.std() > 0)


NAMES = dict(direct_method="Direct_Method_Reward", inverse_propensity="IPS_Reward",
             doubly_robust="Doubly_Robust_Reward", sequential_doubly_robust="Sequential_Doubly_Robust",
             weighted_doubly_robust="Weighted_Sequential_Doubly_Robust", magic="MAGIC")
FIELDS = list(NAMES) + ["switch", "switch_dr"]


@st.composite
def sets(draw):
    rng = rng_of(draw)
    est = {f: arr(rng, (4,)) for f in FIELDS if draw(st.integers(0, 5)) > 0}
    for f in est:
        if draw(st.integers(0, 4)) == 0:
            est[f][1] = "nan"
    return dict(est=est, metrics=draw(st.lists(st.sampled_from(["m", "clicks", "x/y", "two words"]), unique=True, max_size=2)))


@facet(sets(), quick=250, shards=1)
def estimate_sets(case, rec):
    from reagent.evaluation.cpe import CpeDetails, CpeEstimate, CpeEstimateSet
    from reagent.tensorboardX import summary_writer_context
    from torch.utils.tensorboard import SummaryWriter

    c = case
    mk = {f: CpeEstimate(*[float(x) for x in v]) for f, v in c["est"].items()}
    s = CpeEstimateSet(**mk)
    full = s.fill_empty_with_zero()
    for f in FIELDS:
        if f in mk:
            same(list(getattr(full, f)), list(mk[f]), f"{f} kept")
        else:
            equal(list(getattr(full, f)), [0.0] * 4, f"{f} filled with zeros")
            require(getattr(s, f) is None, "the original set stays as it was")

    class W(SummaryWriter):
        def __init__(self):
            self.d = {}

        def add_scalar(self, name, value, *a, **k):
            require(name not in self.d, "scalar %s written twice", name)
            self.d[name] = value

    d = CpeDetails()
    d.reward_estimates = s
    d.metric_estimates = {m: full for m in c["metrics"]}
    w = W()
    with summary_writer_context(w):
        if any(f not in mk for f in NAMES):
            raises(AssertionError, d.log_to_tensorboard, "logging an incomplete set")
            rec.label("incomplete")
            return
        d.log_to_tensorboard()
    d.log()
    want = {}
    for name in ["Reward"] + c["metrics"]:
        for f, label in NAMES.items():
            v = mk[f].normalized
            want[f"CPE/{name}/{label}"] = 0.0 if math.isnan(v) else v
    equal(w.d, want, "scalars written")
    rec.nt()
    rec.label("complete")


@facet(st.fixed_dictionaries(dict(names=st.lists(st.text("abcxyz", min_size=1, max_size=3), unique=True, max_size=5),
                                  seed=st.integers(0, 2**31 - 1))), quick=150, shards=1)
def distributions(case, rec):
    from reagent.evaluation.evaluator import Evaluator, get_metrics_to_score

    names = case["names"]
    equal(get_metrics_to_score({n: 1.0 for n in names}), sorted(names), "metrics, sorted")
    equal(get_metrics_to_score(None), [], "no metrics")
    if not names:
        return
    rng = np.random.RandomState(case["seed"])
    ev = Evaluator(names, 0.9, None)
    t, a = rng.dirichlet(np.ones(len(names))), rng.dirichlet(np.ones(len(names)))
    close(ev.get_target_distribution_error(names, t.tolist(), dict(zip(names, a.tolist()))), np.mean((t - a) ** 2),
          "distribution error", rtol=1e-6, atol=1e-9)
    equal(ev.get_target_distribution_error(names, [], {}), None, "no target distribution")
    rec.nt(len(names) > 1)
