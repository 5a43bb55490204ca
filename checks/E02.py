"""Sequential, weighted and MAGIC doubly robust estimates."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from models import cpe
from models.nets import arr, rng_of
from vlib.core import Inconclusive, close, equal, facet, require

RULE = ("a case is a page of episodes with target propensities and action values; non-trivial = episodes of different "
        "lengths with importance weights other than one")


def _norm(c):
    m = cpe.seq_dr(c)[1].mean()
    if abs(m - 1e-6) < 1e-5:
        raise Inconclusive
    return 0.0 if m < 1e-6 else 1.0 / m


def _nt(c, rec):
    rec.nt(len(set(c["lens"])) > 1 and (np.abs(cpe.parts(c)[0] - 1) > 1e-3).any())
    rec.label(c["kind"])


def _reorder(c, p):
    eps = cpe.episodes(c)
    idx = [t for i in p for t in range(*eps[i])]
    d = {k: np.array(c[k])[idx].tolist() for k in ("action", "logged", "prop", "reward", "mr", "mrl", "mv", "ids", "seq")}
    return dict(c, lens=[c["lens"][i] for i in p], **d)


def _tol(c):
    w = cpe.weights(c, False) * len(c["lens"])
    return 1e-4 * (1 + 10 * float(np.abs(w).max()))


@facet(cpe.pages(min_eps=2), quick=250, shards=4)
def sequential(case, rec):
    from reagent.evaluation.sequential_doubly_robust_estimator import SequentialDoublyRobustEstimator

    c = case
    np.random.seed(c["seed"])
    est = SequentialDoublyRobustEstimator(c["gamma"])
    e = est.estimate(cpe.build(c))
    dr, _ = cpe.seq_dr(c)
    k, tol = _norm(c), _tol(c)
    close(e.raw, dr.mean(), "sequential doubly robust", rtol=1e-3, atol=tol)
    close(e.normalized, e.raw * k, "normalized", rtol=1e-3, atol=1e-6)
    if len(dr) >= 4:
        if len(dr) >= 8 and dr.std() > 1e-3:
            want = dr.std() / math.sqrt(int(0.25 * len(dr)))
            require(abs(e.raw_std_error - want) <= 0.3 * want + tol, "standard error %s, expected about %s",
                    e.raw_std_error, want)
        close(e.normalized_std_error, e.raw_std_error * k, "normalized error", rtol=1e-3, atol=1e-6)
    p = np.random.RandomState(c["seed"]).permutation(len(c["lens"]))
    close(est.estimate(cpe.build(_reorder(c, p))).raw, e.raw, "order of episodes", rtol=1e-3, atol=tol)
    _nt(c, rec)


@facet(cpe.pages(min_eps=1), quick=500, shards=4)
def weighted(case, rec):
    from reagent.evaluation.weighted_sequential_doubly_robust_estimator import (
        WeightedSequentialDoublyRobustEstimator as W)

    c = case
    for normalise in (True, False):
        e = W(c["gamma"]).estimate(cpe.build(c), num_j_steps=1, whether_self_normalize_importance_weights=normalise)
        close(e.raw, cpe.step_return(c, math.inf, normalise), f"weighted doubly robust ({normalise})", rtol=1e-3,
              atol=_tol(c))
        close(e.normalized, e.raw * _norm(c), "normalized", rtol=1e-3, atol=1e-6)
        equal(float(e.raw_std_error), 0.0, "no error for a single estimate")
    _nt(c, rec)


@facet(cpe.pages(min_eps=4, max_eps=9), quick=80, shards=4)
def magic(case, rec):
    """MAGIC blends the j-step returns with weights that are non-negative and add to one."""
    from reagent.evaluation.weighted_sequential_doubly_robust_estimator import (
        WeightedSequentialDoublyRobustEstimator as W)

    c = case
    np.random.seed(c["seed"])
    n = c["seed"] % 5 + 2 if c["seed"] % 3 else 25
    e = W(c["gamma"]).estimate(cpe.build(c), num_j_steps=n, whether_self_normalize_importance_weights=True)
    js = [math.inf, -1] + [i * (max(c["lens"]) // (n - 1)) for i in range(1, n - 1)]
    rs = [cpe.step_return(c, j, True) for j in js[:n]]
    if max(abs(x) for x in rs) > 1e3:
        raise Inconclusive
    tol = _tol(c) + 1e-3 * (1 + max(rs) - min(rs))
    require(min(rs) - tol <= e.raw <= max(rs) + tol, "MAGIC estimate %s is outside the j-step returns %s", e.raw, rs)
    close(e.normalized, e.raw * _norm(c), "normalized", rtol=1e-3, atol=1e-6)
    require(math.isnan(e.raw_std_error) or e.raw_std_error >= 0, "standard error")
    _nt(c, rec)


def _part(c, lo, hi):
    """episodes lo..hi-1 alone"""
    eps = cpe.episodes(c)
    rows = slice(eps[lo][0], eps[hi - 1][1])
    return dict(c, lens=c["lens"][lo:hi], **{k: c[k][rows] for k in (
        "action", "logged", "prop", "reward", "mr", "mrl", "mv", "ids", "seq")})


@facet(cpe.pages(min_eps=4, max_eps=9), quick=120, shards=3)
def magic_of_two(case, rec):
    """Blending the whole-trajectory return with the model's value has a closed form; the bounds that define the bias
    come from the weighted doubly robust estimates of consecutive groups of trajectories."""
    from reagent.evaluation.weighted_sequential_doubly_robust_estimator import (
        WeightedSequentialDoublyRobustEstimator as W)

    c, n = case, len(case["lens"])
    np.random.seed(c["seed"])
    groups = n // 2
    cut = [int(i * n / groups) for i in range(groups + 1)]
    inf = np.array([cpe.step_return(_part(c, x, y), math.inf, True) for x, y in zip(cut, cut[1:])])
    half = inf.std(ddof=1) / math.sqrt(groups) * stats.t.ppf((1 + W.CONFIDENCE_INTERVAL) / 2, groups - 1)
    lo, hi = inf.mean() - half, inf.mean() + half
    tr = np.array([cpe.step_returns(c, j, True) for j in (math.inf, -1)])
    ret = tr.sum(1)
    bias = np.where(ret < lo, lo - ret, np.where(ret > hi, ret - hi, 0.0))
    err = np.cov(tr) + np.outer(bias, bias)
    curve = err[0, 0] + err[1, 1] - 2 * err[0, 1]
    if curve < 1e-2 or np.abs(ret).max() > 1e3:
        raise Inconclusive
    w = min(1.0, max(0.0, (err[1, 1] - err[0, 1]) / curve))
    e = W(c["gamma"]).estimate(cpe.build(c), num_j_steps=2, whether_self_normalize_importance_weights=True)
    close(e.raw, w * ret[0] + (1 - w) * ret[1], "MAGIC of two returns", rtol=1e-2, atol=_tol(c) + 1e-2 * (1 + abs(ret[0] - ret[1])))
    close(e.normalized, e.raw * _norm(c), "normalized", rtol=1e-3, atol=1e-6)
    require(e.raw_std_error >= 0, "standard error")
    close(e.normalized_std_error, e.raw_std_error * _norm(c), "normalized error", rtol=1e-3, atol=1e-6)
    rec.nt(0.01 < w < 0.99)
    rec.label(c["kind"], "biased" if bias.any() else "unbiased")


@facet(cpe.pages(min_eps=4, max_eps=9), quick=50, shards=2)
def magic_on_policy(case, rec):
    """With the logging policy as the target and a model that predicts the rewards exactly, all returns agree with the
    model's value and so does MAGIC."""
    from reagent.evaluation.weighted_sequential_doubly_robust_estimator import (
        WeightedSequentialDoublyRobustEstimator as W)

    c = dict(case)
    np.random.seed(c["seed"])
    n = sum(c["lens"])
    # a single action per state in effect: propensities one-hot on the logged action, q = reward-to-go
    L = c["lens"][0]
    c["lens"] = [L] * len(c["lens"])
    n = sum(c["lens"])
    rng = np.random.RandomState(c["seed"])
    c["ids"] = [i for i, k in enumerate(c["lens"]) for _ in range(k)]
    c["seq"] = [t for k in c["lens"] for t in range(k)]
    c["action"] = rng.randint(0, c["a"], n).tolist()
    r = np.round(rng.uniform(0, 3, n), 2)
    q = np.zeros(n)
    for s, e in cpe.episodes(c):
        g = 0.0
        for t in range(e - 1, s - 1, -1):
            g = r[t] + c["gamma"] * g
            q[t] = g
    mask = np.eye(c["a"])[c["action"]]
    c.update(prop=mask.tolist(), logged=np.ones((n, 1)).tolist(), reward=r[:, None].tolist(),
             mv=(mask * q[:, None]).tolist(), mr=mask.tolist(), mrl=r[:, None].tolist())
    want = np.mean([q[s] for s, _ in cpe.episodes(c)])
    for k in (1, 3, 25):
        e = W(c["gamma"]).estimate(cpe.build(c), num_j_steps=k, whether_self_normalize_importance_weights=True)
        close(e.raw, want, f"{k} returns", rtol=1e-3, atol=1e-3)
    rec.nt(L > 1)


@st.composite
def blends(draw):
    rng = rng_of(draw)
    n = draw(st.integers(3, 8))
    return dict(traj=arr(rng, (2, n)), shift=[draw(st.sampled_from([0.0, 0.0, 5.0, -5.0])) for _ in range(2)],
                inf=arr(rng, (draw(st.integers(2, 8)),), -2, 2), conf=draw(st.sampled_from([0.5, 0.9, 0.99])))


@facet(blends(), quick=250, shards=2)
def blend_of_two(case, rec):
    """With two returns the least mean squared error (variance plus squared bias) has a closed form."""
    from reagent.evaluation.weighted_sequential_doubly_robust_estimator import (
        WeightedSequentialDoublyRobustEstimator as W)

    c = case
    if not (hasattr(W, "confidence_bounds") and hasattr(W, "compute_weighted_doubly_robust_point_estimate")):
        raise Inconclusive
    x = np.array(c["inf"])
    lo, hi = W.confidence_bounds(c["inf"], c["conf"])
    half = x.std(ddof=1) / math.sqrt(len(x)) * stats.t.ppf((1 + c["conf"]) / 2, len(x) - 1)
    close([lo, hi], [x.mean() - half, x.mean() + half], "confidence bounds", rtol=1e-6, atol=1e-9)
    lo, hi = W.confidence_bounds(c["inf"], W.CONFIDENCE_INTERVAL)
    tr = np.array(c["traj"])
    ret = tr.sum(1) / tr.shape[1] + np.array(c["shift"])
    bias = np.where(ret < lo, lo - ret, np.where(ret > hi, ret - hi, 0.0))
    e = np.cov(tr) + np.outer(bias, bias)
    curve = e[0, 0] + e[1, 1] - 2 * e[0, 1]
    if curve < 1e-3:
        raise Inconclusive
    w = min(1.0, max(0.0, (e[1, 1] - e[0, 1]) / curve))
    got = W(0.9).compute_weighted_doubly_robust_point_estimate([math.inf, -1], 2, ret, c["inf"], tr)
    close(got, w * ret[0] + (1 - w) * ret[1], "blend", rtol=1e-2, atol=1e-2 * (1 + abs(ret[0] - ret[1])))
    rec.nt(0.01 < w < 0.99)
    rec.label("biased" if bias.any() else "unbiased")


@facet(cpe.pages(min_eps=2, max_eps=5), quick=200, shards=2)
def step_returns(case, rec):
    """Returns of every length, from equal-length padded trajectories."""
    from reagent.evaluation.weighted_sequential_doubly_robust_estimator import (
        WeightedSequentialDoublyRobustEstimator as W)

    c = case
    if not all(hasattr(W, k) for k in ("transform_to_equal_length_trajectories", "normalize_importance_weights",
                                       "calculate_step_return")):
        raise Inconclusive
    page = cpe.build(c)
    act, rew, logged, prop, q = W.transform_to_equal_length_trajectories(
        page.mdp_id, page.action_mask.numpy(), page.logged_rewards.numpy().flatten(),
        page.logged_propensities.numpy().flatten(), page.model_propensities.numpy(), page.model_values.numpy())
    n, length = len(c["lens"]), max(c["lens"])
    for i, (s, e) in enumerate(cpe.episodes(c)):
        for got, want, fill in ((act[i], cpe.onehot(c), 0), (rew[i], np.array(c["reward"])[:, 0], 0),
                                (logged[i], np.array(c["logged"])[:, 0], 1), (prop[i], np.array(c["prop"]), 0),
                                (q[i], np.array(c["mv"]), 0)):
            close(got[:e - s], want[s:e], "trajectory", rtol=1e-5)
            close(got[e - s:], np.full_like(got[e - s:], fill), "padding")
    for normalise in (True, False):
        w = W.normalize_importance_weights(np.cumprod((prop * act).sum(2) / logged, axis=1), normalise)
        close(w, cpe.weights(c, normalise), "importance weights", rtol=1e-3, atol=1e-5)
        before = np.hstack([np.full((n, 1), 1.0 / n), w[:, :-1]])
        disc = np.array([c["gamma"] ** t for t in range(length)])
        for j in list(range(-1, length)) + [math.inf]:
            got = W.calculate_step_return(rew, disc, w, before, (prop * q).sum(2), (q * act).sum(2), j)
            close(np.sum(got), cpe.step_return(c, j, normalise), f"{j}-step return", rtol=1e-3, atol=_tol(c))
    _nt(c, rec)
