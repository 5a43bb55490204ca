"""Evaluation pages through the off-policy estimators' adapters."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from checks.E05 import magic_reference, record_draws
from models import cpe
from vlib.core import close, equal, facet, require

RULE = ("a case is a page of logged episodes with target propensities, rewards and values; non-trivial = episodes of "
        "different lengths or rows whose logged action is unknown")


def build(c):
    d = cpe.build(c)
    for i in c.get("hidden", []):
        d.action_mask[i] = 0.0
    return d


@st.composite
def one_pages(draw):
    c = draw(cpe.pages(min_eps=4, max_eps=8, max_len=3))
    c["hidden"] = draw(st.lists(st.integers(0, len(c["ids"]) - 1), max_size=2, unique=True))
    return c


@facet(one_pages(), quick=160, shards=4)
def one_step(case, rec):
    """Adapted one-step estimators give the direct, inverse propensity and doubly robust estimates of the page"""
    from reagent.evaluation.ope_adapter import OPEstimatorAdapter
    from reagent.ope.estimators import contextual_bandits_estimators as B

    c = case
    n = len(c["ids"])
    hid = np.zeros(n, bool)
    hid[c["hidden"]] = True
    dm, ips, dr = cpe.one_step(c)
    # the logged action is not known: no correction
    ips, dr = np.where(hid, 0.0, ips), np.where(hid, dm, dr)
    avg = float(np.array(c["reward"]).mean())
    norm = 0.0 if avg < 1e-6 else 1 / avg
    page = build(c)
    for est, v in ((B.DMEstimator(), dm), (B.IPSEstimator(), ips), (B.DoublyRobustEstimator(), dr)):
        np.random.seed(c["seed"])
        e = OPEstimatorAdapter(est).estimate(page)
        name = type(est).__name__
        tol = 1e-4 * (1 + np.abs(v).max())
        close(e.raw, v.mean(), name, 1e-3, tol)
        if abs(avg) > 1e-3:
            close(e.normalized, v.mean() * norm, f"{name} normalised", 2e-3, tol * max(1, norm))
            close(e.normalized_std_error, e.raw_std_error * norm, f"{name} normalised error", 2e-3, tol * max(1, norm))
        exp = v.std() / math.sqrt(int(0.25 * n))
        require(0.75 * exp - tol <= e.raw_std_error <= 1.25 * exp + tol, f"{name}: error {e.raw_std_error}, expected about {exp}")
    rec.nt(len(set(c["lens"])) > 1 or bool(c["hidden"]))
    rec.label(c["kind"])


def seq_terms(c, weighted):
    """Terms of the doubly robust return and step returns by episode, with per-step weights over the episodes still alive;
    and the mean return"""
    rho, r, q, v = cpe.parts(c)
    eps = cpe.episodes(c)
    n, h = len(eps), max(c["lens"])
    w, mask, R, Q, V = (np.zeros((n, h)) for _ in range(5))
    for i, (s, e) in enumerate(eps):
        k = e - s
        w[i, :k], mask[i, :k], R[i, :k], Q[i, :k], V[i, :k] = np.cumprod(rho[s:e]), 1, r[s:e], q[s:e], v[s:e]
    tot = w.sum(0) if weighted else mask.sum(0)
    ws = w / np.where(tot < 1e-15, tot + n, tot)
    lw = np.concatenate([np.full((n, 1), 1 / n), ws[:, :-1]], 1)
    g = c["gamma"] ** np.arange(h)
    terms = (ws * (R - Q) + lw * V) * g
    gs = terms.cumsum(1) + ws * np.concatenate([V[:, 1:], np.zeros((n, 1))], 1) * g * c["gamma"]
    return terms, gs, float((R @ g).mean())


def seq_definition(c, weighted):
    terms, _, ret = seq_terms(c, weighted)
    return float(terms.sum()), ret


def tol_of(c):
    return 1e-4 * (1 + 10 * float(np.abs(cpe.weights(c, False) * len(c["lens"])).max()))


def seq_check(c, e, weighted, msg):
    v, ret = seq_definition(c, weighted)
    close(e.raw, v, msg, 2e-3, tol_of(c))
    if abs(ret - 1e-6) > 1e-4:
        norm = 0.0 if ret < 1e-6 else 1 / ret
        close(e.normalized, v * norm, f"{msg}, normalised", 3e-3, tol_of(c) * max(1.0, norm))


@facet(cpe.pages(min_eps=1), quick=250, shards=4)
def sequential(case, rec):
    """Adapted sequential estimators see every transition of every episode, with its action, ratio, reward and values"""
    from reagent.evaluation.ope_adapter import SequentialOPEstimatorAdapter
    from reagent.ope.estimators import sequential_estimators as S

    c = case
    page = cpe.build(c)
    inp = SequentialOPEstimatorAdapter.edp_to_rl_input(page, c["gamma"])
    equal(sorted(len(x) for x in inp.log), sorted(c["lens"]), "lengths of the episodes")
    close(sorted(t.reward for x in inp.log for t in x), sorted(r for (r,) in c["reward"]), "rewards", 1e-4, 1e-5)
    for weighted in (False, True):
        e = SequentialOPEstimatorAdapter(S.DoublyRobustEstimator(weighted=weighted), c["gamma"]).estimate(page)
        seq_check(c, e, weighted, f"sequential DR weighted={weighted}")
    e = SequentialOPEstimatorAdapter(S.DMEstimator(), c["gamma"]).estimate(page)
    _, _, _, v = cpe.parts(c)
    close(e.raw, np.mean([v[s] for s, _ in cpe.episodes(c)]), "direct method: value of the first states", 1e-3, 1e-4)
    rec.nt(len(set(c["lens"])) > 1)
    rec.label(c["kind"])


@facet(cpe.pages(min_eps=4, max_eps=7), quick=60, shards=4)
def evaluator(case, rec):
    """The evaluator on these estimators reports each in its place"""
    from reagent.evaluation.ope_adapter import OPEvaluator

    c = case
    page = cpe.build(c)
    np.random.seed(c["seed"])
    s, draws = record_draws(lambda: OPEvaluator([f"a{i}" for i in range(c["a"])], c["gamma"], None).score_cpe("Reward", page))
    dm, ips, dr = cpe.one_step(c)
    for e, v, m in ((s.direct_method, dm, "direct method"), (s.inverse_propensity, ips, "inverse propensity"), (s.doubly_robust, dr, "doubly robust")):
        close(e.raw, v.mean(), m, 1e-3, 1e-4 * (1 + np.abs(v).max()))
    seq_check(c, s.sequential_doubly_robust, False, "sequential doubly robust")
    seq_check(c, s.weighted_doubly_robust, True, "weighted doubly robust")
    terms, gs, _ = seq_terms(c, True)
    n, tot = len(c["lens"]), gs.sum(0)
    tol = tol_of(c) + 1e-3 * (1 + np.abs(tot).max())
    require(tot.min() - tol <= s.magic.raw <= tot.max() + tol, f"MAGIC {s.magic.raw} outside of the step returns {tot}")
    if len(draws) != 200 or any(len(x) != n for x in draws):
        # resampled in some other way: quantiles of other draws are close
        import random

        draws = [random.choices(range(n), k=n) for _ in range(400)]
        x, y = (magic_reference(terms, gs, draws[i:i + 200], 1e-4, torch.double, 1e-5) for i in (0, 200))
        if abs(x - y) < 10 * tol:
            close(s.magic.raw, x, "MAGIC", 2e-2, 30 * tol)
            rec.label("other draws")
    else:
        x, y = (magic_reference(terms, gs, draws, 1e-4, t, 1e-5) for t in (torch.float, torch.double))
        if abs(x - y) < tol:
            close(s.magic.raw, y, "MAGIC", 1e-2, 3 * tol)
            rec.label("blended")
    rec.nt(len(set(c["lens"])) > 1)


@st.composite
def estimates(draw):
    k = draw(st.integers(4, 30))
    rng = cpe.rng_of(draw)
    return dict(rows=np.round(rng.uniform(-1, 3, (k, 2)), 2).tolist(), shift=draw(st.sampled_from([0.0, 0.0, -5.0, 5.0])), seed=int(rng.randint(1 << 30)))


@facet(estimates(), quick=60, shards=1)
def collected(case, rec):
    """Sequential results are averaged, with the spread of their mean, and normalised by the logged mean if that is positive"""
    from reagent.evaluation.ope_adapter import OPEstimatorAdapter, SequentialOPEstimatorAdapter
    from reagent.ope.estimators.estimator import EstimatorResult, EstimatorResults

    c = case
    np.random.seed(c["seed"])
    rows = np.array(c["rows"])
    rows[:, 1] += c["shift"]
    e = SequentialOPEstimatorAdapter.estimator_results_to_cpe_estimate(EstimatorResults([EstimatorResult(b, a, None) for a, b in rows]))
    close(e.raw, rows[:, 0].mean(), "mean", 1e-5, 1e-5)
    avg = rows[:, 1].mean()
    exp = rows[:, 0].std() / math.sqrt(int(0.25 * len(rows)))
    require(0.7 * exp - 1e-4 <= e.raw_std_error <= 1.3 * exp + 1e-4, f"error {e.raw_std_error}, expected about {exp}")
    if abs(avg) > 1e-4:
        norm = 1 / avg if avg > 0 else 0.0
        close(e.normalized, rows[:, 0].mean() * norm, "normalised mean", 1e-4, 1e-5)
        close(e.normalized_std_error, e.raw_std_error * norm, "normalised error", 1e-4, 1e-5)
    r = EstimatorResult(1.0, *rows[0].tolist(), 1.0, *rows[1].tolist(), float(rows[2][0]))
    x = OPEstimatorAdapter.estimator_result_to_cpe_estimate(r)
    equal((x.raw, x.normalized, x.raw_std_error, x.normalized_std_error),
          (r.estimated_reward, r.estimated_reward_normalized, r.estimated_reward_std_error, r.estimated_reward_normalized_std_error), "fields of an estimate")
    rec.nt(avg > 0)
