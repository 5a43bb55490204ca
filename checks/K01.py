"""Frechet sort = Plackett-Luce over scores**shape."""
import itertools
import math

import numpy as np
import torch
from hypothesis import strategies as st

from models.nets import T, arr, rng_of
from vlib.core import close, equal, facet, raises, require

RULE = ("a case is a batch of positive scores, a shape, an optional number of returned and of compared positions, "
        "and a permutation possibly with padding; non-trivial = three or more items with differing scores")


@st.composite
def cases(draw, max_n=5):
    rng = rng_of(draw)
    b, n = draw(st.integers(1, 4)), draw(st.integers(1, max_n))
    topk = draw(st.one_of(st.none(), st.integers(1, n)))
    equiv = draw(st.one_of(st.none(), st.integers(1, topk or n)))
    act = [rng.permutation(n).tolist() for _ in range(b)]
    pad = draw(st.integers(0, n)) if draw(st.booleans()) else 0
    return dict(b=b, n=n, scores=np.round(rng.uniform(0.2, 5, (b, n)), 2).tolist(), topk=topk, equiv=equiv,
                shape=draw(st.sampled_from([0.3, 1.0, 2.0, 3.5, 12.0, 30.0])), log=draw(st.booleans()), act=act,
                pad=[rng.randint(0, pad + 1) for _ in range(b)] if n > 1 else [0] * b)


def _sampler(c):
    from reagent.samplers.frechet import FrechetSort

    return FrechetSort(shape=c["shape"], topk=c["topk"], equiv_len=c["equiv"], log_scores=c["log"])


def _scores(c):
    s = np.array(c["scores"])
    return T(np.log(s)) if c["log"] else T(s)


def _upto(c):
    return c["equiv"] or c["topk"] or c["n"]


def log_prob(weights, order, upto):
    """Choose without replacement, proportionally to the weights, the first `upto` items in this order."""
    n, out = len(weights), 0.0
    for k, i in enumerate(order):
        if k >= upto:
            break
        if i >= n:
            continue  # padding: nothing is chosen here
        out += math.log(weights[i] / sum(weights[j] for j in order[k:] if j < n))
    return out


@facet(cases(max_n=8), quick=1200, shards=3)
def probability_of_an_order(case, rec):
    """With padding, only the items present compete."""
    c = case
    w = np.array(c["scores"]) ** c["shape"]
    act = [list(a) for a in c["act"]]
    for i, p in enumerate(c["pad"]):
        for k in range(p):
            act[i][len(act[i]) - 1 - k] = c["n"]
    s, lp = _sampler(c), _scores(c)
    got = s.log_prob(lp, torch.tensor(act))
    exp = []
    for i in range(c["b"]):
        exp.append(log_prob(list(w[i]), act[i], _upto(c)))
    close(got, exp, "log-probability of the order", rtol=1e-3, atol=1e-3)
    one = s.log_prob(lp[0], torch.tensor(act[0]))
    close(one.reshape(-1), exp[:1], "log-probability of a single order", rtol=1e-3, atol=1e-3)
    rec.nt(c["n"] > 2)


@facet(cases(max_n=4), quick=250, shards=2)
def probabilities_sum_to_one(case, rec):
    c = case
    s, sc = _sampler(c), _scores(c)[:1]
    tot, seen = 0.0, set()
    for p in itertools.permutations(range(c["n"])):
        if p[: _upto(c)] in seen:
            continue
        seen.add(p[: _upto(c)])
        tot += math.exp(float(s.log_prob(sc, torch.tensor([p]))))
    require(abs(tot - 1) < 1e-3, "orders distinguishable by their first %d positions have total probability %s", _upto(c), tot)
    rec.nt(c["n"] > 2)


@facet(cases(max_n=8), quick=700, shards=2)
def sampled_orders(case, rec):
    c = case
    s, sc = _sampler(c), _scores(c)
    torch.manual_seed(len(str(c)))
    out = s.sample_action(sc)
    act = out.action
    k = c["topk"] or c["n"]
    equal(list(act.shape), [c["b"], k], "shape of the sampled orders")
    for i, row in enumerate(act.tolist()):
        require(len(set(row)) == k and all(0 <= j < c["n"] for j in row), f"sampled order {row} repeats or invents items")
        full = row + [j for j in range(c["n"]) if j not in row]
        e = log_prob(list(np.array(c["scores"])[i] ** c["shape"]), full, _upto(c))
        close(out.log_prob[i], e, "reported log-probability of the sampled order", rtol=1e-3, atol=1e-3)
    require(not act.requires_grad, "actions carry gradients")
    rec.nt(c["n"] > 2)


@facet(cases(max_n=4), quick=40, shards=2)
def sampling_frequencies(case, rec):
    """Orders come up as often as log_prob says (within eight standard deviations)."""
    c = dict(case, topk=None, equiv=None)
    N = 20000
    w = list(np.array(c["scores"][0]) ** c["shape"])
    torch.manual_seed(len(str(c)))
    act = _sampler(c).sample_action(_scores(c)[:1].repeat(N, 1)).action
    code = sum(act[:, i] * c["n"] ** i for i in range(c["n"]))
    for p in itertools.permutations(range(c["n"])):
        k = int((code == sum(j * c["n"] ** i for i, j in enumerate(p))).sum())
        q = math.exp(log_prob(w, p, c["n"]))
        require(abs(k - N * q) <= 8 * math.sqrt(N * q * (1 - q)) + 3, "order %s drawn %d times out of %d, expected %.1f", p, k, N, N * q)
    rec.nt(c["n"] > 2)


@facet(cases(), quick=80, shards=1)
def gradients_and_refusals(case, rec):
    from reagent.samplers.frechet import FrechetSort

    c = case
    s = _sampler(c)
    sc = _scores(c).requires_grad_(True)
    g = torch.autograd.grad(s.log_prob(sc, torch.tensor(c["act"])).sum(), sc)[0]
    w = torch.tensor(c["scores"], dtype=torch.float64)
    x = (w.log() if c["log"] else w).clone().requires_grad_(True)
    z = (x if c["log"] else x.log()) * c["shape"]
    tot = 0
    for i, a in enumerate(c["act"]):
        for k in range(_upto(c)):
            tot = tot + z[i][a[k]] - torch.logsumexp(z[i][a[k:]], 0)
    e = torch.autograd.grad(tot, x)[0] if tot.requires_grad else torch.zeros_like(x)
    close(g, e, "gradient of the log-probability", rtol=1e-3, atol=1e-3)
    raises(ValueError, lambda: s.log_prob(sc, torch.zeros(c["b"], c["n"] + 1).long()), "order longer than the scores")
    if c["n"] > 1:
        raises(NotImplementedError, lambda: s.log_prob(sc, torch.zeros(c["b"], c["n"] - 1).long()), "order shorter than the scores")
    k = c["topk"] or c["n"]
    raises(ValueError, lambda: FrechetSort(topk=k, equiv_len=k + 1), "comparing more positions than are returned")
    rec.nt(c["n"] > 1)
