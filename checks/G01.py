"""Policies in simulators: scores, samples and their log-probabilities."""
import math

import numpy as np
import torch
from hypothesis import strategies as st
from torch import nn

from models.nets import T, arr, rng_of
from vlib.core import Inconclusive, close, equal, facet, raises, require, same

RULE = "a case is a batch of scores or states with a policy's configuration; non-trivial = three or more actions of which one or more are impossible or tied, or two or more rows"
N = 3000


def soft(z):
    e = np.exp(z - z.max(1, keepdims=True))
    return e / e.sum(1, keepdims=True)


def onehot(i, n):
    return np.eye(n)[np.asarray(i)]


def frequencies(sample, row, want, what):
    """Empirical frequencies of N draws for one row"""
    torch.manual_seed(11)
    out = sample(torch.tensor([row] * N, dtype=torch.float32))
    f = out.action.double().numpy().mean(0)
    for k, p in enumerate(want):
        require(abs(f[k] - p) <= 7 * math.sqrt(p * (1 - p) / N) + 1e-3, "%s: action %d drawn %g of the time, expected %g", what, k, f[k], p)


@st.composite
def score_cases(draw):
    rng = rng_of(draw)
    b, n = draw(st.integers(1, 4)), draw(st.integers(1, 5))
    x = np.round(rng.uniform(-3, 3, (b, n)), 2)
    m = rng.rand(b, n) < 0.25
    m[np.arange(b), rng.randint(0, n, b)] = False
    return dict(x=x.tolist(), m=m.astype(int).tolist(), masked=draw(st.booleans()), t=draw(st.sampled_from([0.1, 0.5, 1.0, 5.0])), eps=draw(st.sampled_from([0.0, 0.1, 0.5, 1.0])),
                act=rng.randint(0, n, b).tolist(), seed=draw(st.integers(0, 10**6)), decay=draw(st.sampled_from([1.0, 0.9, 0.5])), low=draw(st.sampled_from([0.0, 0.05, 0.2])),
                updates=draw(st.integers(0, 6)), k=draw(st.integers(1, n)))


def scores(c):
    x = np.array(c["x"])
    return np.where(np.array(c["m"], bool), -np.inf, x) if c["masked"] else x


def one_action(out, b, n):
    equal(list(out.action.shape), [b, n], "shape of the action")
    a = out.action.double().numpy()
    require(((a == 0) | (a == 1)).all() and (a.sum(1) == 1).all(), "exactly one action per row")
    return a.argmax(1)


@facet(score_cases(), quick=150, shards=2)
def softmax_sampler(case, rec):
    """Draws follow softmax(scores / temperature); log-probabilities and entropy are that distribution's"""
    from reagent.gym.policies.samplers.discrete_sampler import SoftmaxActionSampler

    c = case
    x = scores(c)
    b, n = x.shape
    s = SoftmaxActionSampler(temperature=c["t"])
    p = soft(x / c["t"])
    torch.manual_seed(c["seed"])
    out = s.sample_action(T(x))
    i = one_action(out, b, n)
    require((p[np.arange(b), i] > 0).all(), "impossible action drawn")
    equal(list(out.log_prob.shape), [b], "one log-probability per row")
    close(out.log_prob, np.log(p[np.arange(b), i]), "log-probability of the draw", rtol=1e-3, atol=1e-3)
    ok = [k for k in range(b) if np.isfinite(x[k, c["act"][k]])]
    got = s.log_prob(T(x), T(onehot(c["act"], n)))
    for k in ok:
        close(got[k], (x[k] / c["t"] - x[k].max() / c["t"])[c["act"][k]] - math.log(np.exp((x[k] - x[k].max()) / c["t"]).sum()), "log-probability of an action", rtol=1e-3, atol=1e-3)
    if not c["masked"]:
        close(s.entropy(T(x)), -(p * np.log(np.maximum(p, 1e-300))).sum(1).mean(), "entropy", rtol=1e-3, atol=1e-3)
    frequencies(s.sample_action, x[0].tolist(), p[0], "softmax")
    raises((AssertionError,), lambda: SoftmaxActionSampler(temperature=0.0), "temperatures are positive")
    rec.nt(n > 2 and (c["masked"] or b > 1))
    rec.label("masked" if c["masked"] else "all possible")


@facet(score_cases(), quick=150, shards=2)
def greedy_sampler(case, rec):
    """The best action with certainty: log-probability zero for it, minus infinity for any other"""
    from reagent.gym.policies.samplers.discrete_sampler import GreedyActionSampler
    from reagent.gym.policies.samplers.top_k_sampler import TopKSampler

    c = case
    x = scores(c)
    b, n = x.shape
    s = GreedyActionSampler()
    out = s.sample_action(T(x))
    i = one_action(out, b, n)
    x32 = T(x).numpy()
    require((x32[np.arange(b), i] == x32.max(1)).all(), "the highest score")
    close(out.log_prob, np.zeros(b), "certainty")
    got = s.log_prob(T(x), T(onehot(c["act"], n))).numpy()
    for k in range(b):
        if (x32[k] == x32[k].max()).sum() == 1:
            equal(float(got[k]), 0.0 if c["act"][k] == i[k] else -math.inf, "log-probability of an action")
    same(s.log_prob(T(x), out.action), out.log_prob, "log-probability of the draw")
    if not c["masked"]:
        top = TopKSampler(c["k"]).sample_action(T(x)).action
        equal(list(top.shape), [b, c["k"]], "k actions")
        for k in range(b):
            t = top[k].tolist()
            equal(len(set(t)), c["k"], "different items")
            close(x32[k][t], -np.sort(-x32[k])[:c["k"]], "best items first")
    rec.nt(n > 2 and b > 1)


@facet(score_cases(), quick=150, shards=2)
def epsilon_greedy_sampler(case, rec):
    """Best action with probability 1 - eps + eps/n, any other eps/n; eps decays geometrically to its minimum"""
    from reagent.gym.policies.samplers.discrete_sampler import EpsilonGreedyActionSampler

    c = case
    x = np.array(c["x"])
    b, n = x.shape
    x = x + np.arange(n) * 1e-3
    s = EpsilonGreedyActionSampler(c["eps"], c["decay"], c["low"])
    eps = c["eps"]
    for _ in range(c["updates"]):
        s.update()
        eps = max(eps * c["decay"], c["low"])
    p = np.full((b, n), eps / n) + onehot(x.argmax(1), n) * (1 - eps)
    torch.manual_seed(c["seed"])
    out = s.sample_action(T(x))
    i = one_action(out, b, n)
    close(out.log_prob, np.log(p[np.arange(b), i]), "log-probability of the draw", rtol=1e-3, atol=1e-3)
    want = p[np.arange(b), c["act"]]
    got = s.log_prob(T(x), T(onehot(c["act"], n)))
    for k in range(b):
        close(got[k].exp(), want[k], "probability of an action", rtol=1e-3, atol=1e-3)
    frequencies(s.sample_action, x[0].tolist(), p[0], "epsilon-greedy")
    rec.nt(n > 2 and b > 1 and 0 < eps < 1)
    rec.label(f"eps {eps:.2g}")


class Q(nn.Module):
    """Values from a table looked up by the state's first feature; garbage while training"""

    def __init__(self, table, atoms=None):
        super().__init__()
        self.table, self.atoms, self.modes = T(table), atoms, []

    def forward(self, state, *rest):
        self.modes.append(self.training)
        y = self.table[state.float_features[:, 0].long()]
        if rest:
            y = (y * rest[0].float_features).sum(1, keepdim=True) + state.float_features[:, 1:].sum(1, keepdim=True)
        if self.training:
            y = -y
        return y if self.atoms is None else torch.stack([y + k * k for k in range(self.atoms)], 2)


@st.composite
def scorer_cases(draw):
    rng = rng_of(draw)
    b, n, d = draw(st.integers(1, 4)), draw(st.integers(1, 5)), draw(st.integers(0, 2))
    m = rng.rand(n) < 0.6
    m[rng.randint(n)] = True
    st_ = np.hstack([rng.randint(0, 4, (b, 1)), np.round(rng.uniform(-2, 2, (b, d)), 2)])
    return dict(table=arr(rng, (4, n)), state=st_.tolist(), mask=m.astype(int).tolist() if draw(st.booleans()) else None, atoms=draw(st.sampled_from([None, 1, 3])),
                docs=np.round(rng.uniform(-2, 2, (b, n, draw(st.integers(1, 3)))), 2).tolist(), value=arr(rng, (b, n)), train=draw(st.booleans()),
                t=draw(st.sampled_from([0.1, 1.0])), seed=draw(st.integers(0, 10**6)), soft=draw(st.booleans()), k=draw(st.integers(1, n)))


@facet(scorer_cases(), quick=200, shards=2)
def scorers(case, rec):
    """Scores are the network's values in evaluation mode (means of distributions), impossible actions at minus infinity; every discrete
    action of a parametric network, every document of a slate network weighted by its click probability"""
    from reagent import types as rlt
    from reagent.gym.policies.scorers.discrete_scorer import discrete_dqn_scorer, discrete_dqn_serving_scorer, parametric_dqn_scorer, parametric_dqn_serving_scorer
    from reagent.gym.policies.scorers.slate_q_scorer import slate_q_scorer, slate_q_serving_scorer

    c = case
    table, s = np.array(c["table"]), np.array(c["state"])
    n, b = table.shape[1], len(s)
    fd = lambda x: rlt.FeatureData(T(x))
    q = Q(table, c["atoms"])
    sc = discrete_dqn_scorer(q)
    row = s[:1]
    lift = sum(k * k for k in range(c["atoms"])) / c["atoms"] if c["atoms"] else 0
    want = table[row[:, 0].astype(int)] + lift
    if c["mask"] is not None:
        m = np.array(c["mask"], bool)
        got = sc(fd(row), m)
        close(got, np.where(m, want, -np.inf), "scores of possible actions")
        require(not got.requires_grad, "no gradients")
    else:
        got = sc(fd(s))
        close(got, table[s[:, 0].astype(int)] + lift, "scores")
    require(not any(q.modes) and q.training, "scored in evaluation mode, trained on afterwards")
    pq = Q(table)
    got = parametric_dqn_scorer(n, pq)(fd(s))
    close(got, table[s[:, 0].astype(int)] + s[:, 1:].sum(1, keepdims=True), "value of every action")
    require(not any(pq.modes) and pq.training, "scored in evaluation mode, trained on afterwards")

    class SQ(nn.Module):
        def forward(self, state, action):
            y = (state.float_features.sum(1, keepdim=True) + 1) * action.float_features.sum(1, keepdim=True)
            return -y if self.training else y

    docs, val = np.array(c["docs"]), np.array(c["value"])
    net = SQ()
    got = slate_q_scorer(n, net)(rlt.FeatureData(T(s), candidate_docs=rlt.DocList(T(docs), mask=torch.ones(b, n, dtype=torch.bool), value=T(val))))
    close(got, soft(val) * (s.sum(1, keepdims=True) + 1) * docs.sum(2), "value of every document", rtol=1e-3, atol=1e-4)
    require(net.training, "trained on afterwards")

    class Served(nn.Module):
        """values of raw features; garbage where they are absent"""

        def forward(self, state_with_presence, action_with_presence):
            (s_, sp), (a_, ap) = state_with_presence, action_with_presence
            y = (torch.where(sp > 0, s_, s_ + 9).sum(1, keepdim=True) + 1) * (torch.where(ap > 0, a_, a_ + 9) * torch.arange(1, a_.shape[1] + 1)).sum(1, keepdim=True)
            return ["Q"], y

    w = Served()
    got = parametric_dqn_serving_scorer(n, w)((T(s), torch.ones(s.shape)))
    close(got, (s.sum(1, keepdims=True) + 1) * np.arange(1, n + 1), "served value of every action", rtol=1e-3, atol=1e-4)
    got = slate_q_serving_scorer(n, w)(rlt.FeatureData(T(s), candidate_docs=rlt.DocList(T(docs), mask=torch.ones(b, n, dtype=torch.bool), value=T(val))))
    close(got, soft(val) * (s.sum(1, keepdims=True) + 1) * (docs * np.arange(1, docs.shape[2] + 1)).sum(2), "served value of every document", rtol=1e-3, atol=1e-4)
    lists, scored = {7: (torch.tensor([0]), torch.tensor([3, 4]))}, {8: (torch.tensor([0]), torch.tensor([5]), torch.tensor([0.5]))}
    seen = []

    def discrete(*given):
        seen.append(given)
        return ["a"], T(table[:1])

    got = discrete_dqn_serving_scorer(discrete)(rlt.ServingFeatureData((T(row), torch.ones(row.shape)), lists, scored), None if c["mask"] is None else np.array(c["mask"], bool))
    close(got, table[:1] if c["mask"] is None else np.where(np.array(c["mask"], bool), table[:1], -np.inf), "served scores")
    require(seen[0][1] is lists and seen[0][2] is scored, "id-lists reach the served network")
    rec.nt(n > 2 and (b > 1 or c["mask"] is not None))


@facet(scorer_cases(), quick=150, shards=2)
def policies(case, rec):
    """A policy samples from its scorer's scores of the observation given, with the mask given; nothing it returns carries gradients"""
    from reagent import types as rlt
    from reagent.gym.policies.policy import Policy
    from reagent.gym.policies.samplers.discrete_sampler import GreedyActionSampler, SoftmaxActionSampler
    from reagent.gym.policies.scorers.discrete_scorer import discrete_dqn_scorer

    c = case
    table, s = np.array(c["table"]), np.array(c["state"])
    n = table.shape[1]
    pol = Policy(discrete_dqn_scorer(Q(table)), SoftmaxActionSampler(c["t"]) if c["soft"] else GreedyActionSampler())
    row = s[:1]
    z = table[row[:, 0].astype(int)]
    m = np.ones(n, bool) if c["mask"] is None else np.array(c["mask"], bool)
    z = np.where(m, z, -np.inf)
    p = soft(z / c["t"]) if c["soft"] else onehot(z.argmax(1), n)
    torch.manual_seed(c["seed"])
    out = pol.act(rlt.FeatureData(T(row)), *([] if c["mask"] is None else [m]))
    i = one_action(out, 1, n)[0]
    require(p[0, i] > 0, "action %d is impossible or not the best", i)
    close(out.log_prob.exp(), [p[0, i]], "probability", rtol=1e-3, atol=1e-4)
    require(not out.action.requires_grad and not out.log_prob.requires_grad, "detached")
    seen = []

    class S:
        def sample_action(self, x):
            seen.append(x)
            w = torch.tensor([[1.5, 2.5]], requires_grad=True)
            return rlt.ActorOutput(action=w * 2, log_prob=w.sum(1))

    out = Policy(lambda *a: a, S()).act("obs", "mask")
    equal(list(seen[0]), ["obs", "mask"], "observation and mask reach the scorer")
    require(not out.action.requires_grad and not out.log_prob.requires_grad, "detached")
    equal(list(Policy(lambda *a: a, S()).act("obs").action.shape), [1, 2], "action")
    equal(list(seen[1]), ["obs"], "no mask")
    rec.nt(n > 2 and not m.all())


@st.composite
def random_cases(draw):
    rng = rng_of(draw)
    n = draw(st.integers(1, 5))
    m = rng.rand(n) < 0.6
    m[rng.randint(n)] = True
    return dict(kind=draw(st.sampled_from(["discrete", "multi", "box"])), n=n, mask=m.astype(int).tolist() if draw(st.booleans()) else None,
                vec=draw(st.lists(st.integers(1, 4), min_size=1, max_size=3)), d=draw(st.integers(1, 3)), b=draw(st.integers(1, 3)), seed=draw(st.integers(0, 10**6)))


@facet(random_cases(), quick=80, shards=2)
def random_policies(case, rec):
    """Random policies are uniform over what is possible, and say with which probability"""
    import gym
    from types import SimpleNamespace

    from reagent import types as rlt
    from reagent.gym.policies.random_policies import make_random_policy_for_env

    c = case
    torch.manual_seed(c["seed"])
    obs = lambda b: rlt.FeatureData(torch.zeros(b, 2))
    n = 1500
    if c["kind"] == "discrete":
        pol = make_random_policy_for_env(SimpleNamespace(action_space=gym.spaces.Discrete(c["n"])))
        m = np.ones(c["n"], bool) if c["mask"] is None else np.array(c["mask"], bool)
        p = m / m.sum()
        f = np.zeros(c["n"])
        for _ in range(400):
            out = pol.act(obs(1), None if c["mask"] is None else m)
            f += one_action(out, 1, c["n"])[0] == np.arange(c["n"])
            close(out.log_prob, [math.log(p.max())], "log-probability")
        require((f[~m] == 0).all(), "impossible action drawn")
        require((np.abs(f / 400 - p) <= 7 * np.sqrt(p * (1 - p) / 400) + 1e-9).all(), "frequencies %s, expected %s", f / 400, p)
        rec.nt(1 < m.sum() < c["n"])
    elif c["kind"] == "multi":
        pol = make_random_policy_for_env(SimpleNamespace(action_space=gym.spaces.MultiDiscrete(c["vec"])))
        out = pol.act(obs(n))
        a = out.action.numpy()
        equal(list(a.shape), [n, len(c["vec"])], "one value per dimension")
        for k, v in enumerate(c["vec"]):
            f = np.bincount(a[:, k], minlength=v) / n
            require(len(f) == v and (np.abs(f - 1 / v) <= 7 * math.sqrt(1 / v * (1 - 1 / v) / n) + 1e-9).all(), "dimension %d frequencies %s", k, f)
        close(out.log_prob, np.full((n, 1), -sum(math.log(v) for v in c["vec"])), "log-probability", rtol=1e-4, atol=1e-4)
        rec.nt(len(c["vec"]) > 1)
    else:
        space = gym.spaces.Box(low=[-7.0, 0.25, -0.5][c["n"] % 3], high=[3.0, 0.75][c["seed"] % 2], shape=(c["d"],))
        pol = make_random_policy_for_env(SimpleNamespace(action_space=space))
        out = pol.act(obs(n))
        a = out.action.double().numpy()
        equal(list(a.shape), [n, c["d"]], "one value per dimension")
        require((np.abs(a) <= 1).all(), "within the training range")
        require((np.abs(a.mean(0)) < 7 / math.sqrt(3 * n)).all() and (np.abs(a.var(0) - 1 / 3) < 7 * math.sqrt(4 / 45 / n)).all(), "uniform")
        close(out.log_prob, np.full(n, -c["d"] * math.log(2)), "log-density", rtol=1e-3, atol=1e-3)
        rec.nt(c["d"] > 1)
    rec.label(c["kind"])


@st.composite
def gauss_cases(draw):
    rng = rng_of(draw)
    b, d, i = draw(st.integers(1, 4)), draw(st.integers(1, 3)), draw(st.integers(1, 3))
    return dict(x=arr(rng, (b, i)), w=arr(rng, (2 * d, i), -0.8, 0.8), bias=np.round(np.r_[rng.uniform(-0.5, 0.5, d), rng.uniform(-1.5, 0, d)], 2).tolist(), at=np.round(rng.uniform(-0.98, 0.98, (b, d)), 3).tolist(),
                d=d, i=i, seed=draw(st.integers(0, 10**6)))


@facet(gauss_cases(), quick=80, shards=2)
def gaussian_sampler(case, rec):
    """Gaussian scores of an actor, sampled and squashed, with the log-density of the sample or of any action"""
    from reagent import types as rlt
    from reagent.gym.policies.samplers.continuous_sampler import GaussianSampler
    from reagent.gym.policies.scorers.continuous_scorer import sac_scorer
    from reagent.models.actor import GaussianFullyConnectedActor

    c = case
    net = GaussianFullyConnectedActor(c["i"], c["d"], [], [])
    with torch.no_grad():
        lin = [m for m in net.modules() if isinstance(m, nn.Linear)][0]
        lin.weight.copy_(T(c["w"])), lin.bias.copy_(T(c["bias"]))
    y = np.array(c["x"]) @ np.array(c["w"]).T + np.array(c["bias"])
    loc, ls = y[:, :c["d"]], np.clip(y[:, c["d"]:], -20, 2)
    modes = []
    lin.register_forward_hook(lambda m, *a: modes.append(net.training))
    s = sac_scorer(net)(rlt.FeatureData(T(c["x"])))
    require(net.training and modes and not any(modes), "scored in evaluation mode, trained on afterwards")
    close(s.loc, loc, "mean", rtol=1e-3, atol=1e-4)
    close(s.scale_log, ls, "log deviation", rtol=1e-3, atol=1e-4)
    smp = GaussianSampler(net)

    def density(a):
        a = np.asarray(a, dtype=np.float64)
        r = (np.arctanh(a) - loc) / np.exp(ls)
        return (-r**2 / 2 - ls - 0.5 * math.log(2 * math.pi) - np.log(1 - a**2 + 1e-6)).sum(1)

    ok = (np.exp(ls) > 0.03).all(1)
    got = smp.log_prob(s, T(c["at"])).reshape(-1)
    require(net.training, "trained on afterwards")
    torch.manual_seed(c["seed"])
    out = smp.sample_action(s)
    a = out.action.double().numpy()
    lp = out.log_prob.reshape(-1)
    equal([len(got), len(lp)], [len(a)] * 2, "one log-density per row")
    for k in range(len(a)):
        if ok[k]:
            close(got[k], density(c["at"])[k], "log-density of an action", rtol=2e-2, atol=2e-2)
            if np.abs(a[k]).max() < 0.995:
                close(lp[k], density(np.clip(a, -0.9999, 0.9999))[k], "log-density of the sample", rtol=2e-2, atol=3e-2)
    require(net.training, "trained on afterwards")
    if ok[0]:
        row = type(s)(loc=s.loc[:1].repeat(N, 1), scale_log=s.scale_log[:1].repeat(N, 1))
        many = smp.sample_action(row).action.double().numpy()
        for k in range(c["d"]):
            m = math.tanh(loc[0, k])
            require(abs((many[:, k] < m).mean() - 0.5) < 7 * 0.5 / math.sqrt(N) + 1e-9, "median of the samples")
            hi = math.tanh(loc[0, k] + math.exp(ls[0, k]))
            if hi < 0.9999:
                require(abs((many[:, k] > hi).mean() - 0.158655) < 7 * math.sqrt(0.1335 / N), "deviation of the samples")
    rec.nt(len(a) > 1 and c["d"] > 1)


@st.composite
def served_cases(draw):
    from checks import S01

    c = draw(scorer_cases())
    rng = rng_of(draw)
    c.update(f=draw(S01.features(rows=1)), a=draw(st.integers(1, 4)), seed=draw(st.integers(0, 10**6)), kind=draw(st.sampled_from(["dqn", "softmax", "actor", "parametric", "slate"])),
             m2=(rng.rand(4) < 0.6).astype(int).tolist())
    c["m2"][int(rng.randint(c["a"]))] = 1
    return c


@facet(served_cases(), quick=100, shards=4)
def served_policies(case, rec):
    """Policies made from serving modules act on the module's own outputs: greedy, or softmax when configured; slates take the best documents"""
    from checks import S01
    from reagent import types as rlt
    from reagent.gym.policies.predictor_policies import create_predictor_policy_from_model
    from reagent.models.actor import FullyConnectedActor
    from reagent.models.critic import FullyConnectedCritic
    from reagent.models.dqn import FullyConnectedDQN
    from reagent.parameters import NormalizationData, RLParameters
    from reagent.prediction.predictor_wrapper import (ActorPredictorWrapper, ActorWithPreprocessor, DiscreteDqnPredictorWrapper, DiscreteDqnWithPreprocessor,
                                                      ParametricDqnPredictorWrapper, ParametricDqnWithPreprocessor)
    from reagent.preprocessing.postprocessor import Postprocessor
    from reagent.preprocessing.preprocessor import Preprocessor
    from models import norm

    c, k = case, case["kind"]
    f = c["f"]
    x, pres = S01.raw(f)
    dense = S01.dense(f)
    d = dense.shape[1]
    plain = lambda n: norm.params([[i, dict(feature_type="DO_NOT_PREPROCESS")] for i in range(n)])
    if k in ("dqn", "softmax"):
        net = S01.fill(FullyConnectedDQN(d, c["a"], [3], ["tanh"]), c["seed"]).eval()
        cfg = rlt.ModelFeatureConfig(float_feature_infos=[rlt.FloatFeatureInfo(name=f"s{i}", feature_id=i) for i, _ in f["spec"]])
        mod = torch.jit.script(DiscreteDqnPredictorWrapper(DiscreteDqnWithPreprocessor(net, Preprocessor(norm.params(f["spec"]), False), cfg), [f"a{i}" for i in range(c["a"])], cfg))
        pol = create_predictor_policy_from_model(mod, rl_parameters=RLParameters(softmax_policy=k == "softmax", temperature=c["t"]))
        z = net(rlt.FeatureData(dense)).detach().double().numpy()
        m = np.array(c["m2"][:c["a"]], bool) if c["mask"] is not None else None
        zz = z if m is None else np.where(m, z, -np.inf)
        p = soft(zz / c["t"]) if k == "softmax" else onehot(zz.argmax(1), c["a"])
        torch.manual_seed(c["seed"])
        out = pol.act((x, pres), m)
        i = one_action(out, 1, c["a"])[0]
        lists, scored = {7: (torch.tensor([0]), torch.tensor([3, 4]))}, {8: (torch.tensor([0]), torch.tensor([5]), torch.tensor([0.5]))}
        seen = []

        class Recorded(nn.Module):
            original_name = "DiscreteDqnPredictorWrapper"

            def forward(self, state):
                seen.append(state)
                return mod(rlt.ServingFeatureData(state.float_features_with_presence, {}, {}))

        create_predictor_policy_from_model(Recorded()).act(rlt.ServingFeatureData((x, pres), lists, scored), m)
        equal((sorted(seen[0].id_list_features), sorted(seen[0].id_score_list_features)), ([7], [8]), "id-lists reach the served module")
        srt = np.sort(zz[0])[::-1]
        if k == "softmax" or c["a"] == 1 or srt[0] - srt[1] > 1e-2:
            require(p[0, i] > 0, "action %d", i)
            if k == "softmax":
                close(out.log_prob.exp(), [p[0, i]], "probability", rtol=0.1, atol=2e-2)
                n = 300
                hits = np.zeros(c["a"])
                for _ in range(n):
                    hits[one_action(pol.act((x, pres), m), 1, c["a"])[0]] += 1
                require((np.abs(hits / n - p[0]) < 7 * np.sqrt(p[0] * (1 - p[0]) / n) + 0.03).all(), "frequencies %s, expected %s", hits / n, p[0])
    elif k == "actor":
        net = S01.fill(FullyConnectedActor(d, c["a"], [3], ["tanh"]), c["seed"]).eval()
        spec = [[i, dict(feature_type="CONTINUOUS_ACTION", min_value=-2.0 - i, max_value=3.0)] for i in range(c["a"])]
        mod = ActorPredictorWrapper(ActorWithPreprocessor(net, Preprocessor(norm.params(f["spec"]), False), Postprocessor(norm.params(spec), False)))
        mod = mod if hasattr(mod, "original_name") else torch.jit.script(mod)
        pol = create_predictor_policy_from_model(mod)
        a = net(rlt.FeatureData(dense)).action.detach().double().numpy()
        want = np.stack([(a[:, i] + 1) / 2 * (5.0 + i) - 2.0 - i for i in range(c["a"])], 1)
        close(pol.act((x, pres)).action, want, "action", rtol=1e-2, atol=1e-2)
    else:
        n = len(c["table"][0])
        docs = np.array(c["docs"])[:1]
        da = docs.shape[2] if k == "slate" else n
        s = np.array(c["state"])[:1]
        net = S01.fill(FullyConnectedCritic(s.shape[1], da, [3], ["tanh"]), c["seed"]).eval()
        mod = torch.jit.script(ParametricDqnPredictorWrapper(ParametricDqnWithPreprocessor(net, Preprocessor(plain(s.shape[1]), False), Preprocessor(plain(da), False))))
        raises((AssertionError,), lambda: create_predictor_policy_from_model(mod), "the number of actions must be given")
        if k == "parametric":
            pol = create_predictor_policy_from_model(mod, max_num_actions=n)
            z = net(rlt.FeatureData(T(np.repeat(s, n, 0))), rlt.FeatureData(torch.eye(n))).detach().numpy().ravel()
            out = pol.act((T(s), torch.ones(1, s.shape[1])))
            i = one_action(out, 1, n)[0]
            require(z[i] >= z.max() - 1e-3, "best action")
        else:
            pol = create_predictor_policy_from_model(mod, max_num_actions=n, slate_size=c["k"])
            z = net(rlt.FeatureData(T(np.repeat(s, n, 0))), rlt.FeatureData(T(docs[0]))).detach().double().numpy().ravel() * soft(np.array(c["value"])[:1])[0]
            fd = rlt.FeatureData(T(s), candidate_docs=rlt.DocList(T(docs), mask=torch.ones(1, n, dtype=torch.bool), value=T(c["value"][:1])))
            a = pol.act(fd).action
            equal(list(a.shape), [1, c["k"]], "slate")
            equal(len(set(a[0].tolist())), c["k"], "different documents")
            close(z[a[0].tolist()], -np.sort(-z)[:c["k"]], "best documents first", rtol=1e-2, atol=1e-3)
    rec.nt(len(f["spec"]) > 1 and c["a"] > 1)
    rec.label(k)
