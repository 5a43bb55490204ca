"""Seq2Reward: open-loop reward model, exhaustive planning, compression."""
import copy
import itertools

import numpy as np
import torch
from hypothesis import strategies as st

from models.nets import T, arr, rng_of
from models.rnn import linear, lstm, randomise
from vlib.core import Inconclusive, close, equal, facet, require, same

RULE = ("a case is a network size, weights and a batch; non-trivial = two or more actions, steps and rows")


@st.composite
def cases(draw):
    rng = rng_of(draw)
    a = draw(st.integers(1, 3))
    c = dict(seed=draw(st.integers(0, 2**31 - 1)), s=draw(st.integers(1, 3)), a=a, h=draw(st.integers(1, 4)),
             layers=draw(st.integers(1, 2)), t=draw(st.integers(1, 3 if a > 2 else 5)), b=draw(st.integers(1, 3)))
    t, b = c["t"], c["b"]
    acts = rng.randint(0, a, (t, b))
    c.update(state=arr(rng, (t, b, c["s"])), action=np.eye(a)[acts].tolist(), reward=arr(rng, (t, b)),
             valid=rng.randint(1, t + 1, b).tolist(), gamma=draw(st.sampled_from([0.0, 0.5, 0.9, 1.0])),
             view=draw(st.booleans()), lr=draw(st.sampled_from([0.01, 0.1])), net=draw(st.integers(1, 4)),
             steps=draw(st.integers(1, 2)), lr2=draw(st.sampled_from([0.02, 0.2])), sizes=[draw(st.integers(1, 9)), draw(st.integers(10, 20))])
    return c


def build(c):
    from reagent.models.seq2reward_model import Seq2RewardNetwork

    return randomise(Seq2RewardNetwork(state_dim=c["s"], action_dim=c["a"], num_hiddens=c["h"],
                                       num_hidden_layers=c["layers"]), np.random.RandomState(c["seed"]))


def value(net, c, state0, actions):
    """state0: B,S ; actions: T,B,A -> every step's accumulated reward T,B"""
    h = np.repeat(linear(net.map_linear, state0)[None], c["layers"], 0)
    out, _, _ = lstm(net.rnn, actions, h, np.zeros_like(h))
    return linear(net.lstm_linear, out)[..., 0]


def plan(net, c, state0):
    q = np.full((len(state0), c["a"]), -np.inf)
    for seq in itertools.product(range(c["a"]), repeat=c["t"]):
        acts = np.repeat(np.eye(c["a"])[list(seq)][:, None], len(state0), 1)
        q[:, seq[0]] = np.maximum(q[:, seq[0]], value(net, c, state0, acts)[-1])
    return q


@st.composite
def perms(draw):
    t = draw(st.integers(1, 6))
    return dict(t=t, a=draw(st.integers(1, 5 if t < 4 else 3)))


@facet(perms(), quick=60, shards=1)
def permutations(case, rec):
    from reagent.training.utils import gen_permutations

    t, a = case["t"], case["a"]
    p = gen_permutations(t, a)
    want = np.array([np.eye(a)[list(s)] for s in itertools.product(range(a), repeat=t)]).transpose(1, 0, 2)
    same(p, want, "every action sequence, in order")
    rec.nt(t > 1 and a > 1)


@facet(cases(), quick=350, shards=2)
def network(case, rec):
    import reagent.types as rlt

    c = case
    net = build(c)
    s, a = rlt.FeatureData(T(c["state"])), rlt.FeatureData(T(c["action"]))
    v = value(net, c, np.array(c["state"])[0], np.array(c["action"]))
    close(net(s, a).acc_reward, v[-1][:, None], "whole sequence")
    valid = np.array(c["valid"])
    close(net(s, a, torch.tensor(c["valid"])).acc_reward, v[valid - 1, np.arange(c["b"])][:, None], "valid prefix")
    rec.nt(c["t"] > 1 and c["b"] > 1 and (valid < c["t"]).any())
    rec.label(f"layers={c['layers']}")


@facet(cases(), quick=250, shards=2)
def planning(case, rec):
    """Q of an action is the best value over all action sequences that start with it."""
    from reagent.training.utils import gen_permutations
    from reagent.training.world_model.seq2reward_trainer import get_Q

    c = case
    net = build(c)
    s0 = np.array(c["state"])[0]
    q = get_Q(net, T(s0), gen_permutations(c["t"], c["a"]))
    close(q, plan(net, c, s0), "planned values")
    require(not q.requires_grad, "planned values are constants")
    rec.nt(c["t"] > 1 and c["a"] > 1 and c["b"] > 1)


def _batch(c):
    import reagent.types as rlt

    fd = rlt.FeatureData(T(c["state"]))
    return rlt.MemoryNetworkInput(state=fd, next_state=fd, reward=T(c["reward"]), time_diff=torch.ones(c["t"], c["b"]),
                                  step=None, not_terminal=torch.ones(c["t"], c["b"]), action=T(c["action"]),
                                  valid_next_seq_len=torch.tensor(c["valid"]).reshape(-1, 1))


def _params(c):
    from reagent.parameters import Seq2RewardTrainerParameters

    return Seq2RewardTrainerParameters(
        learning_rate=c["lr"], multi_steps=c["t"], action_names=[str(i) for i in range(c["a"])], gamma=c["gamma"],
        view_q_value=c["view"], step_predict_net_size=c["net"], compress_model_learning_rate=c["lr2"],
        batch_size=c["sizes"][0], compress_model_batch_size=c["sizes"][1])


def _tiny(ref):
    return any(((p.grad.abs() > 0) & (p.grad.abs() < 1e-5)).any() for p in ref.parameters() if p.grad is not None)


@facet(cases(), quick=250, shards=3)
def training(case, rec):
    """The reward model fits the discounted reward over the valid steps; the step predictor fits their number."""
    import reagent.types as rlt
    from reagent.training.world_model.seq2reward_trainer import Seq2RewardTrainer, get_step_prediction

    c = case
    net = build(c)
    tr = Seq2RewardTrainer(net, _params(c))
    equal(tr.minibatch_size, c["sizes"][0], "minibatch size")
    sp = randomise(tr.step_predict_network, np.random.RandomState(c["seed"] // 2))
    ref, sref = copy.deepcopy(net), copy.deepcopy(sp)
    seen = []

    class Obs:
        def __init__(self, k):
            self.k = k

        def get_observing_keys(self):
            return [self.k]

        def update(self, key, value):
            seen.append((key, value))

    for k in ("mse_loss", "step_entropy_loss", "q_values"):
        tr.add_observer(Obs(k))
    valid, b = np.array(c["valid"]), c["b"]
    r = np.array(c["reward"])
    target = np.array([sum(c["gamma"] ** i * r[i, j] for i in range(valid[j])) for j in range(b)])
    s0 = np.array(c["state"])[0]
    o1 = torch.optim.Adam(ref.parameters(), lr=c["lr"])
    o2 = torch.optim.Adam(sref.parameters(), lr=c["lr"])
    for step in range(c["steps"]):
        pred = value(ref, c, s0, np.array(c["action"]))[valid - 1, np.arange(b)]
        logits = sref(T(s0))
        ce = -torch.log_softmax(logits, 1)[torch.arange(b), torch.tensor(c["valid"]) - 1].mean()
        got = tr.train(_batch(c))
        close(got[0], np.mean((pred - target) ** 2), "reward loss", rtol=2e-3, atol=1e-3)
        close(got[1], ce.item(), "step loss", rtol=2e-3, atol=1e-3)
        o1.zero_grad()
        out = ref(rlt.FeatureData(T(c["state"])), rlt.FeatureData(T(c["action"])), torch.tensor(c["valid"])).acc_reward
        ((out[:, 0] - T(target)) ** 2).mean().backward()
        o2.zero_grad()
        ce.backward()
        if _tiny(ref) or _tiny(sref):
            return
        o1.step()
        o2.step()
        for a, bb, what in ((net, ref, "reward model"), (sp, sref, "step predictor")):
            for (n, p), q in zip(a.named_parameters(), bb.named_parameters()):
                close(p, q[1].detach(), f"{what} {n} after a step", rtol=1e-2, atol=2e-3)
        wantq = plan(net, c, s0).mean(0) if c["view"] else np.zeros(c["a"])
        close(got[2], wantq, "reported q values", rtol=1e-3, atol=1e-4)
        if len(seen) >= 3 * step + 3:
            d = dict(seen[-3:])
            close(np.asarray(d["mse_loss"]).reshape(-1), [got[0]], "observed loss")
            close(d["q_values"], wantq[None], "observed q values", rtol=1e-3, atol=1e-4)
    prob = get_step_prediction(sp, _batch(c))
    z = sp(T(s0)).detach().double().numpy()
    e = np.exp(z - z.max(1, keepdims=True))
    close(prob, e / e.sum(1, keepdims=True), "step probabilities")
    rec.nt(c["t"] > 1 and b > 1 and (valid < c["t"]).any())
    rec.label("view q" if c["view"] else "no q")


@facet(cases(), quick=200, shards=2)
def compression(case, rec):
    """The compressed policy regresses on the planned values; the reward model stays as it is."""
    from reagent.models.fully_connected_network import FullyConnectedNetwork
    from reagent.training.world_model.compress_model_trainer import CompressModelTrainer

    c = case
    net = build(c)
    small = randomise(FullyConnectedNetwork([c["s"], c["net"], c["a"]], ["tanh", "linear"]),
                      np.random.RandomState(c["seed"] // 3))
    ref = copy.deepcopy(small)
    before = copy.deepcopy(net.state_dict())
    rec.label("narrow" if c["net"] < 3 else "wide")
    tr = CompressModelTrainer(small, net, _params(c))
    equal(tr.minibatch_size, c["sizes"][1], "minibatch size")
    s0 = np.array(c["state"])[0]
    q = plan(net, c, s0)
    opt = torch.optim.Adam(ref.parameters(), lr=c["lr2"])
    for _ in range(c["steps"]):
        out = ref(T(s0))
        o = out.detach().double().numpy()
        loss, acc = tr.train(_batch(c))
        close(loss, np.mean((o - q) ** 2), "loss", rtol=1e-3, atol=1e-4)
        if c["a"] > 1:
            for m in (np.sort(o, 1), np.sort(q, 1)):
                if (m[:, -1] - m[:, -2] < 1e-4).any():
                    raise Inconclusive
        close(acc, np.mean(o.argmax(1) == q.argmax(1)), "accuracy")
        opt.zero_grad()
        ((out - T(q)) ** 2).mean().backward()
        if _tiny(ref):
            return
        opt.step()
        for (n, p), w in zip(small.named_parameters(), ref.parameters()):
            close(p, w.detach(), f"{n} after a step", rtol=1e-2, atol=2e-3)
    for k, v in net.state_dict().items():
        same(v, before[k], f"reward model {k} untouched")
    rec.nt(c["a"] > 1 and c["b"] > 1 and c["t"] > 1)
