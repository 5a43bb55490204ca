"""Reward network and imitator training."""
import numpy as np
import torch
from hypothesis import strategies as st
from torch import nn

from models.nets import Lin, T, arr, huber_el, onehot, rng_of
from vlib.core import Inconclusive, close, equal, facet, raises, require, same

RULE = ("a case is a batch of predictions and targets with a loss kind and an ignore threshold, or a batch for the "
        "imitator; non-trivial = two or more rows, some of which the threshold drops, or a filter that drops some "
        "but not all actions")
LR = 0.1


@st.composite
def loss_cases(draw):
    rng = rng_of(draw)
    b, s = draw(st.integers(1, 5)), draw(st.integers(1, 3))
    kind = draw(st.sampled_from(["MSE", "SmoothL1Loss", "L1Loss", "BCELoss"]))
    y = arr(rng, (b, 1), 0, 1) if kind == "BCELoss" else arr(rng, (b, 1))
    thr = draw(st.sampled_from([None, None, -1.0, 0.5, 2.0])) if kind != "BCELoss" else draw(
        st.sampled_from([None, 0.3, 0.6]))
    if thr is not None and draw(st.booleans()):
        y[rng.randint(b)][0] = thr  # exactly at the threshold: kept
    return dict(kind=kind, x=arr(rng, (b, s), -1, 1), w=arr(rng, (s, 1), -1.5, 1.5), y=y, thr=thr,
                steps=draw(st.integers(1, 3)), ranking=draw(st.booleans()))


class Net(nn.Module):
    def __init__(self, w, sig):
        super().__init__()
        self.w, self.sig = nn.Parameter(T(w)), sig

    def forward(self, batch):
        import reagent.types as rlt

        y = batch.state.float_features @ self.w
        return rlt.RewardNetworkOutput(predicted_reward=torch.sigmoid(y) if self.sig else y)


def _el(kind, p, y):
    d = p - y
    if kind == "MSE":
        return d * d
    if kind == "L1Loss":
        return np.abs(d)
    if kind == "SmoothL1Loss":
        return huber_el(d)
    return -(y * np.log(p) + (1 - y) * np.log(1 - p))


def _dp(kind, p, y):
    d = p - y
    if kind == "MSE":
        return 2 * d
    if kind == "L1Loss":
        return np.sign(d)
    if kind == "SmoothL1Loss":
        return np.clip(d, -1, 1)
    return (1 - y) / (1 - p) - y / p


@facet(loss_cases(), quick=700, shards=3)
def reward_network(case, rec):
    import reagent.types as rlt
    from reagent.training.reward_network_trainer import LossFunction, RewardNetTrainer
    from checks.T07 import _opt
    from checks import T07

    c = case
    sig = c["kind"] == "BCELoss"
    net = Net(c["w"], sig)
    tr = RewardNetTrainer(net, optimizer=_opt(), loss_type=LossFunction[c["kind"]], reward_ignore_threshold=c["thr"])
    x, y = np.array(c["x"]), np.array(c["y"])
    keep = np.ones(len(y), bool) if c["thr"] is None else (y[:, 0].astype(np.float32) <= np.float32(c["thr"]))
    if c["ranking"]:
        fd = rlt.FeatureData(T(c["x"]))
        batch = rlt.PreprocessedRankingInput(state=fd, src_seq=fd, slate_reward=T(c["y"]))
    else:
        fd = rlt.FeatureData(T(c["x"]))
        batch = rlt.MemoryNetworkInput(state=fd, next_state=fd, reward=T(c["y"]), time_diff=T(c["y"]), step=None,
                                       not_terminal=T(c["y"]), action=T(c["x"]))
    # evaluation (no gradient): nothing is dropped
    with torch.no_grad():
        pred = net(batch).predicted_reward
        ev = tr.loss_fn(pred, T(c["y"]))
    close(ev, _el(c["kind"], pred.double().numpy(), y).mean(), "loss without gradients: every target counts", rtol=1e-4, atol=1e-5)
    if not keep.any():
        raises(AssertionError, lambda: tr.train(batch), "every target is above the threshold")
        rec.nt(len(y) > 1)
        return
    # leaving out the optimizer means the documented default
    from reagent.optimizer.union import Optimizer__Union

    pair = [Net(c["w"], sig), Net(c["w"], sig)]
    for m, kw in zip(pair, ({}, dict(optimizer=Optimizer__Union.default()))):
        RewardNetTrainer(m, loss_type=LossFunction[c["kind"]], **kw).train(batch)
    close(pair[0].w, pair[1].w, "weights after one step with the default optimizer", rtol=0, atol=0)
    w = np.array(c["w"], float)
    for _ in range(c["steps"]):
        z = x @ w
        p = 1 / (1 + np.exp(-z)) if sig else z
        if c["kind"] in ("L1Loss", "SmoothL1Loss") and np.abs(p - y).min() < 1e-3:
            raise Inconclusive("kink")
        loss = tr.train(batch)
        close(loss, _el(c["kind"], p, y)[keep].mean(), "training loss", rtol=2e-4, atol=1e-4)
        d = _dp(c["kind"], p, y) * (p * (1 - p) if sig else 1) / keep.sum()
        w = w - T07.LR * x[keep].T @ d[keep]
        close(net.w, w, "weights after the step", rtol=1e-3, atol=1e-4)
        w = net.w.detach().double().numpy().copy()
    rec.nt(len(y) > 1 and not keep.all())
    rec.label(c["kind"])


@st.composite
def imitator_cases(draw):
    rng = rng_of(draw)
    b, s, a = draw(st.integers(1, 6)), draw(st.integers(1, 3)), draw(st.integers(2, 4))
    return dict(b=b, s=s, a=a, w=arr(rng, (s, a), -1.5, 1.5), x=arr(rng, (b, s), -2, 2), n=draw(st.integers(1, 5)),
                actions=rng.randint(0, a, (5, b)).tolist(), k=draw(st.integers(1, 3)),
                train=draw(st.lists(st.booleans(), min_size=5, max_size=5)),
                thr=draw(st.sampled_from([0.0, 0.05, 0.3, 0.7, 1.0])))


def _softmax(z):
    e = np.exp(z - z.max(1, keepdims=True))
    return e / e.sum(1, keepdims=True)


@facet(imitator_cases(), quick=500, shards=2)
def imitator(case, rec):
    """Cross-entropy towards the logged actions; the optimizer steps every k-th minibatch on the mean gradient."""
    from types import SimpleNamespace

    import reagent.types as rlt
    from checks import T07
    from checks.T07 import _opt
    from reagent.training.imitator_training import ImitatorTrainer

    c = case
    net = Lin(c["w"], raw=True)
    tr = ImitatorTrainer(net, optimizer=_opt(), minibatches_per_step=c["k"])
    w, acc = np.array(c["w"], float), 0
    x = np.array(c["x"])
    for i in range(c["n"]):
        act = np.array(c["actions"][i])
        b = SimpleNamespace(training_input=SimpleNamespace(state=rlt.FeatureData(T(c["x"])), action=T(onehot(act, c["a"]))))
        tr.minibatch = i + 1
        z = x @ w
        top = np.sort(z, 1)
        if (top[:, -1] - top[:, -2]).min() < 1e-4:
            raise Inconclusive("tie")
        got = tr.train(b, train=c["train"][i])
        require(abs(got - (z.argmax(1) == act).mean()) < 6e-4, "accuracy %s, expected %s", got, (z.argmax(1) == act).mean())
        if c["train"][i]:
            acc = acc + x.T @ ((_softmax(z) - onehot(act, c["a"])) / c["b"])
            if (i + 1) % c["k"] == 0:
                w = w - T07.LR * acc / c["k"]
                acc = 0
        close(net.w, w, f"imitator after minibatch {i + 1}", rtol=1e-3, atol=1e-4)
    rec.nt(c["n"] > 1 and c["b"] > 1)


@facet(imitator_cases(), quick=500, shards=1)
def valid_actions(case, rec):
    """An action stays valid iff its probability is at least the threshold times the most likely action's."""
    import reagent.types as rlt
    from reagent.training.imitator_training import get_valid_actions_from_imitator

    c = case
    p = _softmax(np.array(c["x"]) @ np.array(c["w"]))
    r = p / p.max(1, keepdims=True)
    if (np.abs(r - c["thr"])[r < 1] < 1e-4).any():
        raise Inconclusive("at the threshold")
    exp = (r >= c["thr"]).astype(float)
    fd = rlt.FeatureData(T(c["x"]))
    close(get_valid_actions_from_imitator(Lin(c["w"], raw=True), fd, c["thr"]), exp, "valid actions (network)")
    sk = lambda f: _softmax(np.asarray(f, float) @ np.array(c["w"]))  # noqa: E731
    close(get_valid_actions_from_imitator(sk, fd, c["thr"]), exp, "valid actions (probability function)")
    rec.nt(0 < exp.mean() < 1)
