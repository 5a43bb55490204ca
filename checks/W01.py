"""MDN-RNN world model: outputs, mixture likelihood, training, memory pool."""
import copy
import math

import numpy as np
import torch
import torch.nn.functional as F
from hypothesis import strategies as st

from models.nets import T, arr, rng_of
from models.rnn import linear, lstm, randomise
from vlib.core import close, equal, facet, require, same

RULE = ("a case is a network size, weights and a batch of sequences, a mixture with points, or a history of insertions "
        "and samples; non-trivial = two or more rows or steps and two or more mixture components (pool: more "
        "insertions than its capacity)")


@st.composite
def nets(draw, long=False):
    rng = rng_of(draw)
    c = dict(seed=draw(st.integers(0, 2**31 - 1)), s=draw(st.integers(1, 3)), a=draw(st.integers(1, 3)),
             h=draw(st.integers(1, 4)), layers=draw(st.integers(1, 2)), g=draw(st.integers(1, 3)),
             t=draw(st.integers(1, 4)) if not long else draw(st.integers(1, 9)), b=draw(st.integers(1, 3)))
    t, b = c["t"], c["b"]
    c.update(state=arr(rng, (t, b, c["s"])), action=arr(rng, (t, b, c["a"])), next_state=arr(rng, (t, b, c["s"])),
             reward=arr(rng, (t, b)), nt=rng.randint(0, 2, (t, b)).tolist(),
             w=[draw(st.sampled_from([0.0, 0.5, 1.0, 2.0])) for _ in range(3)],
             last=draw(st.booleans()), use_dim=draw(st.booleans()), lr=draw(st.sampled_from([0.01, 0.1])),
             steps=draw(st.integers(1, 3)))
    return c


def build(c):
    from reagent.models.world_model import MemoryNetwork

    net = MemoryNetwork(state_dim=c["s"], action_dim=c["a"], num_hiddens=c["h"], num_hidden_layers=c["layers"],
                        num_gaussians=c["g"])
    return randomise(net, np.random.RandomState(c["seed"]))


def expected(net, c, state, action):
    m = net.mdnrnn
    t, b = len(state), len(state[0])
    z = np.zeros((c["layers"], b, c["h"]))
    out, h, cell = lstm(m.rnn, np.concatenate([np.array(action), np.array(state)], -1), z, z)
    y = linear(m.gmm_linear, out)
    k = c["g"] * c["s"]
    mus = y[..., :k].reshape(t, b, c["g"], c["s"])
    sig = np.exp(y[..., k:2 * k]).reshape(t, b, c["g"], c["s"])
    lp = y[..., 2 * k:2 * k + c["g"]]
    lp = lp - np.log(np.exp(lp).sum(-1, keepdims=True))
    return dict(mus=mus, sigmas=sig, logpi=lp, reward=y[..., -2], not_terminal=y[..., -1],
                last_step_lstm_hidden=h, last_step_lstm_cell=cell, all_steps_lstm_hidden=out)


def mix(x, mus, sig, lp):
    """minus log density, one number per leading index"""
    x = np.asarray(x, float)[..., None, :]
    comp = lp + (-0.5 * ((x - mus) / sig) ** 2 - np.log(sig) - 0.5 * math.log(2 * math.pi)).sum(-1)
    m = comp.max(-1, keepdims=True)
    return -(m[..., 0] + np.log(np.exp(comp - m).sum(-1)))


@facet(nets(long=True), quick=300, shards=2)
def outputs(case, rec):
    """Every output is the LSTM/linear function of the sequence it defines, causally and row by row."""
    import reagent.types as rlt

    c = case
    net = build(c)
    if c["steps"] == 3:  # wide outputs
        with torch.no_grad():
            net.mdnrnn.gmm_linear.weight.mul_(6)
    out = net(rlt.FeatureData(T(c["state"])), rlt.FeatureData(T(c["action"])))
    exp = expected(net, c, c["state"], c["action"])
    for k, v in exp.items():
        close(getattr(out, k), v, k)
    close(torch.exp(out.logpi).sum(-1), np.ones((c["t"], c["b"])), "mixture weights add to one")
    # continuing from the returned hidden state = one longer sequence
    if c["t"] > 1:
        k = c["t"] // 2
        st_, ac = T(c["state"]), T(c["action"])
        first = net.mdnrnn(ac[:k], st_[:k])
        second = net.mdnrnn(ac[k:], st_[k:], hidden=first[-1])
        close(torch.cat([first[0], second[0]]), exp["mus"], "continued from the hidden state")
    h0 = net.mdnrnn.get_initial_hidden_state(c["b"])
    for x in h0:
        same(x, np.zeros((c["layers"], c["b"], c["h"])), "initial hidden state")
    rec.nt(c["t"] > 1 and c["b"] > 1 and c["g"] > 1)
    rec.label(f"layers={c['layers']}")


@st.composite
def mixtures(draw):
    rng = rng_of(draw)
    lead = draw(st.lists(st.integers(1, 3), min_size=1, max_size=3))
    g, f = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    far = draw(st.sampled_from([1.0, 1.0, 30.0]))
    lp = np.array(arr(rng, lead + [g], -5, 5))
    if draw(st.booleans()):
        lp = lp - np.log(np.exp(lp).sum(-1, keepdims=True))
    return dict(lead=lead, g=g, f=f, x=(np.array(arr(rng, lead + [f])) * far).tolist(), mus=arr(rng, lead + [g, f]),
                sig=arr(rng, lead + [g, f], 0.05, 3), lp=lp.tolist())


@facet(mixtures(), quick=400, shards=2)
def likelihood(case, rec):
    from reagent.models.mdn_rnn import gmm_loss

    c = case
    want = mix(c["x"], np.array(c["mus"]), np.array(c["sig"]), np.array(c["lp"]))
    args = (T(c["x"]), T(c["mus"]), T(c["sig"]), T(c["lp"]))
    close(gmm_loss(*args, reduce=False), want, "per-point loss", rtol=1e-3, atol=1e-3)
    close(gmm_loss(*args), want.mean(), "mean loss", rtol=1e-3, atol=1e-3)
    same(args[0], T(c["x"]), "input untouched")
    rec.nt(c["g"] > 1 and int(np.prod(c["lead"])) > 1)
    rec.label(f"dims={len(c['lead'])}")


def _batch(c):
    import reagent.types as rlt

    return rlt.MemoryNetworkInput(
        state=rlt.FeatureData(T(c["state"])), next_state=rlt.FeatureData(T(c["next_state"])), reward=T(c["reward"]),
        time_diff=torch.ones(c["t"], c["b"]), step=None, not_terminal=T(c["nt"]), action=T(c["action"]))


def _losses(net, c, state_dim):
    """The documented objective written with torch primitives (differentiable)."""
    import reagent.types as rlt

    o = net(rlt.FeatureData(T(c["state"])), rlt.FeatureData(T(c["action"])))
    sl = slice(c["t"] - 1, None) if c["last"] else slice(None)
    x = T(c["next_state"])[sl].unsqueeze(2)
    mu, sg = o.mus[sl], o.sigmas[sl]
    comp = o.logpi[sl] + (-0.5 * ((x - mu) / sg) ** 2 - torch.log(sg) - 0.5 * math.log(2 * math.pi)).sum(-1)
    gmm = -torch.logsumexp(comp, -1).mean() * c["w"][0]
    nt, z = T(c["nt"])[sl], o.not_terminal[sl]
    bce = (F.softplus(z) - nt * z).mean() * c["w"][1]
    mse = ((o.reward[sl] - T(c["reward"])[sl]) ** 2).mean() * c["w"][2]
    return gmm, bce, mse, gmm / (state_dim + 2 if state_dim is not None else 1) + bce + mse


@facet(nets(), quick=250, shards=3)
def training(case, rec):
    from reagent.parameters import MDNRNNTrainerParameters
    from reagent.training.world_model.mdnrnn_trainer import MDNRNNTrainer

    c = case
    net = build(c)
    ref = copy.deepcopy(net)
    tr = MDNRNNTrainer(net, MDNRNNTrainerParameters(
        learning_rate=c["lr"], next_state_loss_weight=c["w"][0], not_terminal_loss_weight=c["w"][1],
        reward_loss_weight=c["w"][2], fit_only_one_next_step=c["last"], hidden_size=c["h"],
        num_hidden_layers=c["layers"], num_gaussians=c["g"]))
    # the loss itself, with and without the dimension
    for d in (None, c["s"]):
        got, want = tr.get_loss(_batch(c), d), _losses(ref, c, d)
        for k, w in zip(("gmm", "bce", "mse", "loss"), want):
            close(got[k], w, f"{k} (state_dim={d})", rtol=1e-3, atol=1e-4)
    opt = torch.optim.Adam(ref.parameters(), lr=c["lr"])
    hist = dict(loss=[], gmm=[], bce=[], mse=[])
    for _ in range(c["steps"]):
        opt.zero_grad()
        w = _losses(ref, c, c["s"])
        w[3].backward()
        got = tr.train(_batch(c))
        for k, v in zip(("gmm", "bce", "mse", "loss"), w):
            close(got[k], v, f"{k} of a training step", rtol=2e-3, atol=1e-3)
        for k, v in hist.items():
            v.append(got[k])
        # Adam is scale free, so a gradient that is pure rounding noise is not comparable
        small = any(((p.grad.abs() > 0) & (p.grad.abs() < 1e-5)).any() for p in ref.parameters() if p.grad is not None)
        opt.step()
        if small:
            break
        for (n, p), q in zip(net.named_parameters(), ref.parameters()):
            close(p, q.detach(), f"{n} after a step", rtol=1e-2, atol=2e-3)
    for k, v in hist.items():
        close(list(getattr(tr, f"cum_{k}")), v, f"history of the {k} loss", rtol=1e-6)
    rec.nt(c["b"] > 1 and c["t"] > 1 and c["g"] > 1)
    rec.label("last step only" if c["last"] else "all steps")


@st.composite
def pools(draw):
    return dict(cap=draw(st.integers(1, 6)), t=draw(st.integers(1, 4)), s=draw(st.integers(1, 3)),
                a=draw(st.integers(1, 2)), seed=draw(st.integers(0, 2**31 - 1)),
                ops=draw(st.lists(st.integers(-6, 4), min_size=1, max_size=20)))


@facet(pools(), quick=400, shards=2)
def pool(case, rec):
    """A sample consists of whole stored sequences among the most recent ones, time first."""
    from reagent.models.mdn_rnn import MDNRNNMemoryPool

    c = case
    rng = np.random.RandomState(c["seed"])
    np.random.seed(c["seed"])
    p, items, n = MDNRNNMemoryPool(c["cap"]), [], 0
    for op in c["ops"]:
        if op <= 0 or not items:
            n += 1
            it = [rng.randn(c["t"], c["s"]), rng.randn(c["t"], c["a"]), rng.randn(c["t"], c["s"]),
                  np.full(c["t"], float(n)), rng.randint(0, 2, c["t"]).astype(float)]
            it = [torch.tensor(x).float() for x in it]
            items.append(it)
            p.insert_into_memory(*it)
            items = items[-c["cap"]:]
            equal(p.memory_size, len(items), "memory_size")
            continue
        out = p.sample_memories(op)
        equal(tuple(out.state.float_features.shape), (c["t"], op, c["s"]), "time first")
        for j in range(op):
            hit = [it for it in items if float(it[3][0]) == float(out.reward[0, j])]
            require(len(hit) == 1, "sampled something that is not stored (any more): %s", float(out.reward[0, j]))
            for name, got, want in zip(("state", "action", "next_state", "reward", "not_terminal"),
                                       (out.state.float_features, out.action, out.next_state.float_features,
                                        out.reward, out.not_terminal), hit[0]):
                close(got[:, j], np.asarray(want), name, rtol=1e-6)
        same(out.time_diff, np.ones((c["t"], op)), "time_diff")
    rec.nt(n > c["cap"] and any(o > 0 for o in c["ops"]))
    rec.label("wrapped" if n > c["cap"] else "partial")
