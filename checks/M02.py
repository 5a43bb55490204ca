"""Value networks: layer by layer, as configured, whatever builds them."""
import copy
import math

import numpy as np
import torch
from hypothesis import strategies as st
from torch import nn

from models import mlp, norm
from models.nets import T, arr, rng_of
from vlib.core import close, equal, facet, raises, require, same

RULE = ("a case is an architecture with explicit weights and a batch; non-trivial = a hidden layer of two or more units and two or more rows")
TOL = dict(rtol=2e-3, atol=2e-3)


def FD(x, **kw):
    from reagent import types as rlt

    return rlt.FeatureData(T(x), **kw)


@st.composite
def arch(draw, max_layers=3, min_layers=0):
    n = draw(st.integers(min_layers, max_layers))
    return dict(sizes=draw(st.lists(st.integers(1, 5), min_size=n, max_size=n)), acts=draw(st.lists(st.sampled_from(mlp.ACTS), min_size=n, max_size=n)))


def hidden(c):
    return len(c["x"]) > 1 and any(s > 1 for s in c["sizes"])


@st.composite
def plain_cases(draw):
    rng = rng_of(draw)
    c = draw(arch())
    i, o, b = draw(st.integers(1, 4)), draw(st.integers(1, 4)), draw(st.integers(2, 5))
    c.update(i=i, o=o, x=arr(rng, (b, i)), x2=arr(rng, (b, i)), out=draw(st.sampled_from(mlp.ACTS)), bn=draw(st.booleans()), ln=draw(st.booleans()),
             out_ln=draw(st.booleans()), drop=draw(st.sampled_from([0.0, 0.0, 0.4])), seed=draw(st.integers(0, 10**6)))
    return c


@facet(plain_cases(), quick=300, shards=3)
def layers(case, rec):
    """FullyConnectedNetwork: per layer batch norm, linear, layer norm, activation; statistics of the batch only while training"""
    from reagent.models.fully_connected_network import FullyConnectedNetwork

    c = case
    dims, acts = [c["i"]] + c["sizes"] + [c["o"]], c["acts"] + [c["out"]]
    net = FullyConnectedNetwork(list(dims), list(acts), use_batch_norm=c["bn"], use_layer_norm=c["ln"], normalize_output=c["out_ln"], dropout_ratio=c["drop"])
    n = len(acts)
    outs = [i for i in range(n) if c["out_ln"] or i < n - 1]
    equal(mlp.shape(net), dict(linear=[(b, a) for a, b in zip(dims, dims[1:])], bn=n if c["bn"] else 0,
                               ln=[dims[i + 1] for i in outs] if c["ln"] else [], drop=[c["drop"]] * len(outs) if c["drop"] else []), "what the network is made of")
    for m in mlp.leaves(net, nn.Linear):
        require(float(m.bias.abs().max()) == 0, "biases start at zero")
    equal(list(net.input_prototype().shape), [1, c["i"]], "the prototype is one row of inputs")
    mlp.fill(net, c["seed"])
    kw = dict(bn=c["bn"], ln=c["ln"], out_ln=c["out_ln"])
    net.eval()
    close(net(T(c["x"])), mlp.forward(net, c["x"], acts, **kw), "evaluation", **TOL)
    if not c["drop"]:
        run = mlp.running(net)
        net.train()
        y = net(T(c["x"]))
        close(y, mlp.forward(net, c["x"], acts, train=True, **kw), "training", rtol=2e-2, atol=2e-2)
        if c["bn"]:
            first = mlp.leaves(net, nn.BatchNorm1d)[0]
            mu, var = np.mean(c["x"], 0), np.var(c["x"], 0, ddof=1)
            close(first.running_mean, 0.9 * run[0][0] + 0.1 * mu, "running mean", **TOL)
            close(first.running_var, 0.9 * run[0][1] + 0.1 * var, "running variance", **TOL)
        net.eval()
        close(net(T(c["x2"])), mlp.forward(net, c["x2"], acts, **kw), "evaluation after training", **TOL)
        rows = torch.cat([net(T([r])) for r in c["x2"]])
        close(rows, net(T(c["x2"])), "rows of a batch do not see each other in evaluation", **TOL)
    rec.nt(hidden(c))
    rec.label("bn%d ln%d drop%d" % (c["bn"], c["ln"], c["drop"] > 0), f"{n} layers")


@st.composite
def drop_cases(draw):
    rng = rng_of(draw)
    i, h = draw(st.integers(1, 4)), draw(st.integers(2, 6))
    return dict(i=i, h=h, x=arr(rng, (draw(st.integers(2, 5)), i)), p=draw(st.sampled_from([0.2, 0.5, 0.8])), act=draw(st.sampled_from(["tanh", "sigmoid", "linear"])),
                seed=draw(st.integers(0, 10**6)), last=draw(st.booleans()))


@facet(drop_cases(), quick=100, shards=1)
def dropout(case, rec):
    """While training every unit after a hidden activation is dropped or scaled up, on average kept; the output layer only if asked"""
    from reagent.models.fully_connected_network import FullyConnectedNetwork

    c = case
    net = FullyConnectedNetwork([c["i"], c["h"], c["h"]], [c["act"], "linear"], dropout_ratio=c["p"], normalize_output=c["last"])
    mlp.fill(net, c["seed"])
    last = mlp.leaves(net, nn.Linear)[1]
    with torch.no_grad():
        last.weight.copy_(torch.eye(c["h"]))
        last.bias.zero_()
    h = mlp.forward(net, c["x"], [c["act"], "linear"])
    net.eval()
    close(net(T(c["x"])), h, "evaluation drops nothing", **TOL)
    net.train()
    kept, n = 0, 60
    q = 1 - c["p"]
    for _ in range(n):
        y = mlp.n64(net(T(c["x"])))
        on = np.abs(y) > 1e-7
        close(np.where(on, y, 0), np.where(on, h / (q * q if c["last"] else q), 0), "a kept unit is scaled", **TOL)
        kept += int(on.sum())
    live = int((np.abs(h) > 1e-6).sum()) * n
    keep = q * q if c["last"] else q
    sd = math.sqrt(live * keep * (1 - keep)) if live else 1
    require(abs(kept - live * keep) <= 7 * sd + 1, "kept %d of %d, expected %.1f", kept, live, live * keep)
    rec.nt(live > 0)


@st.composite
def init_cases(draw):
    return dict(i=draw(st.integers(60, 140)), o=draw(st.integers(60, 140)), act=draw(st.sampled_from(mlp.ACTS)), min_std=draw(st.sampled_from([0.0, 0.01, 0.3, 1.5])),
                seed=draw(st.integers(0, 10**6)))


@facet(init_cases(), quick=60, shards=1)
def init(case, rec):
    """Weights start Gaussian: zero mean, deviation gain/sqrt(inputs) (or the configured minimum), gain sqrt(2) for rectifiers"""
    from reagent.models.fully_connected_network import FullyConnectedNetwork

    c = case
    torch.manual_seed(c["seed"])
    net = FullyConnectedNetwork([c["i"], c["o"]], [c["act"]], min_std=c["min_std"])
    w = mlp.n64(mlp.leaves(net, nn.Linear)[0].weight).ravel()
    sd = max((math.sqrt(2) if c["act"] in ("relu", "leaky_relu") else 1) / math.sqrt(c["i"]), c["min_std"])
    n = w.size
    require(abs(w.mean()) < 7 * sd / math.sqrt(n), "mean %g", w.mean())
    require(abs(w.std() / sd - 1) < 7 / math.sqrt(2 * n), "deviation %g, expected %g", w.std(), sd)
    kurt = ((w / w.std()) ** 4).mean()
    require(abs(kurt - 3) < 10 * math.sqrt(24 / n), "fourth moment %g is not Gaussian", kurt)
    rec.nt()


KINDS = ["dqn", "atoms", "dueling", "dueling_atoms", "categorical", "critic", "parametric_dueling", "scorer"]


@st.composite
def kind_cases(draw):
    rng = rng_of(draw)
    kind = draw(st.sampled_from(KINDS))
    c = draw(arch(min_layers=1 if "dueling" in kind else 0))
    if "dueling" in kind:
        c["sizes"][-1] = draw(st.sampled_from([2, 4]))
    i, a, b = draw(st.integers(1, 4)), draw(st.integers(1, 4)), draw(st.integers(2, 4))
    c.update(kind=kind, i=i, a=a, atoms=draw(st.integers(2, 4)), x=arr(rng, (b, i)), y=arr(rng, (b, a)), bn=draw(st.booleans()), ln=draw(st.booleans()),
             out_ln=draw(st.booleans()), drop=draw(st.sampled_from([0.0, 0.3])), mask=draw(st.sampled_from([None, None, "some"])),
             m=(rng.rand(b, a) < 0.6).astype(int).tolist(), seed=draw(st.integers(0, 10**6)), out=draw(st.integers(1, 3)), q=draw(st.sampled_from([[-2.5, -1.0], [-2.5, 4.0], [1.0, 3.0], [0.0, 200.0]])))
    return c


def sub(c, *nets):
    for k, n in enumerate(nets):
        mlp.fill(n, c["seed"] + k)
        n.eval()


@facet(kind_cases(), quick=300, shards=4)
def values(case, rec):
    """Q-networks: linear output, impossible actions far below all others, dueling heads around their mean advantage, expected values
    of distributions, critics of state and action together"""
    from reagent.models import dueling_q_network as D
    from reagent.models.categorical_dqn import CategoricalDQN
    from reagent.models.critic import FullyConnectedCritic
    from reagent.models.dqn import FullyConnectedDQN

    c, k = case, case["kind"]
    A, N, B = c["a"], c["atoms"], len(c["x"])
    acts = c["acts"] + ["linear"]
    if k in ("dqn", "atoms", "categorical"):
        net = FullyConnectedDQN(c["i"], A, list(c["sizes"]), list(c["acts"]), num_atoms=None if k == "dqn" else N, use_batch_norm=c["bn"],
                                dropout_ratio=c["drop"], normalized_output=c["out_ln"])
        sub(c, net)
        want = mlp.forward(net, c["x"], acts, bn=c["bn"])
        if k != "dqn":
            want = want.reshape(B, A, N)
        equal(list(net.input_prototype().float_features.shape), [1, c["i"]], "prototype")
        if k == "categorical":
            top = CategoricalDQN(net, qmin=c["q"][0], qmax=c["q"][1], num_atoms=N)
            ls = want - want.max(2, keepdims=True)
            ls = ls - np.log(np.exp(ls).sum(2, keepdims=True))
            close(top.log_dist(FD(c["x"])), ls, "log probabilities of the atoms", **TOL)
            close(top(FD(c["x"])), (np.exp(ls) * np.linspace(*c["q"], N)).sum(2), "expected values", **TOL)
            equal(list(top.input_prototype().float_features.shape), [1, c["i"]], "prototype of the distribution")
        else:
            close(net(FD(c["x"])), want, "values", **TOL)
            if c["mask"]:
                got = mlp.n64(net(FD(c["x"]), possible_actions_mask=T(c["m"])))
                m = np.array(c["m"], bool)
                close(got[m], want[m], "possible actions keep their values", **TOL)
                require((got[~m] < -9e9).all(), "impossible actions are far below")
        dims = [c["i"]] + c["sizes"] + [A * (1 if k == "dqn" else N)]
        require(mlp.shape(net)["drop"] == ([c["drop"]] * (len(dims) - 1 if c["out_ln"] else len(dims) - 2) if c["drop"] else []), "dropout after every hidden layer")
    elif k == "critic":
        net = FullyConnectedCritic(c["i"], A, list(c["sizes"]), list(c["acts"]), use_batch_norm=c["bn"], use_layer_norm=c["ln"], output_dim=c["out"])
        sub(c, net)
        close(net(FD(c["x"]), FD(c["y"])), mlp.forward(net, np.hstack([c["x"], c["y"]]), acts, bn=c["bn"], ln=c["ln"]), "critic", **TOL)
        s, a = net.input_prototype()
        equal([list(s.float_features.shape), list(a.float_features.shape)], [[1, c["i"]], [1, A]], "prototype")
        for bad in (T(c["y"])[:-1],):
            raises((AssertionError,), lambda: net(FD(c["x"]), FD(bad.tolist())), "state and action rows must match")
    elif k in ("dueling", "dueling_atoms"):
        net = D.DuelingQNetwork.make_fully_connected(c["i"], A, list(c["sizes"]), list(c["acts"]), num_atoms=N if "atoms" in k else None, use_batch_norm=c["bn"])
        require(all(m.training for m in net.modules()), "a new network is ready for training")
        sub(c, net.shared_network, net.advantage_network, net.value_network)
        net.eval()
        emb = mlp.forward(net.shared_network, c["x"], c["acts"][:-1] + ["linear"], bn=c["bn"])
        equal(emb.shape[1], c["sizes"][-1], "width of the shared embedding")
        head = [c["acts"][-1], "linear"]
        adv, val = mlp.forward(net.advantage_network, emb, head), mlp.forward(net.value_network, emb, head)
        equal([mlp.shape(n)["linear"][0] for n in (net.advantage_network, net.value_network)], [(c["sizes"][-1] // 2, c["sizes"][-1])] * 2, "heads")
        if "atoms" in k:
            adv, val = adv.reshape(B, A, N), val.reshape(B, 1, N)
            adv = adv - adv.mean((1, 2), keepdims=True)
        else:
            adv = adv - adv.mean(1, keepdims=True)
        got = net(FD(c["x"]))
        close(got, val + adv, "value plus centred advantage", **TOL)
        if "atoms" not in k:
            close(got.mean(1), val[:, 0], "the mean over actions is the state's value", **TOL)
    elif k == "parametric_dueling":
        net = D.ParametricDuelingQNetwork.make_fully_connected(c["i"], A, list(c["sizes"]), list(c["acts"]), use_batch_norm=c["bn"])
        require(all(m.training for m in net.modules()), "a new network is ready for training")
        sub(c, net.shared_network, net.advantage_network, net.value_network)
        emb = mlp.forward(net.shared_network, c["x"], c["acts"][:-1] + ["linear"], bn=c["bn"])
        head = [c["acts"][-1], "linear"]
        val = mlp.forward(net.value_network, emb, head)
        adv = mlp.forward(net.advantage_network, np.hstack([emb, c["y"]]), head)
        close(net(FD(c["x"]), FD(c["y"])), val + adv, "value plus advantage", **TOL)
        s, a = net.input_prototype()
        equal([list(s.float_features.shape), list(a.float_features.shape)], [[1, c["i"]], [1, A]], "prototype")
    else:
        scorer(c)
    rec.nt(hidden(c))
    rec.label(k)


def scorer(c):
    from reagent import types as rlt
    from reagent.models.mlp_scorer import MLPScorer

    rng = np.random.RandomState(c["seed"])
    B, n, d = len(c["x"]), c["atoms"], c["a"]
    docs = np.round(rng.uniform(-1, 3, (B, n, d)), 2)
    docs[rng.rand(B, n, d) < 0.2] = 0
    concat, logt = c["bn"], c["ln"]
    net = MLPScorer(input_dim=d + (c["i"] if concat else 0), layer_sizes=list(c["sizes"]), output_dim=c["out"], concat=concat, log_transform=logt)
    mlp.fill(net, c["seed"])
    user = np.array(c["x"])
    f = (lambda v: np.log(np.maximum(v, 1e-12))) if logt else (lambda v: v)
    x = f(docs)
    if concat:
        x = np.concatenate([np.repeat(f(user)[:, None], n, 1), x], 2)
    want = mlp.forward(net, x.reshape(B * n, -1), ["relu"] * len(c["sizes"]) + ["linear"]).reshape(B, n, c["out"])
    if c["out"] == 1:
        want = want[..., 0]
    before = docs.copy()
    obs = rlt.FeatureData(T(c["x"]), candidate_docs=rlt.DocList(T(docs), mask=torch.ones(B, n, dtype=torch.bool), value=torch.ones(B, n)))
    got = net(obs)
    equal(tuple(got.shape), want.shape, "a score per document")
    close(got, want, "scores of the documents", rtol=2e-3, atol=1e-2)
    for i in (0, B - 1):
        one = net(rlt.FeatureData(T(c["x"][i:i + 1]), candidate_docs=rlt.DocList(T(docs[i:i + 1]), mask=torch.ones(1, n, dtype=torch.bool), value=torch.ones(1, n))))
        equal(tuple(one.shape), (1,) + want.shape[1:], "a single row's scores")
        close(one, want[i:i + 1], "scores of a single row", rtol=2e-3, atol=1e-2)
    same(obs.candidate_docs.float_features, T(before), "the documents given")
    same(obs.float_features, T(c["x"]), "the user given")


@st.composite
def builder_cases(draw):
    rng = rng_of(draw)
    kind = draw(st.sampled_from(["FullyConnected", "Dueling", "Embedding", "Quantile", "DuelingQuantile", "Categorical", "Parametric", "Value"]))
    c = draw(arch(min_layers=1))
    if "Dueling" in kind:
        c["sizes"][-1] = draw(st.sampled_from([2, 4]))
    types = ("PROBABILITY", "CONTINUOUS", "ENUM", "DO_NOT_PREPROCESS")
    c.update(kind=kind, spec=draw(norm.spec(types, max_size=3)), aspec=draw(norm.spec(types, max_size=2)), a=draw(st.integers(1, 4)), atoms=draw(st.integers(2, 4)),
             out=draw(st.integers(1, 3)), bn=draw(st.booleans()), ln=draw(st.booleans()), drop=draw(st.sampled_from([0.0, 0.3])), seed=draw(st.integers(0, 10**6)),
             q=[-3, draw(st.sampled_from([-1, 5]))], b=draw(st.integers(2, 4)), rs=int(rng.randint(10**6)), default=draw(st.integers(0, 9)) == 0)
    return c


@facet(builder_cases(), quick=200, shards=3)
def builders(case, rec):
    """Net builders make the network their options and the normalised features describe"""
    from reagent import types as rlt
    from reagent.net_builder.categorical_dqn.categorical import Categorical
    from reagent.net_builder.discrete_dqn import dueling, fully_connected, fully_connected_with_embedding
    from reagent.net_builder.parametric_dqn import fully_connected as para
    from reagent.net_builder.quantile_dqn import dueling_quantile, quantile
    from reagent.net_builder.value import fully_connected as value
    from reagent.parameters import NormalizationData

    c, k = case, case["kind"]
    data = lambda s: NormalizationData(dense_normalization_parameters=norm.params(s))
    i, j = (sum(norm.width(f) for _, f in s) for s in (c["spec"], c["aspec"]))
    rng = np.random.RandomState(c["rs"])
    x, y = rng.uniform(-2, 2, (c["b"], i)), rng.uniform(-2, 2, (c["b"], j))
    kw = {} if c["default"] else dict(sizes=list(c["sizes"]), activations=list(c["acts"]))
    sizes, acts = ([256, 128] if k != "Parametric" else [128, 64], ["relu", "relu"]) if c["default"] else (c["sizes"], c["acts"])
    cfg = rlt.ModelFeatureConfig(float_feature_infos=[rlt.FloatFeatureInfo(name=f"s{q}", feature_id=q) for q, _ in c["spec"]])
    n, o, bn, ln, drop = data(c["spec"]), c["a"], False, False, 0.0
    ins = lambda net: net(FD(x))
    out = o
    if k == "FullyConnected":
        net = fully_connected.FullyConnected(dropout_ratio=c["drop"], use_batch_norm=c["bn"], **kw).build_q_network(cfg, n, o)
        bn, drop = c["bn"], c["drop"]
    elif k == "Embedding":
        net = fully_connected_with_embedding.FullyConnectedWithEmbedding(dropout_ratio=c["drop"], embedding_dim=3, **kw).build_q_network(cfg, n, o)
        drop = c["drop"]
    elif k == "Quantile":
        net = quantile.Quantile(dropout_ratio=c["drop"], **kw).build_q_network(n, o, c["atoms"])
        drop, out = c["drop"], o * c["atoms"]
    elif k == "Categorical":
        net = Categorical(**kw).build_q_network(n, o, c["atoms"], *c["q"])
        out = o * c["atoms"]
    elif k == "Parametric":
        net = para.FullyConnected(use_batch_norm=c["bn"], use_layer_norm=c["ln"], **kw).build_q_network(n, data(c["aspec"]), c["out"])
        bn, ln, out = c["bn"], c["ln"], c["out"]
    elif k == "Value":
        net = value.FullyConnected(use_layer_norm=c["ln"], **kw).build_value_network(n, c["out"])
        ln, out = c["ln"], c["out"]
    elif k == "Dueling":
        net = dueling.Dueling(**kw).build_q_network(cfg, n, o)
    else:
        net = dueling_quantile.DuelingQuantile(**kw).build_q_network(n, o, c["atoms"])
    B = c["b"]
    if "Dueling" in k:
        sub(c, net.shared_network, net.advantage_network, net.value_network)
        emb = mlp.forward(net.shared_network, x, acts[:-1] + ["linear"])
        head = [acts[-1], "linear"]
        shp = (B, o) if k == "Dueling" else (B, o, c["atoms"])
        adv = mlp.forward(net.advantage_network, emb, head).reshape(shp)
        val = mlp.forward(net.value_network, emb, head).reshape((B, 1) + shp[2:])
        equal(mlp.shape(net.shared_network)["linear"], [(b, a) for a, b in zip([i] + sizes, sizes)], "shared layers")
        close(net(FD(x)), val + adv - adv.reshape(B, -1).mean(1).reshape((B,) + (1,) * (len(shp) - 1)), "dueling values", **TOL)
    else:
        dims = [i + (j if k == "Parametric" else 0)] + sizes + [out]
        equal(mlp.shape(net), dict(linear=[(b, a) for a, b in zip(dims, dims[1:])], bn=(len(dims) - 1) if bn else 0, ln=sizes if ln else [],
                                   drop=[drop] * len(sizes) if drop else []), "what the network is made of")
        mlp.fill(net, c["seed"])
        net.eval()
        want = mlp.forward(net, np.hstack([x, y]) if k == "Parametric" else x, acts + ["linear"], bn=bn, ln=ln)
        if k == "Parametric":
            got = net(FD(x), FD(y))
        elif k == "Value":
            got = net(T(x))
        else:
            got = net(FD(x))
        if k in ("Quantile", "Categorical"):
            want = want.reshape(B, o, -1)
        if k == "Categorical":
            want = np.exp(want - want.max(2, keepdims=True))
            want = (want / want.sum(2, keepdims=True) * np.linspace(*c["q"], c["atoms"])).sum(2)
        close(got, want, "values", **TOL)
    rec.nt(c["b"] > 1 and max(sizes) > 1)
    rec.label(k)


@st.composite
def slate_cases(draw):
    from checks import K02

    c = draw(K02.cases())
    c["builder"] = draw(st.sampled_from(["rank", "gru", "transformer", "seq2reward"]))
    c["temp"] = draw(st.sampled_from([0.5, 1.0, 2.0]))
    c["fit"] = draw(st.booleans())
    return c


@facet(slate_cases(), quick=60, shards=3)
def slate_builders(case, rec):
    """Slate ranking, slate reward and sequence builders pass on every option: the same weights give what a network built by hand gives"""
    from checks import K02
    from reagent.models.seq2reward_model import Seq2RewardNetwork
    from reagent.models.seq2slate import Seq2SlateOutputArch, Seq2SlateTransformerNet
    from reagent.models.seq2slate_reward import Seq2SlateGRURewardNet, Seq2SlateTransformerRewardNet
    from reagent.net_builder.slate_ranking.slate_ranking_transformer import SlateRankingTransformer
    from reagent.net_builder.slate_reward.slate_reward_gru import SlateRewardGRU
    from reagent.net_builder.slate_reward.slate_reward_transformer import SlateRewardTransformer
    from reagent.net_builder.value.seq2reward_rnn import Seq2RewardNetBuilder
    from reagent.parameters import GRUParameters, NormalizationData, TransformerParameters
    from reagent.parameters_seq2slate import LearningMethod  # noqa

    c = case
    tp = TransformerParameters(num_heads=c["heads"], dim_model=c["dm"], dim_feedforward=c["ff"], num_stacked_layers=c["layers"], state_embed_dim=c["se"])
    kw = dict(state_dim=c["s"], candidate_dim=c["d"], num_stacked_layers=c["layers"], dim_model=c["dm"], max_src_seq_len=c["n"], max_tgt_seq_len=c["k"])
    args = (c["s"], c["d"], c["n"], c["k"])
    if c["builder"] == "rank":
        arch = Seq2SlateOutputArch(c["arch"])
        net = SlateRankingTransformer(output_arch=arch, temperature=c["temp"], transformer=tp).build_slate_ranking_network(*args)
        ref = Seq2SlateTransformerNet(output_arch=arch, temperature=c["temp"], num_heads=c["heads"], dim_feedforward=c["ff"], state_embed_dim=c["se"], **kw)
        equal(net.num_heads, c["heads"], "heads")
    elif c["builder"] == "gru":
        b = SlateRewardGRU(gru=GRUParameters(dim_model=c["dm"], num_stacked_layers=c["layers"]), fit_slate_wise_reward=c["fit"])
        net, ref = b.build_slate_reward_network(*args), Seq2SlateGRURewardNet(**kw)
        equal(b.expect_slate_wise_reward, c["fit"], "kind of reward expected")
    elif c["builder"] == "transformer":
        b = SlateRewardTransformer(transformer=tp, fit_slate_wise_reward=c["fit"])
        net, ref = b.build_slate_reward_network(*args), Seq2SlateTransformerRewardNet(num_heads=c["heads"], dim_feedforward=c["ff"], **kw)
        equal(b.expect_slate_wise_reward, c["fit"], "kind of reward expected")
    else:
        data = NormalizationData(dense_normalization_parameters=norm.params([[i, dict(feature_type="CONTINUOUS", mean=0.0, stddev=1.0)] for i in range(c["s"])]))
        net = Seq2RewardNetBuilder(action_dim=c["d"], num_hiddens=c["dm"], num_hidden_layers=c["layers"]).build_value_network(data)
        ref = Seq2RewardNetwork(state_dim=c["s"], action_dim=c["d"], num_hiddens=c["dm"], num_hidden_layers=c["layers"])
    shapes = lambda m: {k: tuple(v.shape) for k, v in m.state_dict().items()}
    equal(shapes(net), shapes(ref), "shapes of the parameters")
    ref.load_state_dict(net.state_dict())
    torch.manual_seed(c["seed"])
    net.eval(), ref.eval()
    if c["builder"] == "seq2reward":
        from reagent import types as rlt

        T_, B = 3, c["b"]
        x, a = torch.randn(T_, B, c["s"]), torch.randn(T_, B, c["d"])
        go = lambda m: m(rlt.FeatureData(x), rlt.FeatureData(a))
        same(go(net).acc_reward, go(ref).acc_reward, "predicted reward")
    else:
        M = K02._modes()
        inp = K02.batch(c)
        if c["builder"] == "rank":
            for mode in ([M.PER_SEQ_LOG_PROB_MODE] if c["k"] > 0 else []):
                same(net(inp, mode=mode).log_probs, ref(inp, mode=mode).log_probs, "log probability")
        else:
            inp = inp._replace() if hasattr(inp, "_replace") else inp
            same(net(inp).predicted_reward, ref(inp).predicted_reward, "predicted reward")
    rec.nt(c["n"] > 2 and c["k"] > 1)
    rec.label(c["builder"])


@st.composite
def copy_cases(draw):
    rng = rng_of(draw)
    return dict(i=draw(st.integers(1, 3)), h=draw(st.integers(1, 4)), x=arr(rng, (3, 3)), seed=draw(st.integers(0, 10**6)), tau=draw(st.sampled_from([0.1, 0.5, 1.0])),
                how=draw(st.sampled_from(["target", "cpu", "deepcopy"])), norm=draw(st.booleans()), ids=rng.randint(0, 5, 3).tolist(), emb=draw(st.booleans()))


@facet(copy_cases(), quick=80, shards=1)
def copies(case, rec):
    """Target and exported copies start equal and do not follow; shared embedding tables stay shared; containers expose their first input"""
    from reagent.models.base import ModelBase
    from reagent.models.containers import Sequential
    from reagent.models.dqn import FullyConnectedDQN
    from reagent.models.no_soft_update_embedding import NoSoftUpdateEmbedding

    c = case

    class Net(ModelBase):
        def __init__(self):
            super().__init__()
            self.table = (NoSoftUpdateEmbedding if c["emb"] else nn.Embedding)(5, c["i"])
            self.net = Sequential(FullyConnectedDQN(c["i"], 2, [c["h"]], ["tanh"], use_batch_norm=c["norm"]))

        def forward(self, ids):
            return self.net(FD(self.table(ids).tolist()))

    net = Net()
    mlp.fill(net, c["seed"])
    net.eval()
    other = dict(target=net.get_target_network, cpu=net.cpu_model, deepcopy=lambda: copy.deepcopy(net))[c["how"]]()
    ids = torch.tensor(c["ids"])
    before = net(ids).detach()
    same(other(ids), before, "a copy starts equal")
    equal(other.training, net.training, "mode")
    old = net.table.weight.detach().clone()
    with torch.no_grad():
        for p in net.net.parameters():
            p.add_(1.0)
        for p in net.net.buffers():
            p.add_(1)
    same(other(ids), before, "a copy does not follow")
    with torch.no_grad():
        net.table.weight.mul_(2.0)
    if c["emb"]:
        same(other.table.weight, old * 2, "a shared table follows")
    else:
        same(other.table.weight, old, "a table of its own does not follow")
    equal(list(net.net.input_prototype().float_features.shape), [1, c["i"]], "prototype of a container")
    rec.nt(c["h"] > 1)


@st.composite
def conv_cases(draw):
    rng = rng_of(draw)
    n = draw(st.integers(1, 3))
    h, w = draw(st.integers(11, 14)) + 14 * (n == 3), draw(st.integers(11, 14)) + 14 * (n == 3)
    return dict(dims=draw(st.lists(st.integers(1, 3), min_size=n + 1, max_size=n + 1)), kh=draw(st.lists(st.integers(1, 3), min_size=n, max_size=n)),
                kw=draw(st.lists(st.integers(1, 3), min_size=n, max_size=n)), pool=draw(st.lists(st.integers(1, 2), min_size=n, max_size=n)), h=h, w=w,
                b=draw(st.integers(1, 3)), hid=draw(st.integers(1, 4)), out=draw(st.integers(1, 3)), act=draw(st.sampled_from(mlp.ACTS)), seed=draw(st.integers(0, 10**6)),
                rs=int(rng.randint(10**6)))


@facet(conv_cases(), quick=60, shards=2)
def conv(case, rec):
    """Convolutional networks: convolution, rectifier and max pooling per layer, flattened into the feed-forward part"""
    from types import SimpleNamespace

    from reagent.models.convolutional_network import ConvolutionalNetwork

    c = case
    P = SimpleNamespace(conv_dims=c["dims"], conv_height_kernels=c["kh"], conv_width_kernels=c["kw"], pool_kernels_strides=c["pool"], pool_types=["max"] * len(c["pool"]),
                        num_input_channels=c["dims"][0], input_height=c["h"], input_width=c["w"])
    net = ConvolutionalNetwork(P, [-1, c["hid"], c["out"]], [c["act"], "linear"])
    mlp.fill(net, c["seed"])
    rng = np.random.RandomState(c["rs"])
    x = rng.uniform(-2, 2, (c["b"], c["dims"][0], c["h"], c["w"]))
    y = x
    for m, p in zip(mlp.leaves(net, nn.Conv2d), c["pool"]):
        w, bias = mlp.n64(m.weight), mlp.n64(m.bias)
        o, _, kh, kw = w.shape
        H, W = y.shape[2] - kh + 1, y.shape[3] - kw + 1
        z = np.zeros((len(y), o, H, W))
        for a in range(kh):
            for b in range(kw):
                z += np.einsum("bchw,oc->bohw", y[:, :, a:a + H, b:b + W], w[:, :, a, b])
        z = np.maximum(z + bias[None, :, None, None], 0)
        y = z[:, :, :H // p * p, :W // p * p].reshape(len(y), o, H // p, p, W // p, p).max((3, 5))
    want = mlp.forward(net.feed_forward, y.reshape(len(y), -1), [c["act"], "linear"])
    equal([tuple(m.weight.shape[2:]) for m in mlp.leaves(net, nn.Conv2d)], [(a, b) for a, b in zip(c["kh"], c["kw"])], "kernels")
    close(net(T(x)), want, "convolutional network", **TOL)
    rec.nt(c["b"] > 1 and len(c["kh"]) > 1)


@st.composite
def util_cases(draw):
    rng = rng_of(draw)
    b, n, d, k = (draw(st.integers(1, 4)) for _ in range(4))
    return dict(x=arr(rng, (b, n)), d3=arr(rng, (b, n, d)), idx=rng.randint(0, n, (b, k)).tolist(), t=draw(st.sampled_from([0.01, 0.5, 1.0, 30.0])),
                m=(rng.rand(b, n) < 0.6).astype(int).tolist(), lo=arr(rng, (1, n), -3, 0), hi=arr(rng, (1, n), 0.5, 4), lo2=arr(rng, (1, n), -9, 0), hi2=arr(rng, (1, n), 0.5, 9))


@facet(util_cases(), quick=200, shards=2)
def utils(case, rec):
    """Rescaling, stacking, gathering, softmax with a temperature and a mask"""
    from reagent import torch_utils as U

    c = case
    x, m = np.array(c["x"]), np.array(c["m"])
    close(U.softmax(T(c["x"]), c["t"]), sm(x, c["t"]), "softmax", rtol=1e-3, atol=1e-4)
    got = U.masked_softmax(T(c["x"]), T(c["m"]), c["t"])
    want = np.zeros(x.shape)
    for i, r in enumerate(m):
        on = r.astype(bool)
        if on.any():
            want[i, on] = sm(x[i:i + 1, on], c["t"])[0]
    close(got, want, "masked softmax: nothing on masked entries, nothing at all when everything is", rtol=1e-3, atol=1e-4)
    lo, hi, lo2, hi2 = (np.array(c[k]) for k in ("lo", "hi", "lo2", "hi2"))
    y = U.rescale_torch_tensor(T(c["x"]), T(lo2), T(hi2), T(lo), T(hi))
    close(y, (x - lo) / (hi - lo) * (hi2 - lo2) + lo2, "rescaled", rtol=1e-3, atol=1e-3)
    close(U.rescale_torch_tensor(y, T(lo), T(hi), T(lo2), T(hi2)), x, "rescaled back", rtol=1e-3, atol=1e-3)
    d3 = np.array(c["d3"])
    same(U.gather(T(c["d3"]), torch.tensor(c["idx"])), T(np.stack([d3[i][r] for i, r in enumerate(c["idx"])])), "gathered rows")
    same(U.stack([T(r) for r in c["d3"]]), T(c["d3"]), "stacked")
    for k, v in U.dict_to_tensor(dict(a=np.array(c["x"]), b=np.array(c["idx"]))).items():
        equal(v.tolist(), dict(a=c["x"], b=c["idx"])[k], "tensors of a dictionary")
    rec.nt(x.size > 2 and 0 < m.sum() < m.size)


def sm(x, t):
    z = x / t
    z = np.exp(z - z.max(1, keepdims=True))
    return z / z.sum(1, keepdims=True)


@st.composite
def sparse_cases(draw):
    rng = rng_of(draw)
    b = draw(st.integers(1, 4))
    tables = {f"t{'cab'[i]}": draw(st.integers(1, 6)) for i in range(draw(st.integers(1, 3)))}
    feats = []
    for i in range(draw(st.integers(0, 4))):
        t = draw(st.sampled_from(sorted(tables)))
        rows = [rng.randint(0, tables[t], rng.randint(0, 4)).tolist() for _ in range(b)]
        feats.append(dict(name="f" + "zyxa"[i], table=t, scored=draw(st.booleans()), rows=rows, scores=[np.round(rng.uniform(-2, 2, len(r)), 2).tolist() for r in rows]))
    i = draw(st.integers(1, 3))
    return dict(tables=tables, feats=feats, i=i, x=arr(rng, (b, i)), emb=draw(st.integers(1, 4)), a=draw(st.integers(1, 3)), sizes=draw(st.lists(st.integers(1, 4), max_size=2)),
                act=draw(st.sampled_from(mlp.ACTS)), seed=draw(st.integers(0, 10**6)), order=rng.permutation(len(feats)).tolist())


@facet(sparse_cases(), quick=200, shards=2)
def sparse(case, rec):
    """Embeddings of listed ids are summed, those of scored ids weighted by their scores, features of one table share it, and the
    network sees them beside the plain features"""
    from reagent import types as rlt
    from reagent.net_builder.discrete_dqn.fully_connected_with_embedding import FullyConnectedWithEmbedding
    from reagent.parameters import NormalizationData

    c = case
    lists, scored = [f for f in c["feats"] if not f["scored"]], [f for f in c["feats"] if f["scored"]]
    ids = {f["name"]: 10 + k for k, f in enumerate(c["feats"])}
    cfg = rlt.ModelFeatureConfig(
        float_feature_infos=[rlt.FloatFeatureInfo(name=f"s{q}", feature_id=q) for q in range(c["i"])],
        id_mapping_config={k: rlt.IdMapping(ids=[100 + q for q in range(n)]) for k, n in c["tables"].items()},
        id_list_feature_configs=[rlt.IdListFeatureConfig(name=f["name"], feature_id=ids[f["name"]], id_mapping_name=f["table"]) for f in lists],
        id_score_list_feature_configs=[rlt.IdScoreListFeatureConfig(name=f["name"], feature_id=ids[f["name"]], id_mapping_name=f["table"]) for f in scored])
    data = NormalizationData(dense_normalization_parameters=norm.params([[q, dict(feature_type="DO_NOT_PREPROCESS")] for q in range(c["i"])]))
    net = FullyConnectedWithEmbedding(sizes=list(c["sizes"]), activations=[c["act"]] * len(c["sizes"]), embedding_dim=c["emb"]).build_q_network(cfg, data, c["a"])
    mlp.fill(net, c["seed"])
    bags = {k.rsplit(".", 1)[1]: m for k, m in net.named_modules() if isinstance(m, nn.EmbeddingBag)}
    equal({k: tuple(m.weight.shape) for k, m in bags.items()}, {k: (n, c["emb"]) for k, n in c["tables"].items()}, "one table per mapping")
    rng = np.random.RandomState(c["seed"])
    with torch.no_grad():
        for k in sorted(bags):
            bags[k].weight.copy_(T(rng.uniform(-2, 2, tuple(bags[k].weight.shape))))
    B = len(c["x"])
    cols = []
    for f in lists + scored:
        w = mlp.n64(bags[f["table"]].weight)
        cols.append(np.array([sum(((s if f["scored"] else 1.0) * w[j] for j, s in zip(r, sc)), np.zeros(c["emb"])) for r, sc in zip(f["rows"], f["scores"])]).reshape(B, -1))
    x = np.hstack(cols + [np.array(c["x"])])
    want = mlp.forward(net, x, [c["act"]] * len(c["sizes"]) + ["linear"])

    def feed():
        ls, sc = {}, {}
        for k in c["order"]:
            f = c["feats"][k]
            off = torch.tensor(np.cumsum([0] + [len(r) for r in f["rows"]])[:-1])
            v = torch.tensor([q for r in f["rows"] for q in r], dtype=torch.long)
            if f["scored"]:
                sc[f["name"]] = (off, v, T([q for r in f["scores"] for q in r]).reshape(-1))
            else:
                ls[f["name"]] = (off, v)
        return rlt.FeatureData(T(c["x"]), id_list_features=ls, id_score_list_features=sc)

    net.eval()
    close(net(feed()), want, "values", **TOL)
    proto = net.input_prototype()
    equal([sorted(proto.id_list_features), sorted(proto.id_score_list_features)], [sorted(f["name"] for f in lists), sorted(f["name"] for f in scored)], "features of the prototype")
    equal(tuple(net(proto).shape), (1, c["a"]), "the prototype is an input")
    net.zero_grad()
    net(feed()).sum().backward()
    for k, m in bags.items():
        used = {j for f in c["feats"] if f["table"] == k for r in f["rows"] for j in r}
        if m.weight.grad is not None:
            moved = set(torch.nonzero(m.weight.grad.abs().sum(1)).flatten().tolist())
            require(moved <= used, "only the rows of ids seen learn: %s, seen %s", moved, used)
    rec.nt(B > 1 and len(c["feats"]) > 1)
    rec.label("%d features" % len(c["feats"]))


@st.composite
def bcq_cases(draw):
    rng = rng_of(draw)
    i, a, b = draw(st.integers(1, 3)), draw(st.integers(1, 5)), draw(st.integers(1, 5))
    return dict(i=i, a=a, x=arr(rng, (b, i)), seed=draw(st.integers(0, 10**6)), thr=draw(st.sampled_from([0.0, 0.1, 0.5, 0.9, 1.0])), gain=draw(st.sampled_from([0.3, 1.0, 4.0])))


@facet(bcq_cases(), quick=150, shards=1)
def constrained(case, rec):
    """Batch-constrained values: actions the imitator finds less likely than a share of the likeliest of that row are far below all
    others, the rest keep their values"""
    from reagent.models.bcq import BatchConstrainedDQN
    from reagent.models.dqn import FullyConnectedDQN
    from reagent.models.fully_connected_network import FullyConnectedNetwork

    c = case
    q, im = FullyConnectedDQN(c["i"], c["a"], [3], ["tanh"]), FullyConnectedNetwork([c["i"], 3, c["a"]], ["tanh", "linear"])
    mlp.fill(q, c["seed"])
    mlp.fill(im, c["seed"] + 1)
    with torch.no_grad():
        mlp.leaves(im, nn.Linear)[-1].weight.mul_(c["gain"])
    net = BatchConstrainedDQN(state_dim=c["i"], q_network=q, imitator_network=im, bcq_drop_threshold=c["thr"]).eval()
    vals, logits = mlp.forward(q, c["x"], ["tanh", "linear"]), mlp.forward(im, c["x"], ["tanh", "linear"])
    got = mlp.n64(net(FD(c["x"])))
    ratio = np.exp(logits - logits.max(1, keepdims=True))
    sure = np.abs(ratio - c["thr"]) > 1e-4
    out = ratio < c["thr"]
    require((got[out & sure] < -9e9).all(), "unlikely actions are far below: %s of %s", got, ratio)
    close(got[~out & sure], vals[~out & sure], "likely actions keep their values", **TOL)
    require((got.max(1) > -9e9).all(), "the likeliest action stays")
    equal(list(net.input_prototype().float_features.shape), [1, c["i"]], "prototype")
    rec.nt(len(c["x"]) > 1 and out.any() and not out.all())
