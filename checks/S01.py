"""Serving modules: what is exported predicts what was trained, from raw features, for any batch."""
import copy
import io

import numpy as np
import torch
from hypothesis import strategies as st

from checks import K02, W01, W02
from models import norm
from models.nets import T, arr, rng_of
from models.rnn import randomise
from vlib.core import close, equal, facet, require, same

RULE = ("a case is a normalisation map, a network with explicit weights and a batch of raw features with presence; non-trivial = "
        "two or more rows with an absent feature")
TYPES = ("BINARY", "PROBABILITY", "CONTINUOUS", "ENUM", "QUANTILE", "BOXCOX")
TOL = dict(rtol=2e-3, atol=2e-3)


def data(spec):
    from reagent.parameters import NormalizationData

    return NormalizationData(dense_normalization_parameters=norm.params(spec))


@st.composite
def features(draw, types=TYPES, max_size=4, rows=None, min_size=1):
    spec = draw(norm.spec(types, min_size=min_size, max_size=max_size))
    v, p = draw(norm.batch(spec, min_rows=rows or 1, max_rows=rows or 5))
    return dict(spec=spec, rows=v, pres=p)


def raw(f):
    return T(f["rows"]), torch.tensor(f["pres"], dtype=torch.uint8)


def dense(f):
    return T(np.array(norm.expected(f["spec"], f["rows"], f["pres"])))


def fill(net, seed):
    rng = np.random.RandomState(seed)
    randomise(net, rng)
    with torch.no_grad():
        for k, b in net.named_buffers():
            if k.endswith("running_mean"):
                b.copy_(T(rng.uniform(-1, 1, tuple(b.shape))))
            if k.endswith("running_var"):
                b.copy_(T(rng.uniform(0.5, 2, tuple(b.shape))))
    return net


def reload(module):
    buf = io.BytesIO()
    torch.jit.save(module, buf)
    buf.seek(0)
    return torch.jit.load(buf)


def spoil(net):
    """train on: what was exported does not follow"""
    with torch.no_grad():
        for p in net.parameters():
            p.add_(3.0)


def missing(*fs):
    return len(fs[0]["rows"]) > 1 and any(not all(r) for f in fs for r in f["pres"])


BUILDERS = ["FullyConnected", "Dueling", "Embedding", "Categorical", "Quantile", "DuelingQuantile"]


@st.composite
def discrete_cases(draw):
    from checks.P06 import cases as sparse

    rng = rng_of(draw)
    kind = draw(st.sampled_from(BUILDERS))
    c = dict(f=draw(features()), kind=kind, a=draw(st.integers(1, 4)), seed=draw(st.integers(0, 10**6)), bn=draw(st.booleans()),
             drop=draw(st.sampled_from([0.0, 0.5])), train=draw(st.booleans()), atoms=draw(st.integers(2, 4)),
             layers=draw(st.integers(1, 2)), act=draw(st.sampled_from(["relu", "tanh", "leaky_relu"])))
    B = len(c["f"]["rows"])
    tables = {f"t{k}": sorted(set(rng.randint(0, 10**6, 4).tolist())) for k in range(2)}
    feats = []
    for i in range(int(rng.randint(1, 4)) if kind == "Embedding" else 0):
        t = f"t{rng.randint(2)}"
        rows = [[tables[t][j] for j in rng.randint(0, len(tables[t]), rng.randint(0, 4))] for _ in range(B)]
        feats.append(dict(id=500 + int(rng.permutation(90)[0]) * 3 + i, name="f" + "zyxa"[i], table=t, scored=bool(rng.rand() < 0.4), rows=rows,
                          scores=[np.round(rng.uniform(-2, 2, len(r)), 2).tolist() for r in rows]))
    c.update(tables=tables, feats=feats, order=rng.permutation(len(feats)).tolist(), extra=draw(st.booleans()))
    return c


def feature_config(c):
    import reagent.types as rlt

    return rlt.ModelFeatureConfig(
        float_feature_infos=[rlt.FloatFeatureInfo(name=f"s{i}", feature_id=i) for i, _ in c["f"]["spec"]],
        id_mapping_config={k: rlt.IdMapping(ids=v) for k, v in c["tables"].items()},
        id_list_feature_configs=[rlt.IdListFeatureConfig(name=f["name"], feature_id=f["id"], id_mapping_name=f["table"]) for f in c["feats"] if not f["scored"]],
        id_score_list_feature_configs=[rlt.IdScoreListFeatureConfig(name=f["name"], feature_id=f["id"], id_mapping_name=f["table"]) for f in c["feats"] if f["scored"]])


def sparse_dicts(c, key, ids, order):
    lists, scored = {}, {}
    for i in order:
        f = c["feats"][i]
        off = torch.tensor(np.cumsum([0] + [len(r) for r in f["rows"]])[:-1])
        v = torch.tensor([ids(f, x) for r in f["rows"] for x in r], dtype=torch.long)
        if f["scored"]:
            scored[f[key]] = (off, v, T([x for r in f["scores"] for x in r]).reshape(-1))
        else:
            lists[f[key]] = (off, v)
    return lists, scored


def built(c):
    from reagent.net_builder import unions as U
    from reagent.net_builder.categorical_dqn.categorical import Categorical
    from reagent.net_builder.discrete_dqn import dueling, fully_connected, fully_connected_with_embedding
    from reagent.net_builder.quantile_dqn import dueling_quantile, quantile

    k, n = c["kind"], data(c["f"]["spec"])
    sizes, acts = [4] * c["layers"], [c["act"]] * c["layers"]
    cfg = feature_config(c)
    if k == "FullyConnected":
        b = fully_connected.FullyConnected(sizes=sizes, activations=acts, dropout_ratio=c["drop"], use_batch_norm=c["bn"])
        net = b.build_q_network(cfg, n, c["a"])
    elif k == "Dueling":
        b = dueling.Dueling(sizes=sizes, activations=acts)
        net = b.build_q_network(cfg, n, c["a"])
    elif k == "Embedding":
        b = fully_connected_with_embedding.FullyConnectedWithEmbedding(sizes=sizes, activations=acts, embedding_dim=3, dropout_ratio=c["drop"])
        net = b.build_q_network(cfg, n, c["a"])
    elif k == "Categorical":
        b = Categorical(sizes=sizes, activations=acts)
        net = b.build_q_network(n, c["a"], c["atoms"], -3, 5)
    elif k == "Quantile":
        b = quantile.Quantile(sizes=sizes, activations=acts, dropout_ratio=c["drop"])
        net = b.build_q_network(n, c["a"], c["atoms"])
    else:
        b = dueling_quantile.DuelingQuantile(sizes=sizes, activations=acts)
        net = b.build_q_network(n, c["a"], c["atoms"])
    return b, fill(net, c["seed"]), cfg


@facet(discrete_cases(), quick=130, shards=6)
def discrete(case, rec):
    """Action names with the network's values (expected values of distributions) of the normalised features"""
    import reagent.types as rlt
    from reagent.prediction.predictor_wrapper import DiscreteDqnPredictorUnwrapper

    c = case
    b, net, cfg = built(c)
    net.train(c["train"])
    names = [["act", "Act", "0", "b c"][i % 4] + "zyxw"[i // 4] for i in np.random.RandomState(c["seed"]).permutation(8)[: c["a"]]]
    module = b.build_serving_module(net, data(c["f"]["spec"]), names, cfg)
    equal(net.training, c["train"], "the trained network's mode")
    index = {k: {x: i for i, x in enumerate(v)} for k, v in c["tables"].items()}
    lists, scored = sparse_dicts(c, "name", lambda f, x: index[f["table"]][x], range(len(c["feats"])))
    ref = copy.deepcopy(net).eval()
    with torch.no_grad():
        fd = rlt.FeatureData(dense(c["f"]), id_list_features=lists, id_score_list_features=scored)
        want = ref(fd)
        if c["feats"]:
            l2, s2 = sparse_dicts(c, "name", lambda f, x: index[f["table"]][x], c["order"])
            close(ref(rlt.FeatureData(dense(c["f"]), id_list_features=l2, id_score_list_features=s2)), want, "the order of features does not matter")
        if "Quantile" in c["kind"]:
            want = want.mean(2)
    spoil(net)
    lists, scored = sparse_dicts(c, "id", lambda f, x: x, c["order"])
    if not lists:
        lists = {42: (torch.zeros(1, dtype=torch.long), torch.tensor([], dtype=torch.long))}
    if not scored:
        scored = {42: (torch.zeros(1, dtype=torch.long), torch.tensor([], dtype=torch.long), torch.tensor([]))}
    if c["extra"]:
        lists[9999] = (torch.zeros(1, dtype=torch.long), torch.tensor([5]))
    loaded = reload(torch.jit.script(DiscreteDqnPredictorUnwrapper(module)))
    for m, what in ((lambda *a: module(rlt.ServingFeatureData(*a)), "exported"), (loaded, "reloaded")):
        for _ in range(2):
            got = m(raw(c["f"]), lists, scored)
        equal(list(got[0]), names, what + " action names")
        close(got[1], want, what + " values", **TOL)
    rec.nt(missing(c["f"]))
    rec.label(c["kind"])


@st.composite
def parametric_cases(draw):
    f = draw(features())
    return dict(f=f, g=draw(features(rows=len(f["rows"]))), seed=draw(st.integers(0, 10**6)), bn=draw(st.booleans()), ln=draw(st.booleans()),
                train=draw(st.booleans()), out=draw(st.integers(1, 2)))


@facet(parametric_cases(), quick=100, shards=3)
def parametric(case, rec):
    """The critic's value of normalised states and actions"""
    import reagent.types as rlt
    from reagent.net_builder.parametric_dqn.fully_connected import FullyConnected
    from reagent.prediction.predictor_wrapper import ParametricDqnPredictorUnwrapper

    c = case
    b = FullyConnected(sizes=[5], activations=["tanh"], use_batch_norm=c["bn"], use_layer_norm=c["ln"])
    net = fill(b.build_q_network(data(c["f"]["spec"]), data(c["g"]["spec"]), c["out"]), c["seed"]).train(c["train"])
    module = b.build_serving_module(net, data(c["f"]["spec"]), data(c["g"]["spec"]))
    with torch.no_grad():
        want = copy.deepcopy(net).eval()(rlt.FeatureData(dense(c["f"])), rlt.FeatureData(dense(c["g"])))
    equal(net.training, c["train"], "the trained network's mode")
    spoil(net)
    for m, what in ((module, "exported"), (reload(module), "reloaded"), (ParametricDqnPredictorUnwrapper(module), "unwrapped")):
        got = m(raw(c["f"]), raw(c["g"]))
        equal(list(got[0]), ["Q"], what + " name")
        close(got[1], want, what + " value", **TOL)
    rec.nt(missing(c["f"], c["g"]))


@st.composite
def actor_cases(draw):
    kind = draw(st.sampled_from(["fc", "fc", "gaussian", "dirichlet", "discrete", "ranking"]))
    rng = rng_of(draw)
    a = draw(st.integers(2, 3))
    ids = draw(st.lists(st.integers(1, 99), min_size=a, max_size=a, unique=True))
    lo = np.round(rng.uniform(-5, 5, a), 2)
    n = draw(st.integers(1, 3))
    f = draw(features())
    cand = draw(norm.spec(TYPES, max_size=3))
    return dict(f=f, kind=kind, ids=ids, lo=lo.tolist(), hi=(lo + np.round(rng.uniform(0.5, 9, a), 2)).tolist(), seed=draw(st.integers(0, 10**6)),
                noise=draw(st.sampled_from([None, 0.2])), bn=draw(st.booleans()), ln=draw(st.booleans()), train=draw(st.booleans()), mean=draw(st.booleans()),
                last=draw(st.sampled_from(["tanh", "linear"])), n=n,
                cands=[dict(zip(("rows", "pres"), draw(norm.batch(cand, min_rows=len(f["rows"]), max_rows=len(f["rows"])))), spec=cand) for _ in range(n)])


def served(c, x):
    """from [-1, 1] to the range of each action feature, in the order of their ids"""
    x = np.clip(np.asarray(x, float), -1, 1)
    o = np.argsort(c["ids"])
    lo, hi = np.array(c["lo"])[o], np.array(c["hi"])[o]
    return (x + 1) / 2 * (hi - lo) + lo


@facet(actor_cases(), quick=140, shards=4)
def actors(case, rec):
    """Actions of the actor for normalised states, in the range of the action features; random ones vary by row and call"""
    import reagent.types as rlt
    from reagent.net_builder.continuous_actor import dirichlet_fully_connected as D, fully_connected as FC, gaussian_fully_connected as G
    from reagent.net_builder.discrete_actor import fully_connected as DA
    from reagent.parameters import NormalizationData, NormalizationParameters as NP
    from reagent.prediction.predictor_wrapper import ActorPredictorUnwrapper

    c, k = case, case["kind"]
    n = data(c["f"]["spec"])
    if k == "dirichlet":
        an = {i: NP(feature_type="DO_NOT_PREPROCESS") for i in c["ids"]}
    else:
        an = {i: NP(feature_type="CONTINUOUS_ACTION", min_value=lo, max_value=hi) for i, lo, hi in zip(c["ids"], c["lo"], c["hi"])}
    an = NormalizationData(dense_normalization_parameters=an)
    x = dense(c["f"])
    a = len(c["ids"])
    sizes = dict(sizes=[4], activations=["tanh"])
    args = [raw(c["f"])]
    if k == "ranking":
        b = FC.FullyConnected(use_batch_norm=c["bn"], **sizes)
        width = sum(norm.width(f) for _, f in c["f"]["spec"]) + c["n"] * sum(norm.width(f) for _, f in c["cands"][0]["spec"])
        wide = NormalizationData(dense_normalization_parameters={i: NP(feature_type="DO_NOT_PREPROCESS") for i in range(width)})
        net = b.build_actor(wide, an)
        x = torch.cat([x] + [dense(f) for f in c["cands"]], 1)
        args.append([raw(f) for f in c["cands"]])
    elif k == "dirichlet":
        b = D.DirichletFullyConnected(use_batch_norm=c["bn"], **sizes)
        net = b.build_actor(n, an)
    elif k == "gaussian":
        b = G.GaussianFullyConnected(use_batch_norm=c["bn"], use_layer_norm=c["ln"], **sizes)
        net = b.build_actor(n, an)
    else:
        b = (DA if k == "discrete" else FC).FullyConnected(use_batch_norm=c["bn"], use_layer_norm=c["ln"], exploration_variance=c["noise"],
                                                           action_activation=c["last"], **sizes)
        net = b.build_actor(n, a) if k == "discrete" else b.build_actor(n, an)
    fill(net, c["seed"]).train(c["train"])
    ref = copy.deepcopy(net).eval()
    if k == "ranking":
        module = b.build_ranking_serving_module(net, n, data(c["cands"][0]["spec"]), c["n"], an)
    elif k == "discrete":
        module = b.build_serving_module(net, n, list(range(a)))
    else:
        module = b.build_serving_module(net, n, an, **(dict(serve_mean_policy=c["mean"]) if k == "gaussian" else {}))
    equal(net.training, c["train"], "the trained network's mode")
    spoil(net)
    out = [m(*args) for m in (module, reload(module), ActorPredictorUnwrapper(module))]
    random = (k in ("fc", "discrete") and c["noise"]) or k == "dirichlet" or (k == "gaussian" and not c["mean"])
    post = (lambda v: v) if k == "discrete" else (lambda v: served(c, v))
    with torch.no_grad():
        fd = rlt.FeatureData(x)
        for o in out:
            equal(tuple(o.shape), (len(x), a), "one action per row")
            if not random:
                want = ref(fd).squashed_mean if k == "gaussian" else ref.fc(x)
                close(o, post(want.numpy()), "actions", rtol=5e-3, atol=5e-3)
            elif k == "dirichlet":
                close(o.sum(1), np.ones(len(x)), "actions add up to one", rtol=1e-3, atol=1e-3)
                require((o >= 0).all(), "actions are positive")
            elif k == "discrete":
                require((o.abs() <= 1.0 + 1e-5).all(), "noisy actions stay in the training range")
            else:
                s = np.argsort(c["ids"])
                lo, hi = np.array(c["lo"])[s], np.array(c["hi"])[s]
                v = o.numpy().astype(float)
                require((v >= lo - 1e-4).all() and (v <= hi + 1e-4).all(), "actions within their range: %s not in %s %s", v, lo, hi)
                if k == "fc" and c["last"] == "tanh":
                    # noise of standard deviation 0.2 around the mean
                    z = (np.array(v) - post(ref.fc(x).numpy())) / (hi - lo) * 2
                    require(np.abs(z).max() < 0.2 * 7, "noise is as wide as configured: %s", z)
        if random and k == "fc":
            m = ref.fc(x).numpy()
            if c["last"] == "tanh" and len(x) > 1 and (np.abs(m) < 0.4).all():
                z = out[0].numpy() - post(m)
                require(not np.allclose(z[0], z[1], atol=1e-6), "every row has its own noise")
                require(not np.allclose(out[0].numpy(), out[1].numpy(), atol=1e-6), "every call has its own noise")
    rec.nt(missing(c["f"]))
    rec.label(k, "random" if random else "deterministic")


# ---------------------------------------------------------------------- slates
@st.composite
def slate_cases(draw):
    c = draw(K02.cases(max_n=draw(st.sampled_from([5, 9]))))
    rng = rng_of(draw)

    def spec(base, k):
        return [[base + i, dict(feature_type="CONTINUOUS", mean=round(float(rng.uniform(-2, 2)), 2), stddev=round(float(rng.uniform(0.5, 3)), 2))] for i in range(k)]

    b, n = c["b"], c["n"]
    c.update(sspec=spec(1, c["s"]), cspec=spec(50, c["d"]), spres=(rng.rand(b, c["s"]) < 0.8).tolist(), cpres=(rng.rand(b, n, c["d"]) < 0.8).tolist(),
             greedy=draw(st.sampled_from([True, True, False])), reward=draw(st.sampled_from(["gru", "transformer"])), train=draw(st.booleans()))
    return c


def slate_raw(c):
    s = (T(c["state"]), torch.tensor(c["spres"], dtype=torch.uint8))
    d = (T(c["cand"]), torch.tensor(c["cpres"], dtype=torch.uint8))
    x = T(np.array(norm.expected(c["sspec"], c["state"], c["spres"])))
    y = T(np.array([norm.expected(c["cspec"], r, p) for r, p in zip(c["cand"], c["cpres"])]))
    return s, d, x, y


@facet(slate_cases(), quick=36, shards=8)
def slates(case, rec):
    """Ranked slates and slate rewards of normalised states and candidates, for any number of either"""
    import reagent.types as rlt
    from reagent.model_utils.seq2slate_utils import Seq2SlateMode as M
    from reagent.models.seq2slate_reward import Seq2SlateGRURewardNet, Seq2SlateTransformerRewardNet
    from reagent.prediction.predictor_wrapper import Seq2SlatePredictorWrapper, Seq2SlateRewardWithPreprocessor, Seq2SlateWithPreprocessor
    from reagent.preprocessing.preprocessor import Preprocessor

    c = case
    s, d, x, y = slate_raw(c)
    P, C = (Preprocessor(norm.params(k), use_gpu=False) for k in (c["sspec"], c["cspec"]))
    net = K02.net(c)
    wrapper = Seq2SlatePredictorWrapper(Seq2SlateWithPreprocessor(net, P, C, greedy=c["greedy"]))
    b, n = c["b"], c["n"]
    with torch.no_grad():
        for m in (wrapper, reload(wrapper)):
            probs, idx = m(s, d)
            equal(tuple(idx.shape), (b, n), "a full ranking per row")
            equal([sorted(r) for r in idx.tolist()], [list(range(n))] * b, "a permutation of the candidates")
            inp = rlt.PreprocessedRankingInput.from_input(state=x, candidates=y, device=torch.device("cpu"), action=idx)
            if c["greedy"]:
                r = net(inp, mode=M.RANK_MODE, tgt_seq_len=n, greedy=True)
                close(probs, r.ranked_per_seq_probs, "probability of the greedy ranking", **TOL)
            if not c["greedy"] and n > 1:
                lp = net(rlt.PreprocessedRankingInput.from_input(state=x, candidates=y, device=torch.device("cpu"), action=idx), mode=M.PER_SEQ_LOG_PROB_MODE).log_probs
                # forty rankings that are all alike: only when nothing else is likely
                if 40 * float(lp.sum()) < -25:
                    require(any(not torch.equal(m(s, d)[1], idx) for _ in range(40)), "rankings are drawn, not always the same")
            if c["arch"] == "autoregressive" or not c["greedy"]:
                lp = net(inp, mode=M.PER_SEQ_LOG_PROB_MODE).log_probs.reshape(-1, 1)
                close(probs, torch.exp(lp), "probability of the ranking", **TOL)
    kw = dict(state_dim=c["s"], candidate_dim=c["d"], num_stacked_layers=c["layers"], dim_model=c["dm"], max_src_seq_len=n, max_tgt_seq_len=c["k"])
    cls = Seq2SlateGRURewardNet
    if c["reward"] == "transformer":
        cls, kw = Seq2SlateTransformerRewardNet, dict(kw, num_heads=c["heads"], dim_feedforward=c["ff"])
    rn = fill(cls(**kw), c["seed"]).eval()
    w = Seq2SlateRewardWithPreprocessor(rn, P, C)
    equal(list(w.state_sorted_features), [i for i, _ in c["sspec"]], "state features")
    equal(list(w.candidate_sorted_features), [i for i, _ in c["cspec"]], "candidate features")
    traced = torch.jit.trace(w, w.input_prototype(), check_trace=False)
    with torch.no_grad():
        first = torch.arange(c["k"]).repeat(b, 1)
        inp = rlt.PreprocessedRankingInput.from_input(state=x, candidates=y, device=torch.device("cpu"), action=first)
        want = rn(inp).predicted_reward
        for m, what in ((w, "eager"), (traced, "traced"), (reload(traced), "reloaded")):
            close(m(s, d), want, what + " reward of the first candidates as a slate", **TOL)
    rec.nt(b > 1 and n > 1)
    rec.label(c["arch"], c["reward"])


@st.composite
def score_cases(draw):
    rng = rng_of(draw)
    b, n, s, d = (draw(st.integers(1, k)) for k in (3, 4, 3, 3))

    def spec(base, k):
        return [[base + i, dict(feature_type="CONTINUOUS", mean=round(float(rng.uniform(-2, 2)), 2), stddev=round(float(rng.uniform(0.5, 3)), 2))] for i in range(k)]

    return dict(b=b, n=n, s=s, d=d, sspec=spec(1, s), cspec=spec(50, d), state=arr(rng, (b, s)), cand=arr(rng, (b, n, d)), spres=(rng.rand(b, s) < 0.8).tolist(),
                cpres=(rng.rand(b, n, d) < 0.8).tolist(), concat=draw(st.booleans()), log=draw(st.integers(0, 3)) == 0, sizes=draw(st.lists(st.integers(1, 5), max_size=2)),
                seed=draw(st.integers(0, 2**31 - 1)))


@facet(score_cases(), quick=60, shards=4)
def scores(case, rec):
    """Scores of a slate's candidates, from raw states and candidates, for any number of either"""
    from reagent.models.mlp_scorer import MLPScorer
    from reagent.prediction.predictor_wrapper import LearnVMSlateWithPreprocessor
    from reagent.preprocessing.preprocessor import Preprocessor

    c = case
    s, d, x, y = slate_raw(c)
    P, C = (Preprocessor(norm.params(k), use_gpu=False) for k in (c["sspec"], c["cspec"]))
    net = fill(MLPScorer(input_dim=c["d"] + c["s"] * c["concat"], layer_sizes=list(c["sizes"]), concat=c["concat"], log_transform=c["log"]), c["seed"]).eval()
    w = LearnVMSlateWithPreprocessor(net, P, C)
    v, u = x.double().numpy(), y.double().numpy()
    if c["log"]:
        v, u = (np.log(np.maximum(a, 1e-12)) for a in (v, u))
    layers = [m for m in net.mlp if hasattr(m, "weight")]
    want = []
    for i in range(c["b"]):
        row = []
        for j in range(c["n"]):
            h = np.concatenate([v[i], u[i, j]]) if c["concat"] else u[i, j]
            for k, m in enumerate(layers):
                h = m.weight.detach().double().numpy() @ h + m.bias.detach().double().numpy()
                if k + 1 < len(layers):
                    h = np.maximum(h, 0)
            row.append(float(h[0]))
        want.append(row)
    with torch.no_grad():
        close(w(s, d), want, "scores of candidates", rtol=1e-3, atol=1e-3)
    rec.nt(c["b"] > 1 and c["n"] > 1)


# -------------------------------------------------------------- sequence models
@st.composite
def plan_cases(draw):
    c = draw(W02.cases())
    rng = rng_of(draw)
    b = c["b"]
    c.update(spec=[[7 * i + 1, dict(feature_type="CONTINUOUS", mean=round(float(rng.uniform(-2, 2)), 2), stddev=round(float(rng.uniform(0.5, 3)), 2))] for i in range(c["s"])],
             rows=arr(rng, (b, c["s"])), pres=(rng.rand(b, c["s"]) < 0.8).tolist())
    return c


@facet(plan_cases(), quick=70, shards=4)
def plans(case, rec):
    """Planned values of Seq2Reward (full and variable look-ahead) and the compressed model's values"""
    import reagent.types as rlt
    from reagent.models.fully_connected_network import FullyConnectedNetwork
    from reagent.prediction import predictor_wrapper as W
    from reagent.preprocessing.preprocessor import Preprocessor

    c = case
    P = Preprocessor(norm.params(c["spec"]), use_gpu=False)
    net = W02.build(c)
    x = dense(c).double().numpy()
    names = [f"{"dbca"[i % 4]}{i}" for i in range(c["a"])]
    q = [W02.plan(net, dict(c, t=t), x) for t in range(1, c["t"] + 1)]
    rng = np.random.RandomState(c["seed"] // 2)
    step = randomise(FullyConnectedNetwork([c["s"], c["t"]], ["linear"]), rng)
    fc = randomise(FullyConnectedNetwork([c["s"], c["a"]], ["tanh"]), rng)
    with torch.no_grad():
        lg = step(T(x)).double().numpy()
        p = np.exp(lg) / np.exp(lg).sum(1, keepdims=True)
        comp = fc(T(x))
    cfg = rlt.ModelFeatureConfig(float_feature_infos=[rlt.FloatFeatureInfo(name=str(i), feature_id=i) for i, _ in c["spec"]])
    sd = rlt.ServingFeatureData(raw(c), W.FAKE_STATE_ID_LIST_FEATURES, W.FAKE_STATE_ID_SCORE_LIST_FEATURES)
    for what, m, want in (("full look-ahead", W.Seq2RewardWithPreprocessor(net, P, c["t"], c["a"]), q[-1]),
                          ("variable look-ahead", W.Seq2RewardPlanShortSeqWithPreprocessor(net, step, P, c["t"], c["a"]), sum(p[:, [i]] * q[i] for i in range(c["t"]))),
                          ("compressed", W.CompressModelWithPreprocessor(fc, P, cfg), comp)):
        w = W.DiscreteDqnPredictorWrapper(m, names, cfg)
        for mod in (w, reload(w)) if what == "variable look-ahead" else (w,):
            got = mod(sd)
            equal(list(got[0]), names, what + " action names")
            close(got[1], want, what, **TOL)
    rec.nt(c["b"] > 1 and c["t"] > 1 and c["a"] > 1)


@st.composite
def world_cases(draw):
    c = draw(W01.nets())
    rng = rng_of(draw)
    w = c["t"] * c["s"]
    c.update(spec=[[i + 1, dict(feature_type="CONTINUOUS", mean=round(float(rng.uniform(-2, 2)), 2), stddev=round(float(rng.uniform(0.5, 3)), 2))] for i in range(w)],
             rows=arr(rng, (c["b"], w)), pres=(rng.rand(c["b"], w) < 0.8).tolist())
    return c


@facet(world_cases(), quick=80, shards=2)
def world(case, rec):
    """The world model's outputs for a window of normalised states, laid out step by step in each row"""
    from reagent.prediction.predictor_wrapper import MDNRNNWithPreprocessor
    from reagent.preprocessing.preprocessor import Preprocessor

    c = case
    net = W01.build(c)
    m = MDNRNNWithPreprocessor(net.mdnrnn, Preprocessor(norm.params(c["spec"]), use_gpu=False), c["t"], c["a"])
    out = m(raw(c), T(c["action"]))
    x = dense(c).double().numpy().reshape(c["b"], c["t"], c["s"]).transpose(1, 0, 2)
    e = W01.expected(net, c, x, c["action"])
    for i, k in enumerate(("mus", "sigmas", "logpi", "reward", "not_terminal")):
        close(out[i], e[k], k, **TOL)
    rec.nt(c["t"] > 1 and c["b"] > 1)
