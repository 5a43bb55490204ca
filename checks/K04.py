"""Ranking inputs, masks, sequence probabilities and slate reward networks."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from models.nets import T, arr, rng_of
from vlib.core import close, equal, facet, raises, require, same

RULE = ("a case is a batch of states, candidates and slates (or logits / masks for one helper); non-trivial = slates of two "
        "or more items, or networks evaluated on two or more items")


@st.composite
def rank_cases(draw):
    rng = rng_of(draw)
    b, n, s, d = draw(st.integers(1, 4)), draw(st.integers(1, 6)), draw(st.integers(1, 3)), draw(st.integers(1, 3))
    k, ko = draw(st.integers(1, n)), draw(st.integers(1, n))
    return dict(b=b, n=n, s=s, d=d, k=k, ko=ko, state=arr(rng, (b, s)), cand=arr(rng, (b, n, d)),
                act=draw(st.one_of(st.none(), st.just([rng.permutation(n)[:k].tolist() for _ in range(b)]))),
                opt=draw(st.one_of(st.none(), st.just([rng.permutation(n)[:ko].tolist() for _ in range(b)]))),
                prop=draw(st.one_of(st.none(), st.just(arr(rng, (b, 1), 0.01, 1)))),
                reward=draw(st.one_of(st.none(), st.just(arr(rng, (b, 1))))),
                pos=draw(st.one_of(st.none(), st.just(arr(rng, (b, k))))))


@facet(rank_cases(), quick=600, shards=3)
def from_input(case, rec):
    import reagent.types as rlt

    c = case
    opt = lambda x, dt=torch.float32: None if x is None else torch.tensor(x, dtype=dt)  # noqa
    kw = dict(state=T(c["state"]), candidates=T(c["cand"]), device=torch.device("cpu"), action=opt(c["act"], torch.int64),
              optimal_action=opt(c["opt"], torch.int64), logged_propensities=opt(c["prop"]), slate_reward=opt(c["reward"]),
              position_reward=opt(c["pos"]) if c["act"] is not None else None)
    keep = {k: v.clone() for k, v in kw.items() if isinstance(v, torch.Tensor)}
    out = rlt.PreprocessedRankingInput.from_input(**kw)
    for k, v in keep.items():
        same(kw[k], v, f"input {k} afterwards")
    same(out.state.float_features, kw["state"], "state")
    same(out.src_seq.float_features, kw["candidates"], "candidates")
    same(out.src_in_idx, [[2 + i for i in range(c["n"])]] * c["b"], "candidate symbols")
    equal(list(out.src_src_mask.shape), [c["b"], c["n"], c["n"]], "shape of the candidate mask")
    require(bool((out.src_src_mask != 0).all()), "candidates attend to each other")
    equal(out.batch_size(), c["b"], "batch size")
    for pre, act in (("", c["act"]), ("optim_", c["opt"])):
        g = lambda f: getattr(out, pre + f)  # noqa
        if act is None:
            for f in ("tgt_in_idx", "tgt_out_idx", "tgt_in_seq", "tgt_out_seq"):
                equal(g(f), None, pre + f)
            continue
        k = len(act[0])
        same(g("tgt_out_idx"), [[2 + j for j in r] for r in act], pre + "tgt_out_idx")
        same(g("tgt_in_idx"), [[1] + [2 + j for j in r[:-1]] for r in act], pre + "tgt_in_idx")
        seq = np.array([[c["cand"][i][j] for j in r] for i, r in enumerate(act)], dtype=np.float32)
        same(g("tgt_out_seq").float_features, seq, pre + "tgt_out_seq")
        same(g("tgt_in_seq").float_features, np.concatenate([np.zeros((c["b"], 1, c["d"]), np.float32), seq[:, :-1]], 1),
             pre + "tgt_in_seq")
        rec.nt(k > 1)
    if c["act"] is not None:
        k = c["k"]
        m = out.tgt_tgt_mask
        require(bool(((m != 0) == torch.tensor(np.tril(np.ones((k, k), bool)))).all()) and list(m.shape[-2:]) == [k, k],
                "slate mask: an item sees itself and the items before it")
    else:
        equal(out.tgt_tgt_mask, None, "slate mask")
    for f, k in (("tgt_out_probs", "logged_propensities"), ("slate_reward", "slate_reward"), ("position_reward", "position_reward")):
        if kw[k] is None:
            equal(getattr(out, f), None, f)
        else:
            same(getattr(out, f), kw[k], f)
    bad = dict(kw)
    which = (c["b"] + c["n"] + c["s"]) % 3
    if which == 0:
        bad["state"] = bad["state"].reshape(-1)
    elif which == 1:
        bad["candidates"] = bad["candidates"].reshape(c["b"], -1)
    else:
        bad["slate_reward"] = torch.zeros(c["b"])
    raises(Exception, lambda: rlt.PreprocessedRankingInput.from_input(**bad), "malformed input")


@st.composite
def idx_cases(draw):
    rng = rng_of(draw)
    b, n, h = draw(st.integers(1, 3)), draw(st.integers(1, 6)), draw(st.integers(1, 3))
    k = draw(st.integers(1, n))
    out = [(rng.permutation(n)[:k] + 2).tolist() for _ in range(b)]
    return dict(b=b, n=n, k=k, heads=h, out=out, logits=arr(rng, (b, k, n + 2)), dm=draw(st.integers(1, 3)),
                pad=[int(rng.randint(0, k)) for _ in range(b)])


@facet(idx_cases(), quick=800, shards=2)
def masks(case, rec):
    from reagent.model_utils import seq2slate_utils as u

    c = case
    b, n, k, h = c["b"], c["n"], c["k"], c["heads"]
    tin = torch.tensor([[1] + r[:-1] for r in c["out"]])
    got = u.mask_logits_by_idx(T(c["logits"]), tin)
    exp = np.array(c["logits"], np.float32)
    for i in range(b):
        for t in range(k):
            exp[i, t, [0, 1] + c["out"][i][:t]] = -np.inf
    same(got, exp, "masked logits")
    tt, ts = u.pytorch_decoder_mask(torch.zeros(b, n, c["dm"]), tin, h)
    equal(list(tt.shape), [b * h, k, k], "shape of the decoder's self mask")
    equal(list(ts.shape), [b * h, k, n], "shape of the decoder's source mask")
    for i in range(b):
        for a in range(h):
            for t in range(k):
                same(tt[i * h + a, t] != 0, [s > t for s in range(k)], "positions hidden from a step")
                same(ts[i * h + a, t] != 0, [(j + 2) in c["out"][i][:t] for j in range(n)], "candidates hidden from a step")
    same(u.subsequent_mask(k, torch.device("cpu"))[0] != 0, np.tril(np.ones((k, k), bool)), "subsequent mask")
    pin = torch.tensor([[0 if t >= k - p else v for t, v in enumerate(r)] for r, p in zip(tin.tolist(), c["pad"])])
    same(u.subsequent_and_padding_mask(pin) != 0,
         [[[s <= t and pin[i, s].item() != 0 for s in range(k)] for t in range(k)] for i in range(b)], "padding mask")
    lp = torch.log_softmax(torch.tensor(c["logits"], dtype=torch.float64), 2)
    to = torch.tensor(c["out"])
    e = np.array([[sum(float(lp[i, t, c["out"][i][t]]) for t in range(k))] for i in range(b)])
    close(u.per_symbol_to_per_seq_log_probs(lp, to), e, "sequence log-probability", rtol=1e-6)
    close(u.per_symbol_to_per_seq_probs(lp.exp(), to), np.exp(e), "sequence probability", rtol=1e-6, atol=0)
    z = u.per_symbol_to_per_seq_probs(torch.zeros(b, k, n + 2), to)
    require(bool((z > 0).all()) and bool((z < 1e-30).all()), "an impossible sequence keeps a finite log-probability")
    rec.nt(k > 1)


@st.composite
def attn_cases(draw):
    rng = rng_of(draw)
    b, h, q, k, d = (draw(st.integers(1, 3)) for _ in range(5))
    m = (rng.rand(b, 1, q, k) < 0.6).astype(int)
    m[..., 0] = 1
    return dict(q=arr(rng, (b, h, q, d)), k=arr(rng, (b, h, k, d)), v=arr(rng, (b, h, k, d)), m=m.tolist(), d=d)


@facet(attn_cases(), quick=400, shards=2)
def attention(case, rec):
    from reagent.model_utils.seq2slate_utils import attention as f

    c = case
    q, k, v, m = (np.array(c[x], np.float64) for x in "qkvm")
    out, p = f(T(c["q"]), T(c["k"]), T(c["v"]), torch.tensor(c["m"]), c["d"])
    e = np.zeros_like(q)
    ep = np.zeros(q.shape[:3] + (k.shape[2],))
    for i in np.ndindex(*q.shape[:3]):
        ok = [j for j in range(k.shape[2]) if m[i[0], 0, i[2], j]]
        s = np.array([float(q[i] @ k[i[0], i[1], j]) / math.sqrt(c["d"]) for j in ok])
        w = np.exp(s - s.max())
        w /= w.sum()
        for j, x in zip(ok, w):
            ep[i + (j,)] = x
            e[i] += x * v[i[0], i[1], j]
    close(p, ep, "attention weights", rtol=1e-3)
    close(out, e, "attention output", rtol=1e-3, atol=1e-4)
    rec.nt(k.shape[2] > 1 and bool((m == 0).any()))


# ------------------------------------------------------------ reward networks
def lin(p, name, x):
    return x @ p[name + ".weight"].T + p[name + ".bias"]


def sigmoid(x):
    return 1 / (1 + np.exp(-x))


def ln(p, name, x):
    m = x.mean(-1, keepdims=True)
    v = ((x - m) ** 2).mean(-1, keepdims=True)
    return (x - m) / np.sqrt(v + 1e-5) * p[name + ".weight"] + p[name + ".bias"]


def mha(p, name, q, kv, mask, heads):
    dm = q.shape[-1]
    d = dm // heads
    Q, K, V = (lin(p, f"{name}.linears.{i}", x) for i, x in enumerate((q, kv, kv)))
    out = np.zeros_like(Q)
    for h in range(heads):
        sl = slice(h * d, (h + 1) * d)
        s = Q[:, sl] @ K[:, sl].T / math.sqrt(d)
        s = np.where(mask, s, -np.inf)
        w = np.exp(s - s.max(1, keepdims=True))
        w /= w.sum(1, keepdims=True)
        out[:, sl] = w @ V[:, sl]
    return lin(p, f"{name}.linears.3", out)


def ff(p, name, x):
    return lin(p, name + ".net.2", np.maximum(lin(p, name + ".net.0", x), 0))


def posenc(p, name, x):
    """each item's position joins its features and is projected back"""
    x = np.concatenate([x, np.arange(len(x), dtype=float)[:, None]], 1)
    return np.maximum(lin(p, name + ".pos_embed", x), 0)


def gru_reward(p, c, i, L):
    dm = c["dm"]
    slate = c["act"][i]
    seq = [c["cand"][i][j] for j in slate] + [c["cand"][i][j] for j in range(c["n"]) if j not in slate]
    seq = np.array(seq + [p["end_of_seq_vec"].tolist()])
    sc = math.sqrt(dm // 2)
    se = lin(p, "state_embedder.linear", np.array(c["state"][i])) * sc
    x = np.concatenate([np.tile(se, (len(seq), 1)), lin(p, "candidate_embedder.linear", seq) * sc], 1)
    for l in range(L):
        h = np.zeros(dm)
        out = []
        for t in range(len(seq)):
            gi = p[f"gru.weight_ih_l{l}"] @ x[t] + p[f"gru.bias_ih_l{l}"]
            gh = p[f"gru.weight_hh_l{l}"] @ h + p[f"gru.bias_hh_l{l}"]
            r, z = sigmoid(gi[:dm] + gh[:dm]), sigmoid(gi[dm:2 * dm] + gh[dm:2 * dm])
            nn_ = np.tanh(gi[2 * dm:] + r * gh[2 * dm:])
            h = (1 - z) * nn_ + z * h
            out.append(h)
        x = np.array(out)
    s = x @ h / math.sqrt(c["d"])
    w = np.exp(s - s.max())
    w /= w.sum()
    return float(lin(p, "proj", np.concatenate([h, w @ x]))[0])


def transformer_reward(p, c, i, L):
    dm, heads = c["dm"], c["heads"]
    sc = math.sqrt(dm // 2)
    se = lin(p, "state_embedder.linear", np.array(c["state"][i])) * sc

    def embed(seq, which):
        return posenc(p, "positional_encoding_" + which, np.concatenate([np.tile(se, (len(seq), 1)), lin(p, "candidate_embedder.linear", np.array(seq)) * sc], 1))

    x = embed(c["cand"][i], "encoder")
    full = np.ones((len(x), len(x)), bool)
    for l in range(L):
        a = f"encoder.layers.{l}"
        y = ln(p, a + ".sublayer.0.norm", x)
        x = x + mha(p, a + ".self_attn", y, y, full, heads)
        x = x + ff(p, a + ".feed_forward", ln(p, a + ".sublayer.1.norm", x))
    mem = ln(p, "encoder.norm", x)
    x = embed([p["decoder_start_vec"].tolist()] + [c["cand"][i][j] for j in c["act"][i]], "decoder")
    tri = np.tril(np.ones((len(x), len(x)), bool))
    for l in range(L):
        a = f"decoder.layers.{l}"
        y = ln(p, a + ".sublayer.0.norm", x)
        x = x + mha(p, a + ".self_attn", y, y, tri, heads)
        x = x + mha(p, a + ".src_attn", ln(p, a + ".sublayer.1.norm", x), mem, np.ones((len(x), len(mem)), bool), heads)
        x = x + ff(p, a + ".feed_forward", ln(p, a + ".sublayer.2.norm", x))
    return float(lin(p, "proj", ln(p, "decoder.norm", x)[-1])[0])


@st.composite
def net_cases(draw):
    rng = rng_of(draw)
    b, n, s, d = draw(st.integers(1, 3)), draw(st.integers(1, 5)), draw(st.integers(1, 3)), draw(st.integers(1, 3))
    k = draw(st.integers(1, n))
    heads = draw(st.sampled_from([1, 2]))
    return dict(b=b, n=n, s=s, d=d, k=k, kind=draw(st.sampled_from(["gru", "transformer"])), heads=heads,
                dm=draw(st.sampled_from([4, 8])), ff=draw(st.integers(1, 6)), layers=draw(st.integers(1, 2)), seed=draw(st.integers(0, 10**6)),
                state=arr(rng, (b, s)), cand=arr(rng, (b, n, d)), act=[rng.permutation(n)[:k].tolist() for _ in range(b)])


@facet(net_cases(), quick=400, shards=4)
def slate_reward_nets(case, rec):
    import reagent.types as rlt
    from reagent.models.seq2slate_reward import (
        Seq2SlateGRURewardNet, Seq2SlateRewardNetJITWrapper, Seq2SlateTransformerRewardNet)

    c = case
    torch.manual_seed(c["seed"])
    kw = dict(state_dim=c["s"], candidate_dim=c["d"], num_stacked_layers=c["layers"], dim_model=c["dm"],
              max_src_seq_len=c["n"], max_tgt_seq_len=c["k"])
    if c["kind"] == "gru":
        net, oracle = Seq2SlateGRURewardNet(**kw), gru_reward
    else:
        net, oracle = Seq2SlateTransformerRewardNet(num_heads=c["heads"], dim_feedforward=c["ff"], **kw), transformer_reward
    with torch.no_grad():
        for q in net.parameters():
            q.add_(torch.randn_like(q) * 0.3)
    net.eval()
    p = {k: v.double().numpy() for k, v in net.state_dict().items()}
    inp = rlt.PreprocessedRankingInput.from_input(state=T(c["state"]), candidates=T(c["cand"]), device=torch.device("cpu"),
                                                  action=torch.tensor(c["act"]))
    with torch.no_grad():
        got = net(inp).predicted_reward
        wrap = Seq2SlateRewardNetJITWrapper(net)(inp.state.float_features, inp.src_seq.float_features,
                                                 inp.tgt_out_seq.float_features, inp.src_src_mask, inp.tgt_out_idx)
    close(got, [[oracle(p, c, i, c["layers"])] for i in range(c["b"])], "predicted slate reward", rtol=2e-3, atol=1e-3)
    same(wrap, got, "reward through the wrapper")
    par = dict(net.named_parameters())
    equal(len(list(net.named_parameters(remove_duplicate=False))), len(par), "parameters, each used by one layer")
    # a parameter that matters receives a gradient
    net(inp).predicted_reward.sum().backward()
    for k in np.random.RandomState(c["seed"]).permutation(sorted(par))[:4]:
        with torch.no_grad():
            par[k].add_(0.2)
            moved = float((net(inp).predicted_reward - got).abs().max()) > 1e-4
            par[k].sub_(0.2)
        if moved:
            require(par[k].grad is not None, "the reward depends on %s, which gets no gradient", k)
    rec.nt(c["k"] > 1 and c["n"] > c["k"])
    rec.label(c["kind"])
