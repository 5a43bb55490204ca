"""Seq2Slate networks: decoded slates and their probabilities."""
import itertools
import math

import numpy as np
import torch
from hypothesis import strategies as st

from checks import K01
from models.nets import T, arr, rng_of
from vlib.core import Inconclusive, close, equal, facet, require

RULE = ("a case is a small Seq2Slate network (any output architecture, seeded weights), a batch of states and "
        "candidates, a slate length; non-trivial = two or more items shown out of three or more")


@st.composite
def cases(draw, archs=("autoregressive", "frechet_sort"), max_n=5):
    rng = rng_of(draw)
    b, n, s, d = draw(st.integers(1, 3)), draw(st.integers(1, max_n)), draw(st.integers(1, 3)), draw(st.integers(1, 3))
    heads = draw(st.sampled_from([1, 2]))
    return dict(b=b, n=n, s=s, d=d, k=draw(st.integers(1, n)), arch=draw(st.sampled_from(archs)), heads=heads,
                layers=draw(st.integers(1, 2)), dm=draw(st.sampled_from([4, 8])), ff=draw(st.sampled_from([4, 8])),
                se=draw(st.sampled_from([None, 1, 3])), seed=draw(st.integers(0, 10**6)),
                scale=draw(st.sampled_from([1.0, 3.0])),
                state=arr(rng, (b, s)), cand=arr(rng, (b, n, d)), act=[rng.permutation(n).tolist() for _ in range(b)])


def net(c, wrap=True):
    from reagent.models.seq2slate import Seq2SlateOutputArch, Seq2SlateTransformerNet

    torch.manual_seed(c["seed"])
    m = Seq2SlateTransformerNet(
        state_dim=c["s"], candidate_dim=c["d"], num_stacked_layers=c["layers"], dim_model=c["dm"],
        max_src_seq_len=c["n"], max_tgt_seq_len=c["k"], output_arch=Seq2SlateOutputArch(c["arch"]), temperature=1.0,
        num_heads=c["heads"], dim_feedforward=c["ff"], state_embed_dim=c["se"])
    with torch.no_grad():
        for p in m.parameters():
            p.mul_(c["scale"])
            if p.dim() == 1:
                p.add_(torch.randn_like(p) * 0.3)
    return m.eval()


def batch(c, act=None, state=None, cand=None):
    import reagent.types as rlt

    act = torch.tensor([a[: c["k"]] for a in (act or c["act"])])
    return rlt.PreprocessedRankingInput.from_input(
        state=T(c["state"] if state is None else state), candidates=T(c["cand"] if cand is None else cand),
        device=torch.device("cpu"), action=act)


def _modes():
    from reagent.model_utils.seq2slate_utils import Seq2SlateMode as M

    return M


@torch.no_grad()
def dist(m, b):
    """Per-symbol distributions of the given sequences, as probabilities."""
    return m(b, mode=_modes().PER_SYMBOL_LOG_PROB_DIST_MODE).log_probs.double().exp()


@torch.no_grad()
def seqlp(m, b):
    return m(b, mode=_modes().PER_SEQ_LOG_PROB_MODE).log_probs.double()


@facet(cases(max_n=8), quick=400, shards=4)
def ranked_slates(case, rec):
    c = case
    m = net(c)
    b = batch(c)
    for greedy in (False, True):
        torch.manual_seed(c["seed"] + 1)
        with torch.no_grad():
            out = m(b, mode=_modes().RANK_MODE, tgt_seq_len=c["k"], greedy=greedy)
        idx = out.ranked_tgt_out_idx
        equal(list(idx.shape), [c["b"], c["k"]], "shape of the ranked slate")
        p = out.ranked_per_symbol_probs.double()
        equal(list(p.shape), [c["b"], c["k"], c["n"] + 2], "shape of the per-symbol probabilities")
        for i, row in enumerate(idx.tolist()):
            require(len(set(row)) == c["k"] and all(2 <= j < c["n"] + 2 for j in row), f"slate {row} repeats or invents items")
            prod = 1.0
            for t, j in enumerate(row):
                close(p[i, t].sum(), 1.0, "probabilities of one step", rtol=1e-3)
                gone = [0, 1] + row[:t]
                close(p[i, t][gone], np.zeros(len(gone)), "probability of padding, start and already shown items", atol=1e-6)
                if greedy:
                    require(float(p[i, t, j]) >= float(p[i, t].max()) - 1e-6, "greedy decoding does not pick the likeliest item")
                prod *= float(p[i, t, j])
            close(out.ranked_per_seq_probs[i], [prod], "probability of the slate", rtol=1e-3, atol=1e-7)
        # the same probabilities when the slate is given instead of decoded
        again = batch(c, act=(idx - 2).tolist())
        close(dist(m, again), p, "per-symbol probabilities of the decoded slate", rtol=1e-3, atol=1e-4)
        if float(out.ranked_per_seq_probs.min()) > 1e-5:
            close(seqlp(m, again), out.ranked_per_seq_probs.double().log(), "log-probability of the decoded slate", rtol=2e-3, atol=2e-3)
    rec.nt(c["k"] > 1 and c["n"] > 2)
    rec.label(c["arch"])


@facet(cases(max_n=4), quick=100, shards=3)
def probabilities_sum_to_one(case, rec):
    c = case
    m = net(c)
    tot = torch.zeros(c["b"], 1, dtype=torch.float64)
    for p in itertools.permutations(range(c["n"]), c["k"]):
        tot += seqlp(m, batch(c, act=[list(p)] * c["b"])).exp()
    close(tot, np.ones((c["b"], 1)), "total probability of all slates", rtol=2e-3)
    rec.nt(c["k"] > 1 and c["n"] > 2)


@facet(cases(max_n=8), quick=300, shards=3)
def causality_and_independence(case, rec):
    """Step k depends only on the items before it; a row only on itself; item order in the input is immaterial."""
    c = case
    m = net(c)
    base = dist(m, batch(c))
    rng = np.random.RandomState(c["seed"])
    # change the items from position t on
    t = rng.randint(c["k"])
    act = [a[:t] + rng.permutation(a[t:]).tolist() for a in c["act"]]
    close(dist(m, batch(c, act=act))[:, : t + 1], base[:, : t + 1], f"distributions up to step {t} after changing what follows", atol=1e-4, rtol=1e-3)
    # change every other row
    if c["b"] > 1:
        st2, cd2 = np.array(c["state"]), np.array(c["cand"])
        st2[1:] += 1.0
        cd2[1:] -= 1.0
        close(dist(m, batch(c, state=st2.tolist(), cand=cd2.tolist()))[:1], base[:1], "row 0 after changing the other rows", atol=1e-4, rtol=1e-3)
    one = dict(c, b=1, state=c["state"][-1:], cand=c["cand"][-1:], act=c["act"][-1:])
    close(dist(m, batch(one)), base[-1:], "the last row alone", atol=1e-4, rtol=1e-3)
    # reorder the candidates
    perm = rng.permutation(c["n"])
    inv = np.argsort(perm)
    pd = dist(m, batch(c, act=[[int(inv[j]) for j in a] for a in c["act"]], cand=np.array(c["cand"])[:, perm].tolist()))
    order = [0, 1] + [2 + int(inv[j]) for j in range(c["n"])]
    close(pd[:, :, order], base, "distributions after listing the candidates in another order", atol=2e-4, rtol=2e-3)
    # the whole-slate probability is the product of the steps
    g = torch.gather(base, 2, torch.tensor([a[: c["k"]] for a in c["act"]]).unsqueeze(2) + 2).squeeze(2)
    if float(g.min()) > 1e-3:
        close(seqlp(m, batch(c)), g.log().sum(1, keepdim=True), "log-probability of the slate", rtol=2e-3, atol=2e-3)
    rec.nt(c["k"] > 1 and c["n"] > 2)
    rec.label(c["arch"])


@facet(cases(archs=("frechet_sort",)), quick=150, shards=2)
def frechet_arch(case, rec):
    """With the Frechet-sort output the slate distribution is Plackett-Luce over the encoder scores."""
    c = case
    m = net(c)
    with torch.no_grad():
        sc = m.seq2slate.encoder_scorer(m.seq2slate.encode(T(c["state"]), T(c["cand"]))).squeeze(2).double().numpy()
    exp = [K01.log_prob(list(np.exp(sc[i] - sc[i].max())), c["act"][i], c["k"]) for i in range(c["b"])]
    if sc.max() - sc.min() > 60 or min(exp) < -80:
        raise Inconclusive("extreme scores")
    logs = m(batch(c), mode=_modes().PER_SYMBOL_LOG_PROB_DIST_MODE).log_probs.detach().double()
    idx = torch.tensor([a[: c["k"]] for a in c["act"]]).unsqueeze(2) + 2
    close(torch.gather(logs, 2, idx).sum((1, 2)), exp, "sum of the steps' log-probabilities", rtol=2e-3, atol=2e-3)
    close(seqlp(m, batch(c)).reshape(-1), exp, "log-probability of the slate", rtol=2e-3, atol=2e-3)
    rec.nt(c["k"] > 1 and c["n"] > 2)


@facet(cases(archs=("encoder_score",)), quick=300, shards=2)
def encoder_score_arch(case, rec):
    """Without a decoder the slate is the candidates sorted by score, and scoring a slate returns its items' scores."""
    c = case
    m = net(c)
    with torch.no_grad():
        sc = m.seq2slate.encoder_scorer(m.seq2slate.encode(T(c["state"]), T(c["cand"]))).squeeze(2).double().numpy()
        got = m(batch(c), mode=_modes().ENCODER_SCORE_MODE).encoder_scores
        out = m(batch(c), mode=_modes().RANK_MODE, tgt_seq_len=c["k"], greedy=True)
    close(got, [[sc[i][j] for j in c["act"][i][: c["k"]]] for i in range(c["b"])], "scores of the slate", rtol=1e-3, atol=1e-4)
    for i, row in enumerate(out.ranked_tgt_out_idx.tolist()):
        s = sc[i][[j - 2 for j in row]]
        require(len(set(row)) == c["k"], "repeated items")
        close(s, np.sort(sc[i])[::-1][: c["k"]], "scores of the ranked items", rtol=1e-3, atol=1e-4)
        close(out.ranked_per_symbol_probs[i], np.eye(c["n"] + 2)[row], "a fixed ranking has probability one")
    close(out.ranked_per_seq_probs, np.ones((c["b"], 1)), "probability of the slate")
    rec.nt(c["k"] > 1 and c["n"] > 2)


@facet(cases(max_n=3), quick=12, shards=2)
def sampling_frequencies(case, rec):
    c = dict(case, b=1)
    N = 4000
    m = net(c)
    import reagent.types as rlt

    one = dict(c, state=c["state"][:1], cand=c["cand"][:1], act=c["act"][:1])
    rep = dict(one, b=N, state=c["state"][:1] * N, cand=c["cand"][:1] * N, act=c["act"][:1] * N)
    torch.manual_seed(c["seed"])
    with torch.no_grad():
        idx = m(batch(rep), mode=_modes().RANK_MODE, tgt_seq_len=c["k"], greedy=False).ranked_tgt_out_idx - 2
    rows = [tuple(r) for r in idx.tolist()]
    for p in itertools.permutations(range(c["n"]), c["k"]):
        q = math.exp(float(seqlp(m, batch(one, act=[list(p)]))))
        k = rows.count(p)
        require(abs(k - N * q) <= 8 * math.sqrt(N * q * (1 - q)) + 3, "slate %s decoded %d times of %d, expected %.1f", p, k, N, N * q)
    rec.nt(c["n"] > 1)
