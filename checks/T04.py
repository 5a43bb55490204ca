"""SlateQ target decomposition."""
import numpy as np
import torch
from hypothesis import strategies as st

from models import nets
from models.nets import T, arr, rng_of
from vlib.core import close, equal, facet, raises, require

RULE = ("a case is a batch of slates over per-row candidate lists (absent candidates, unobserved items, "
        "terminal rows with meaningless next slates), network weights and the discount; non-trivial = a "
        "non-terminal row with gamma > 0 and a slate of two or more items")


@st.composite
def cases(draw):
    rng = rng_of(draw)
    b, s, d, n = draw(st.integers(1, 4)), draw(st.integers(1, 3)), draw(st.integers(1, 3)), draw(st.integers(1, 5))
    k = draw(st.integers(1, n))
    nt = draw(st.lists(st.integers(0, 1), min_size=b, max_size=b))
    act = [rng.permutation(n)[:k].tolist() for _ in range(b)]
    nact = [rng.permutation(n)[:k].tolist() if nt[i] else rng.choice([-1, 0, 99], k).tolist() for i in range(b)]
    mask, nmask = (rng.rand(b, n) < 0.5), (rng.rand(b, n) < 0.5)
    for i in range(b):
        mask[i, act[i]] = True
        if nt[i]:
            nmask[i, nact[i]] = True
        else:
            nmask[i, 0] = True  # the filler slate of a terminal row
    nvalue = np.array(arr(rng, (b, n), 0, 2))
    if draw(st.booleans()):
        # choice scores that happen to add up to one over the next slate (what a model's probabilities do)
        for i in range(b):
            if nt[i]:
                nvalue[i, nact[i]] = rng.dirichlet(np.ones(k)).round(3)
                nvalue[i, nact[i][0]] += 1 - nvalue[i, nact[i]].sum()
    nvalue = nvalue.tolist()
    rmask = rng.rand(b, k) < 0.7
    rmask[rng.randint(b), rng.randint(k)] = True
    return dict(b=b, s=s, d=d, n=n, k=k, state=arr(rng, (b, s)), next_state=arr(rng, (b, s)),
                docs=arr(rng, (b, n, d)), ndocs=arr(rng, (b, n, d)), mask=mask.tolist(), nmask=nmask.tolist(),
                value=arr(rng, (b, n), 0, 2), nvalue=nvalue, action=act, next_action=nact,
                reward=arr(rng, (b, k)), rmask=rmask.tolist(), not_terminal=nt, w=arr(rng, (s, d)),
                wt=arr(rng, (s, d)), gamma=draw(st.sampled_from([0.0, 0.5, 0.9, 1.0])), single=draw(st.booleans()))


def slate_trainer(c, maxq=False):
    from reagent.parameters import RLParameters
    from reagent.training.slate_q_trainer import SlateQTrainer

    tr = SlateQTrainer(nets.Bil(c["w"]), nets.Bil(c["wt"]),
                       rl=RLParameters(gamma=c["gamma"], maxq_learning=maxq), single_selection=c["single"])
    return tr, nets.instrument(tr)


def slate_batch(c):
    import reagent.types as rlt

    fd = lambda s, d, m, v: rlt.FeatureData(  # noqa: E731
        T(c[s]), candidate_docs=rlt.DocList(T(c[d]), torch.tensor(c[m]), T(c[v])))
    return rlt.SlateQInput(
        state=fd("state", "docs", "mask", "value"), next_state=fd("next_state", "ndocs", "nmask", "nvalue"),
        reward=T(c["reward"]), time_diff=torch.ones(c["b"], 1), step=None,
        not_terminal=T(c["not_terminal"]).reshape(-1, 1), action=torch.tensor(c["action"]),
        next_action=torch.tensor(c["next_action"]), reward_mask=torch.tensor(c["rmask"]), extras=rlt.ExtraData())


@facet(cases(), quick=1200, shards=5)
def decomposition(case, rec):
    c = case
    D = lambda k: np.array(c[k], float)  # noqa: E731
    w, wt = D("w"), D("wt")
    qs, target, keep = np.zeros((c["b"], c["k"])), np.zeros((c["b"], c["k"])), np.array(c["rmask"])
    for i in range(c["b"]):
        for j, a in enumerate(c["action"][i]):
            qs[i, j] = D("state")[i] @ w @ D("docs")[i][a]
        nxt = 0.0
        if c["not_terminal"][i]:
            nq = np.array([D("next_state")[i] @ wt @ D("ndocs")[i][a] for a in c["next_action"][i]])
            v = np.array([c["nvalue"][i][a] for a in c["next_action"][i]])
            if c["single"]:
                v = np.exp(v - v.max())
                v = v / v.sum()
            nxt = float((nq * v).sum())
            if not c["single"]:
                nxt /= c["k"]
        target[i] = D("reward")[i] + c["gamma"] * nxt
    tr, cap = slate_trainer(c)
    losses = list(tr.train_step_gen(slate_batch(c), 0))
    equal(len(losses), 2, "losses")
    sel = keep if c["single"] else np.ones_like(keep)
    close(losses[0], nets.mse(qs[sel], target[sel]), "slate TD loss", rtol=2e-3, atol=2e-3)
    g = torch.autograd.grad(losses[0], [tr.q_network.w, tr.q_network_target.w], allow_unused=True, retain_graph=True)
    e = np.zeros_like(w)
    for i in range(c["b"]):
        for j, a in enumerate(c["action"][i]):
            if sel[i, j]:
                e += 2 * (qs[i, j] - target[i, j]) / sel.sum() * np.outer(D("state")[i], D("docs")[i][a])
    close(g[0], e, "gradient of the slate TD loss", rtol=3e-3, atol=3e-3)
    got = cap.values["model_values_on_logged_actions"]
    close(got, qs[sel] if c["single"] else qs.sum(1, keepdims=True), "reported values", rtol=2e-3, atol=2e-3)
    rec.nt(any(c["not_terminal"]) and c["gamma"] > 0 and c["k"] > 1)
    rec.label("single" if c["single"] else "multi", "masked" if not keep.all() else "all-observed")


@facet(cases(), quick=150, shards=1)
def refused(case, rec):
    """Max-Q is not available, and a slate naming an absent candidate is refused."""
    c = case
    raises(NotImplementedError, lambda: next(slate_trainer(c, True)[0].train_step_gen(slate_batch(c), 0)), "max Q")
    m = np.array(c["mask"])
    m[0, c["action"][0][-1]] = False
    c = dict(c, mask=m.tolist())
    raises(AssertionError, lambda: next(slate_trainer(c)[0].train_step_gen(slate_batch(c), 0)),
           "slate with an absent candidate")
    rec.nt()
