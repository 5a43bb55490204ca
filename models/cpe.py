"""Evaluation pages built from explicit numbers, and the estimators' definitions."""
import numpy as np
import torch
from hypothesis import strategies as st

from models.nets import T, arr, rng_of


@st.composite
def pages(draw, min_eps=1, max_eps=8, max_len=4, metrics=0):
    rng = rng_of(draw)
    a = draw(st.integers(2, 4))
    lens = draw(st.lists(st.integers(1, max_len), min_size=min_eps, max_size=max_eps))
    if draw(st.integers(0, 5)) == 0:
        lens[rng.randint(len(lens))] = int(rng.randint(5, 16))  # a long episode
    n = sum(lens)
    ids, seq = [], []
    names = rng.permutation(len(lens))
    for i, k in enumerate(lens):
        ids += [int(names[i]) * 3 + 7] * k
        s = draw(st.integers(0, 3))
        for _ in range(k):
            seq.append(s)
            s += int(rng.randint(1, 3))
    logged = np.round(rng.uniform(0.1, 1, (n, 1)), 2)
    prop = rng.dirichlet(np.ones(a), n)
    kind = draw(st.sampled_from(["random", "random", "random", "deterministic", "logged", "rare"]))
    act = rng.randint(0, a, n)
    if kind == "deterministic":
        prop = np.eye(a)[rng.randint(0, a, n)]
    if kind == "rare":  # every episode starts with an action that the target policy hardly ever takes
        for k in np.cumsum([0] + lens[:-1]):
            prop[k] = (1 - 1e-8) / (a - 1)
            prop[k, act[k]] = 1e-8
    if kind == "logged":
        logged = prop[np.arange(n), act][:, None]
    lo = draw(st.sampled_from([-3.0, 0.0]))
    return dict(a=a, lens=lens, ids=ids, seq=seq, action=act.tolist(), logged=logged.tolist(), prop=prop.tolist(),
                reward=arr(rng, (n, 1), lo, 3), mr=arr(rng, (n, a)), mrl=arr(rng, (n, 1)), mv=arr(rng, (n, a)),
                kind=kind, metrics=arr(rng, (n, metrics)) if metrics else None,
                mm=arr(rng, (n, a * metrics)) if metrics else None,
                mmv=arr(rng, (n, a * metrics)) if metrics else None,
                gamma=draw(st.sampled_from([0.0, 0.5, 0.9, 1.0])), seed=draw(st.integers(0, 2**31 - 1)))


def onehot(c):
    return np.eye(c["a"])[c["action"]]


def build(c, **kw):
    from reagent.evaluation.evaluation_data_page import EvaluationDataPage

    mask = onehot(c)
    mv = np.array(c["mv"])
    d = dict(
        mdp_id=torch.tensor(c["ids"]).reshape(-1, 1), sequence_number=torch.tensor(c["seq"]).reshape(-1, 1),
        logged_propensities=T(c["logged"]), logged_rewards=T(c["reward"]), action_mask=T(mask.tolist()),
        model_propensities=T(c["prop"]), model_rewards=T(c["mr"]), model_rewards_for_logged_action=T(c["mrl"]),
        model_values=T(c["mv"]), model_values_for_logged_action=T((mv * mask).sum(1, keepdims=True).tolist()))
    if c.get("metrics") is not None:
        d.update(logged_metrics=T(c["metrics"]), model_metrics=T(c["mm"]), model_metrics_values=T(c["mmv"]))
    d.update(kw)
    return EvaluationDataPage(**d)


def episodes(c):
    """(start, end) of each run of rows"""
    out, i = [], 0
    for k in c["lens"]:
        out.append((i, i + k))
        i += k
    return out


def parts(c):
    p, m = np.array(c["prop"]), onehot(c)
    rho = (p * m).sum(1) / np.array(c["logged"])[:, 0]
    mv = np.array(c["mv"])
    return rho, np.array(c["reward"])[:, 0], (mv * m).sum(1), (mv * p).sum(1)


def one_step(c):
    """dm, ips, dr per row"""
    rho, r, _, _ = parts(c)
    dm = (np.array(c["prop"]) * np.array(c["mr"])).sum(1)
    return dm, rho * r, rho * (r - np.array(c["mrl"])[:, 0]) + dm


def seq_dr(c):
    """Per episode: sum_t gamma^t [rho_0..t (r - q) + rho_0..t-1 v]"""
    rho, r, q, v = parts(c)
    out, val = [], []
    for s, e in episodes(c):
        w, tot, ret = 1.0, 0.0, 0.0
        for t in range(s, e):
            g = c["gamma"] ** (t - s)
            tot += g * w * v[t]
            w *= rho[t]
            tot += g * w * (r[t] - q[t])
            ret += g * r[t]
        out.append(tot)
        val.append(ret)
    return np.array(out), np.array(val)


def weights(c, normalise):
    """Cumulative ratios per episode and step (zero after the end), normalised over episodes at every step."""
    rho, _, _, _ = parts(c)
    eps = episodes(c)
    w = np.zeros((len(eps), max(c["lens"])))
    for i, (s, e) in enumerate(eps):
        w[i, :e - s] = np.cumprod(rho[s:e])
    if not normalise:
        return w / len(eps)
    out = w.copy()
    for t in range(w.shape[1]):
        tot = w[:, t].sum()
        out[:, t] = w[:, t] / tot if tot != 0 else 1.0 / len(eps)
    return out


def step_return(c, j, normalise):
    return sum(step_returns(c, j, normalise))


def step_returns(c, j, normalise):
    """j-step weighted doubly robust return (j=inf: the whole trajectory, j=-1: the model's value alone), by episode"""
    _, r, q, v = parts(c)
    eps, w = episodes(c), weights(c, normalise)
    last = w.shape[1] - 1
    j = int(min(j, last))
    out = []
    for i, (s, e) in enumerate(eps):
        tot = 0.0
        for t in range(min(j + 2, w.shape[1])):
            prev = w[i, t - 1] if t else 1.0 / len(eps)
            g = c["gamma"] ** t
            vt = v[s + t] if t < e - s else 0.0
            if t <= j:
                if t < e - s:
                    tot += g * w[i, t] * (r[s + t] - q[s + t])
                tot += g * prev * vt
            elif t == j + 1:
                tot += g * prev * vt
        out.append(tot)
    return out
