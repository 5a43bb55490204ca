"""Policy-gradient trainers: REINFORCE and PPO."""
import itertools
import math

import numpy as np
import torch
from hypothesis import strategies as st
from torch import nn

from models.nets import Lin, T, arr, onehot, rng_of, snapshot
from vlib.core import Inconclusive, close, equal, facet, require

RULE = ("a case is a list of trajectories (states, chosen actions, optional masks, rewards, behaviour "
        "log-probabilities), policy and baseline weights, and the trainer's options; non-trivial = at least one "
        "update with two or more steps and a non-zero gradient")
LR = 0.05


class Scorer(nn.Module):
    def __init__(self, w):
        super().__init__()
        self.w = nn.Parameter(T(w))

    def forward(self, state, mask=None):
        x = state.float_features @ self.w
        return x if mask is None else torch.where(mask > 0, x, torch.full_like(x, -math.inf))


class Base(nn.Module):
    def __init__(self, w):
        super().__init__()
        self.w = nn.Parameter(T(w))

    def forward(self, state):
        return state.float_features @ self.w


@st.composite
def trajectories(draw, n, s, a, min_len, masks):
    rng = rng_of(draw)
    out = []
    for _ in range(n):
        L = rng.randint(min_len, 6)
        m = rng.rand(L, a) < 0.6
        acts = rng.randint(0, a, L)
        m[np.arange(L), acts] = True
        out.append(dict(state=arr(rng, (L, s), -2, 2), action=acts.tolist(), reward=arr(rng, (L,)),
                        logp=np.round(-rng.uniform(0.05, 2.5, L), 2).tolist(),
                        mask=m.astype(int).tolist() if masks else None))
    return out


@st.composite
def cases(draw, ppo=False):
    rng = rng_of(draw)
    s, a = draw(st.integers(1, 3)), draw(st.integers(2, 4))
    base = draw(st.booleans())
    normalize = False if base else draw(st.booleans())
    freq = draw(st.integers(1, 6 if not ppo else 4))
    masks = draw(st.booleans())
    n = freq * 2 if ppo else draw(st.integers(1, 6)) + (freq if freq > 3 else 0)
    c = dict(s=s, a=a, w=arr(rng, (s, a), -1.5, 1.5), wb=arr(rng, (s, 1)) if base else None, normalize=normalize,
             subtract_mean=draw(st.booleans()), clamp=draw(st.booleans()), freq=freq,
             gamma=draw(st.sampled_from([0.0, 0.5, 0.9, 1.0])),
             clip=draw(st.sampled_from([1e6, 1.0, 0.0, -0.5])), temp=draw(st.sampled_from([0.5, 1.0, 2.0])),
             t=draw(trajectories(n, s, a, 2 if normalize else 1, masks)))
    if ppo:
        c.update(eps=draw(st.sampled_from([0.0, 0.1, 0.2, 0.5, 1.0])), ent=draw(st.sampled_from([0.0, 0.3])),
                 epochs=draw(st.integers(1, 3)), bs=draw(st.integers(1, 5)))
        if c["bs"] < freq:
            c["epochs"] = 1
    else:
        c.update(off=draw(st.booleans()), ratio_clip=draw(st.sampled_from([1e6, 2.0, 1.0, 0.5])))
    return c


def _input(c, t):
    import reagent.types as rlt

    return rlt.PolicyGradientInput(
        state=rlt.FeatureData(T(t["state"])), action=T(onehot(t["action"], c["a"])), reward=T(t["reward"]),
        log_prob=T(t["logp"]), possible_actions_mask=T(t["mask"]) if t["mask"] else None)


def _return_to_go(c, t):
    r = np.minimum(np.array(t["reward"]), c["clip"])
    L = len(r)
    return np.array([sum(c["gamma"] ** (k - i) * r[k] for k in range(i, L)) for i in range(L)])


def _advantage(c, t, wb):
    """-> (weights on each step, value loss or None)"""
    g = _return_to_go(c, t)
    if c["normalize"]:
        sd = g.std(ddof=1)
        if sd < 1e-3:
            raise Inconclusive("constant returns")
        g = (g - g.mean() if c["subtract_mean"] else g) / sd
    if c["clamp"]:
        g = np.maximum(g, 0)
    g = torch.tensor(g, dtype=torch.float64)
    if wb is None:
        return g, None
    v = (torch.tensor(t["state"], dtype=torch.float64) @ wb).reshape(-1)
    return g - v.detach(), ((v - g) ** 2).mean()


def _logp(c, t, w):
    """log-probability of the taken actions and mean entropy, by definition"""
    z = torch.tensor(t["state"], dtype=torch.float64) @ w / c["temp"]
    lp, ent = [], []
    for i, row in enumerate(z):
        k = [j for j in range(c["a"]) if not t["mask"] or t["mask"][i][j]]
        l = row[k] - torch.logsumexp(row[k], 0)
        lp.append(l[k.index(t["action"][i])])
        ent.append(-(l.exp() * l).sum())
    return torch.stack(lp), torch.stack(ent).mean()


def _sgd(loss, p):
    g = torch.autograd.grad(loss, p, retain_graph=True)[0]
    return (p - LR * g).detach().requires_grad_(True), float(g.abs().max())


def _opt():
    from reagent.optimizer import Optimizer__Union
    from reagent.optimizer.union import classes

    return Optimizer__Union(SGD=classes["SGD"](lr=LR))


def _actor(c):
    from reagent.gym.policies.policy import Policy
    from reagent.gym.policies.samplers.discrete_sampler import SoftmaxActionSampler

    return Policy(Scorer(c["w"]), SoftmaxActionSampler(c["temp"]))


@facet(cases(), quick=700, shards=4)
def reinforce(case, rec):
    from reagent.training.reinforce import Reinforce, ReinforceParams

    c = case
    actor = _actor(c)
    base = Base(c["wb"]) if c["wb"] else None
    tr = Reinforce(actor, ReinforceParams(
        gamma=c["gamma"], optimizer=_opt(), optimizer_value_net=_opt(), off_policy=c["off"], reward_clip=c["clip"],
        clip_param=c["ratio_clip"], normalize=c["normalize"], subtract_mean=c["subtract_mean"],
        offset_clamp_min=c["clamp"], update_freq=c["freq"]), value_net=base)
    w = torch.tensor(c["w"], dtype=torch.float64, requires_grad=True)
    wb = torch.tensor(c["wb"], dtype=torch.float64, requires_grad=True) if base else None
    losses, vlosses, since = [], [], 0
    updated_before = False
    for t in c["t"]:
        x = _input(c, t)
        snap = snapshot(x)
        before = actor.scorer.w.detach().clone(), base.w.detach().clone() if base else None
        tr.train(x)
        equal(snapshot(x), snap, "training batch after train()")
        adv, vl = _advantage(c, t, wb)
        lp, _ = _logp(c, t, w)
        if c["off"]:
            r = lp - torch.tensor(t["logp"], dtype=torch.float64)
            m = math.log(c["ratio_clip"])
            if float((r - m).detach().abs().min()) < 1e-4:
                raise Inconclusive("at the clip boundary")
            lp = torch.exp(torch.clamp(r, max=m))
        losses.append(-(adv * lp).sum())
        vlosses.append(vl)
        since += 1
        pw, g = _sgd(torch.stack(losses).mean(), w)
        pb = _sgd(torch.stack(vlosses).mean(), wb)[0] if base else None
        changed = not torch.equal(before[0], actor.scorer.w.detach()) or (
            base is not None and not torch.equal(before[1], base.w.detach()))
        due = since == c["freq"] or (not updated_before and since == c["freq"] - 1 and changed)
        if due:
            close(actor.scorer.w, pw.detach(), f"policy after an update over {len(losses)} trajectories", rtol=2e-3, atol=1e-3)
            if base:
                close(base.w, pb.detach(), "baseline after the update", rtol=2e-3, atol=1e-3)
            # continue from the real parameters so rounding does not build up
            w = actor.scorer.w.detach().double().clone().requires_grad_(True)
            if base:
                wb = base.w.detach().double().clone().requires_grad_(True)
            rec.nt(g > 1e-3 and len(t["reward"]) > 1)
            losses, vlosses, since, updated_before = [], [], 0, True
        else:
            close(actor.scorer.w, before[0], "policy between updates", atol=0, rtol=0)
            if base:
                close(base.w, before[1], "baseline between updates", atol=0, rtol=0)
            if since == c["freq"] - 1 and not updated_before and g < 1e-6:
                raise Inconclusive("cannot tell whether the first update happened")


def _ppo_losses(c, t, w, wb):
    adv, vl = _advantage(c, t, wb)
    lp, ent = _logp(c, t, w)
    ratio = torch.exp(lp - torch.tensor(t["logp"], dtype=torch.float64))
    a, b = (adv * ratio).sum(), (adv * torch.clamp(ratio, 1 - c["eps"], 1 + c["eps"])).sum()
    edge = torch.minimum((ratio - 1 - c["eps"]).abs(), (ratio - 1 + c["eps"]).abs()).detach().min()
    clipped = bool((ratio.detach() - 1).abs().max() > c["eps"])
    if float(edge) < 1e-3 or (clipped and abs(float(a.detach() - b.detach())) < 1e-3):
        raise Inconclusive("at the clip boundary")
    return -torch.minimum(a, b) - c["ent"] * ent, vl


def _ppo_run(c, ts, w, wb, orders):
    for order in orders:
        for i in range(0, len(order), c["bs"]):
            ls = [_ppo_losses(c, ts[j], w, wb) for j in order[i: i + c["bs"]]]
            nw, _ = _sgd(torch.stack([x for x, _ in ls]).mean(), w)
            if wb is not None:
                wb, _ = _sgd(torch.stack([x for _, x in ls]).mean(), wb)
            w = nw
    return w, wb


@facet(cases(ppo=True), quick=500, shards=5)
def ppo(case, rec):
    """The clipped surrogate per trajectory; after `update_freq` trajectories, `update_epochs` passes over all of
    them in minibatches of `ppo_batch_size` in some order; then the buffer starts again empty."""
    from reagent.training.ppo_trainer import PPOTrainer

    c = case
    actor = _actor(c)
    base = Base(c["wb"]) if c["wb"] else None
    tr = PPOTrainer(actor, gamma=c["gamma"], optimizer=_opt(), optimizer_value_net=_opt(), reward_clip=c["clip"],
                    normalize=c["normalize"], subtract_mean=c["subtract_mean"], offset_clamp_min=c["clamp"],
                    update_freq=c["freq"], update_epochs=c["epochs"], ppo_batch_size=c["bs"], ppo_epsilon=c["eps"],
                    entropy_weight=c["ent"], value_net=base)
    for k, t in enumerate(c["t"]):
        before = actor.scorer.w.detach().clone(), base.w.detach().clone() if base else None
        x = _input(c, t)
        snap = snapshot(x)
        tr.train(x)
        equal(snapshot(x), snap, "trajectory after train()")
        if (k + 1) % c["freq"]:
            close(actor.scorer.w, before[0], "policy between updates", atol=0, rtol=0)
            continue
        ts = c["t"][k + 1 - c["freq"]: k + 1]
        n = len(ts)
        w0 = before[0].double().requires_grad_(True)
        wb0 = before[1].double().requires_grad_(True) if base else None
        if c["bs"] >= n:
            options = [[list(range(n))] * c["epochs"]]
        else:
            options = [[list(p)] for p in itertools.permutations(range(n))]
        best, bb = None, None
        for o in options:
            w, wb = _ppo_run(c, ts, w0, wb0, o)
            d = float((w.detach() - actor.scorer.w.detach().double()).abs().max())
            if base:
                d = max(d, float((wb.detach() - base.w.detach().double()).abs().max()))
            if best is None or d < best:
                best, bb = d, (w, wb)
        if not torch.isfinite(bb[0]).all() or float(bb[0].detach().abs().max()) > 50:
            raise Inconclusive("diverged")
        close(actor.scorer.w, bb[0].detach(), f"policy after {c['epochs']} epochs over {n} trajectories", rtol=2e-3, atol=2e-3)
        if base:
            close(base.w, bb[1].detach(), "baseline after the update", rtol=2e-3, atol=2e-3)
        rec.nt(n > 1 and not torch.equal(before[0], actor.scorer.w.detach()))


@facet(st.tuples(st.lists(st.floats(-100, 100, width=32), min_size=2, max_size=12),
                 st.sampled_from([0.0, 0.1, 0.5, 0.9, 0.99, 1.0]), st.booleans()), quick=600, shards=1)
def returns_and_whitening(case, rec):
    from reagent.training.utils import discounted_returns, whiten

    r, g, sub = case
    exp = [sum(g ** (k - i) * r[k] for k in range(i, len(r))) if g else r[i] for i in range(len(r))]
    x = T(r)
    close(discounted_returns(x, g), exp, "discounted returns", rtol=1e-4, atol=1e-3)
    close(x, T(r), "rewards after discounted_returns", rtol=0, atol=0)
    e = np.array(r, np.float64)
    if e.std() < 1e-2:
        return
    y = whiten(T(r), subtract_mean=sub)
    close(y, (e - e.mean() if sub else e) / e.std(ddof=1), "whitened values", rtol=1e-3, atol=1e-3)
    rec.nt(g > 0)


@facet(cases(ppo=True), quick=40, shards=1)
def refused_settings(case, rec):
    """A baseline and normalised returns are refused together, as is a clip range outside [0, 1]."""
    from reagent.training.ppo_trainer import PPOTrainer
    from reagent.training.reinforce import Reinforce, ReinforceParams
    from vlib.core import raises

    c = case
    base = Base(arr(np.random.RandomState(0), (c["s"], 1)))
    x = _input(c, c["t"][0])
    tr = Reinforce(_actor(c), ReinforceParams(optimizer=_opt(), optimizer_value_net=_opt(), normalize=True), value_net=base)
    raises(RuntimeError, lambda: tr.train(x), "baseline with normalised returns (REINFORCE)")
    tr2 = PPOTrainer(_actor(c), optimizer=_opt(), optimizer_value_net=_opt(), normalize=True, value_net=base, update_freq=1)
    raises(RuntimeError, lambda: tr2.train(x), "baseline with normalised returns (PPO)")
    for e in (-c["eps"] - 0.01, 1.01 + c["eps"]):
        raises(AssertionError, lambda: PPOTrainer(_actor(c), optimizer=_opt(), optimizer_value_net=_opt(), ppo_epsilon=e),
               f"clip range {e}")
    rec.nt()
