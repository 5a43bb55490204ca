"""Evaluators of ranking, reward, Seq2Reward, compressed and world models."""
import copy
import math

import numpy as np
import torch
import torch.nn.functional as F
from hypothesis import strategies as st
from torch import nn

from checks import W01, W02
from models.nets import T, arr, rng_of
from models.rnn import linear, randomise
from vlib.core import close, equal, facet, require, same

RULE = ("a case is a history of evaluated batches with explicit networks; non-trivial = two or more rows of which one or more "
        "can be scored, two or more batches, or two or more features and steps")


def watch(obj, keys):
    from reagent.core.tracker import Observer

    seen = []

    class O(Observer):
        def __init__(self):
            super().__init__(keys)

        def update(self, key, value):
            seen.append((key, value))

    obj.add_observer(O())
    return seen


class Net(nn.Module):
    """A ranking network that answers from tables looked up by the first state feature, garbage while training"""

    def __init__(self, rows, k):
        super().__init__()
        self.rows, self.k = rows, k

    def forward(self, input, mode, tgt_seq_len=None, greedy=None):
        from reagent import types as rlt
        from reagent.model_utils.seq2slate_utils import Seq2SlateMode as M

        mode = M(mode)
        rows = [self.rows[int(i)] for i in input.state.float_features[:, 0]]
        if self.training:
            rows = [dict(scores=r["scores"][::-1], lp=r["lp"] * 3 - 1, rank=r["rank"][::-1], p=r["p"] / 3) for r in rows]
        if mode == M.ENCODER_SCORE_MODE:
            return rlt.RankingOutput(encoder_scores=T([r["scores"] for r in rows]))
        if mode == M.PER_SEQ_LOG_PROB_MODE:
            return rlt.RankingOutput(log_probs=T([[r["lp"]] for r in rows]))
        require(mode == M.RANK_MODE, "unexpected mode %s", mode)
        require(greedy is True, "ranks are taken greedily")
        return rlt.RankingOutput(ranked_tgt_out_idx=torch.tensor([r["rank"] for r in rows]) + 2,
                                 ranked_per_seq_probs=T([[r["p"]] for r in rows]))


class Baseline(nn.Module):
    def __init__(self, rows):
        super().__init__()
        self.rows = rows

    def forward(self, input):
        v = T([[self.rows[int(i)]["base"]] for i in input.state.float_features[:, 0]])
        return v + 7 if self.training else v


@st.composite
def rankings(draw, sizes=(2, 3, 4, 5)):
    rng = rng_of(draw)
    k, n = draw(st.sampled_from(list(sizes))), draw(st.integers(1, 6))
    rows, size = [], draw(st.sampled_from([1, 1, 8]))
    for _ in range(n):
        logged = rng.permutation(k).tolist()
        rank = logged if rng.rand() < 0.3 else rng.permutation(k).tolist()
        rows.append(dict(rank=rank, logged=logged, pos=rng.randint(0, 2, k).tolist(), scores=(np.array(arr(rng, (k,))) * size).tolist(), lp=-float(round(rng.uniform(0.1, 3), 2)),
                         p=float(round(rng.uniform(0.1, 1), 2)), base=float(round(rng.uniform(-1, 2), 2)), reward=float(round(rng.uniform(-1, 2), 2)),
                         prop=float(round(rng.uniform(0.1, 1), 2)), w=float(round(rng.uniform(-1, 1), 2))))
    cuts = sorted(set([0, n] + [int(x) for x in rng.randint(0, n + 1, draw(st.integers(0, 2)))]))
    return dict(k=k, rows=rows, cuts=cuts, cpe=draw(st.booleans()), train=draw(st.booleans()), base=draw(st.booleans()),
                btrain=draw(st.booleans()), again=draw(st.booleans()))


def ranking_input(c, s, e):
    from reagent import types as rlt

    r = c["rows"][s:e]
    n, k = e - s, c["k"]
    cand = torch.arange(k).float().reshape(1, k, 1).repeat(n, 1, 1)
    logged = torch.tensor([x["logged"] for x in r])
    return rlt.PreprocessedRankingInput(
        state=rlt.FeatureData(torch.arange(s, e).float().reshape(-1, 1)), src_seq=rlt.FeatureData(cand),
        src_src_mask=torch.ones(n, k, k), tgt_out_seq=rlt.FeatureData(logged.float().unsqueeze(-1)), tgt_out_idx=logged + 2,
        position_reward=T([x["pos"] for x in r]), slate_reward=T([[x["reward"]] for x in r]), tgt_out_probs=T([[x["prop"]] for x in r]))


def dcg(gains):
    return sum(g / math.log2(i + 2) for i, g in enumerate(gains))


def average_precision(rel):
    hits, out = 0, 0.0
    for i, r in enumerate(rel):
        if r:
            hits += 1
            out += hits / (i + 1)
    return out / sum(rel)


def auc(rel):
    pos = [i for i, r in enumerate(rel) if r]
    neg = [i for i, r in enumerate(rel) if not r]
    return np.mean([i < j for i in pos for j in neg])


@facet(rankings((2, 3, 4, 5, 2, 3, 4, 5, 12)), quick=300, shards=3)
def listwise(case, rec):
    """Loss and ranking quality of the greedy order and of the logged one, in evaluation mode"""
    from reagent.evaluation.ranking_listwise_evaluator import RankingListwiseEvaluator

    c = case
    net = Net(c["rows"], c["k"]).train(c["train"])
    ev = RankingListwiseEvaluator(net, c["k"], c["cpe"])
    names = ["dcg", "ndcg", "mean_ap", "auc"]
    bases = ["base_dcg", "base_ndcg", "base_map", "base_auc"]
    seen = watch(ev, ["cross_entropy_loss"] + names + bases)
    scored = 0
    for s, e in zip(c["cuts"], c["cuts"][1:]):
        ev.evaluate(ranking_input(c, s, e))
        equal(net.training, c["train"], "the network's mode")
        got = dict(seen)
        seen.clear()
        rows = c["rows"][s:e]
        sc = np.array([r["scores"] for r in rows])
        ls = sc - np.log(np.exp(sc).sum(1, keepdims=True))
        pos = np.array([r["pos"] for r in rows], float)
        close(got["cross_entropy_loss"].reshape(-1), [-(ls * pos).sum() / len(rows)], "listwise loss")
        if not c["cpe"]:
            equal(sorted(got), ["cross_entropy_loss"], "only the loss is reported")
            continue
        want = {x: [] for x in names + bases}
        for r in rows:
            if not any(r["pos"]) or all(r["pos"]):
                continue
            scored += 1
            rel = dict(zip(r["logged"], r["pos"]))
            for keys, order in ((names, r["rank"]), (bases, r["logged"])):
                g = [rel[i] for i in order]
                for key, v in zip(keys, (dcg(g), dcg(g) / dcg(sorted(g)[::-1]), average_precision(g), auc(g))):
                    want[key].append(v)
        for key, v in want.items():
            if v:
                close(got[key], [np.mean(v)], key)
    ev.evaluate_post_training()
    rec.nt(scored > 1 and c["cpe"])
    rec.label("cpe" if c["cpe"] else "loss", "training" if c["train"] else "evaluation")


class Reward(nn.Module):
    def forward(self, state, src, tgt, mask, idx):
        v = (state[:, :1] + (tgt[..., 0] * torch.tensor([1.0, 10, 100, 1000, 10000])[: tgt.shape[1]]).sum(1, keepdim=True)) / 100
        require(torch.equal((idx - 2).float(), tgt[..., 0]), "items and their indices match")
        return v


@facet(rankings(), quick=300, shards=3)
def policy_gradient(case, rec):
    """Probabilities of logged and greedy slates, the baseline's loss and the pages of all batches"""
    from reagent.evaluation.ranking_policy_gradient_evaluator import RankingPolicyGradientEvaluator

    c = case
    net = Net(c["rows"], c["k"]).train(c["train"])
    base = Baseline(c["rows"]).train(c["btrain"]) if c["base"] else None
    trainer = type("Trainer", (), dict(seq2slate_net=net, baseline_net=base))()
    ev = RankingPolicyGradientEvaluator(trainer, c["cpe"], Reward() if c["cpe"] else None)
    keys = ["eval_baseline_loss", "eval_advantages", "logged_slate_rank_probs", "ranked_slate_rank_probs"]
    seen = watch(ev, keys + ["eval_data_pages_g", "eval_data_pages_ng"])
    k = c["k"]

    def rew(i, order):
        return (i + sum(x * 10.0**j for j, x in enumerate(order))) / 100

    for _ in range(2 if c["again"] else 1):
        for s, e in zip(c["cuts"], c["cuts"][1:]):
            ev.evaluate(ranking_input(c, s, e))
            equal(net.training, c["train"], "the network's mode")
            equal(base is None or base.training == c["btrain"], True, "the baseline's mode")
            got = dict(seen)
            seen.clear()
            if not c["cpe"]:
                continue
            rows = c["rows"][s:e]
            r = np.array([x["reward"] for x in rows])
            b = np.array([x["base"] for x in rows]) if c["base"] else np.zeros(len(rows))
            close(got["eval_advantages"].flatten(), r - b, "advantages")
            close(got["eval_baseline_loss"], [np.mean((r - b) ** 2) if c["base"] else 0.0], "baseline loss")
            close(got["logged_slate_rank_probs"].flatten(), np.exp([x["lp"] for x in rows]), "probability of the logged slates")
            close(got["ranked_slate_rank_probs"].flatten(), [x["p"] for x in rows], "probability of the greedy slates")
        ev.evaluate_post_training()
        got = dict(seen)
        seen.clear()
        if not c["cpe"]:
            require(not got, "no pages without counterfactual evaluation")
            continue
        rows = c["rows"]
        for key, greedy in (("eval_data_pages_g", True), ("eval_data_pages_ng", False)):
            p = got[key]
            close(p.logged_rewards.flatten(), [x["reward"] for x in rows], "logged rewards of all batches")
            close(p.logged_propensities.flatten(), [x["prop"] for x in rows], "logged propensities")
            close(p.model_rewards.flatten(), [rew(i, x["rank"]) for i, x in enumerate(rows)], "reward of the greedy slates")
            close(p.model_rewards_for_logged_action.flatten(), [rew(i, x["logged"]) for i, x in enumerate(rows)], "reward of the logged slates")
            close(p.model_propensities.flatten(), np.ones(len(rows)) if greedy else np.exp([x["lp"] for x in rows]), "target propensities")
            close(p.action_mask.flatten(), [float(x["rank"] == x["logged"]) for x in rows] if greedy else np.ones(len(rows)), "matching slates")
    rec.nt(c["cpe"] and len(c["cuts"]) > 2)
    rec.label("cpe" if c["cpe"] else "no cpe", "training" if c["train"] else "evaluation")


# ------------------------------------------------------------------ reward network
class Lin(nn.Module):
    def __init__(self):
        super().__init__()
        self.w = nn.Parameter(torch.zeros(1))

    def forward(self, x):
        from reagent import types as rlt

        y = x.state.float_features[:, :1] * self.w
        return rlt.RewardNetworkOutput(predicted_reward=y + 5 if self.training else y)


@st.composite
def rounds(draw):
    rng = rng_of(draw)
    return dict(rounds=[dict(w=draw(st.sampled_from([-2.0, -1.0, 0.0, 0.5, 1.0, 2.0])),
                             batches=[dict(x=arr(rng, (int(rng.randint(1, 4)),))) for _ in range(int(rng.randint(1, 4)))])
                        for _ in range(draw(st.integers(1, 4)))],
                slate=draw(st.booleans()), train=draw(st.booleans()), loss=draw(st.sampled_from(["MSE", "SmoothL1Loss", "L1Loss"])), seed=draw(st.integers(0, 99)))


@facet(rounds(), quick=300, shards=1)
def reward_network(case, rec):
    """Mean loss over batches of a round, all rewards and predictions, and the best network so far kept as it was"""
    from reagent import types as rlt
    from reagent.evaluation.reward_net_evaluator import RewardNetEvaluator
    from reagent.training.reward_network_trainer import LossFunction

    c = case
    net = Lin().train(c["train"])
    fn = dict(MSE=nn.MSELoss(), SmoothL1Loss=nn.SmoothL1Loss(), L1Loss=nn.L1Loss())[c["loss"]]
    trainer = type("Trainer", (), dict(reward_net=net, loss_fn=fn, loss_type=LossFunction[c["loss"]]))()
    ev = RewardNetEvaluator(trainer)
    best, best_w = math.inf, None
    rng = np.random.RandomState(c["seed"])
    for r in c["rounds"]:
        net.w.data[:] = r["w"]
        losses, ys, ps = [], [], []
        for b in r["batches"]:
            x = np.array(b["x"])
            y = np.round(x * 0.7 + rng.uniform(-0.5, 0.5, len(x)), 2)
            d = np.abs(x * r["w"] - y)
            losses.append({"MSE": d**2, "L1Loss": d, "SmoothL1Loss": np.where(d < 1, d**2 / 2, d - 0.5)}[c["loss"]].mean())
            ys += y.tolist()
            ps += (x * r["w"]).tolist()
            fd = rlt.FeatureData(T(x).reshape(-1, 1))
            if c["slate"]:
                tdp = rlt.PreprocessedRankingInput(state=fd, src_seq=fd, slate_reward=T(y).reshape(-1, 1))
            else:
                tdp = type("Batch", (), dict(state=fd, reward=T(y).reshape(-1, 1)))()
            ev.evaluate(tdp)
            equal(net.training, c["train"], "the network's mode")
        out = ev.evaluate_post_training()
        close(out["loss"], np.mean(losses), "mean loss of the round", atol=1e-4)
        close(out["rewards"], ys, "rewards of the round")
        close(out["pred_rewards"], ps, "predictions of the round")
        if np.mean(losses) < best - 1e-5:
            best, best_w = np.mean(losses), r["w"]
        elif abs(np.mean(losses) - best) < 1e-5:
            best_w = None  # a tie
        net.w.data[:] = 77.0
        if best_w is not None:
            close(ev.best_model.w.detach(), [best_w], "best network so far")
            close(ev.best_model_loss, best, "its loss", atol=1e-4)
    rec.nt(len(c["rounds"]) > 1)
    rec.label(c["loss"])


# ------------------------------------------------------------------ sequence models
class Drop(nn.Module):
    """the same network, wrong while training"""

    def __init__(self, net):
        super().__init__()
        self.net = net
        self.state_dim = getattr(net, "state_dim", None)

    def forward(self, *a, **k):
        out = self.net(*a, **k)
        if not self.training:
            return out
        return out * 2 + 1 if isinstance(out, torch.Tensor) else type(out)(acc_reward=out.acc_reward * 2 + 1)


def step_loss(tr, c):
    x = tr.step_predict_network(T(np.array(c["state"])[0])).detach()
    return F.cross_entropy(x, torch.tensor(c["valid"]) - 1)


@facet(W02.cases(), quick=150, shards=3)
def seq2reward(case, rec):
    """Losses in evaluation mode, mean planned values, and how often each action is the best"""
    from reagent.evaluation.compress_model_evaluator import CompressModelEvaluator
    from reagent.evaluation.seq2reward_evaluator import Seq2RewardEvaluator
    from reagent.models.fully_connected_network import FullyConnectedNetwork
    from reagent.training.world_model.compress_model_trainer import CompressModelTrainer
    from reagent.training.world_model.seq2reward_trainer import Seq2RewardTrainer

    c = case
    net = W02.build(c)
    wrap = Drop(net)
    mode = bool(c["seed"] % 2)
    s0 = np.array(c["state"])[0]
    q = W02.plan(net, c, s0)
    order = np.sort(q, 1)
    clear = c["a"] == 1 or (order[:, -1] - order[:, -2] > 1e-3).all()
    share = np.bincount(q.argmax(1), minlength=c["a"]) / c["b"]
    tr = Seq2RewardTrainer(wrap, W02._params(c))
    randomise(tr.step_predict_network, np.random.RandomState(c["seed"] // 2))
    ev = Seq2RewardEvaluator(tr)
    seen = watch(ev, ["mse_loss", "step_entropy_loss", "q_values", "action_distribution"])
    wrap.train(mode)
    before = {k: v.clone() for k, v in net.state_dict().items()}
    out = ev.evaluate(W02._batch(c))
    equal(wrap.training, mode, "the network's mode")
    valid = np.array(c["valid"])
    pred = W02.value(net, c, s0, np.array(c["action"]))[valid - 1, np.arange(c["b"])]
    disc = c["gamma"] ** np.arange(c["t"])[:, None] * (np.arange(c["t"])[:, None] < valid[None])
    mse = np.mean((pred - (np.array(c["reward"]) * disc).sum(0)) ** 2)
    got = dict(seen)
    close(out[0], mse, "loss", rtol=1e-3, atol=1e-4)
    close(out[1], step_loss(tr, c), "step loss")
    close(out[2], q.mean(0), "mean values")
    if clear:
        close(out[3], share, "share of each action")
    for i, key in enumerate(["mse_loss", "step_entropy_loss", "q_values", "action_distribution"]):
        close(got[key].flatten(), np.array(out[i]).flatten(), "reported " + key)
    # compressed
    cm = Drop(randomise(FullyConnectedNetwork([c["s"], c["net"], c["a"]], ["relu", "linear"]), np.random.RandomState(c["seed"] // 3)))
    ct = CompressModelTrainer(cm, net, W02._params(c))
    ce = CompressModelEvaluator(ct)
    seen = watch(ce, ["mse_loss", "q_values", "action_distribution", "accuracy"])
    cm.train(mode)
    net.eval()
    out = ce.evaluate(W02._batch(c))
    equal(cm.training, mode, "the network's mode")
    p = cm.net(T(s0)).detach().numpy()
    close(out[0], np.mean((p - q) ** 2), "compression loss", rtol=1e-3, atol=1e-4)
    close(out[1], q.mean(0), "mean values")
    po = np.sort(p, 1)
    if clear:
        close(out[2], share, "share of each action")
        if c["a"] == 1 or (po[:, -1] - po[:, -2] > 1e-3).all():
            close(out[3], (p.argmax(1) == q.argmax(1)).mean(), "accuracy")
    got = dict(seen)
    for i, key in enumerate(["mse_loss", "q_values", "action_distribution", "accuracy"]):
        close(got[key].flatten(), np.array(out[i]).flatten(), "reported " + key)
    for k, v in net.state_dict().items():
        same(v, before[k], "weights untouched")
    rec.nt(c["a"] > 1 and c["t"] > 1 and c["b"] > 1)


# ------------------------------------------------------------------ world models
@st.composite
def worlds(draw):
    c = draw(W01.nets())
    rng = rng_of(draw)
    disc = draw(st.booleans())
    t, b = c["t"], c["b"]
    if draw(st.integers(0, 7)) == 0:
        t = c["t"] = draw(st.integers(9, 12))
        c.update(reward=arr(rng, (t, b)), nt=rng.randint(0, 2, (t, b)).tolist())

    def groups():
        w = [int(x) for x in rng.choice([1, 1, 2, 3], int(rng.randint(1, 4)))]
        return w

    sg = groups()
    ag = [1] * int(rng.randint(1, 4)) if disc else groups()

    def fill(w):
        out = []
        for k in w:
            out.append(rng.uniform(-2, 2, (t, b, 1)).round(2) if k == 1 else np.eye(k)[rng.randint(0, k, (t, b))])
        return np.concatenate(out, -1).tolist()

    c.update(s=sum(sg), a=sum(ag), sg=sg, ag=ag, disc=disc, state=fill(sg), next_state=fill(sg),
             action=np.eye(len(ag))[rng.randint(0, len(ag), (t, b))].tolist() if disc else fill(ag))
    return c


def world(c):
    from reagent.parameters import MDNRNNTrainerParameters
    from reagent.training.world_model.mdnrnn_trainer import MDNRNNTrainer

    net = W01.build(c)
    return MDNRNNTrainer(net, MDNRNNTrainerParameters(hidden_size=c["h"], num_hidden_layers=c["layers"], num_gaussians=c["g"],
                                                      next_state_loss_weight=c["w"][0], reward_loss_weight=c["w"][1],
                                                      not_terminal_loss_weight=c["w"][2], fit_only_one_next_step=c["last"]))


def losses_of(net, c, state, action):
    e = W01.expected(net, c, state, action)
    nxt, nt, r = np.array(c["next_state"]), np.array(c["nt"], float), np.array(c["reward"])
    if c["last"]:
        e = {k: v[-1:] for k, v in e.items() if k in ("mus", "sigmas", "logpi", "reward", "not_terminal")}
        nxt, nt, r = nxt[-1:], nt[-1:], r[-1:]
    g = W01.mix(nxt, e["mus"], e["sigmas"], e["logpi"]).mean()
    z = e["not_terminal"]
    bce = np.mean(np.maximum(z, 0) - z * nt + np.log1p(np.exp(-np.abs(z))))
    mse = np.mean((e["reward"] - r) ** 2)
    return g, bce, mse


def starts(w):
    return np.concatenate([[0], np.cumsum(w)[:-1]]).astype(int).tolist()


def typical(x):
    """what a feature is replaced with: its mean, or for an enum the values seen median often"""
    k = x.shape[-1]
    x = x.reshape(-1, k)
    if k == 1:
        return [x.mean(0)]
    n = x.sum(0)
    return [np.eye(k)[i] for i in range(k) if n[i] == sorted(n)[(k - 1) // 2]]


def world_batch(c):
    import reagent.types as rlt

    return rlt.MemoryNetworkInput(state=rlt.FeatureData(T(c["state"])), next_state=rlt.FeatureData(T(c["next_state"])), reward=T(c["reward"]),
                                  time_diff=torch.ones(c["t"], c["b"]), step=None, not_terminal=T(c["nt"]), action=T(c["action"]))


@facet(worlds(), quick=200, shards=4)
def world_model(case, rec):
    """Losses of a page, the loss added by blanking a feature or fixing an action, and the effect of other actions"""
    from reagent.evaluation import world_model_evaluator as E

    c = case
    tr = world(c)
    net = tr.memory_network
    before = {k: v.clone() for k, v in net.state_dict().items()}
    batch = world_batch(c)
    S, A = np.array(c["state"]), np.array(c["action"])
    g, bce, mse = losses_of(net, c, S, A)


    base = tr.get_loss(batch, state_dim=c["s"])
    out = E.LossEvaluator(tr, c["s"]).evaluate(batch)
    tol = dict(rtol=1e-3, atol=1e-3)
    close(out["gmm"], g * c["w"][0], "mixture loss", **tol)
    close(out["loss"], float(base["loss"]), "loss", **tol)
    close(out["bce"], bce * c["w"][2], "terminal loss", **tol)
    close(out["mse"], mse * c["w"][1], "reward loss", **tol)
    require(net.mdnrnn.training, "back in training mode")

    def loss(state, action):
        b = world_batch(dict(c, state=state.tolist(), action=action.tolist()))
        return float(tr.get_loss(b, state_dim=c["s"])["loss"])

    imp = E.FeatureImportanceEvaluator(tr, c["disc"], len(c["sg"]), len(c["ag"]), starts(c["ag"]), starts(c["sg"])).evaluate(batch)
    imp = imp["feature_loss_increase"]
    equal(len(imp), len(c["ag"]) + len(c["sg"]), "one number per feature")
    l0 = float(base["loss"])
    for i, k in enumerate(c["ag"]):
        lo = starts(c["ag"])[i]
        opts = []
        for v in [np.eye(c["a"])[i]] if c["disc"] else typical(A[..., lo:lo + k]):
            a2 = A.copy()
            if c["disc"]:
                a2[:] = v
            else:
                a2[..., lo:lo + k] = v
            opts.append(loss(S, a2) - l0)
        require(min(abs(imp[i] - o) for o in opts) < 2e-3 * (1 + abs(l0) + abs(imp[i])), "importance of action feature %d: %s, expected %s", i, imp[i], opts)
    for i, k in enumerate(c["sg"]):
        lo = starts(c["sg"])[i]
        opts = []
        for v in typical(S[..., lo:lo + k]):
            s2 = S.copy()
            s2[..., lo:lo + k] = v
            opts.append(loss(s2, A) - l0)
        x = imp[len(c["ag"]) + i]
        require(min(abs(x - o) for o in opts) < 2e-3 * (1 + abs(l0) + abs(x)), "importance of state feature %d: %s, expected %s", i, x, opts)
    # sensitivity: the actions of other rows
    import itertools

    sens = E.FeatureSensitivityEvaluator(tr, len(c["sg"]), starts(c["sg"])).evaluate(batch)["feature_sensitivity"]
    m0 = W01.expected(net, c, S, A)["mus"]
    fits = False
    for p in itertools.permutations(range(c["b"])):
        d = np.abs(W01.expected(net, c, S, A[:, list(p)])["mus"] - m0)
        want = [d[..., lo:lo + k].sum(-1).mean() for lo, k in zip(starts(c["sg"]), c["sg"])]
        fits = fits or np.allclose(sens, want, rtol=1e-3, atol=1e-4)
    require(fits, "sensitivity is the mean change of a feature's prediction under exchanged actions: %s", sens)
    for k, v in net.state_dict().items():
        same(v, before[k], "weights untouched")
    for k, v in (("state", S), ("action", A)):
        close(batch.action if k == "action" else batch.state.float_features, v, k + " untouched")
    rec.nt(len(c["sg"]) > 1 and c["b"] > 1 and c["t"] > 1)
    rec.label("discrete" if c["disc"] else "continuous")
