"""Slate trainers: importance weighting, clamping, baselines, supervised losses, simulated rewards."""
from types import SimpleNamespace

import numpy as np
import torch
from hypothesis import strategies as st
from torch import nn

from models.nets import T, arr, rng_of
from vlib.core import Inconclusive, close, equal, facet, raises, require, same

RULE = ("a case is a few batches of slates with logged probabilities and rewards, explicit network outputs, a clamp "
        "and schedule options; non-trivial = an importance weight beyond the clamp, or several batches")
LR = 0.05


def _opt():
    from reagent.optimizer import Optimizer__Union
    from reagent.optimizer.union import classes

    return Optimizer__Union(SGD=classes["SGD"](lr=LR))


class Stub(nn.Module):
    """log-probabilities as a table: rows are picked by the state (a one-hot row index)."""

    def __init__(self, seq, sym, n, k):
        super().__init__()
        self.seq = nn.Parameter(T(seq)) if seq is not None else None
        self.sym = nn.Parameter(T(sym)) if sym is not None else None
        self.max_src_seq_len, self.max_tgt_seq_len = n, k
        self.ranked = None

    def forward(self, b, mode, tgt_seq_len=None, greedy=None):
        import reagent.types as rlt

        x = b.state.float_features
        v = mode.value
        if v == "per_sequence_log_prob":
            self.seen = b
            return rlt.RankingOutput(log_probs=x @ self.seq)
        if v == "per_symbol_log_prob_dist":
            z = (x @ self.sym).reshape(len(x), self.max_tgt_seq_len, -1)
            return rlt.RankingOutput(log_probs=torch.log_softmax(z, 2))
        if v == "encoder_score_mode":
            return rlt.RankingOutput(encoder_scores=x @ self.sym)
        assert v == "rank"
        idx, p = self.ranked.pop(0) if isinstance(self.ranked, list) else self.ranked
        return rlt.RankingOutput(ranked_tgt_out_idx=idx, ranked_per_seq_probs=p)


class Base(nn.Module):
    def __init__(self, w):
        super().__init__()
        self.w = nn.Parameter(T(w))

    def forward(self, b):
        return b.state.float_features @ self.w


@st.composite
def cases(draw):
    rng = rng_of(draw)
    b, n = draw(st.integers(1, 3)), draw(st.one_of(st.integers(1, 4), st.integers(4, 7)))
    k, s, nb = draw(st.integers(1, n)), draw(st.integers(1, 2)), draw(st.integers(1, 5))
    return dict(b=b, n=n, k=k, s=s, nb=nb, seq=arr(rng, (s, 1), -1.5, 1.5), sym=arr(rng, (s, k * (n + 2)), -1, 1),
                enc=arr(rng, (s, k), -1, 1), wb=arr(rng, (s, 1)),
                state=arr(rng, (nb, b, s), -2, 2), act=[[rng.permutation(n)[:k].tolist() for _ in range(b)] for _ in range(nb)],
                opt=[[rng.permutation(n)[:k].tolist() for _ in range(b)] for _ in range(nb)],
                p=np.round(rng.uniform(0.05, 1, (nb, b, 1)), 3).tolist(), r=arr(rng, (nb, b, 1)), pr=arr(rng, (nb, b, k), 0, 3),
                cand=arr(rng, (b, n, 2)), clamp=draw(st.sampled_from([None, "universal", "aggressive"])),
                cmax=draw(st.sampled_from([0.5, 1.0, 3.0])), base=draw(st.booleans()), warm=draw(st.integers(0, 4)),
                interval=draw(st.integers(1, 3)), on=draw(st.booleans()),
                seed=draw(st.integers(0, 10**6)))


def _params(c):
    from reagent.parameters import Seq2SlateParameters
    from reagent.parameters_seq2slate import IPSClamp, IPSClampMethod

    cl = IPSClamp(clamp_method=IPSClampMethod(c["clamp"]), clamp_max=c["cmax"]) if c["clamp"] else None
    return Seq2SlateParameters(on_policy=c["on"], ips_clamp=cl)


def _batch(c, i):
    import reagent.types as rlt

    return rlt.PreprocessedRankingInput.from_input(
        state=T(c["state"][i]), candidates=T(c["cand"]), device=torch.device("cpu"), action=torch.tensor(c["act"][i]),
        optimal_action=torch.tensor(c["opt"][i]), logged_propensities=T(c["p"][i]), slate_reward=T(c["r"][i]),
        position_reward=T(c["pr"][i]))


def _clamp(c, w):
    if c["clamp"] is None:
        return w
    if float((w - c["cmax"]).detach().abs().min()) < 1e-3:
        raise Inconclusive("at the clamp")
    return w.clamp(0, c["cmax"]) if c["clamp"] == "universal" else torch.where(w > c["cmax"], torch.zeros_like(w), w)


D = lambda x: torch.tensor(x, dtype=torch.float64)  # noqa: E731


@facet(cases(), quick=700, shards=3)
def policy_gradient(case, rec):
    from reagent.training.ranking.seq2slate_trainer import Seq2SlateTrainer

    c = case
    net = Stub(c["seq"], None, c["n"], c["k"])
    base = Base(c["wb"]) if c["base"] else None
    tr = Seq2SlateTrainer(net, parameters=_params(c), baseline_net=base, baseline_warmup_num_batches=c["warm"],
                          policy_optimizer=_opt(), baseline_optimizer=_opt(), policy_gradient_interval=c["interval"])
    from reagent.core.tracker import Observer

    got = {}

    class Obs(Observer):
        def update(self, key, value):
            got[key] = value

    keys = ["train_ips_score", "train_clamped_ips_score", "train_baseline_loss", "train_ips_ratio", "train_clamped_ips_ratio",
            "train_advantages", "train_logged_slate_rank_probs"]
    tr.add_observers([Obs(observing_keys=keys)])
    w, acc, wb = D(c["seq"]), 0.0, D(c["wb"])
    beyond = False
    for i in range(c["nb"]):
        x, r, p = D(c["state"][i]), D(c["r"][i]), D(c["p"][i])
        tr.train(_batch(c, i))
        if c["base"]:
            b = x @ wb
            close(float(got["train_baseline_loss"]), float(((b - r) ** 2).mean()), "baseline loss", rtol=2e-3, atol=1e-3)
            wb = wb - LR * x.t() @ (2 * (b - r) / c["b"])
            close(base.w, wb, "baseline after its step", rtol=1e-3, atol=1e-3)
            wb = base.w.detach().double()
        else:
            b = torch.zeros_like(r)
        wv = w.clone().requires_grad_(True)
        ratio = (x @ wv).exp() / p
        if float(ratio.detach().max()) > 1e3:
            raise Inconclusive("diverged")
        cl = _clamp(c, ratio)
        beyond = beyond or bool((ratio > c["cmax"]).any())
        loss = -(cl * (r - b)).mean()
        g = torch.autograd.grad(loss, wv, allow_unused=True)[0] if cl.requires_grad else None
        if not c["base"] or i + 1 >= c["warm"]:
            acc = acc + (0 if g is None else g)
            if (i + 1) % c["interval"] == 0:
                w = w - LR * acc
                acc = 0.0
        close(net.seq, w, f"policy after batch {i + 1}", rtol=2e-3, atol=2e-3)
        w = net.seq.detach().double()
        for key, e in (("train_ips_ratio", ratio), ("train_clamped_ips_ratio", cl), ("train_advantages", r - b),
                       ("train_logged_slate_rank_probs", ratio * p), ("train_ips_score", -(ratio * r).mean().reshape(1)),
                       ("train_clamped_ips_score", -(cl * r).mean().reshape(1))):
            close(got[key], e.detach(), f"reported {key}", rtol=3e-3, atol=3e-3)
    rec.nt((beyond and c["clamp"]) or c["nb"] > 1)


@facet(cases(), quick=500, shards=2)
def differentiable_reward(case, rec):
    from reagent.training.ranking.seq2slate_dr_trainer import Seq2SlateDifferentiableRewardTrainer

    c = case
    net = Stub(None, c["sym"], c["n"], c["k"])
    tr = Seq2SlateDifferentiableRewardTrainer(net, _params(c), 16, policy_optimizer=_opt())
    w = D(c["sym"]).requires_grad_(True)
    x = D(c["state"][0])
    lp = torch.log_softmax((x @ w).reshape(c["b"], c["k"], -1), 2)
    loss = 0
    for i in range(c["b"]):
        steps = [lp[i, t, j + 2] for t, j in enumerate(c["act"][0][i])]
        tot = sum(steps)
        ratio = (tot - tot.detach()).exp() if c["on"] else _clamp(c, tot.exp() / c["p"][0][i][0])
        # the loss of step t is -log p weighted by its reward and a position discount
        loss = loss + ratio * sum(-s * c["pr"][0][i][t] / np.log(t + 2) for t, s in enumerate(steps)) / c["b"]
    out = tr.train(_batch(c, 0))
    close(out["sl"], loss.detach(), "loss", rtol=2e-3, atol=1e-3)
    close(out["per_symbol_log_probs"], lp.detach(), "reported log-probabilities", rtol=1e-3, atol=1e-3)
    g = torch.autograd.grad(loss, w)[0]
    close(net.sym, (w - LR * g).detach(), "network after the step", rtol=2e-3, atol=2e-3)
    rec.nt(c["k"] > 1)


@facet(cases(), quick=400, shards=2)
def supervised(case, rec):
    """Teacher forcing maximises the likelihood of the ground-truth slate; pairwise attention fits scores to rewards."""
    from reagent.training.ranking.seq2slate_attn_trainer import Seq2SlatePairwiseAttnTrainer
    from reagent.training.ranking.seq2slate_tf_trainer import Seq2SlateTeacherForcingTrainer

    c = case
    net = Stub(None, c["sym"], c["n"], c["k"])
    tr = Seq2SlateTeacherForcingTrainer(net, _params(c), 16, policy_optimizer=_opt(), policy_gradient_interval=c["interval"])
    w, acc = D(c["sym"]), 0.0
    for i in range(c["nb"]):
        wv = w.clone().requires_grad_(True)
        lp = torch.log_softmax((D(c["state"][i]) @ wv).reshape(c["b"], c["k"], -1), 2)
        loss = -sum(lp[r, t, j + 2] for r in range(c["b"]) for t, j in enumerate(c["opt"][i][r])) / c["b"]
        _, got = tr.train(_batch(c, i))
        close(got, loss.detach(), "teacher-forcing loss", rtol=2e-3, atol=1e-3)
        acc = acc + torch.autograd.grad(loss, wv)[0]
        if (i + 1) % c["interval"] == 0:
            w, acc = w - LR * acc, 0.0
        close(net.sym, w, f"network after batch {i + 1}", rtol=2e-3, atol=2e-3)
        w = net.sym.detach().double()
    net = Stub(None, c["enc"], c["n"], c["k"])
    tr = Seq2SlatePairwiseAttnTrainer(net, policy_optimizer=_opt())
    for i in range(c["nb"]):
        wv = net.sym.detach().double().requires_grad_(True)
        y = D(c["pr"][i])
        ls = torch.log_softmax(D(c["state"][i]) @ wv, 1)
        ent = torch.where(y > 0, y * torch.log(y.clamp(min=1e-300)), torch.zeros_like(y))
        loss = (ent - y * ls).sum() / c["b"]
        out = tr.train(_batch(c, i))
        close(out["cross_entropy_loss"], loss.detach(), "pairwise attention loss", rtol=2e-3, atol=2e-3)
        close(net.sym, (wv - LR * torch.autograd.grad(loss, wv)[0]).detach(), f"network after step {i + 1}", rtol=2e-3, atol=2e-3)
    rec.nt(c["k"] > 1)


class Rew(nn.Module):
    """A slate reward that depends on everything it is given."""

    def __init__(self, w):
        super().__init__()
        self.w = nn.Parameter(T(w), requires_grad=False)

    def forward(self, state: torch.Tensor, src: torch.Tensor, slate: torch.Tensor, mask: torch.Tensor, idx: torch.Tensor):
        k = slate.shape[1]
        r = ((slate.sum(2) + 0.3 * idx.float()) * self.w[:k]).sum(1, keepdim=True)
        return r + 0.2 * state.sum(1, keepdim=True) + 0.1 * src.sum(2)[:, :1] * mask.float().mean()

    def oracle(self, state, src, slate, idx):
        w = self.w.numpy().astype(float)[: slate.shape[1]]
        r = ((slate.sum(2) + 0.3 * idx) * w).sum(1, keepdims=True)
        return r + 0.2 * state.sum(1, keepdims=True) + 0.1 * src.sum(2)[:, :1]


@facet(cases(), quick=240, shards=3)
def simulated_slates(case, rec):
    """Simulation replaces the logged slate by the model's own and its reward by the weighted powers of predicted
    rewards, clamped, plus a bonus for staying close to the logged order; the policy is trained on that."""
    import os
    import tempfile

    from reagent.parameters import Seq2SlateParameters
    from reagent.parameters_seq2slate import RewardClamp, SimulationParameters
    from reagent.training.ranking.seq2slate_sim_trainer import Seq2SlateSimulationTrainer

    c = case
    rng = np.random.RandomState(c["seed"])
    nr = rng.randint(1, 3)
    wgt = {f"r{i}": float(np.round(rng.uniform(-2, 2), 2)) for i in range(nr)}
    pw = {f"r{i}": float(rng.choice([1, 2, 3])) for i in range(nr)}
    clamp = [None, (-0.5, 0.8), (None, 1.0), (-1.0, None)][rng.randint(4)]
    pen = [None, 0.3, 1.0][rng.randint(3)]
    rews = {k: Rew(arr(rng, (c["n"],), -1, 1)) for k in wgt}
    with tempfile.TemporaryDirectory() as d:
        for k, m in rews.items():
            torch.jit.script(m).save(os.path.join(d, k))
        par = Seq2SlateParameters(on_policy=False, simulation=SimulationParameters(
            reward_name_weight=wgt, reward_name_power=pw, reward_name_path={k: os.path.join(d, k) for k in wgt},
            reward_clamp=RewardClamp(*clamp) if clamp else None, distance_penalty=pen))
        net = Stub(c["seq"], None, c["n"], c["k"])
        act = torch.tensor(c["opt"][0])
        # rounding may make the network decode impossible slates: they are decoded again
        bad = []
        for _ in range(rng.randint(3)):
            wrong = act + 2
            wrong[rng.randint(c["b"]), rng.randint(c["k"])] = rng.randint(2)
            bad.append((wrong, torch.zeros(c["b"], 1)))
        prop = np.array(c["p"][0]) * rng.choice([1.0, 0.001])
        net.ranked = bad + [(act + 2, T(prop))]
        tr = Seq2SlateSimulationTrainer(net, 16, par, policy_optimizer=_opt())
        tr.train(_batch(c, 0))
    b = net.seen
    idx = np.array(c["opt"][0])
    slate = np.array([[c["cand"][i][j] for j in c["opt"][0][i]] for i in range(c["b"])])
    tot = np.zeros((c["b"], 1))
    for k, m in rews.items():
        tot += wgt[k] * m.oracle(np.array(c["state"][0]), np.array(c["cand"]), slate, idx + 2) ** pw[k]
    if clamp:
        tot = np.clip(tot, clamp[0] if clamp[0] is not None else -np.inf, clamp[1] if clamp[1] is not None else np.inf)
    if pen is not None:
        for i in range(c["b"]):
            a = c["opt"][0][i]
            inv = sum(a[x] > a[y] for x in range(len(a)) for y in range(x + 1, len(a)))
            tot[i] += pen * (c["n"] * (c["n"] - 1) / 2 - inv - sum(a[t] - t for t in range(len(a))))
    close(b.slate_reward, tot, "simulated reward", rtol=2e-3, atol=1e-3)
    same(b.tgt_out_idx, idx + 2, "simulated slate")
    close(b.tgt_out_seq.float_features, slate, "features of the simulated slate")
    close(b.tgt_out_probs, prop, "probability of the simulated slate")
    close(b.state.float_features, c["state"][0], "state")
    # one step of gradient descent on -ratio * reward
    x = np.array(c["state"][0])
    ratio = np.exp(x @ np.array(c["seq"])) / prop
    close(net.seq, np.array(c["seq"]) + LR * x.T @ (ratio * tot) / c["b"], "policy after one step", rtol=3e-3, atol=3e-3)
    rec.nt(c["n"] > 2)


@facet(cases(), quick=60, shards=1)
def default_construction(case, rec):
    """Leaving out optimizers and parameters means the documented defaults."""
    import copy

    from reagent.optimizer.union import Optimizer__Union as U
    from reagent.parameters import Seq2SlateParameters as P
    from reagent.training.ranking.seq2slate_attn_trainer import Seq2SlatePairwiseAttnTrainer
    from reagent.training.ranking.seq2slate_dr_trainer import Seq2SlateDifferentiableRewardTrainer
    from reagent.training.ranking.seq2slate_tf_trainer import Seq2SlateTeacherForcingTrainer
    from reagent.training.ranking.seq2slate_trainer import Seq2SlateTrainer

    c = dict(case, clamp=None)
    kind = c["seed"] % 4
    stub = Stub(c["seq"], c["enc"] if kind == 3 else c["sym"], c["n"], c["k"])
    nets_ = [stub, copy.deepcopy(stub)]
    bases = [Base(c["wb"]), Base(c["wb"])] if c["base"] else [None, None]
    d = U.default
    for i, m in enumerate(nets_):
        kw = dict(policy_optimizer=d()) if i else {}
        if kind == 0:
            if i:
                kw.update(parameters=P(), baseline_optimizer=d())
            tr = Seq2SlateTrainer(m, baseline_net=bases[i], **kw)
        elif kind == 1:
            tr = Seq2SlateDifferentiableRewardTrainer(m, _params(c), 16, **kw)
        elif kind == 2:
            tr = Seq2SlateTeacherForcingTrainer(m, _params(c), 16, **kw)
        else:
            tr = Seq2SlatePairwiseAttnTrainer(m, **kw)
        tr.train(_batch(dict(c, pr=(np.array(c["pr"]) + 0.01).tolist()), 0))
    for p, q in zip(nets_[0].parameters(), nets_[1].parameters()):
        same(p, q, "parameters after one step with the defaults")
    rec.nt(True)


@facet(st.tuples(st.permutations(list(range(7))), st.integers(1, 7)), quick=400, shards=1)
def swap_distance(case, rec):
    """The number of adjacent swaps that bring the chosen items from the original order to the front in this order."""
    from reagent.training.ranking.seq2slate_sim_trainer import swap_dist

    a = case[0][: case[1]]
    cur, n = list(range(7)), 0
    for t, x in enumerate(a):
        i = cur.index(x)
        cur.insert(t, cur.pop(i))
        n += i - t
    before = list(a)
    equal(int(swap_dist(before)), n, f"swap distance of {a}")
    equal(before, list(a), "argument after the call")
    rec.nt(len(a) > 2)


@facet(st.tuples(st.lists(st.floats(0, 50, width=32), min_size=1, max_size=6), st.sampled_from([None, "universal", "aggressive"]),
                 st.sampled_from([0.0, 0.5, 1.0, 7.0])), quick=400, shards=1)
def clamping(case, rec):
    from reagent.parameters_seq2slate import IPSClamp, IPSClampMethod
    from reagent.training.ranking.helper import ips_clamp

    w, how, m = case
    x = T(w).reshape(-1, 1)
    out = ips_clamp(x, IPSClamp(clamp_method=IPSClampMethod(how), clamp_max=m) if how else None)
    e = [v if how is None or v <= m else (m if how == "universal" else 0.0) for v in w]
    close(out, np.array(e).reshape(-1, 1), f"weights clamped ({how}, {m})")
    close(x, np.array(w).reshape(-1, 1), "weights given")
    require(out.data_ptr() != x.data_ptr(), "the result shares memory with the input")
    rec.nt(how is not None and any(v > m for v in w))
