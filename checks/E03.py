"""Evaluation pages and the evaluator."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from models import cpe, nets
from models.nets import T, arr, rng_of
from vlib.core import Inconclusive, close, equal, facet, raises, require, same

RULE = ("a case is a set of logged rows in shuffled batches with explicit networks, or an explicit page; non-trivial = "
        "two or more episodes of different lengths, or metrics, or a restricted action set")


class Mode(torch.nn.Module):
    """A network that answers differently while training."""

    def __init__(self, net):
        super().__init__()
        self.net = net

    def forward(self, *a):
        y = self.net(*a)
        return y + 7.0 if self.training else y


@st.composite
def rows(draw, max_eps=5, max_len=4):
    """Shuffled rows of episodes, split in batches"""
    rng = rng_of(draw)
    ids, seq = [], []
    names = draw(st.sampled_from(["int", "int", "str"]))
    for i in range(draw(st.integers(1, max_eps))):
        k = draw(st.integers(1, max_len))
        s = draw(st.integers(0, 9))
        for _ in range(k):
            ids.append(f"m{i}" if names == "str" else (i * 7) % 11)
            seq.append(s)
            s += int(rng.randint(1, 4))
    n = len(ids)
    p = rng.permutation(n)
    cut = sorted(draw(st.lists(st.integers(1, n), max_size=3)))
    return dict(ids=[ids[i] for i in p], seq=[seq[i] for i in p], n=n, cuts=cut, names=names, seed=int(rng.randint(1 << 30)))


def returns(order, ids, seq, r, gamma):
    """Discounted return of each row by the definition: sum over later rows of the episode of gamma^(difference of seq)"""
    out = []
    for i in order:
        v = np.zeros(r.shape[1])
        for j in order:
            if ids[j] == ids[i] and seq[j] >= seq[i]:
                v += gamma ** (seq[j] - seq[i]) * r[j]
        out.append(v)
    return np.array(out)


def chunks(c):
    e = [0] + c["cuts"] + [c["n"]]
    return [(a, b) for a, b in zip(e, e[1:]) if b > a]


@st.composite
def discrete_cases(draw):
    c = draw(rows())
    rng = rng_of(draw)
    n, a, s, m = c["n"], draw(st.integers(2, 4)), draw(st.integers(1, 3)), draw(st.integers(0, 2))
    act = rng.randint(0, a, n)
    mask = (rng.rand(n, a) < 0.7).astype(int)
    mask[np.arange(n), act] = 1
    rl = draw(nets.rl_params(actions=a))
    k = (1 + m) * a
    c.update(a=a, s=s, m=m, action=act.tolist(), mask=mask.tolist(), rl=rl, state=arr(rng, (n, s)),
             prob=np.round(rng.uniform(0.05, 1, (n, 1)), 2).tolist(), reward=arr(rng, (n, 1)),
             metrics=arr(rng, (n, m)), w=arr(rng, (s, a)), wt=arr(rng, (s, a)), wr=arr(rng, (s, k)),
             wc=arr(rng, (s, k)), wct=arr(rng, (s, k)), double=draw(st.booleans()), modes=draw(st.lists(st.booleans(), min_size=3, max_size=3)),
             qr=draw(st.booleans()))
    return c


def ids_of(c, a, b):
    if c["names"] == "str":
        return np.array(c["ids"][a:b]).reshape(-1, 1)
    return torch.tensor(c["ids"][a:b]).reshape(-1, 1)


@facet(discrete_cases(), quick=320, shards=4)
def discrete_page(case, rec):
    import reagent.types as rlt
    from reagent.parameters import EvaluationParameters, RLParameters
    from reagent.training.dqn_trainer import DQNTrainer

    c = case
    n, a, m = c["n"], c["a"], c["m"]
    mk = [Mode(nets.Lin(c[k])) for k in ("w", "wt", "wr", "wc", "wct")]
    tr = DQNTrainer(mk[0], mk[1], mk[2], q_network_cpe=mk[3], q_network_cpe_target=mk[4],
                    metrics_to_score=[f"m{i}" for i in range(m)], actions=[f"a{i}" for i in range(a)],
                    evaluation=EvaluationParameters(calc_cpe_in_training=True), rl=RLParameters(**c["rl"]),
                    double_q_learning=c["double"])
    nets.instrument(tr)
    watched = (tr.q_network, tr.reward_network, tr.q_network_cpe)
    for net, mode in zip(watched, c["modes"]):
        net.train(mode)
    bs = []
    for x, y in chunks(c):
        bs.append(rlt.DiscreteDqnInput(
            state=rlt.FeatureData(T(c["state"][x:y])), next_state=rlt.FeatureData(T(c["state"][x:y])),
            reward=T(c["reward"][x:y]), time_diff=torch.ones(y - x, 1), step=None, not_terminal=torch.ones(y - x, 1),
            action=T(nets.onehot(c["action"][x:y], a)), next_action=T(nets.onehot(c["action"][x:y], a)),
            possible_actions_mask=T(c["mask"][x:y]), possible_next_actions_mask=torch.ones(y - x, a),
            extras=rlt.ExtraData(mdp_id=ids_of(c, x, y), sequence_number=torch.tensor(c["seq"][x:y]).reshape(-1, 1),
                                 action_probability=T(c["prob"][x:y]), metrics=T(c["metrics"][x:y]) if m else None)))
    page = tr.gather_eval_data(bs)
    equal([x.training for x in watched], c["modes"], "training modes after making a page")
    o = sorted(range(n), key=lambda i: (c["ids"][i], c["seq"][i]))
    require([x for x in np.asarray(page.mdp_id).reshape(-1).tolist()] == [c["ids"][i] for i in o], "order of MDPs")
    equal(page.sequence_number.reshape(-1).tolist(), [c["seq"][i] for i in o], "order of steps")
    x = np.array(c["state"])[o]
    act = np.array(c["action"])[o]
    q = x @ np.array(c["w"])
    one = nets.onehot(act, a)
    mask = np.array(c["mask"])[o]
    reward = nets.boosted(c["rl"], c)
    vals = (x @ np.array(c["wc"])).reshape(n, 1 + m, a)
    rews = (x @ np.array(c["wr"])).reshape(n, 1 + m, a)
    ri = np.arange(n)
    f = lambda got, exp, msg: close(got, exp, msg, rtol=1e-3, atol=2e-3)  # noqa: E731
    f(page.action_mask, one, "action mask")
    f(page.logged_propensities, np.array(c["prob"])[o], "logged propensities")
    f(page.logged_rewards, reward[o], "logged rewards, boosted")
    f(page.logged_values, returns(o, c["ids"], c["seq"], reward, c["rl"]["gamma"]), "logged returns")
    f(page.model_values, vals[:, 0], "model values")
    f(page.model_values_for_logged_action, vals[ri, 0, act][:, None], "model value of the logged action")
    f(page.model_rewards, rews[:, 0], "model rewards")
    f(page.model_rewards_for_logged_action, rews[ri, 0, act][:, None], "model reward of the logged action")
    f(page.model_propensities, nets.softmax_masked(q, mask, c["rl"]["temperature"]), "model propensities")
    f(page.optimal_q_values, q, "action values")
    f(page.possible_actions_mask, mask, "possible actions")
    if not nets.near_tie(q, mask):
        equal(page.eval_action_idxs.reshape(-1).tolist(), nets.best(q, mask).tolist(), "greedy actions")
    if m:
        lm = np.array(c["metrics"])
        f(page.logged_metrics, lm[o], "logged metrics")
        f(page.logged_metrics_values, returns(o, c["ids"], c["seq"], lm, c["rl"]["gamma"]), "returns of the metrics")
        f(page.model_metrics, rews[:, 1:].reshape(n, -1), "model metrics")
        f(page.model_metrics_values, vals[:, 1:].reshape(n, -1), "model values of metrics")
        f(page.model_metrics_for_logged_action, rews[ri, 1:, act], "model metrics of the logged action")
        f(page.model_metrics_values_for_logged_action, vals[ri, 1:, act], "model metric values of the logged action")
    else:
        require(page.logged_metrics is None and page.model_metrics_values is None, "metrics without metrics")
    rec.nt(len(set(c["ids"])) > 1 and len(bs) > 1)
    rec.label(f"metrics{m}", c["names"])


@st.composite
def parametric_cases(draw):
    c = draw(rows())
    rng = rng_of(draw)
    n, a, s, d, m = c["n"], draw(st.integers(2, 4)), draw(st.integers(1, 3)), draw(st.integers(1, 3)), draw(st.integers(0, 2))
    # distinct possible actions in each row
    poss = [[[float(v) for v in np.round(rng.uniform(-2, 2, d), 2)] for _ in range(a)] for _ in range(n)]
    for r in poss:
        for j, v in enumerate(r):
            v[0] = round(v[0] + 5 * j, 2)
    act = rng.randint(0, a, n)
    mask = (rng.rand(n, a) < 0.7).astype(int)
    mask[np.arange(n), act] = 1
    c.update(a=a, s=s, d=d, m=m, poss=poss, action=act.tolist(), mask=mask.tolist(), state=arr(rng, (n, s)),
             prob=np.round(rng.uniform(0.05, 1, (n, 1)), 2).tolist(), reward=arr(rng, (n, 1)), metrics=arr(rng, (n, m)),
             w=arr(rng, (s, d), -1, 1), wt=arr(rng, (s, d), -1, 1), wr=arr(rng, (1 + m, s, d), -1, 1),
             rl=draw(nets.rl_params()), modes=draw(st.lists(st.booleans(), min_size=2, max_size=2)))
    return c


class Multi(torch.nn.Module):
    def __init__(self, ws):
        super().__init__()
        self.w = torch.nn.Parameter(T(ws))

    def forward(self, state, action):
        return torch.einsum("ns,ksd,nd->nk", state.float_features, self.w, action.float_features)


@facet(parametric_cases(), quick=240, shards=4)
def parametric_page(case, rec):
    import reagent.types as rlt
    from reagent.evaluation.evaluation_data_page import EvaluationDataPage
    from reagent.parameters import RLParameters
    from reagent.training.parametric_dqn_trainer import ParametricDQNTrainer

    c = case
    n, a, m, d = c["n"], c["a"], c["m"], c["d"]
    tr = ParametricDQNTrainer(Mode(nets.Bil(c["w"])), Mode(nets.Bil(c["wt"])), Mode(Multi(c["wr"])),
                              rl=RLParameters(**c["rl"]))
    nets.instrument(tr)
    watched = (tr.q_network, tr.reward_network)
    for net, mode in zip(watched, c["modes"]):
        net.train(mode)
    poss = np.array(c["poss"])
    act = poss[np.arange(n), c["action"]]
    page = None
    for x, y in chunks(c):
        p = EvaluationDataPage.create_from_training_batch(rlt.ParametricDqnInput(
            state=rlt.FeatureData(T(c["state"][x:y])), next_state=rlt.FeatureData(T(c["state"][x:y])),
            reward=T(c["reward"][x:y]), time_diff=torch.ones(y - x, 1), step=None, not_terminal=torch.ones(y - x, 1),
            action=rlt.FeatureData(T(act[x:y].tolist())), next_action=rlt.FeatureData(T(act[x:y].tolist())),
            possible_actions=rlt.FeatureData(T(poss[x:y].reshape(-1, d).tolist())),
            possible_actions_mask=T(c["mask"][x:y]),
            possible_next_actions=rlt.FeatureData(T(poss[x:y].reshape(-1, d).tolist())),
            possible_next_actions_mask=T(c["mask"][x:y]),
            extras=rlt.ExtraData(mdp_id=ids_of(c, x, y), sequence_number=torch.tensor(c["seq"][x:y]).reshape(-1, 1),
                                 action_probability=T(c["prob"][x:y]), max_num_actions=a,
                                 metrics=T(c["metrics"][x:y]) if m else None)), tr)
        page = p if page is None else page.append(p)
    equal([x.training for x in watched], c["modes"], "training modes after making a page")
    st_ = np.array(c["state"])
    f = lambda got, exp, msg: close(got, exp, msg, rtol=1e-3, atol=2e-3)  # noqa: E731
    q = np.einsum("ns,sd,nad->na", st_, np.array(c["w"]), poss)
    r = np.einsum("ns,ksd,nad->nka", st_, np.array(c["wr"]), poss)
    ri = np.arange(n)
    f(page.action_mask, nets.onehot(c["action"], a), "action mask")
    f(page.model_values, q, "model values")
    f(page.optimal_q_values, q, "action values")
    f(page.model_propensities, nets.softmax_masked(q, np.array(c["mask"]), c["rl"]["temperature"]), "model propensities")
    f(page.model_values_for_logged_action, q[ri, c["action"]][:, None], "value of the logged action")
    f(page.model_rewards, r[:, 0], "model rewards")
    f(page.model_rewards_for_logged_action, r[ri, 0, c["action"]][:, None], "model reward of the logged action")
    f(page.logged_rewards, np.array(c["reward"]), "logged rewards")
    f(page.logged_propensities, np.array(c["prob"]), "logged propensities")
    if m:
        f(page.logged_metrics, np.array(c["metrics"]), "logged metrics")
        f(page.model_metrics, r[:, 1:].reshape(n, -1), "model metrics")
        page = page.sort().compute_values(c["rl"]["gamma"])
        page.validate()
        o = sorted(range(n), key=lambda i: (c["ids"][i], c["seq"][i]))
        for i in range(m):
            e = page.set_metric_as_reward(i, a)
            f(e.model_rewards, r[o, 1 + i], "metric as reward")
    rec.nt(n > 1 and m > 0)
    rec.label(f"metrics{m}")


@st.composite
def slate_cases(draw):
    rng = rng_of(draw)
    n, cand, d, s = draw(st.integers(1, 4)), draw(st.integers(2, 5)), draw(st.integers(1, 2)), draw(st.integers(1, 2))
    k = draw(st.integers(1, cand))
    ranked = [rng.permutation(cand)[:k].tolist() for _ in range(n)]
    logged = [r if rng.rand() < 0.5 else rng.permutation(cand)[:k].tolist() for r in ranked]
    return dict(n=n, cand=cand, d=d, s=s, k=k, ranked=ranked, logged=logged, lp=arr(rng, (n, 1), -3, 0),
                state=arr(rng, (n, s)), src=arr(rng, (n, cand, d)), reward=arr(rng, (n, 1)),
                prob=np.round(rng.uniform(0.05, 1, (n, 1)), 2).tolist(), w=arr(rng, (k, d)), ws=arr(rng, (s,)), wi=arr(rng, (k,)),
                greedy=draw(st.booleans()), flat=draw(st.booleans()))


@facet(slate_cases(), quick=200, shards=2)
def slate_page(case, rec):
    import reagent.types as rlt
    from reagent.evaluation.evaluation_data_page import EvaluationDataPage
    from reagent.model_utils.seq2slate_utils import Seq2SlateMode

    c = case
    n, k = c["n"], c["k"]
    src = np.array(c["src"])
    ranked, logged = np.array(c["ranked"]), np.array(c["logged"])

    class Net(torch.nn.Module):
        def forward(self, inp, mode, tgt_seq_len=None, greedy=None):
            if mode == Seq2SlateMode.RANK_MODE:
                require(greedy, "the page must use the greedy ranking")
                return rlt.RankingOutput(ranked_tgt_out_idx=torch.tensor(c["ranked"]) + 2)
            require(mode == Seq2SlateMode.PER_SEQ_LOG_PROB_MODE, "unexpected mode %s", mode)
            return rlt.RankingOutput(log_probs=T(c["lp"]))

    def value(state, seq, idx):
        return (state @ np.array(c["ws"]) + (seq * np.array(c["w"])).sum((1, 2)) + (idx * np.array(c["wi"])).sum(1))

    class Reward(torch.nn.Module):
        def forward(self, state, s, tgt, mask, idx):
            same(s, T(c["src"]), "candidates given to the reward network")
            return T(value(state.numpy(), tgt.numpy(), idx.numpy() - 2).tolist())

    ri = np.arange(n)[:, None]
    inp = rlt.PreprocessedRankingInput(
        state=rlt.FeatureData(T(c["state"])), src_seq=rlt.FeatureData(T(c["src"])),
        src_src_mask=torch.ones(n, c["cand"], c["cand"]), tgt_out_seq=rlt.FeatureData(T(src[ri, logged].tolist())),
        tgt_out_idx=torch.tensor(c["logged"]) + 2, tgt_out_probs=T(c["prob"]).reshape(-1) if c["flat"] else T(c["prob"]),
        slate_reward=T(c["reward"]).reshape(-1) if c["flat"] else T(c["reward"]))
    p = EvaluationDataPage.create_from_tensors_seq2slate(Net(), Reward(), inp, c["greedy"])
    match = (ranked == logged).all(1, keepdims=True)
    close(p.action_mask, match if c["greedy"] else np.ones((n, 1)), "action mask")
    close(p.model_propensities, np.ones((n, 1)) if c["greedy"] else np.exp(c["lp"]), "propensities")
    close(p.logged_propensities, c["prob"], "logged propensities")
    close(p.logged_rewards, c["reward"], "logged rewards")
    close(p.model_rewards_for_logged_action, value(np.array(c["state"]), src[ri, logged], logged)[:, None],
          "reward predicted for the logged slate", rtol=1e-3, atol=1e-3)
    close(p.model_rewards, value(np.array(c["state"]), src[ri, ranked], ranked)[:, None],
          "reward predicted for the ranked slate", rtol=1e-3, atol=1e-3)
    rec.nt(n > 1 and match.any() and not match.all())
    rec.label("greedy" if c["greedy"] else "stochastic")


def full(c):
    return cpe.build(c).compute_values(c["gamma"])


@facet(cpe.pages(min_eps=2, metrics=2), quick=250, shards=3)
def page_operations(case, rec):
    c = case
    page = cpe.build(c)
    n = len(c["ids"])
    rng = np.random.RandomState(c["seed"])
    p = rng.permutation(n)
    r = np.array(c["reward"])
    keys = ("ids", "seq", "action", "logged", "prop", "reward", "mr", "mrl", "mv", "metrics", "mm", "mmv")
    d = dict(c, **{k: np.array(c[k])[p].tolist() for k in keys})
    cut = int(rng.randint(0, n + 1))
    part = [cpe.build(dict(d, **{k: d[k][x] for k in keys})) for x in (slice(0, cut), slice(cut, n))] if 0 < cut < n else [cpe.build(d)]
    whole = part[0] if len(part) == 1 else part[0].append(part[1])
    order = sorted(range(n), key=lambda i: (c["ids"][i], c["seq"][i]))
    for f in page._fields:
        x, y = getattr(whole.sort(), f), getattr(page, f)
        require((x is None) == (y is None), "field %s appears or disappears", f)
        if x is not None:
            same(x, y[order], f"{f} after append and sort")
    v = page.compute_values(c["gamma"])
    close(v.logged_values, returns(range(n), c["ids"], c["seq"], r, c["gamma"]), "returns", rtol=1e-3, atol=1e-3)
    close(v.logged_metrics_values, returns(range(n), c["ids"], c["seq"], np.array(c["metrics"]), c["gamma"]),
          "metric returns", rtol=1e-3, atol=1e-3)
    same(page.logged_rewards, T(c["reward"]), "rewards untouched")
    v.validate()
    for i in range(2):
        e = v.set_metric_as_reward(i, c["a"])
        mm, mmv = (np.array(c[k]).reshape(n, 2, c["a"])[:, i] for k in ("mm", "mmv"))
        one = cpe.onehot(c)
        close(e.logged_rewards, np.array(c["metrics"])[:, [i]], "metric as logged reward")
        close(e.logged_values, v.logged_metrics_values[:, [i]], "metric's return")
        close(e.model_rewards, mm, "metric predictions")
        close(e.model_values, mmv, "metric values")
        close(e.model_values_for_logged_action, (mmv * one).sum(1, keepdims=True), "metric value of the logged action")
        close(e.model_rewards_for_logged_action, (mm * one).sum(1, keepdims=True), "metric prediction for the logged action")
        for k in ("mdp_id", "sequence_number", "model_propensities", "logged_propensities", "action_mask"):
            same(getattr(e, k), getattr(v, k), k + " kept")
    # malformed pages are refused
    if len(c["ids"]) > max(c["lens"]) and any(k > 1 for k in c["lens"]):
        s, e = next(x for x in cpe.episodes(c) if x[1] - x[0] > 1)
        q = list(range(n))
        q[s], q[s + 1] = q[s + 1], q[s]
        bad = v._replace(sequence_number=v.sequence_number[q])
        raises(AssertionError, bad.validate, "a page with steps out of order")
        q = [i for i in range(n) if i != s] + [s]
        if s != cpe.episodes(c)[-1][0]:
            bad = type(v)(**{f: getattr(v, f)[q] if getattr(v, f) is not None else None for f in v._fields})
            raises(AssertionError, bad.validate, "a page with a broken up MDP")
    rec.nt(len(set(c["lens"])) > 1)


@st.composite
def evaluator_cases(draw):
    m = draw(st.integers(0, 2))
    c = draw(cpe.pages(min_eps=4, metrics=m))
    rng = rng_of(draw)
    n = len(c["ids"])
    c.update(m=m, oq=arr(rng, (n, c["a"])) if draw(st.booleans()) else None,
             greedy=rng.randint(0, c["a"], (n, 1)).tolist() if draw(st.booleans()) else None, named=draw(st.booleans()))
    return c


@facet(evaluator_cases(), quick=100, shards=5)
def evaluation(case, rec):
    from reagent.core.tracker import Observer
    from reagent.evaluation.evaluator import Evaluator

    c = case
    np.random.seed(c["seed"])
    n, a = len(c["ids"]), c["a"]
    page = cpe.build(c, optimal_q_values=T(c["oq"]) if c["oq"] else None,
                     eval_action_idxs=torch.tensor(c["greedy"]) if c["greedy"] else None).compute_values(c["gamma"])
    names = [f"a{i}" for i in range(a)]
    ev = Evaluator(names, c["gamma"], None, metrics_to_score=[f"m{i}" for i in range(c["m"])])
    seen = []

    class O(Observer):
        def __init__(self):
            super().__init__(["cpe_details"])

        def update(self, key, value):
            seen.append(value)

    ev.add_observer(O())
    d = ev.evaluate_post_training(page)
    require(len(seen) == 1 and seen[0] is d, "observers get the details once")
    w = cpe.weights(c, False) * len(c["lens"])
    tol = 1e-4 * (1 + 10 * float(np.abs(w).max()))

    def check(e, cc, msg):
        dm, ips, dr = (x.mean() for x in cpe.one_step(cc))
        close(e.direct_method.raw, dm, msg + " direct method", rtol=1e-3, atol=1e-3)
        close(e.inverse_propensity.raw, ips, msg + " IPS", rtol=1e-3, atol=1e-3)
        close(e.doubly_robust.raw, dr, msg + " DR", rtol=1e-3, atol=1e-3)
        close(e.sequential_doubly_robust.raw, cpe.seq_dr(cc)[0].mean(), msg + " sequential DR", rtol=1e-3, atol=tol)
        if not (c["kind"] == "deterministic"):
            close(e.weighted_doubly_robust.raw, cpe.step_return(cc, math.inf, True), msg + " weighted DR", rtol=1e-3, atol=tol)

    check(d.reward_estimates, c, "reward")
    equal(sorted(d.metric_estimates), [f"m{i}" for i in range(c["m"])], "metrics estimated")
    for i in range(c["m"]):
        mm, mmv = (np.array(c[k]).reshape(n, c["m"], a)[:, i] for k in ("mm", "mmv"))
        cc = dict(c, reward=np.array(c["metrics"])[:, [i]].tolist(), mr=mm.tolist(), mv=mmv.tolist(),
                  mrl=(mm * cpe.onehot(c)).sum(1, keepdims=True).tolist())
        check(d.metric_estimates[f"m{i}"], cc, f"metric {i}")
    if c["oq"]:
        for i, k in enumerate(names):
            close(d.q_value_means[k], np.mean(c["oq"], 0)[i], "mean of " + k, atol=1e-4)
            close(d.q_value_stds[k], np.std(c["oq"], 0, ddof=1)[i], "spread of " + k, atol=1e-3)
    if c["greedy"]:
        for i, k in enumerate(names):
            close(d.action_distribution[k], (np.array(c["greedy"]) == i).mean(), "share of " + k)
    mv = (np.array(c["mv"]) * cpe.onehot(c)).sum(1)
    lv = returns(range(n), c["ids"], c["seq"], np.array(c["reward"]), c["gamma"])[:, 0]
    close(d.mc_loss, np.mean((mv - lv) ** 2), "Monte Carlo loss", rtol=1e-3, atol=1e-3)
    rec.nt(len(set(c["lens"])) > 1 and c["m"] > 0)
    rec.label(f"metrics{c['m']}", c["kind"])


@st.composite
def small(draw):
    rng = rng_of(draw)
    k = draw(st.integers(1, 4))
    return dict(k=k, a=arr(rng, (k,)), b=arr(rng, (k,)), x=round(float(rng.uniform(-3, 3)), 3), y=round(float(rng.uniform(-3, 3)), 3), none=draw(st.booleans()))


@facet(small(), quick=100, shards=1)
def distances(case, rec):
    """Distances between distributions over actions are mean squares; Huber's loss is quadratic up to one, then linear; tensors of anything"""
    from reagent.evaluation.evaluator import Evaluator, get_tensor

    c = case
    names = ["a%d" % i for i in range(c["k"])]
    ev = Evaluator(names, 0.9, None)
    target = [] if c["none"] else list(c["a"])
    got = ev.get_target_distribution_error(names, target, dict(zip(names, c["b"])))
    if c["none"]:
        equal(got, None, "no target")
    else:
        close(got, np.mean((np.array(c["a"]) - np.array(c["b"])) ** 2), "distance to the target")
    d = abs(c["x"] - c["y"])
    close(Evaluator.huberLoss(c["x"], c["y"]), d - 0.5 if d > 1 else d * d / 2, "Huber loss")
    equal(get_tensor(None), None, "no tensor")
    t = get_tensor(c["a"])
    close(t, c["a"], "tensor of a list")
    require(get_tensor(t) is t, "a tensor is left alone")
    u = get_tensor(t, torch.float64)
    equal(u.dtype, torch.float64, "type asked for")
    close(u, c["a"], "values of the type asked for")
    rec.nt(c["k"] > 1 and d > 1)
