"""Cross-entropy planner over an ensemble of world models."""
import itertools
import math
import random

import numpy as np
import torch
from hypothesis import strategies as st
from torch import nn

from models.nets import T, arr, rng_of
from vlib.core import Inconclusive, close, equal, facet, raises, require

RULE = ("a case is an ensemble of explicit world models, a planner configuration and a start state; non-trivial = "
        "horizon of two or more and two or more candidate solutions (sampling: two or more mixture components)")


class World(nn.Module):
    """next = tanh(As + Ba) (up to 1e-9 of noise), reward = w.s + r.a - k|a-goal|^2, stop when stop.s > thr"""

    def __init__(self, m, s, a, log):
        super().__init__()
        self.m, self.s, self.a, self.log = m, s, a, log

    def step(self, s, a):
        m = self.m
        n = np.tanh(np.array(m["A"]) @ s + np.array(m["B"]) @ a)
        r = float(np.dot(m["w"], s) + np.dot(m["r"], a) - m["k"] * np.sum((a - np.array(m["goal"])) ** 2))
        margin = float(np.dot(m["stop"], s)) - m["thr"]
        return n, r, margin

    def forward(self, state, action):
        import reagent.types as rlt

        sv = state.float_features.double().numpy().reshape(-1)
        av = action.float_features.double().numpy().reshape(-1)
        self.log.append((sv, av))
        n, r, margin = self.step(sv, av)
        return rlt.MemoryNetworkOutput(
            mus=T([[[n.tolist(), (n + 50).tolist()]]]), sigmas=torch.full((1, 1, 2, self.s), 1e-9),
            logpi=T([[[0.0, -1000.0]]]), reward=T([[r]]), not_terminal=T([[-200.0 if margin > 0 else 200.0]]),
            last_step_lstm_hidden=None, last_step_lstm_cell=None, all_steps_lstm_hidden=None)


@st.composite
def setups(draw, discrete=None, pop=None, models=None):
    rng = rng_of(draw)
    s, a = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    disc = draw(st.booleans()) if discrete is None else discrete
    if disc:
        a = draw(st.integers(2, 3))
    ms = []
    for _ in range(models or draw(st.integers(1, 3))):
        ms.append(dict(A=arr(rng, (s, s), -1, 1), B=arr(rng, (s, a), -1, 1), w=arr(rng, (s,)), r=arr(rng, (a,)),
                       k=draw(st.sampled_from([0.0, 1.0])), goal=arr(rng, (a,), -1, 1), stop=arr(rng, (s,)),
                       thr=draw(st.sampled_from([-1.0, 0.5, 1.0, 100.0]))))
    lo = np.array(arr(rng, (a,), -3, 1))
    return dict(s=s, a=a, models=ms, disc=disc, h=draw(st.sampled_from([1, 2, 2, 3, 3, 5])), pop=pop or draw(st.integers(1, 15)),
                ens=draw(st.integers(1, 3)), elites=draw(st.integers(1, 6)), iters=draw(st.integers(1, 4)),
                terminal=draw(st.booleans()), gamma=draw(st.sampled_from([0.0, 0.5, 0.9, 1.0])),
                alpha=draw(st.sampled_from([0.0, 0.25, 0.8])), eps=draw(st.sampled_from([1e-6, 0.001, 0.05, 0.5])),
                lo=lo.tolist(), hi=(lo + np.array(arr(rng, (a,), 0.5, 4))).tolist(), state=arr(rng, (s,)),
                seed=draw(st.integers(0, 2**31 - 1)), sol=arr(rng, (5, 5, a)))


def build(c):
    import reagent.training  # noqa: F401  (first: the planner module and the trainers import each other)
    from reagent.models.cem_planner import CEMPlannerNetwork

    log = []
    ws = [World(m, c["s"], c["a"], log) for m in c["models"]]
    kw = {} if c["disc"] else dict(action_upper_bounds=np.array(c["hi"]), action_lower_bounds=np.array(c["lo"]))
    net = CEMPlannerNetwork(
        mem_net_list=ws, cem_num_iterations=c["iters"], cem_population_size=c["pop"],
        ensemble_population_size=c["ens"], num_elites=c["elites"], plan_horizon_length=c["h"], state_dim=c["s"],
        action_dim=c["a"], discrete_action=c["disc"], terminal_effective=c["terminal"], gamma=c["gamma"],
        alpha=c["alpha"], epsilon=c["eps"], **kw)
    return net, ws, log


def rollout(c, w, state, seq):
    """Discounted reward along the predicted trajectory, the last step being the one that predicts termination."""
    s, total = np.array(state, float), 0.0
    for j in range(c["h"]):
        n, r, margin = w.step(s, np.array(seq[j], float))
        total += c["gamma"] ** j * r
        if c["terminal"] and abs(margin) < 1e-5:
            raise Inconclusive
        if c["terminal"] and margin > 0:
            break
        s = n
    return total


def near(x, options, msg, tol=1e-3):
    require(min(abs(x - o) for o in options) <= tol * (1 + abs(x)), "%s: %s is none of %s", msg, x, options[:12])


@facet(setups(), quick=300, shards=3)
def evaluation(case, rec):
    """A candidate's reward: discounted along one world model per trajectory, averaged over trajectories."""
    import reagent.types as rlt

    c = case
    net, ws, _ = build(c)
    np.random.seed(c["seed"])
    sols = np.array(c["sol"])[:, :c["h"]]
    sols = np.stack([sols[i % 5] for i in range(c["pop"])])
    per = [[rollout(c, w, c["state"], sols[i]) for w in ws] for i in range(min(5, c["pop"]))]
    for i in range(min(3, c["pop"])):
        one = np.asarray(net.acc_rewards_of_one_solution(T(c["state"]), T(sols[i].tolist()), i))
        equal(one.shape, (c["ens"],), "one reward per trajectory")
        for x in one:
            near(float(x), per[i], "trajectory reward")
    got = np.asarray(net.acc_rewards_of_all_solutions(rlt.FeatureData(T([c["state"]])), T(sols.tolist())))
    equal(got.shape, (c["pop"],), "one reward per candidate")
    for i in range(c["pop"]):
        opts = [np.mean(x) for x in itertools.combinations_with_replacement(per[i % 5], c["ens"])]
        near(float(got[i]), opts, "candidate reward")
    rec.nt(c["h"] > 1 and c["pop"] > 1)
    rec.label(f"models={len(ws)}", "terminal" if c["terminal"] else "no terminal")


def _trajectories(c, log):
    """Split the recorded world-model calls into whole trajectories of the fixed horizon."""
    n = c["pop"] * c["ens"] * c["h"]
    if len(log) % n:
        raise Inconclusive
    acts = np.array([a for _, a in log]).reshape(-1, c["pop"], c["ens"], c["h"], c["a"])
    for e in range(1, c["ens"]):
        if not np.array_equal(acts[:, :, e], acts[:, :, 0]):
            raise Inconclusive
    starts = np.array([s for s, _ in log]).reshape(-1, c["pop"], c["ens"], c["h"], c["s"])[:, :, :, 0]
    close(starts, np.broadcast_to(np.float32(c["state"]), starts.shape), "every trajectory starts at the given state")
    return acts[:, :, 0]


@facet(setups(discrete=True, models=1), quick=300, shards=3)
def discrete(case, rec):
    import reagent.types as rlt

    c = dict(case, terminal=False)
    net, ws, log = build(c)
    random.seed(c["seed"])
    np.random.seed(c["seed"])
    idx, one = net(rlt.FeatureData(T([c["state"]])))
    require(0 <= int(idx) < c["a"], "action index %s", idx)
    close(one, np.eye(c["a"])[int(idx)], "one-hot of the chosen action")
    seqs = _trajectories(c, log)
    equal(len(seqs), 1, "one round of evaluation")
    require(((seqs[0] == 0) | (seqs[0] == 1)).all() and (seqs[0].sum(-1) == 1).all(), "candidates are action sequences")
    v = {}
    for q in seqs[0]:
        v.setdefault(int(q[0].argmax()), []).append(rollout(c, ws[0], c["state"], q))
    mean = {k: np.mean(x) for k, x in v.items()}
    require(int(idx) in mean, "picked an action nobody evaluated")
    require(mean[int(idx)] >= max(mean.values()) - 1e-3, "picked %s with mean rewards %s", int(idx), mean)
    rec.nt(c["h"] > 1 and len(mean) > 1)
    rec.label(f"tried={len(mean)}")


@facet(setups(discrete=False, models=1), quick=300, shards=3)
def continuous(case, rec):
    """Elites are the best candidates; mean and variance follow them; the first action of the mean is returned."""
    import reagent.types as rlt

    c = dict(case, terminal=False)
    c["elites"] = min(c["elites"], c["pop"])
    net, ws, log = build(c)
    np.random.seed(c["seed"])
    out = net(rlt.FeatureData(T([c["state"]])))
    sols = _trajectories(c, log)
    lo, hi = np.tile(c["lo"], c["h"]), np.tile(c["hi"], c["h"])
    mean, var = (lo + hi) / 2, (hi - lo) ** 2 / 16
    for i in range(len(sols)):
        sd = np.sqrt(np.minimum(np.minimum(((mean - lo) / 2) ** 2, ((hi - mean) / 2) ** 2), var))
        flat = sols[i].reshape(c["pop"], -1)
        require((flat >= lo - 1e-4).all() and (flat <= hi + 1e-4).all(), "a candidate is out of bounds")
        require((np.abs(flat - mean) <= 2 * sd + 1e-4).all(), "a candidate is further than two deviations away")
        r = np.array([rollout(c, ws[0], c["state"], q) for q in sols[i]])
        order = np.argsort(r)
        if c["elites"] < c["pop"] and r[order[-c["elites"]]] - r[order[-c["elites"] - 1]] < 1e-4:
            raise Inconclusive
        el = flat[order[-c["elites"]:]]
        mean = c["alpha"] * mean + (1 - c["alpha"]) * el.mean(0)
        var = c["alpha"] * var + (1 - c["alpha"]) * el.var(0)
        if abs(var.max() - c["eps"]) < 1e-6:
            raise Inconclusive
        if var.max() <= c["eps"]:
            equal(len(sols), i + 1, "stops once the variance is small")
    if var.max() > c["eps"]:
        equal(len(sols), c["iters"], "iterations")
    want = (mean[:c["a"]] - np.array(c["lo"])) / (np.array(c["hi"]) - np.array(c["lo"])) * 2 - 1
    equal(tuple(out.shape), (c["a"],), "one action")
    close(out, want, "planned action, in the canonical range", rtol=1e-3, atol=1e-3)
    require((out >= -1 - 1e-6).all() and (out <= 1 + 1e-6).all(), "canonical range")
    rec.nt(c["h"] > 1 and c["pop"] > 2 and c["elites"] < c["pop"])
    rec.label(f"iterations={len(sols)}")


@facet(setups(), quick=24, thorough=400, shards=3)
def ensembles(case, rec):
    """Trajectories take every world model equally often; a candidate is as good as they are on average."""
    import reagent.types as rlt

    c = dict(case, terminal=False, ens=150, pop=1, elites=1)
    net, ws, _ = build(c)
    np.random.seed(c["seed"])
    sol = np.array(c["sol"])[0, :c["h"]]
    vals = np.array([rollout(c, w, c["state"], sol) for w in ws])
    n = len(ws)
    gaps = np.diff(np.sort(vals))
    if n > 1 and gaps.min() < 0.01 * (1 + abs(vals).max()):
        raise Inconclusive
    one = np.asarray(net.acc_rewards_of_one_solution(T(c["state"]), T(sol.tolist()), 0))
    equal(one.shape, (150,), "one reward per trajectory")
    d = np.abs(one[:, None] - vals)
    require((d.min(1) <= 2e-3 * (1 + abs(vals).max())).all(), "a trajectory's reward is that of no model: %s not in %s", one, vals)
    for i, k in enumerate(np.bincount(d.argmin(1), minlength=n)):
        require(abs(k - 150 / n) <= 6 * math.sqrt(150 / n * (1 - 1 / n)) + 1e-9, "model %s of %s ran %s of 150 trajectories", i, n, k)
    got = float(np.asarray(net.acc_rewards_of_all_solutions(rlt.FeatureData(T([c["state"]])), T([sol.tolist()])))[0])
    require(abs(got - vals.mean()) <= 6 * vals.std() / math.sqrt(150) + 2e-3 * (1 + abs(vals).max()),
            "a candidate's reward is %s, models give %s", got, vals)
    rec.nt(n > 1)
    rec.label(f"models={n}")


@st.composite
def searches(draw):
    c = draw(setups(discrete=True, models=1))
    h = draw(st.integers(1, 2))
    return dict(c, h=h, pop=30 * c["a"] ** h, ens=1, terminal=False)


@facet(searches(), quick=24, thorough=400, shards=3)
def candidates(case, rec):
    """Candidates are drawn from all action sequences, so a large population has each of them and the best is chosen."""
    import reagent.types as rlt

    c = case
    net, ws, log = build(c)
    random.seed(c["seed"])
    np.random.seed(c["seed"])
    net(rlt.FeatureData(T([c["state"]])))
    seqs = _trajectories(c, log)[0].argmax(-1)
    k = c["a"] ** c["h"]
    code = (seqs * c["a"] ** np.arange(c["h"])).sum(-1)
    for i, x in enumerate(np.bincount(code, minlength=k)):
        require(0 < x and abs(x - 30) <= 6 * math.sqrt(30 * (1 - 1 / k)), "sequence %s of %s was tried %s times in %s", i, k, x, c["pop"])
    rec.nt(c["h"] > 1)
    rec.label(f"sequences={k}")


@st.composite
def optima(draw):
    rng = rng_of(draw)
    a = draw(st.integers(1, 2))
    lo = np.array(arr(rng, (a,), -3, 1))
    hi = lo + np.array(arr(rng, (a,), 0.5, 4))
    f = np.array(arr(rng, (a,), 0.1, 0.9))
    return dict(a=a, lo=lo.tolist(), hi=hi.tolist(), goal=(lo + f * (hi - lo)).tolist(), h=draw(st.integers(1, 2)),
                seed=draw(st.integers(0, 2**31 - 1)))


@facet(optima(), quick=14, thorough=400, shards=3)
def finds_optimum(case, rec):
    """With enough candidates and iterations the planned action is close to the one the model rewards most."""
    import reagent.types as rlt

    c = dict(case, s=1, state=[0.0], disc=False, terminal=False, gamma=1.0, alpha=0.1, eps=1e-9, pop=100, elites=10,
             iters=8, ens=1,
             models=[dict(A=[[0.0]], B=[[0.0] * case["a"]], w=[0.0], r=[0.0] * case["a"], k=1.0, goal=case["goal"],
                          stop=[0.0], thr=1.0)])
    net, _, _ = build(c)
    np.random.seed(c["seed"])
    out = net(rlt.FeatureData(T([c["state"]]))).numpy()
    want = (np.array(c["goal"]) - c["lo"]) / (np.array(c["hi"]) - c["lo"]) * 2 - 1
    # far from the optimum = outside a quarter of the canonical range (converged runs are within a few hundredths)
    close(out, want, "planned action", rtol=0, atol=0.5)
    rec.nt()


@st.composite
def mixtures(draw):
    rng = rng_of(draw)
    g, s = draw(st.integers(1, 3)), draw(st.integers(1, 2))
    p = np.array(arr(rng, (g,), 0.1, 1))
    return dict(g=g, s=s, p=(p / p.sum()).tolist(), mu=arr(rng, (g, s)), sig=arr(rng, (g, s), 0.1, 1),
                nt=round(float(rng.uniform(-2, 2)), 2), reward=round(float(rng.uniform(-2, 2)), 2),
                terminal=draw(st.booleans()), seed=draw(st.integers(0, 2**31 - 1)))


@facet(mixtures(), quick=14, thorough=400, shards=3)
def sampling(case, rec):
    """One-step samples come from the predicted mixture and termination probability."""
    import reagent.types as rlt
    import reagent.training  # noqa: F401  (first: the planner module and the trainers import each other)
    from reagent.models.cem_planner import CEMPlannerNetwork

    c = case
    torch.manual_seed(c["seed"])

    class W(nn.Module):
        def forward(self, state, action):
            mu = [[[(np.array(m) + 100 * i).tolist() for i, m in enumerate(c["mu"])]]]
            return rlt.MemoryNetworkOutput(
                mus=T(mu), sigmas=T([[c["sig"]]]), logpi=torch.log(T([[c["p"]]])), reward=T([[c["reward"]]]),
                not_terminal=T([[c["nt"]]]), last_step_lstm_hidden=None, last_step_lstm_cell=None,
                all_steps_lstm_hidden=None)

    w = W()
    net = CEMPlannerNetwork([w], 1, 1, 1, 1, 1, c["s"], 1, True, c["terminal"], 1.0)
    n = 1500
    fd = rlt.FeatureData(torch.zeros(1, 1, c["s"]))
    xs, nts = [], []
    for _ in range(n):
        r, x, nt, prob = net.sample_reward_next_state_terminal(fd, rlt.FeatureData(torch.zeros(1, 1, 1)), w)
        close(float(r), c["reward"], "reward")
        close(float(prob), 1 / (1 + math.exp(-c["nt"])) if c["terminal"] else 1.0, "probability of going on")
        xs.append(x.numpy())
        nts.append(int(nt))
    xs = np.array(xs)
    p = 1 / (1 + math.exp(-c["nt"])) if c["terminal"] else 1.0
    require(abs(np.mean(nts) - p) <= 6 * math.sqrt(p * (1 - p) / n) + 1e-9, "went on %s of the time, expected %s",
            np.mean(nts), p)
    comp = np.round((xs[:, 0] - np.array(c["mu"])[0, 0]) / 100).astype(int).clip(0, c["g"] - 1)
    for i in range(c["g"]):
        f, q = float(np.mean(comp == i)), c["p"][i]
        require(abs(f - q) <= 6 * math.sqrt(q * (1 - q) / n) + 1e-9, "component %s drawn %s of the time, expected %s",
                i, f, q)
        y = xs[comp == i] - np.array(c["mu"][i]) - 100 * i
        k = len(y)
        if k > 100:
            sd = np.array(c["sig"][i])
            require((np.abs(y.mean(0)) <= 6 * sd / math.sqrt(k)).all(), "mean of component %s is off by %s", i, y.mean(0))
            require((np.abs(y.std(0) / sd - 1) <= 6 / math.sqrt(2 * k)).all(), "spread of component %s: %s, expected %s",
                    i, y.std(0), sd)
    rec.nt(c["g"] > 1)
    rec.label("terminal" if c["terminal"] else "no terminal")


@facet(setups(models=1), quick=100, shards=1)
def refusals(case, rec):
    import reagent.types as rlt
    from reagent.training.utils import rescale_actions

    c = case
    net, _, _ = build(c)
    raises(AssertionError, lambda: net(rlt.FeatureData(torch.zeros(2, c["s"]))), "two states at once")
    if not c["disc"]:
        lo, hi = np.array(c["lo"]), np.array(c["hi"])
        raises(AssertionError, lambda: build(dict(c, lo=(hi + 1).tolist())), "lower above upper bound")
        raises(AssertionError, lambda: build(dict(c, lo=c["lo"] + [0.0], hi=c["hi"] + [1.0])), "bounds of another size")
        x = T((lo + 0.25 * (hi - lo)).tolist())
        args = dict(new_min=T(-2.0), new_max=T(6.0), prev_min=T(c["lo"]), prev_max=T(c["hi"]))
        close(rescale_actions(x, **args), np.zeros(c["a"]), "rescaled", atol=1e-4)
        raises(AssertionError, lambda: rescale_actions(T((hi + 0.5).tolist()), **args), "action out of range")
        raises(AssertionError, lambda: rescale_actions(x, **dict(args, new_min=T(7.0))), "empty new range")
    rec.nt(not c["disc"])


@facet(st.fixed_dictionaries(dict(n=st.integers(1, 4), steps=st.integers(1, 4), size=st.integers(1, 9))), quick=40,
       shards=1)
def trains_all_models(case, rec):
    from reagent.parameters import CEMTrainerParameters, MDNRNNTrainerParameters
    from reagent.training.cem_trainer import CEMTrainer

    seen = []

    class Tr:
        def __init__(self, i):
            self.i = i

        def train(self, batch):
            seen.append((self.i, batch))
            return dict(loss=0.0, bce=0.0, gmm=0.0, mse=0.0)

    tr = CEMTrainer(None, [Tr(i) for i in range(case["n"])],
                    CEMTrainerParameters(mdnrnn=MDNRNNTrainerParameters(minibatch_size=case["size"])))
    for k in range(case["steps"]):
        tr.train(k)
    equal(sorted(seen), sorted((i, k) for k in range(case["steps"]) for i in range(case["n"])),
          "each batch trains each model once")
    equal(tr.minibatch_size, case["size"], "minibatch size")
    rec.nt(case["n"] > 1)
