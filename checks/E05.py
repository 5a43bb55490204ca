"""Off-policy estimators for logged episodes, tabular policies and value functions."""
import copy
import os
import tempfile

import numpy as np
import torch
from hypothesis import strategies as st

from models.nets import arr, rng_of
from vlib.core import Inconclusive, close, equal, facet, require

RULE = ("a case is a set of logged episodes with explicit policies and values, or a small MDP; non-trivial = episodes of "
        "two or more steps whose target and logging policies differ, or an MDP with two or more states")
RTOL, ATOL = 3e-3, 3e-4


def dist(rng, k):
    p = rng.randint(1, 6, k).astype(float)
    return p / p.sum()


def table_policy(probs):
    from reagent.ope.estimators import sequential_estimators as S
    from reagent.ope.estimators.types import ActionSpace

    class Pi(S.RLPolicy):
        def action_dist(self, state):
            return self._action_space.distribution(list(probs[state.value]))

    return Pi(ActionSpace(len(probs[0])))


def table_values(v, q):
    from reagent.ope.estimators import sequential_estimators as S

    class V(S.ValueFunction):
        def state_value(self, state):
            return v[state.value]

        def state_action_value(self, state, action):
            return q[state.value][action.value]

        def reset(self):
            pass

    return V()


@st.composite
def logs(draw, same_len=False, min_n=2):
    rng = rng_of(draw)
    s, k, n = draw(st.integers(1, 4)), draw(st.integers(2, 3)), draw(st.integers(min_n, 6))
    kind = draw(st.sampled_from(["short"] * 12 + ["long", "many", "rare", "rare"]))
    h = draw(st.integers(30, 40)) if kind == "long" else draw(st.integers(1, 4))
    n = draw(st.integers(65, 72)) if kind == "many" else n
    eps = []
    for _ in range(n):
        ln = h if same_len else int(rng.randint(1, h + 1))
        eps.append([[int(rng.randint(s)), int(rng.randint(k)), round(float(rng.uniform(-1, 2)), 2)] for _ in range(ln)])
    pi, mu = ([dist(rng, k) for _ in range(s)] for _ in "ab")
    if kind in ("long", "many"):
        # ratios that do not explode
        pi = [0.1 * x + 0.9 * y for x, y in zip(pi, mu)]
        eps[rng.randint(n)] = [[int(rng.randint(s)), int(rng.randint(k)), round(float(rng.uniform(-1, 2)), 2)] for _ in range(h + 2)]
    if kind == "rare":
        # a first action that the target policy hardly ever takes
        pi = [np.array([x[0] * 1e-4, 1 - x[0] * 1.5e-4] + [x[0] * 5e-5 / max(1, k - 2)] * (k - 2)) for x in pi]
        pi = [x / x.sum() for x in pi]
        for e in eps:
            e[0][1] = 0
    return dict(s=s, k=k, eps=eps, pi=[x.tolist() for x in pi], mu=[x.tolist() for x in mu], kind=kind,
                v=arr(rng, (s,)), q=arr(rng, (s, k)), gv=arr(rng, (s,)), gt=draw(st.booleans()), gamma=draw(st.sampled_from([1.0, 0.9, 0.5])),
                clamp=draw(st.sampled_from([None, None, None, [0.0, 0.4], [0.1, 1.0]])), same=draw(st.sampled_from([False, False, False, True])),
                noprob=draw(st.sampled_from([0, 0, 0, 1])))


def build(c):
    """the log of transitions"""
    from reagent.ope.estimators import sequential_estimators as S
    from reagent.ope.estimators.types import Action

    mu = c["pi"] if c["same"] else c["mu"]
    log = []
    for i, ep in enumerate(c["eps"]):
        out = []
        for t, (s, a, r) in enumerate(ep):
            p = 0.0 if c["noprob"] and i == 0 and t == len(ep) - 1 else mu[s][a]
            nxt = S.State(ep[t + 1][0]) if t + 1 < len(ep) else S.State(0, True)
            out.append(S.Transition(S.State(s), Action(a), p, nxt, r,
                                    S.Transition.Status.NORMAL if t + 1 < len(ep) else S.Transition.Status.TERMINATED))
        log.append(out)
    return log


def arrays(c):
    n, h = len(c["eps"]), max(len(e) for e in c["eps"])
    mu = c["pi"] if c["same"] else c["mu"]
    d = {k: np.zeros((n, h)) for k in ("rho", "mask", "r", "v", "q")}
    for i, ep in enumerate(c["eps"]):
        w = 1.0
        for t, (s, a, r) in enumerate(ep):
            known = not (c["noprob"] and i == 0 and t == len(ep) - 1)
            if known:
                w *= c["pi"][s][a] / mu[s][a]
                d["rho"][i, t] = w
                d["mask"][i, t] = 1.0
            d["r"][i, t], d["v"][i, t], d["q"][i, t] = r, c["v"][s], c["q"][s][a]
    return n, h, d


def weights(c, weighted):
    n, h, d = arrays(c)
    tot = d["rho"].sum(0) if weighted else d["mask"].sum(0)
    tot = np.where(tot < 1e-15, tot + n, tot)
    w = d["rho"] / tot
    return np.clip(w, *c["clamp"]) if c["clamp"] else w


def clamper(c):
    from reagent.ope.utils import Clamper

    return Clamper(*c["clamp"]) if c["clamp"] else None


def step_returns(c, ws):
    n, h, d = arrays(c)
    g = c["gamma"] ** np.arange(h)
    lw = np.concatenate([np.full((n, 1), 1 / n), ws[:, :-1]], 1)
    wdrs = ((ws * (d["r"] - d["q"]) + lw * d["v"]) * g).cumsum(1)
    nv = np.concatenate([d["v"][:, 1:], np.zeros((n, 1))], 1)
    return wdrs, wdrs + ws * nv * g * c["gamma"]


def check_common(c, res, msg):
    equal(len(res.results), 1, f"{msg}: one result")
    r = res.results[0]
    ret = np.mean([sum(c["gamma"] ** t * x[2] for t, x in enumerate(e)) for e in c["eps"]])
    close(r.log_reward, ret, f"{msg}: logged return", RTOL, ATOL)
    gt = np.mean([c["gv"][e[0][0]] for e in c["eps"]]) if c["gt"] else 0.0
    close(r.ground_truth_reward, gt, f"{msg}: ground truth", RTOL, ATOL)
    return r.estimated_reward


def make_input(c):
    from reagent.ope.estimators import sequential_estimators as S

    z = [[0.0] * c["k"]] * c["s"]
    return S.RLEstimatorInput(gamma=c["gamma"], log=build(c), target_policy=table_policy(c["pi"]),
                              value_function=table_values(c["v"], c["q"]), ground_truth=table_values(c["gv"], z) if c["gt"] else None)


@facet(logs(), quick=400, shards=4)
def episodes(case, rec):
    """DM, importance sampling and doubly robust estimates of episodes follow the definitions"""
    from reagent.ope.estimators import sequential_estimators as S

    c = case
    n, h, d = arrays(c)
    inp = make_input(c)
    g = c["gamma"] ** np.arange(h)
    atol = ATOL * max(1.0, np.abs(weights(c, False)).max() * 10)
    e = check_common(c, S.DMEstimator().evaluate(inp), "DM")
    close(e, np.mean([c["v"][x[0][0]] for x in c["eps"]]), "DM", RTOL, ATOL)
    for weighted in (True, False):
        ws = weights(c, weighted)
        e = check_common(c, S.IPSEstimator(clamper(c), weighted).evaluate(inp), f"IPS {weighted}")
        close(e, (ws * d["r"]).sum(0) @ g, f"IPS weighted={weighted}", RTOL, atol)
        e = check_common(c, S.DoublyRobustEstimator(clamper(c), weighted).evaluate(inp), f"DR {weighted}")
        close(e, step_returns(c, ws)[0][:, -1].sum(), f"DR weighted={weighted}", RTOL, atol)
    if c["same"] and not c["clamp"] and not c["noprob"] and len({len(x) for x in c["eps"]}) == 1:
        ret = np.mean([sum(c["gamma"] ** t * x[2] for t, x in enumerate(ep)) for ep in c["eps"]])
        for weighted in (True, False):
            e = S.IPSEstimator(None, weighted).evaluate(inp).results[0].estimated_reward
            close(e, ret, "on-policy IPS is the mean return", RTOL, ATOL)
        rec.label("on policy")
    rec.nt(h > 1 and not c["same"])
    rec.label(c["kind"])


@st.composite
def magic_cases(draw):
    c = draw(logs(min_n=2))
    c["alike"] = draw(st.booleans())
    c["lr"] = draw(st.sampled_from([0.0, 0.05, 0.5]))
    c["noprob"], c["clamp"], c["m"] = 0, None, draw(st.sampled_from([20, 40, 10, 1, 2]))
    if draw(st.booleans()):
        # a biased model: the bias of early step returns matters
        c["v"] = [x + 3.0 for x in c["v"]]
    if c["alike"]:
        c["eps"] = [c["eps"][0]] * len(c["eps"])
    return c


def magic_reference(terms, gs, draws, lr, dtype, threshold=0.0):
    """step returns (by episode) blended to the least estimated variance and squared bias, from the resamples drawn"""
    n, h = gs.shape
    m = len(draws)
    dev = gs - gs.mean(0)
    cov = n / (n - 1) * dev.T @ dev
    boot = np.sort([terms[x].sum() for x in draws])
    wdr = terms.sum()
    lo, hi = min(wdr, boot[int(round(0.05 * m))]), max(wdr, boot[int(round(0.95 * m)) - 1])
    tot = gs.sum(0)
    bias = np.where(tot > hi, tot - hi, np.where(tot < lo, tot - lo, 0.0))
    q = torch.tensor(cov + np.outer(bias, bias), dtype=dtype)
    x = torch.zeros(h, dtype=dtype, requires_grad=True)
    last = 0.0
    for _ in range(100):
        w = torch.softmax(x, 0)
        y = w @ q @ w
        if abs(y.item() - last) < threshold:
            break
        last = y.item()
        (gr,) = torch.autograd.grad(y, x)
        with torch.no_grad():
            x -= lr * gr
    return float(torch.softmax(x, 0).detach().numpy() @ tot)


def record_draws(f):
    """what f() returns and the resamples it drew"""
    import random

    draws, choices = [], random.choices
    try:
        def record(pop, *a, **kw):
            out = choices(pop, *a, **kw)
            draws.append(list(out))
            return out

        random.choices = record
        return f(), draws
    finally:
        random.choices = choices


@facet(magic_cases(), quick=240, shards=4)
def magic(case, rec):
    """MAGIC blends the step returns to the least variance and squared bias: a convex mean, uniform before optimisation"""
    from reagent.ope.estimators import sequential_estimators as S

    c = case
    n, h, d = arrays(c)
    inp = make_input(c)
    _, gs = step_returns(c, weights(c, True))
    g = gs.sum(0)
    m = c["m"]
    res, draws = record_draws(lambda: S.MAGICEstimator().evaluate(inp, lr=c["lr"], loss_threshold=0.0, num_resamples=m))
    e = check_common(c, res, "MAGIC")
    tol = 1e-3 * (1 + np.abs(g).max())
    require(g.min() - tol <= e <= g.max() + tol, f"MAGIC {e} outside of the step returns {g}")
    if c["lr"] == 0.0:
        close(e, g.mean(), "MAGIC before optimisation weighs all steps alike", RTOL, tol)
    elif len(draws) == m and all(len(x) == n for x in draws):
        ws = weights(c, True)
        lw = np.concatenate([np.full((n, 1), 1 / n), ws[:, :-1]], 1)
        terms = (ws * (d["r"] - d["q"]) + lw * d["v"]) * c["gamma"] ** np.arange(h)
        a, b = (magic_reference(terms, gs, draws, c["lr"], t) for t in (torch.float, torch.double))
        if np.isfinite(a) and abs(a - b) < tol:
            close(e, b, "MAGIC of least variance and bias", 1e-2, 10 * tol)
            rec.label("optimised")
    rec.nt(h > 1 and np.ptp(g) > 0.05)


# ------------------------------------------------------------------------- dice
@st.composite
def dice_cases(draw):
    c = draw(logs(min_n=1))
    rng = rng_of(draw)
    c.update(noprob=0, clamp=None, det=draw(st.booleans()), avg=draw(st.booleans()), deg=draw(st.sampled_from([1.5, 2.0, 3.0])),
             batch=draw(st.integers(1, 6)), nb=draw(st.integers(0, 3)), freq=draw(st.sampled_from([1, 1, 2])), seed=int(rng.randint(1 << 30)), gamma=draw(st.sampled_from([0.9, 0.5])))
    c["kind"] = "dice"
    c["pick"] = rng.randint(0, c["k"], c["s"]).tolist()
    c["pi"] = [dist(rng, c["k"]).tolist() for _ in range(c["s"])]
    c["lr"] = [draw(st.sampled_from([0.0, 0.01, 0.05])), draw(st.sampled_from([0.0, 0.01, 0.05]))]
    return c


@facet(dice_cases(), quick=150, shards=4)
def dual_dice(case, rec):
    """DualDICE minimises its saddle-point losses and re-weighs logged rewards with zeta"""
    from reagent.ope.estimators import sequential_estimators as S

    c = case
    s, k, gam = c["s"], c["k"], c["gamma"]
    log = build(c)
    # states as vectors
    vec = lambda st_: S.State((float(st_.value), 1.0), st_.is_terminal)  # noqa: E731
    log = [[S.Transition(vec(t.last_state), t.action, t.action_prob, vec(t.state), t.reward, t.status) for t in ep] for ep in log]

    from reagent.ope.estimators.types import Action, ActionDistribution, ActionSpace

    sampled = []

    class Dist(ActionDistribution):
        """whose sample is known"""

        def sample(self, size=1):
            sampled.append(self.pick)
            return [Action(self.pick)] * size

    class Pi(S.RLPolicy):
        def action_dist(self, state):
            i = int(state.value[0])
            out = Dist(list(c["pi"][i]))
            out.pick = c["pick"][i]
            return out

    seen, calls = [], []
    torch.manual_seed(c["seed"])
    dice = S.NeuralDualDICE(state_dim=2, action_dim=k, deterministic_env=c["det"], average_next_v=c["avg"], polynomial_degree=c["deg"],
                            value_lr=c["lr"][0], zeta_lr=c["lr"][1], hidden_dim=5, hidden_layers=1, training_samples=c["nb"], batch_size=c["batch"],
                            loss_callback_fn=lambda z, v, me: seen.append((z, v, me)), reporting_frequency=c["freq"])
    nv, nz = copy.deepcopy(dice.v_net), copy.deepcopy(dice.zeta_net)
    choice = np.random.choice
    inp = S.RLEstimatorInput(gamma=gam, log=log, target_policy=Pi(ActionSpace(k)),
                             ground_truth=None)
    try:
        def rec_choice(*a, **kw):
            out = choice(*a, **kw)
            calls.append(np.array(out))
            return out

        np.random.choice = rec_choice
        res = dice.evaluate(inp)
    finally:
        np.random.choice = choice
    if not sampled:
        raise Inconclusive("actions are not sampled with the distribution's sample")

    def net(f, st_, a):
        x = torch.tensor(list(st_.value) + [float(i == a) for i in range(k)])
        return f(x.reshape(1, -1)).reshape(())

    tgt = lambda st_: c["pick"][int(st_.value[0])]  # noqa: E731
    rows = [(ep[0].last_state, t, i) for ep in log for i, t in enumerate(ep)]
    q = c["deg"] / (c["deg"] - 1)
    zl, vl = [], []
    if len(calls) != c["nb"] or any(len(x) != c["batch"] for x in calls):
        raise Inconclusive("batches are not drawn with np.random.choice")

    def losses(idx):
        w, zs, vs = [], [], []
        for i in idx:
            s0, t, step = rows[i]
            nxt = sum(c["pi"][int(t.state.value[0])][a] * net(nv, t.state, a) for a in range(k)) if c["avg"] else net(nv, t.state, tgt(t.state))
            delta = net(nv, t.last_state, t.action.value) - gam * nxt
            init = (1 - gam) * net(nv, s0, tgt(s0))
            z = net(nz, t.last_state, t.action.value)
            saddle = delta * z - z.abs() ** q / q - init
            w.append(gam ** step)
            zs.append(saddle)
            vs.append(delta.abs() ** c["deg"] / c["deg"] - init if c["det"] else saddle)
        w = torch.tensor(w)
        return -(w * torch.stack(zs)).sum() / w.sum(), (w * torch.stack(vs)).sum() / w.sum()

    oz, ov = torch.optim.Adam(nz.parameters(), lr=c["lr"][1]), torch.optim.Adam(nv.parameters(), lr=c["lr"][0])
    for idx in calls:
        for opt, which, out in ((oz, 0, zl), (ov, 1, vl)):
            loss = losses(idx)[which]
            opt.zero_grad()
            loss.backward()
            opt.step()
            out.append(loss.item())
    exp = []
    done = 0
    for i in range(c["nb"]):
        if i % c["freq"] == 0:
            exp.append((np.mean(zl[done:i + 1]), np.mean(vl[done:i + 1])))
            done = i + 1
    equal(len(seen), len(exp), "number of reports")
    for (a, b, me), (x, y) in zip(seen, exp):
        require(me is dice, "report of the estimator")
        close([a, b], [x, y], "losses of zeta and nu", RTOL, ATOL * 3)
    est = np.mean([sum(gam ** i * t.reward * net(nz, t.last_state, t.action.value).item() for i, t in enumerate(ep)) for ep in log])
    close(res.results[0].estimated_reward, est, "estimate from the density ratios", RTOL, ATOL * 3)
    close(res.results[0].log_reward, np.mean([sum(gam ** i * t.reward for i, t in enumerate(ep)) for ep in log]), "logged return", RTOL, ATOL)
    # learning rates that are not zero do train both networks
    if c["nb"]:
        d2 = S.NeuralDualDICE(state_dim=2, action_dim=k, deterministic_env=c["det"], average_next_v=c["avg"], hidden_dim=5, hidden_layers=1,
                              training_samples=2, batch_size=c["batch"])
        before = [p.detach().clone() for nn in (d2.v_net, d2.zeta_net) for p in nn.parameters()]
        d2.evaluate(inp)
        after = [p.detach() for nn in (d2.v_net, d2.zeta_net) for p in nn.parameters()]
        half = len(before) // 2
        for part, name in ((slice(0, half), "nu"), (slice(half, None), "zeta")):
            require(any(not torch.equal(a, b) for a, b in zip(before[part], after[part])), f"{name} is trained")
    rec.nt(c["nb"] > 0)
    rec.label("deterministic" if c["det"] else "stochastic", "averaged" if c["avg"] else "sampled")


# ---------------------------------------------------------------------- tabular
@st.composite
def mdps(draw):
    rng = rng_of(draw)
    s, k = draw(st.integers(1, 4)), draw(st.integers(2, 3))
    # one extra, terminal state
    p = np.zeros((s, k, s + 1))
    r = np.round(rng.uniform(-1, 2, (s, k, s + 1)), 2)
    for i in range(s):
        for a in range(k):
            m = rng.rand(s + 1) < 0.6
            m[rng.randint(s + 1)] = True
            w = rng.randint(1, 5, s + 1) * m
            p[i, a] = w / w.sum()
    return dict(s=s, k=k, p=p.tolist(), r=r.tolist(), gamma=draw(st.sampled_from([0.5, 0.8, 0.9])), eps=draw(st.sampled_from([0.0, 0.0, 0.2])),
                pi=[(np.eye(k)[rng.randint(k)] if rng.rand() < 0.3 else dist(rng, k)).tolist() for _ in range(s)], partial=draw(st.booleans()), seed=int(rng.randint(1 << 30)))


def env_of(c):
    from reagent.ope.estimators import sequential_estimators as S
    from reagent.ope.test.envs import Environment

    sts = [S.State(i) for i in range(c["s"])] + [S.State(c["s"], True)]

    class Env(Environment):
        def reset(self, state=None):
            super().reset(state if state is not None else sts[0])
            return self.current_state

        def close(self):
            pass

        @property
        def observation_space(self):
            return (c["s"] + 1,)

        @property
        def states(self):
            return sts[:-1]

        def next_state_reward_dist(self, state, action):
            i, a = state.value, action.value
            if state.is_terminal:
                return {state: S.RewardProbability(0.0, 1.0)}
            return {sts[j]: S.RewardProbability(c["r"][i][a][j], c["p"][i][a][j]) for j in range(c["s"] + 1) if c["p"][i][a][j] > 0}

    return Env(), sts


def solve(c, pi):
    p, r, pi = np.array(c["p"]), np.array(c["r"]), np.array(pi)
    s = c["s"]
    pm = np.einsum("sa,sat->st", pi, p)[:, :s]
    rm = np.einsum("sa,sat,sat->s", pi, p, r)
    v = np.linalg.solve(np.eye(s) - c["gamma"] * pm, rm)
    q = (p * (r + c["gamma"] * np.concatenate([v, [0.0]]))).sum(2)
    return v, q


@facet(mdps(), quick=200, shards=4)
def tabular(case, rec):
    """Tabular policies and dynamic programming: exact values of a policy, and an optimal policy after training"""
    from reagent.ope.estimators import sequential_estimators as S
    from reagent.ope.estimators.types import Action, ActionSpace
    from reagent.ope.trainers import rl_tabular_trainers as R

    c = case
    env, sts = env_of(c)
    s, k = c["s"], c["k"]
    pol = R.TabularPolicy(ActionSpace(k), c["eps"])
    want = []
    for i in range(s):
        if c["partial"] and i == 0:
            want.append([1 / k] * k)
            continue
        old = want_old = [1 / k] * k
        d = pol.update(sts[i], c["pi"][i])
        close(d, np.sqrt(((np.array(old) - c["pi"][i]) ** 2).sum()), "change of a policy")
        close(pol.update(sts[i], c["pi"][i]), 0.0, "no change")
        want.append([c["eps"] / k + (1 - c["eps"]) * x for x in c["pi"][i]])
        del want_old
    for i in range(s):
        close(pol(sts[i]).values, want[i], "action distribution")
    eg = S.EpsilonGreedyRLPolicy(pol, 0.3)
    rnd = S.RandomRLPolicy(ActionSpace(k))
    for i in range(s):
        close(eg(sts[i]).values, [0.7 * x + 0.3 / k for x in want[i]], "epsilon greedy distribution")
        close(pol(sts[i]).values, want[i], "wrapped policy unchanged")
        close(rnd(sts[i]).values, [1 / k] * k, "random policy")
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "p")
        equal(pol.save(path), True, "saved")
        p2 = R.TabularPolicy(ActionSpace(k + 1), 0.5)
        equal(p2.load(path), True, "loaded")
        for i in range(s):
            close(p2(sts[i]).values, want[i], "loaded policy")
        close(p2(S.State(77)).values, [1 / k] * k, "loaded policy in an unknown state")
        equal(p2.load(os.path.join(tmp, "missing")), False, "load of a missing file")
        equal(pol.save(os.path.join(tmp, "no", "dir")), False, "save to a missing folder")
    # policy evaluation
    th = 1e-5
    tol = th * 10 / (1 - c["gamma"]) + 1e-4
    v, q = solve(c, want)
    vf = R.DPValueFunction(pol, env, c["gamma"], th)
    close([vf(x) for x in sts[:-1]], v, "values of a policy", 1e-3, tol)
    close(vf(sts[-1]), 0.0, "value of a terminal state")
    close([[vf(sts[i], Action(a)) for a in range(k)] for i in range(s)], q, "action values of a policy", 1e-3, tol)
    vf.reset(clear_state_values=True)
    close([vf(x) for x in sts[:-1]], v, "values after a reset", 1e-3, tol)
    # a second policy shares nothing
    other = R.DPValueFunction(rnd, env, c["gamma"], th)
    close([other(x) for x in sts[:-1]], solve(c, np.full((s, k), 1 / k))[0], "values of the random policy", 1e-3, tol)
    # policy iteration
    vo = np.zeros(s)
    p, r = np.array(c["p"]), np.array(c["r"])
    for _ in range(400):
        qo = (p * (r + c["gamma"] * np.concatenate([vo, [0.0]]))).sum(2)
        vo = qo.max(1)
    gap = np.sort(qo, 1)[:, -1] - np.sort(qo, 1)[:, -2]
    if gap.min() > 1e-2:
        p3 = R.TabularPolicy(ActionSpace(k), 0.0)
        val = R.DPTrainer(env, p3).train(c["gamma"], th)
        for i in range(s):
            close(p3(sts[i]).values, np.eye(k)[qo[i].argmax()], "trained policy is greedy in the optimal values")
        close([val(x) for x in sts[:-1]], vo, "values of the trained policy", 1e-3, tol)
        rec.label("trained")
    rec.nt(s > 1)


@st.composite
def scripts(draw):
    rng = rng_of(draw)
    s, k = draw(st.integers(1, 3)), draw(st.integers(2, 3))
    eps = [[[int(rng.randint(s)), int(rng.randint(k)), round(float(rng.uniform(-1, 2)), 2)] for _ in range(rng.randint(1, 6))]
           for _ in range(draw(st.integers(1, 6)))]
    return dict(s=s, k=k, eps=eps, gamma=draw(st.sampled_from([1.0, 0.9, 0.5])), first=draw(st.booleans()), count=draw(st.integers(1, 8)),
                iters=draw(st.integers(1, 4)), every=draw(st.integers(1, 3)))


def scripted(c):
    """An environment whose episodes are written down in the case, whatever the policy does"""
    from reagent.ope.estimators import sequential_estimators as S
    from reagent.ope.estimators.types import Action
    from reagent.ope.test.envs import Environment

    sts = [S.State(i) for i in range(c["s"])]

    class Env(Environment):
        def __init__(self):
            super().__init__()
            self.played, self.i = [], 0

        def reset(self, state=None):
            super().reset(state)
            ep = [list(x) for x in c["eps"][self.i % len(c["eps"])]]
            ep[0][0] = state.value
            self.i += 1
            self.played.append(ep)
            self.t = 0
            return state

        def close(self):
            pass

        @property
        def observation_space(self):
            return (c["s"],)

        @property
        def states(self):
            return sts

        def next_state_reward_dist(self, state, action):
            return {sts[0]: S.RewardProbability(1.0, 0.25), sts[-1]: S.RewardProbability(-1.0, 0.75)} if c["s"] > 1 else {
                sts[0]: S.RewardProbability(1.0, 1.0)}

        def step(self, policy):
            ep = self.played[-1]
            s, a, r = ep[self.t]
            self.t += 1
            end = self.t == len(ep)
            return S.Transition(sts[s], Action(a), 0.5, None if end else sts[ep[self.t][0]], r,
                                S.Transition.Status.TERMINATED if end else S.Transition.Status.NORMAL)

    return Env(), sts


def returns_of(eps, gamma, first, key):
    """returns following visits of each key"""
    out = {}
    for ep in eps:
        seen = set()
        for t in range(len(ep)):
            kk = key(ep[t])
            if first and kk in seen:
                continue
            seen.add(kk)
            out.setdefault(kk, []).append(sum(gamma ** (u - t) * ep[u][2] for u in range(t, len(ep))))
    return out


@facet(scripts(), quick=300, shards=2)
def monte_carlo(case, rec):
    """Monte Carlo values are mean returns after first (or all) visits; policies prefer actions of greater return"""
    from reagent.ope.estimators import sequential_estimators as S
    from reagent.ope.estimators.types import Action, ActionSpace
    from reagent.ope.trainers import rl_tabular_trainers as R

    c = case
    env, sts = scripted(c)
    vf = R.MonteCarloValueFunction(S.RandomRLPolicy(ActionSpace(c["k"])), env, c["gamma"], c["first"], c["count"], 50)
    for x in sts:
        vf(x)
    ret = returns_of(env.played, c["gamma"], c["first"], lambda x: x[0])
    n = len(env.played)
    for i, x in enumerate(sts):
        require(len(ret[i]) >= c["count"], "visits before a value is used")
        close(vf(x), np.mean(ret[i]), f"value of a state (first visits: {c['first']})", 1e-4, 1e-5)
    v = [np.mean(ret[i]) for i in range(c["s"])]
    exp = 0.25 * (1 + c["gamma"] * v[0]) + 0.75 * (-1 + c["gamma"] * v[-1]) if c["s"] > 1 else 1 + c["gamma"] * v[0]
    close(vf(sts[0], Action(0)), exp, "action value from the model", 1e-4, 1e-5)
    equal(len(env.played), n, "no episodes without need")
    vf.reset(clear_state_values=True)
    env.played.clear()
    vf(sts[0])
    close(vf(sts[0]), np.mean(returns_of(env.played, c["gamma"], c["first"], lambda x: x[0])[0]), "value after a reset", 1e-4, 1e-5)

    env, sts = scripted(c)
    est = R.EstimatedStateValueFunction(S.RandomRLPolicy(ActionSpace(c["k"])), env, c["gamma"], c["count"])
    equal(len(env.played), c["s"] * c["count"], "episodes played to estimate values")
    starts = {}
    for ep in env.played:
        starts.setdefault(ep[0][0], []).append(sum(c["gamma"] ** t * x[2] for t, x in enumerate(ep)))
    for i, x in enumerate(sts):
        equal(len(starts[i]), c["count"], "episodes from each state")
        close(est(x), np.mean(starts[i]), "estimated value of a state", 1e-4, 1e-5)

    env, sts = scripted(c)
    pol = R.TabularPolicy(ActionSpace(c["k"]))
    R.MonteCarloTrainer(env, pol).train(c["iters"], c["gamma"], c["first"], c["every"])
    used = len(env.played) // c["s"] // c["every"] * c["every"] * c["s"]
    ret = returns_of(env.played[:used], c["gamma"], c["first"], lambda x: (x[0], x[1]))
    for i in range(c["s"]):
        probs = np.array(pol(sts[i]).values)
        close(probs.sum(), 1.0, "policy is a distribution")
        if used:
            tot = np.array([sum(ret.get((i, a), [0.0])) for a in range(c["k"])])
            for a in range(c["k"]):
                for b in range(c["k"]):
                    if tot[a] > tot[b] + 1e-3:
                        require(probs[a] >= probs[b], f"state {i}: action {a} returned {tot[a]}, {b} {tot[b]}, probabilities {probs}")
    rec.nt(any(len({x[0] for x in ep}) < len(ep) for ep in c["eps"]))
    rec.label("first" if c["first"] else "every")
