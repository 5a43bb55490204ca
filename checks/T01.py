"""TD targets and losses of DQN and parametric DQN, with the CPE networks."""
import numpy as np
import torch
from hypothesis import strategies as st

from models import nets
from models.nets import T, arr, np_, rng_of
from vlib.core import Inconclusive, close, equal, facet, raises, require, same

RULE = ("a case is a batch with explicit states, actions, masks and terminal flags, explicit network "
        "weights and an RL configuration; non-trivial = some row is not terminal, gamma > 0 and the "
        "masks or the configuration (double/single, SARSA/max, multi-step, boost, BCQ) matter")


@st.composite
def dqn_cases(draw, cpe=False):
    metrics = draw(st.integers(0, 2)) if cpe else 0
    c = draw(nets.discrete_batch(metrics=metrics))
    rng = rng_of(draw)
    n = (1 + metrics) * c["a"]
    c.update(rl=draw(nets.rl_params(actions=c["a"])), double=draw(st.booleans()),
             w=arr(rng, (c["s"], c["a"])), wt=arr(rng, (c["s"], c["a"])),
             bcq=None if cpe or draw(st.booleans()) else draw(st.sampled_from([0.05, 0.3, 0.6, 1.0])),
             bcq_kind=draw(st.sampled_from(["torch", "callable"])), wi=arr(rng, (c["s"], c["a"]), -1, 1),
             wr=arr(rng, (c["s"], n)), wc=arr(rng, (c["s"], n)), wct=arr(rng, (c["s"], n)),
             nm=metrics)
    return c


def _trainer(c, cpe):
    from reagent.parameters import EvaluationParameters, RLParameters
    from reagent.training.dqn_trainer import BCQConfig, DQNTrainer

    imit = nets.Lin(c["wi"], raw=True)
    if c["bcq_kind"] == "callable":
        m = imit
        imit = lambda x: torch.softmax(m(x), 1).detach().numpy()  # noqa: E731
    tr = DQNTrainer(
        nets.Lin(c["w"]), nets.Lin(c["wt"]), nets.Lin(c["wr"]) if cpe else None,
        q_network_cpe=nets.Lin(c["wc"]) if cpe else None,
        q_network_cpe_target=nets.Lin(c["wct"]) if cpe else None,
        metrics_to_score=[f"m{i}" for i in range(c["nm"])] if cpe else None,
        evaluation=EvaluationParameters(calc_cpe_in_training=cpe),
        imitator=imit, actions=[f"a{i}" for i in range(c["a"])], rl=RLParameters(**c["rl"]),
        double_q_learning=c["double"],
        bcq=None if c["bcq"] is None else BCQConfig(drop_threshold=c["bcq"]),
    )
    return tr, nets.instrument(tr)


def _on_policy(c, x):
    p = np.exp(np.array(x) @ np.array(c["wi"]))
    p = p / p.sum(1, keepdims=True)
    r = p / p.max(1, keepdims=True)
    if (np.abs(r - c["bcq"])[r < 1 - 1e-9] < 1e-4).any():
        raise Inconclusive("an action sits on the BCQ threshold")
    return (r >= c["bcq"]).astype(float)


def _target(c):
    """Expected TD target, column (b, 1)."""
    rl = c["rl"]
    nx = np.array(c["next_state"])
    q, qt = nx @ np.array(c["w"]), nx @ np.array(c["wt"])
    nt = np.array(c["not_terminal"], float).reshape(-1, 1)
    m = np.array(c["nmask"], float) if rl["maxq_learning"] else nets.onehot(c["next_action"], c["a"])
    if rl["maxq_learning"] and c["bcq"] is not None:
        m = m * _on_policy(c, nx)
    live = nt[:, 0] > 0
    if (m[live].sum(1) == 0).any():
        raise Inconclusive("no action left in a non-terminal row")
    sel = q if c["double"] else qt
    if nets.near_tie(sel[live], m[live]):
        raise Inconclusive("tie")
    nv = np.zeros((c["b"], 1))
    for i in np.where(live)[0]:
        nv[i] = qt[i][nets.best(sel[i : i + 1], m[i : i + 1])[0]]
    return nets.boosted(rl, c) + nets.discount(rl, c) * nt * nv, m


@facet(dqn_cases(), quick=900, shards=4)
def dqn_td(case, rec):
    c, rl = case, case["rl"]
    target, m = _target(c)
    tr, cap = _trainer(c, False)
    batch = nets.build_discrete(c)
    before = nets.snapshot(batch)
    gen = tr.train_step_gen(batch, 0)
    loss = next(gen)
    x = np.array(c["state"])
    allq = x @ np.array(c["w"])
    a1 = nets.onehot(c["action"], c["a"])
    qa = (allq * a1).sum(1, keepdims=True)
    close(loss, nets.td_loss(rl["q_network_loss"], qa, target), "TD loss", rtol=1e-3, atol=1e-3)
    loss.backward()
    g = nets.dloss(rl["q_network_loss"], qa, target)
    close(tr.q_network.w.grad, x.T @ (g * a1), "gradient of the TD loss (targets held constant)",
          rtol=1e-3, atol=1e-3)
    for n in (tr.q_network_target,):
        require(n.w.grad is None or not bool(n.w.grad.abs().sum()), "the TD loss trains the target network")
    rest = list(gen)
    equal(len(rest), 1, "losses after the TD loss (soft update only)")
    require(not tr.q_network.w.grad is None, "gradient")
    equal(nets.snapshot(batch), before, "training batch changed by a training step")
    v = cap.values
    close(v["td_loss"], float(loss.detach()), "reported td_loss")
    close(v["logged_rewards"], nets.boosted(rl, c), "reported rewards", atol=1e-4)
    close(v["model_values"], allq, "reported model values", rtol=1e-4, atol=1e-4)
    same(v["logged_actions"], np.array(c["action"]).reshape(-1, 1), "reported logged actions")
    pm = np.array(c["mask"], float) if rl["maxq_learning"] else a1
    if rl["maxq_learning"] and c["bcq"] is not None:
        pm = pm * _on_policy(c, x)
    ok = pm.sum(1) > 0
    if not nets.near_tie(allq[ok], pm[ok]):
        got = v["model_action_idxs"].numpy().reshape(-1)
        same(got[ok], nets.best(allq[ok], pm[ok]), "reported greedy action")
    rec.nt(rl["gamma"] > 0 and any(c["not_terminal"]))
    rec.label("max" if rl["maxq_learning"] else "sarsa", "double" if c["double"] else "single",
              "bcq" if c["bcq"] is not None else "plain")


@facet(dqn_cases(cpe=True), quick=450, shards=3)
def dqn_cpe(case, rec):
    """The reward and metric networks are trained on the logged action's own metric columns."""
    c, rl = case, case["rl"]
    tr, cap = _trainer(c, True)
    batch = nets.build_discrete(c)
    before = nets.snapshot(batch)
    losses = list(tr.train_step_gen(batch, 0))
    equal(len(losses), len(tr.configure_optimizers()), "one loss per optimizer")
    equal(nets.snapshot(batch), before, "training batch changed by a training step")
    x, nx = np.array(c["state"]), np.array(c["next_state"])
    real = np.array(c["reward"], float)
    if c["metrics"] is not None:
        real = np.concatenate([real, np.array(c["metrics"])], 1)
    k = 1 + c["nm"]
    rw = (x @ np.array(c["wr"])).reshape(c["b"], k, c["a"])
    ri = np.arange(c["b"])
    pred = rw[ri, :, c["action"]]
    close(losses[1], nets.mse(pred, real), "reward network loss", rtol=1e-3, atol=1e-3)
    q, qn = x @ np.array(c["w"]), nx @ np.array(c["w"])
    a1, na1 = nets.onehot(c["action"], c["a"]), nets.onehot(c["next_action"], c["a"])
    m = np.array(c["mask"]) if rl["maxq_learning"] else a1
    nm = np.array(c["nmask"]) if rl["maxq_learning"] else na1
    prop = nets.softmax_masked(qn, nm, rl["temperature"])
    ct = (nx @ np.array(c["wct"])).reshape(c["b"], k, c["a"])
    nv = (ct * prop[:, None, :]).sum(2)
    nt = np.array(c["not_terminal"], float).reshape(-1, 1)
    target = real + nets.discount(rl, c) * nt * nv
    mq = (x @ np.array(c["wc"])).reshape(c["b"], k, c["a"])[ri, :, c["action"]]
    close(losses[2], nets.td_loss(rl["q_network_loss"], mq, target), "metric network loss", rtol=3e-3, atol=3e-3)
    close(cap.values["model_propensities"], nets.softmax_masked(q, m, rl["temperature"]),
          "reported propensities", rtol=1e-2, atol=1e-3)
    close(cap.values["model_rewards"], rw[:, 0, :], "reported reward estimates", rtol=1e-3, atol=1e-3)
    # each loss trains its own network only
    ps = [tr.q_network.w, tr.reward_network.w, tr.q_network_cpe.w, tr.q_network_target.w, tr.q_network_cpe_target.w]
    for i, l in enumerate(losses[:3]):
        gs = torch.autograd.grad(l, ps, allow_unused=True, retain_graph=True)
        for j, g in enumerate(gs):
            if j != i:
                require(g is None or not bool(g.abs().sum()), f"loss {i} changes network {j}")
    rec.nt(c["nm"] > 0)
    rec.label(f"metrics{c['nm']}")


@st.composite
def param_cases(draw):
    rng = rng_of(draw)
    b, s, d, n = (draw(st.integers(1, 4)), draw(st.integers(1, 3)), draw(st.integers(1, 3)), draw(st.integers(1, 4)))
    nt = draw(st.lists(st.integers(0, 1), min_size=b, max_size=b))
    nmask = (rng.rand(b, n) < 0.6).astype(int)
    for i in range(b):
        if nt[i]:
            nmask[i, rng.randint(n)] = 1
    return dict(b=b, s=s, d=d, n=n, state=arr(rng, (b, s)), next_state=arr(rng, (b, s)), action=arr(rng, (b, d)),
                next_action=arr(rng, (b, d)), pna=arr(rng, (b * n, d)), nmask=nmask.tolist(), not_terminal=nt,
                reward=arr(rng, (b, 1)), time_diff=rng.randint(1, 5 if rng.rand() < 0.6 else 60, (b, 1)).tolist(),
                step=rng.randint(1, 5, (b, 1)).tolist(), w=arr(rng, (s, d)), wt=arr(rng, (s, d)), wr=arr(rng, (s, d)),
                rl=draw(nets.rl_params()), double=draw(st.booleans()))


def parametric_batch(c, scale_impossible=None):
    import reagent.types as rlt

    pna = np.array(c["pna"], float)
    if scale_impossible is not None:
        pna = np.where(np.array(c["nmask"]).reshape(-1, 1) > 0, pna, scale_impossible)
    return rlt.ParametricDqnInput(
        state=rlt.FeatureData(T(c["state"])), next_state=rlt.FeatureData(T(c["next_state"])),
        reward=T(c["reward"]), time_diff=T(c["time_diff"]), step=T(c["step"]),
        not_terminal=T(c["not_terminal"]).reshape(-1, 1), action=rlt.FeatureData(T(c["action"])),
        next_action=rlt.FeatureData(T(c["next_action"])), possible_actions=rlt.FeatureData(T(c["pna"])),
        possible_actions_mask=torch.ones(c["b"], c["n"]), possible_next_actions=rlt.FeatureData(T(pna.tolist())),
        possible_next_actions_mask=T(c["nmask"]), extras=rlt.ExtraData(),
    )


def parametric_trainer(c):
    from reagent.parameters import RLParameters
    from reagent.training.parametric_dqn_trainer import ParametricDQNTrainer

    tr = ParametricDQNTrainer(nets.Bil(c["w"]), nets.Bil(c["wt"]), nets.Bil(c["wr"]),
                              rl=RLParameters(**c["rl"]), double_q_learning=c["double"])
    return tr, nets.instrument(tr)


@facet(param_cases(), quick=600, shards=3)
def parametric_td(case, rec):
    c, rl = case, case["rl"]
    x, nx, a = np.array(c["state"]), np.array(c["next_state"]), np.array(c["action"])
    w, wt = np.array(c["w"]), np.array(c["wt"])
    nt = np.array(c["not_terminal"], float).reshape(-1, 1)
    live = nt[:, 0] > 0
    nv = np.zeros((c["b"], 1))
    if rl["maxq_learning"]:
        pna = np.array(c["pna"]).reshape(c["b"], c["n"], c["d"])
        q = np.einsum("bs,sd,bnd->bn", nx, w, pna)
        qt = np.einsum("bs,sd,bnd->bn", nx, wt, pna)
        m = np.array(c["nmask"], float)
        sel = q if c["double"] else qt
        if nets.near_tie(sel[live], m[live]):
            raise Inconclusive("tie")
        for i in np.where(live)[0]:
            nv[i] = qt[i][nets.best(sel[i : i + 1], m[i : i + 1])[0]]
    else:
        nv = ((nx @ wt) * np.array(c["next_action"])).sum(1, keepdims=True)
    target = np.array(c["reward"]) + nets.discount(rl, c) * nt * nv
    tr, cap = parametric_trainer(c)
    batch = parametric_batch(c)
    before = nets.snapshot(batch)
    losses = list(tr.train_step_gen(batch, 0))
    equal(len(losses), 3, "losses")
    equal(nets.snapshot(batch), before, "training batch changed by a training step")
    qa = ((x @ w) * a).sum(1, keepdims=True)
    close(losses[0], nets.td_loss(rl["q_network_loss"], qa, target), "TD loss", rtol=1e-3, atol=1e-3)
    g = nets.dloss(rl["q_network_loss"], qa, target)
    gw = torch.autograd.grad(losses[0], [tr.q_network.w, tr.q_network_target.w, tr.reward_network.w],
                             retain_graph=True, allow_unused=True)
    close(gw[0], np.einsum("bs,bd->sd", x, g * a), "gradient of the TD loss", rtol=1e-3, atol=2e-3)
    require(gw[1] is None and gw[2] is None, "the TD loss trains another network")
    rw = ((x @ np.array(c["wr"])) * a).sum(1, keepdims=True)
    close(losses[1], nets.mse(rw, c["reward"]), "reward network loss", rtol=1e-3, atol=1e-3)
    close(cap.values["model_values_on_logged_actions"], qa, "reported Q values", rtol=1e-3, atol=1e-3)
    rec.nt(rl["gamma"] > 0 and live.any() and (not rl["maxq_learning"] or c["n"] > 1))
    rec.label("max" if rl["maxq_learning"] else "sarsa")


@facet(dqn_cases(), quick=60, shards=1)
def unknown_loss_is_refused(case, rec):
    c = dict(case, rl=dict(case["rl"], q_network_loss="l" + str(case["b"])))
    raises(Exception, lambda: _trainer(c, False), "unknown loss type")
    rec.nt()
