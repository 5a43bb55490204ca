"""Distributional targets: QR-DQN and C51."""
import numpy as np
import torch
from hypothesis import strategies as st

from models import nets
from models.nets import arr, rng_of
from vlib.core import Inconclusive, close, equal, facet, require

RULE = ("a case is a batch, network weights, number of atoms, support and RL configuration; non-trivial = "
        "more than one atom, a non-terminal row and gamma > 0")


@st.composite
def cases(draw, c51=False):
    c = draw(nets.discrete_batch(max_b=3, max_a=3))
    rng = rng_of(draw)
    n = draw(st.integers(2, 12)) if c51 else draw(st.integers(1, 5))
    sc = draw(st.sampled_from([0.3, 1.0, 2.0]))
    c.update(n=n, rl=draw(nets.rl_params(actions=c["a"])), double=draw(st.booleans()),
             w=arr(rng, (c["s"], c["a"] * n), -sc, sc), wt=arr(rng, (c["s"], c["a"] * n), -sc, sc))
    if c51:
        lo = round(draw(st.floats(-10, 5)), 2)
        c.update(qmin=lo, qmax=round(lo + draw(st.one_of(st.floats(0.1, 20), st.integers(1, 12))), 2))
        if draw(st.booleans()):  # integer rewards and supports: targets land exactly on atoms
            lo = draw(st.integers(-5, 2))
            c.update(qmin=float(lo), qmax=float(lo + (n - 1) * draw(st.integers(1, 2))),
                     reward=rng.randint(-6, 7, (c["b"], 1)).astype(float).tolist())
    return c


def _rest(c, cap, allq, gen, names=True):
    v = cap.values
    close(v["logged_rewards"], nets.boosted(c["rl"], c), "reported rewards", atol=1e-4)
    close(v["model_values"], allq, "reported model values", rtol=1e-3, atol=1e-3)
    pm = np.array(c["mask"], float) if c["rl"]["maxq_learning"] else nets.onehot(c["action"], c["a"])
    if not nets.near_tie(allq, pm):
        equal(v["model_action_idxs"].reshape(-1).tolist(), nets.best(allq, pm).tolist(), "reported greedy action")


def _next(c, sel, nt):
    live = nt[:, 0] > 0
    m = np.array(c["nmask"], float)
    if nets.near_tie(sel[live], m[live]):
        raise Inconclusive("tie")
    m[m.sum(1) == 0] = 1
    return nets.best(sel, m)


def qr_trainer(c):
    from reagent.parameters import EvaluationParameters, RLParameters
    from reagent.training.qrdqn_trainer import QRDQNTrainer

    sh = (c["a"], c["n"])
    tr = QRDQNTrainer(nets.Lin(c["w"], sh), nets.Lin(c["wt"], sh), actions=[f"a{i}" for i in range(c["a"])],
                      rl=RLParameters(**c["rl"]), double_q_learning=c["double"], num_atoms=c["n"],
                      evaluation=EvaluationParameters(calc_cpe_in_training=False))
    return tr, nets.instrument(tr)


def c51_trainer(c):
    from reagent.parameters import RLParameters
    from reagent.training.c51_trainer import C51Trainer

    sh = (c["a"], c["n"])
    tr = C51Trainer(nets.Lin(c["w"], sh), nets.Lin(c["wt"], sh), actions=[f"a{i}" for i in range(c["a"])],
                    rl=RLParameters(**c["rl"]), double_q_learning=c["double"], num_atoms=c["n"], qmin=c["qmin"],
                    qmax=c["qmax"])
    return tr, nets.instrument(tr)


@facet(cases(), quick=700, shards=4)
def quantile_regression(case, rec):
    c, rl = case, case["rl"]
    ri = np.arange(c["b"])
    x, nx = np.array(c["state"]), np.array(c["next_state"])
    sh = (c["b"], c["a"], c["n"])
    z, nz, nzt = ((u @ np.array(c[k])).reshape(sh) for u, k in ((x, "w"), (nx, "w"), (nx, "wt")))
    nt = np.array(c["not_terminal"], float).reshape(-1, 1)
    if rl["maxq_learning"]:
        nxt = nzt[ri, _next(c, (nz if c["double"] else nzt).mean(2), nt)]
    else:
        nxt = (nzt * nets.onehot(c["next_action"], c["a"])[:, :, None]).sum(1)
    target = nets.boosted(rl, c) + nets.discount(rl, c) * nt * nxt  # (b, n)
    cur = z[ri, c["action"]]
    tau = (np.arange(c["n"]) + 0.5) / c["n"]
    tot = 0.0
    for b in range(c["b"]):
        for j in range(c["n"]):  # target atom
            for i in range(c["n"]):  # estimated quantile
                d = target[b, j] - cur[b, i]
                if abs(d) < 1e-5:
                    raise Inconclusive("kink")
                tot += abs(tau[i] - (d < 0)) * nets.huber_el(d)
    tr, cap = qr_trainer(c)
    batch = nets.build_discrete(c)
    before = nets.snapshot(batch)
    losses = list(tr.train_step_gen(batch, 0))
    equal(len(losses), 2, "losses")
    equal(nets.snapshot(batch), before, "training batch changed by a training step")
    close(losses[0], tot / (c["b"] * c["n"] ** 2), "quantile regression loss", rtol=1e-3, atol=1e-3)
    _rest(c, cap, z.mean(2), None)
    rec.nt(c["n"] > 1 and any(c["not_terminal"]) and rl["gamma"] > 0)
    rec.label("max" if rl["maxq_learning"] else "sarsa", "double" if c["double"] else "single")


def _ls(x):
    x = x - x.max(-1, keepdims=True)
    return x - np.log(np.exp(x).sum(-1, keepdims=True))


@facet(cases(c51=True), quick=700, shards=4)
def categorical_projection(case, rec):
    c, rl = case, case["rl"]
    ri = np.arange(c["b"])
    x, nx = np.array(c["state"]), np.array(c["next_state"])
    sh = (c["b"], c["a"], c["n"])
    lz, lnz, lnzt = (_ls((u @ np.array(c[k])).reshape(sh)) for u, k in ((x, "w"), (nx, "w"), (nx, "wt")))
    sup = np.linspace(c["qmin"], c["qmax"], c["n"])
    nt = np.array(c["not_terminal"], float).reshape(-1, 1)
    if rl["maxq_learning"]:
        p = np.exp(lnzt)[ri, _next(c, (np.exp(lnz if c["double"] else lnzt) * sup).sum(2), nt)]
    else:
        # a row without a next action is terminal: all its mass sits on the reward
        p = np.exp(lnzt)[ri, [max(0, i) for i in c["next_action"]]]
    tz = np.clip(nets.boosted(rl, c) + nets.discount(rl, c) * nt * sup, c["qmin"], c["qmax"])
    step = (c["qmax"] - c["qmin"]) / (c["n"] - 1)
    # projection: atom k receives (1 - |Tz - z_k| / step)+ of every atom's mass
    wgt = np.clip(1 - np.abs(tz[:, :, None] - sup[None, None, :]) / step, 0, None)  # (b, from, to)
    m = (p[:, :, None] * wgt).sum(1)
    loss = -(m * lz[ri, c["action"]]).sum(1).mean()
    tr, cap = c51_trainer(c)
    batch = nets.build_discrete(c)
    before = nets.snapshot(batch)
    losses = list(tr.train_step_gen(batch, 0))
    equal(len(losses), 2, "losses")
    equal(nets.snapshot(batch), before, "training batch changed by a training step")
    close(losses[0], loss, "cross entropy with the projected target distribution", rtol=2e-3, atol=2e-3)
    _rest(c, cap, (np.exp(lz) * sup).sum(2), None)
    rec.nt(any(c["not_terminal"]) and rl["gamma"] > 0)
    on = np.isclose(((tz - c["qmin"]) / step) % 1, 0) & (tz > c["qmin"]) & (tz < c["qmax"])
    rec.label("max" if rl["maxq_learning"] else "sarsa", "on-atom" if on.any() else "between",
              "clipped" if ((tz == c["qmin"]) | (tz == c["qmax"])).any() else "inside")


@facet(cases(c51=True), quick=500, shards=2)
def every_support_is_usable(case, rec):
    """The top of the support can always be hit (terminal reward above qmax), for any support."""
    c = dict(case, reward=[[1e4] for _ in range(case["b"])], rl=dict(case["rl"], gamma=0.5))
    c["rl"].pop("reward_boost", None)
    x = np.array(c["state"])
    lz = _ls((x @ np.array(c["w"])).reshape(c["b"], c["a"], c["n"]))
    tr, cap = c51_trainer(c)
    loss = next(tr.train_step_gen(nets.build_discrete(c), 0))
    close(loss, -lz[np.arange(c["b"]), c["action"], -1].mean(), "loss when every target is above the support",
          rtol=2e-3, atol=2e-3)
    rec.nt(c["n"] > 2)
