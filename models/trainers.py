"""Every lightning trainer with explicit weights, its batches, and which network
each of its losses is meant to train (by attribute name, in order)."""
import numpy as np
import torch
from hypothesis import strategies as st

from checks import T01, T02, T03, T04
from models import nets
from models.nets import arr, rng_of

KINDS = ["dqn", "dqn_cpe", "parametric", "qrdqn", "qrdqn_cpe", "c51", "sac", "td3", "crr", "slateq"]


@st.composite
def cases(draw, max_batches=4):
    kind = draw(st.sampled_from(KINDS))
    if kind in ("dqn", "dqn_cpe"):
        c = draw(T01.dqn_cases(cpe=kind == "dqn_cpe"))
    elif kind == "parametric":
        c = draw(T01.param_cases())
    elif kind in ("qrdqn", "c51"):
        c = draw(T02.cases(c51=kind == "c51"))
    elif kind == "qrdqn_cpe":
        c = draw(T02.cases())
        rng = rng_of(draw)
        for k in ("wr", "wc", "wct"):
            c[k] = arr(rng, (c["s"], c["a"]))
    elif kind == "sac":
        c = draw(T03.sac_cases())
        c["kld"] = None
    elif kind == "td3":
        c = draw(T03.td3_cases())
        c["noise"] = 0.0
    elif kind == "crr":
        c = draw(T03.crr_cases())
    else:
        c = draw(T04.cases())
    rng = rng_of(draw)
    n = draw(st.integers(1, max_batches))
    r = np.array(c["reward"])
    return dict(kind=kind, c=c, rewards=[np.round(rng.uniform(-3, 3, r.shape), 2).tolist() for _ in range(n)],
                tau=draw(st.sampled_from([0.01, 0.2, 0.5, 1.0])))


def make(case):
    """-> trainer"""
    from reagent.parameters import EvaluationParameters, RLParameters
    from reagent.training.qrdqn_trainer import QRDQNTrainer
    from reagent.training.td3_trainer import TD3Trainer

    k, c = case["kind"], case["c"]
    if "rl" in c:
        c = dict(c, rl=dict(c["rl"], target_update_rate=case["tau"]))
    if k in ("dqn", "dqn_cpe"):
        tr = T01._trainer(c, k == "dqn_cpe")[0]
    elif k == "parametric":
        tr = T01.parametric_trainer(c)[0]
    elif k == "qrdqn":
        tr = T02.qr_trainer(c)[0]
    elif k == "qrdqn_cpe":
        sh = (c["a"], c["n"])
        tr = QRDQNTrainer(
            nets.Lin(c["w"], sh), nets.Lin(c["wt"], sh), reward_network=nets.Lin(c["wr"]),
            q_network_cpe=nets.Lin(c["wc"]), q_network_cpe_target=nets.Lin(c["wct"]),
            actions=[f"a{i}" for i in range(c["a"])], rl=RLParameters(**c["rl"]), double_q_learning=c["double"],
            num_atoms=c["n"], evaluation=EvaluationParameters(calc_cpe_in_training=True))
    elif k == "c51":
        tr = T02.c51_trainer(c)[0]
    elif k == "sac":
        tr = T03.sac_trainer(c)[0]
        tr.rl_parameters = RLParameters(gamma=c["gamma"], target_update_rate=case["tau"])
    elif k == "td3":
        tr = TD3Trainer(T03.Actor(c["wa"], c["wl"]), nets.Bil(c["q1"]), nets.Bil(c["q2"]) if c["q2"] else None,
                        rl=RLParameters(gamma=c["gamma"], target_update_rate=case["tau"]), noise_variance=0.0,
                        noise_clip=c["clip"], delayed_policy_update=c["delay"])
        with torch.no_grad():
            tr.actor_network_target.wa.copy_(nets.T(c["wat"]))
            tr.q1_network_target.w.copy_(nets.T(c["q1t"]))
    elif k == "crr":
        tr = T03.crr_trainer(c)[0]
    else:
        tr = T04.slate_trainer(c)[0]
        tr.rl_parameters = RLParameters(gamma=c["gamma"], target_update_rate=case["tau"], maxq_learning=False)
    return tr


def batches(case):
    k, c = case["kind"], case["c"]
    for r in case["rewards"]:
        cc = dict(c, reward=r)
        if k == "parametric":
            yield T01.parametric_batch(cc)
        elif k in ("sac", "td3"):
            yield T03._batch(cc)
        elif k == "slateq":
            yield T04.slate_batch(cc)
        else:
            yield nets.build_discrete(cc)


def plan(case):
    """Names of what each loss trains, and the (target, source) pairs of the soft update."""
    k, c = case["kind"], case["c"]
    cpe = k in ("dqn_cpe", "qrdqn_cpe") or (k == "crr" and c["cpe"])
    names, soft = [], []
    if k in ("dqn", "dqn_cpe", "qrdqn", "qrdqn_cpe", "c51", "slateq", "parametric"):
        names, soft = ["q_network"], ["q_network"]
        if k == "parametric":
            names.append("reward_network")
    else:
        q = ["q1_network"] + (["q2_network"] if c["q2"] else [])
        names = q + ["actor_network"]
        soft = list(q)
        if k == "sac":
            if c["alpha"]:
                names.append("log_alpha")
            if c["value"]:
                names.append("value_network")
                soft = ["value_network"]
        else:
            soft.append("actor_network")
    if cpe:
        names += ["reward_network", "q_network_cpe"]
        soft.append("q_network_cpe")
    return names, soft


def params(tr, name):
    x = getattr(tr, name)
    return [x] if isinstance(x, torch.nn.Parameter) else list(x.parameters())


OPTS = ("q_network_optimizer", "reward_network_optimizer", "q_network_cpe_optimizer", "optimizer",
        "actor_network_optimizer", "alpha_optimizer", "value_network_optimizer")


def use_sgd(tr, lr):
    from reagent.optimizer import Optimizer__Union
    from reagent.optimizer.union import classes

    u = Optimizer__Union(SGD=classes["SGD"](lr=lr))
    for o in OPTS:
        if getattr(tr, o, None) is not None:
            setattr(tr, o, u)
