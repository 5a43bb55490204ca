"""Warm starts: a trainer's state holds what it learned and puts another one where it was."""
import io

import torch
from hypothesis import strategies as st

from models.nets import rng_of
from vlib.core import equal, facet, raises, require, same

RULE = "a case is a trainer, sizes of its networks and two seeds; non-trivial = a trainer that keeps something, trained between saving and loading"

KINDS = ["mdn", "seq2reward", "compress", "slate", "slate baseline", "simulation", "simulation baseline", "differentiable", "teacher", "pairwise", "reward", "reinforce",
         "reinforce value", "ppo", "ppo value"]


class Net(torch.nn.Module):
    def __init__(self, n, hidden):
        super().__init__()
        self.a = torch.nn.Linear(n, hidden)
        self.norm = torch.nn.BatchNorm1d(hidden)
        self.b = torch.nn.Linear(hidden, 1)
        self.register_buffer("seen", torch.rand(3))
        self.max_src_seq_len, self.max_tgt_seq_len = 4, 3

    def forward(self, x):
        return self.b(torch.relu(self.norm(self.a(x))))


def optimizer():
    from reagent.optimizer.union import Optimizer__Union, classes

    return Optimizer__Union(SGD=classes["SGD"](lr=0.1))


def build(kind, n, hidden, seed):
    """-> (trainer, {name: network it must keep}, networks its optimizers step)"""
    from reagent import parameters as P
    from reagent.gym.policies.policy import Policy

    torch.manual_seed(seed)
    net, base = Net(n, hidden), Net(n, hidden + 1)
    extra = kind.endswith((" baseline", " value"))
    b = base if extra else None
    if kind == "mdn":
        from reagent.models.world_model import MemoryNetwork
        from reagent.training.world_model.mdnrnn_trainer import MDNRNNTrainer

        net = MemoryNetwork(state_dim=n, action_dim=2, num_hiddens=hidden, num_hidden_layers=1, num_gaussians=2)
        return MDNRNNTrainer(net, P.MDNRNNTrainerParameters()), {"memory_network": net}
    if kind == "seq2reward":
        from reagent.models.seq2reward_model import Seq2RewardNetwork
        from reagent.training.world_model.seq2reward_trainer import Seq2RewardTrainer

        net = Seq2RewardNetwork(state_dim=n, action_dim=2, num_hiddens=hidden, num_hidden_layers=1)
        return Seq2RewardTrainer(net, P.Seq2RewardTrainerParameters(action_names=["a", "b"], multi_steps=2)), {"seq2reward_network": net}
    if kind == "compress":
        from reagent.training.world_model.compress_model_trainer import CompressModelTrainer

        return CompressModelTrainer(net, base, P.Seq2RewardTrainerParameters(action_names=["a", "b"], multi_steps=2)), {}
    if kind.startswith(("slate", "simulation", "differentiable", "teacher", "pairwise")):
        from reagent.parameters_seq2slate import LearningMethod, SimulationParameters
        from reagent.training.ranking import seq2slate_attn_trainer, seq2slate_dr_trainer, seq2slate_sim_trainer, seq2slate_tf_trainer, seq2slate_trainer

        par = P.Seq2SlateParameters
        if kind.startswith("slate"):
            tr = seq2slate_trainer.Seq2SlateTrainer(net, parameters=par(on_policy=True), baseline_net=b, baseline_warmup_num_batches=seed % 2, policy_optimizer=optimizer(), baseline_optimizer=optimizer())
            return tr, dict(seq2slate_net=net, **(dict(baseline_net=b) if b else {}))
        if kind.startswith("simulation"):
            sim = par(on_policy=True, learning_method=LearningMethod.SIMULATION, simulation=SimulationParameters(reward_name_weight={"r": 1.0}, reward_name_power={"r": 1.0}, reward_name_path={"r": "nowhere"}))
            tr = seq2slate_sim_trainer.Seq2SlateSimulationTrainer(net, 4, sim, baseline_net=b, baseline_warmup_num_batches=seed % 2, policy_optimizer=optimizer(), baseline_optimizer=optimizer())
            return tr, dict(seq2slate_net=net)
        if kind == "differentiable":
            return seq2slate_dr_trainer.Seq2SlateDifferentiableRewardTrainer(net, par(on_policy=True), 4, policy_optimizer=optimizer()), dict(seq2slate_net=net)
        if kind == "teacher":
            return seq2slate_tf_trainer.Seq2SlateTeacherForcingTrainer(net, par(on_policy=True), 4, policy_optimizer=optimizer()), dict(seq2slate_net=net)
        return seq2slate_attn_trainer.Seq2SlatePairwiseAttnTrainer(net, policy_optimizer=optimizer()), dict(seq2slate_net=net)
    if kind == "reward":
        from reagent.training.reward_network_trainer import RewardNetTrainer

        return RewardNetTrainer(net, optimizer=optimizer()), dict(reward_net=net)
    actor = Policy(net, object())
    if kind.startswith("reinforce"):
        from reagent.training.reinforce import Reinforce, ReinforceParams

        tr = Reinforce(actor, ReinforceParams(gamma=0.9, optimizer=optimizer(), optimizer_value_net=optimizer()), value_net=b)
    else:
        from reagent.training.ppo_trainer import PPOTrainer

        tr = PPOTrainer(actor, gamma=0.9, optimizer=optimizer(), optimizer_value_net=optimizer(), value_net=b)
    return tr, dict(scorer=net, **(dict(value_net=b) if b else {}))


def contents(m):
    return {k: v.clone() for k, v in m.state_dict().items()}


def change(m, by):
    with torch.no_grad():
        for v in list(m.parameters()) + [x for x in m.buffers() if x.dtype.is_floating_point]:
            v.add_(by)


@st.composite
def cases(draw):
    rng = rng_of(draw)
    return dict(kind=draw(st.sampled_from(KINDS)), n=draw(st.integers(1, 4)), hidden=draw(st.integers(2, 5)), seed=int(rng.randint(10**6)),
                by=draw(st.sampled_from([0.25, -1.0])), file=draw(st.booleans()), twice=draw(st.booleans()))


@facet(cases(), quick=200, shards=3)
def warm_starts(c, rec):
    """Networks are restored exactly, in place, sharing nothing; a state that lacks one or fits other sizes is refused"""
    one, keeps = build(c["kind"], c["n"], c["hidden"], c["seed"])
    if not keeps:
        equal(one.state_dict(), {}, "state of a trainer that keeps nothing")
        one.load_state_dict({})
        rec.label("keeps nothing")
        return
    names = sorted(one.warm_start_components())
    require(set(keeps) <= set(names), "of %s only %s are kept", sorted(keeps), names)
    if c["twice"]:
        for m in keeps.values():
            change(m, c["by"])
    want = {k: contents(m) for k, m in keeps.items()}
    state = one.state_dict()
    equal(sorted(state), names, "what the state holds")
    if c["file"]:
        f = io.BytesIO()
        torch.save(state, f)
        f.seek(0)
        state = torch.load(f)
    two, others = build(c["kind"], c["n"], c["hidden"], c["seed"] + 1)
    where = {k: [p.data_ptr() for p in m.parameters()] for k, m in others.items()}
    two.load_state_dict(state)
    for k, m in others.items():
        require(getattr(two, k) is m, "the %s in training was replaced", k)
        equal([p.data_ptr() for p in m.parameters()], where[k], "parameters stay where the optimizer finds them")
        got = contents(m)
        equal(sorted(got), sorted(want[k]), "contents of " + k)
        for x in got:
            same(got[x], want[k][x], f"{k} {x}")
        change(m, 0.5)
        for x, v in contents(keeps[k]).items():
            same(v, want[k][x], f"{k} {x} of the first trainer, after the second one learned")
    for k in names:
        less = {x: v for x, v in one.state_dict().items() if x != k}
        raises(KeyError, lambda: two.load_state_dict(less), "a state without its " + k)
    big, _ = build(c["kind"], c["n"] + 1, c["hidden"] + 2, c["seed"])
    raises(RuntimeError, lambda: big.load_state_dict(one.state_dict()), "a state of other sizes")
    rec.nt(c["twice"] or len(names) > 1)
    rec.label(c["kind"])


@facet(st.fixed_dictionaries(dict(n=st.integers(1, 3))), quick=3, shards=1)
def unnamed(c, rec):
    """A trainer must say what it keeps and how it trains"""
    from reagent.training.trainer import Trainer

    for call in (lambda: Trainer().state_dict(), lambda: Trainer().load_state_dict({}), lambda: Trainer().warm_start_components(), lambda: Trainer().train(None)):
        raises(NotImplementedError, call, "a trainer that does not say")
    rec.nt()
