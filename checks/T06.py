"""Soft updates and parameter isolation."""
import copy

import numpy as np
import torch
from hypothesis import strategies as st

from models import nets, trainers
from models.nets import T, arr, rng_of
from vlib.core import close, equal, facet, raises, require, same

RULE = ("a case is a set of target/source tensors (some shared), a rate and a number of steps, or a trainer "
        "of any kind with explicit weights; non-trivial = the rate is strictly between 0 and 1, or more than "
        "one network takes part")


@st.composite
def soft_cases(draw):
    rng = rng_of(draw)
    n = draw(st.integers(1, 4))
    shapes = [[rng.randint(1, 3) for _ in range(rng.randint(0, 3))] for _ in range(n)]
    return dict(t=[arr(rng, s) for s in shapes], s=[arr(rng, s) for s in shapes],
                shared=draw(st.lists(st.integers(0, n - 1), max_size=1)),
                tau=draw(st.one_of(st.sampled_from([0.0, 1.0, 0.5, 0.001]), st.floats(0, 1))),
                frozen=draw(st.lists(st.integers(0, n - 1), max_size=2)),
                steps=draw(st.integers(1, 4)), move=round(float(rng.uniform(-1, 1)), 2), gen=draw(st.booleans()))


@facet(soft_cases(), quick=800, shards=3)
def soft_update(case, rec):
    from reagent.optimizer import SoftUpdate

    src = [torch.nn.Parameter(T(x)) for x in case["s"]]
    tgt = [torch.nn.Parameter(T(x)) for x in case["t"]]
    for i in case["shared"]:
        tgt[i] = src[i]
    for i in case["frozen"]:
        src[i].requires_grad_(False)  # a frozen layer is still followed
    exp_t = [x.detach().double().numpy().copy() for x in tgt]
    exp_s = [x.detach().double().numpy().copy() for x in src]
    if len({id(p) for p in tgt + src}) < len(tgt) * 2:
        # a parameter shared by both sides: torch refuses or warns about duplicates by design of the optimizer
        try:
            opt = SoftUpdate(tgt, src, tau=case["tau"])
        except ValueError:
            rec.label("shared refused")
            return
    else:
        opt = SoftUpdate(iter(tgt) if case["gen"] else tgt, iter(src) if case["gen"] else src, tau=case["tau"])
    for _ in range(case["steps"]):
        opt.step()
        for i in range(len(src)):
            if i not in case["shared"]:
                exp_t[i] = case["tau"] * exp_s[i] + (1 - case["tau"]) * exp_t[i]
            close(tgt[i], exp_t[i], "target after a soft update", rtol=1e-4, atol=1e-5)
            same(src[i].detach(), exp_s[i].astype(np.float32), "source after a soft update")
            with torch.no_grad():
                src[i] += case["move"]
            exp_s[i] = src[i].detach().double().numpy().copy()
            if i in case["shared"]:
                exp_t[i] = exp_s[i]
    rec.nt(0 < case["tau"] < 1)


@facet(soft_cases(), quick=200, shards=1)
def invalid_soft_updates_are_refused(case, rec):
    from reagent.optimizer import SoftUpdate

    src, tgt = [torch.nn.Parameter(T(x)) for x in case["s"]], [torch.nn.Parameter(T(x)) for x in case["t"]]
    raises(ValueError, lambda: SoftUpdate(tgt, src, tau=1 + abs(case["move"]) + 1e-3), "tau above 1")
    raises(ValueError, lambda: SoftUpdate(tgt, src, tau=-abs(case["move"]) - 1e-3), "negative tau")
    raises(ValueError, lambda: SoftUpdate(tgt, src[:-1] if len(src) > 1 else src + [torch.nn.Parameter(T([1.0]))], tau=0.5),
           "different numbers of parameters")
    bad = src[:-1] + [torch.nn.Parameter(torch.zeros(list(src[-1].shape) + [2]))]
    raises(ValueError, lambda: SoftUpdate(tgt, bad, tau=0.5), "different shapes")
    rec.nt()


@facet(soft_cases(), quick=300, shards=2)
def legacy_trainer_updates(case, rec):
    """RLTrainer: soft updates and optimizer steps happen every `minibatches_per_step` minibatches, with the
    accumulated gradient averaged."""
    from reagent.parameters import RLParameters
    from reagent.training.rl_trainer_pytorch import RLTrainer

    tr = RLTrainer(RLParameters(), use_gpu=False)
    net, target = torch.nn.ParameterList([torch.nn.Parameter(T(x)) for x in case["s"]]), torch.nn.ParameterList(
        [torch.nn.Parameter(T(x)) for x in case["t"]])
    k, tau, lr = case["steps"], case["tau"], 0.1
    opt = torch.optim.SGD(net.parameters(), lr=lr)
    es = [np.array(x, float) for x in case["s"]]
    et = [np.array(x, float) for x in case["t"]]
    acc = 0.0
    for mb in range(1, 2 * k + 2):
        tr.minibatch = mb
        g = 0.25 * mb
        loss = sum((p * g).sum() for p in net)
        loss.backward()
        acc += g
        tr._maybe_run_optimizer(opt, k)
        tr._maybe_soft_update(net, target, tau, k)
        if mb % k == 0:
            es = [x - lr * acc / k for x in es]
            et = [tau * x + (1 - tau) * y for x, y in zip(es, et)]
            acc = 0.0
        for p, e in zip(net, es):
            close(p, e, f"parameter after minibatch {mb}", rtol=1e-4, atol=1e-5)
        for p, e in zip(target, et):
            close(p, e, f"target after minibatch {mb}", rtol=1e-4, atol=1e-5)
    rec.nt(k > 1)


@facet(trainers.cases(max_batches=1), quick=500, shards=3)
def every_trainer(case, rec):
    """Each optimizer owns exactly its network; the soft update moves each target towards its own source."""
    tr = trainers.make(case)
    names, soft = trainers.plan(case)
    opts = tr.configure_optimizers()
    equal(len(opts), len(names) + 1, "number of optimizers")
    for o, n in zip(opts, names):
        got = sorted(id(p) for g in o.param_groups for p in g["params"])
        equal(got, sorted(id(p) for p in trainers.params(tr, n)), f"parameters of the {n} optimizer")
    for p in tr.parameters():
        with torch.no_grad():
            p += torch.rand_like(p)
    old = {n: p.detach().clone() for n, p in tr.named_parameters()}
    opts[-1].step()
    for n, p in tr.named_parameters():
        e = old[n]
        for s in soft:
            if n.startswith(s + "_target."):
                src = old[n.replace(s + "_target.", s + ".")]
                e = case["tau"] * src + (1 - case["tau"]) * e
        close(p, e, f"{n} after the soft update (rate {case['tau']})", rtol=1e-4, atol=1e-5)
    rec.nt(case["tau"] < 1 and len(soft) > 1)
    rec.label(case["kind"])
