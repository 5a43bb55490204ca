"""Optimizer and learning-rate schedule configurations."""
import copy
import inspect

import numpy as np
import torch
from hypothesis import strategies as st

from models.nets import T, arr
from vlib.core import Inconclusive, close, equal, facet, raises, require, same

RULE = ("a case is an optimizer with arguments, schedules, parameters and gradients over some steps; non-trivial = two or more steps "
        "with an argument away from its default")

F = lambda *xs: st.sampled_from(xs)
LR = F(0.001, 0.01, 0.1, 0.5)
OPT = {
    "Adam": dict(lr=LR, betas=F([0.9, 0.999], [0.5, 0.7], [0.0, 0.9]), eps=F(1e-8, 0.01), weight_decay=F(0, 0.1), amsgrad=st.booleans()),
    "AdamW": dict(lr=LR, betas=F([0.9, 0.999], [0.5, 0.7]), eps=F(1e-8, 0.01), weight_decay=F(0.01, 0.3), amsgrad=st.booleans()),
    "SGD": dict(lr=LR, momentum=F(0.0, 0.5, 0.9), weight_decay=F(0.0, 0.1), dampening=F(0.0, 0.25), nesterov=F(False, True)),
    "Adagrad": dict(lr=LR, lr_decay=F(0, 0.1), weight_decay=F(0, 0.1), initial_accumulator_value=F(0, 0.5), eps=F(1e-10, 0.01)),
    "Adadelta": dict(lr=LR, rho=F(0.9, 0.5), eps=F(1e-6, 0.01), weight_decay=F(0, 0.1)),
    "RMSprop": dict(lr=LR, alpha=F(0.99, 0.5), eps=F(1e-8, 0.01), weight_decay=F(0, 0.1), momentum=F(0, 0.5), centered=st.booleans()),
    "Rprop": dict(lr=LR, etas=F([0.5, 1.2], [0.25, 2.0]), step_sizes=F([1e-6, 50.0], [0.01, 0.02])),
    "ASGD": dict(lr=LR, lambd=F(1e-4, 0.1), alpha=F(0.75, 0.3), t0=F(1000000.0, 1.0), weight_decay=F(0, 0.1)),
    "LBFGS": dict(lr=LR, max_iter=F(20, 1, 3), max_eval=F(None, 2), history_size=F(100, 2), tolerance_grad=F(1e-7, 0.5), tolerance_change=F(1e-9, 0.1),
                  line_search_fn=F(None, "strong_wolfe")),
}
LAMBDAS = ["lambda e: 0.5 ** e", "lambda step: 1.0 / (1 + step)", "lambda e: 0.9"]
SCHED = {
    "StepLR": dict(step_size=st.integers(1, 4), gamma=F(0.1, 0.5)),
    "MultiStepLR": dict(milestones=st.lists(st.integers(1, 6), min_size=1, max_size=3).map(sorted), gamma=F(0.1, 0.5)),
    "ExponentialLR": dict(gamma=F(0.9, 0.5)),
    "CosineAnnealingLR": dict(T_max=st.integers(1, 6), eta_min=F(0.0, 0.01)),
    "CosineAnnealingWarmRestarts": dict(T_0=st.integers(1, 4), T_mult=st.integers(1, 2), eta_min=F(0.0, 0.01)),
    "OneCycleLR": dict(max_lr=F(0.1, 1.0), total_steps=st.integers(16, 19), pct_start=F(0.3, 0.5), anneal_strategy=F("cos", "linear"),
                       cycle_momentum=F(False, True), base_momentum=F(0.85, 0.5), max_momentum=F(0.95, 0.6), div_factor=F(25.0, 4.0), final_div_factor=F(1e4, 10.0), three_phase=st.booleans()),
    "CyclicLR": dict(base_lr=F(0.01, 0.1), max_lr=F(0.2, 1.0), step_size_up=st.integers(1, 3), step_size_down=F(None, 2),
                     mode=F("triangular", "triangular2", "exp_range"), gamma=F(1.0, 0.9), cycle_momentum=F(False, True), base_momentum=F(0.8, 0.5), max_momentum=F(0.9, 0.6),
                     scale_fn=F(None, "lambda x: 1 / (1 + x)"), scale_mode=F("cycle", "iterations")),
    "LambdaLR": dict(lr_lambda=F(*LAMBDAS)),
    "MultiplicativeLR": dict(lr_lambda=F(*LAMBDAS)),
}


@st.composite
def some(draw, table):
    name = draw(st.sampled_from(sorted(table)))
    need = {"StepLR": ["step_size"], "MultiStepLR": ["milestones"], "ExponentialLR": ["gamma"], "CosineAnnealingLR": ["T_max"],
            "CosineAnnealingWarmRestarts": ["T_0"], "OneCycleLR": ["max_lr", "total_steps"],
            "CyclicLR": ["base_lr", "max_lr"], "LambdaLR": ["lr_lambda"], "MultiplicativeLR": ["lr_lambda"]}.get(name, [])
    args = {k: draw(s) for k, s in table[name].items() if k in need or draw(st.booleans())}
    return dict(name=name, args=args)


@st.composite
def cases(draw):
    o = draw(some(OPT))
    if o["args"].get("nesterov"):
        o["args"].update(momentum=0.5, dampening=0.0)
    c = dict(opt=o, sched=draw(st.lists(some(SCHED), max_size=2, unique_by=lambda s: s["name"])) if draw(st.booleans()) else [],
                seed=draw(st.integers(0, 999)), steps=draw(st.integers(1, 10)), how=draw(st.sampled_from(["class", "union", "dict"])),
             closure=draw(st.booleans()), groups=draw(st.booleans()), resume=draw(st.sampled_from([None, None, 0, 1, 4])))
    for s in c["sched"]:
        # cycling the momentum needs an optimizer that has one
        if s["name"] in ("CyclicLR", "OneCycleLR") and not ("betas" in OPT[o["name"]] or o["args"].get("momentum")):
            s["args"]["cycle_momentum"] = False
        # one schedule per group
        if c["groups"] and o["name"] != "LBFGS" and draw(st.booleans()):
            if "lr_lambda" in s["args"]:
                s["args"]["lr_lambda"] = [s["args"]["lr_lambda"], "lambda e: 0.8 ** e"]
            elif "max_lr" in s["args"]:
                s["args"]["max_lr"] = [s["args"]["max_lr"], 2.0]
    return c


def defaults_of(name):
    """The defaults torch documents, read off the torch class itself"""
    return {k: p.default for k, p in inspect.signature(getattr(torch.optim, name)).parameters.items() if p.default is not inspect.Parameter.empty}


class aliased:
    """Since torch 2.0 schedules derive from LRScheduler and _LRScheduler is kept only as a subclass of it; here the old name means the base again"""

    def __enter__(self):
        self.old = torch.optim.lr_scheduler._LRScheduler
        torch.optim.lr_scheduler._LRScheduler = getattr(torch.optim.lr_scheduler, "LRScheduler", self.old)

    def __exit__(self, *a):
        torch.optim.lr_scheduler._LRScheduler = self.old


SAMPLE = {"StepLR": dict(step_size=1), "MultiStepLR": dict(milestones=[1]), "ExponentialLR": dict(gamma=0.5), "CosineAnnealingLR": dict(T_max=2),
          "CosineAnnealingWarmRestarts": dict(T_0=2), "OneCycleLR": dict(max_lr=0.5), "CyclicLR": dict(base_lr=0.1, max_lr=0.5),
          "LambdaLR": dict(lr_lambda=LAMBDAS[0]), "MultiplicativeLR": dict(lr_lambda=LAMBDAS[0])}


def as_args(a):
    return {k: tuple(v) if k in ("betas", "etas", "step_sizes") else v for k, v in a.items()}


def functions(v):
    return [eval(x) for x in v] if isinstance(v, list) else eval(v) if isinstance(v, str) else v


def ref_scheduler(opt, s, last):
    cls = getattr(torch.optim.lr_scheduler, s["name"])
    a = {k: functions(v) if k in ("lr_lambda", "scale_fn") else v for k, v in s["args"].items()}
    return cls(opt, **a, **({} if last is None else dict(last_epoch=last)))


def make_config(c):
    import reagent.optimizer.uninferrable_schedulers as us
    from reagent.optimizer.union import Optimizer__Union, classes

    o = c["opt"]
    cls = classes[o["name"]]
    last = {} if c["resume"] is None else dict(last_epoch=c["resume"])
    listed = lambda a: {k: functions(v) if k == "lr_lambda" and isinstance(v, list) else v for k, v in a.items()}
    scheds = [getattr(us, s["name"])(**listed(s["args"]), **last) for s in c["sched"]]
    kw = dict(as_args(o["args"]))
    if scheds:
        kw["lr_schedulers"] = scheds
    if c["how"] == "class":
        return cls(**kw)
    if c["how"] == "union" or scheds:
        return Optimizer__Union(**{o["name"]: cls(**kw)})
    return Optimizer__Union(**{o["name"]: dict(o["args"])})


@facet(cases(), quick=400, shards=8)
def optimizers_match_torch(c, rec):
    o = c["opt"]
    r = np.random.RandomState(c["seed"])
    shapes = [(3,), (2, 2)]
    start = [arr(r, s) for s in shapes]
    grads = [[arr(r, s) for s in shapes] for _ in range(c["steps"])]
    with aliased():
        A = [torch.nn.Parameter(T(x)) for x in start]
        B = [torch.nn.Parameter(T(x)) for x in start]
        groups = c["groups"] and o["name"] != "LBFGS"
        # a schedule that goes on from an epoch finds the rates it started from in the groups
        seen = {} if c["resume"] is None or not c["sched"] else dict(initial_lr=0.2, max_lr=0.4, min_lr=0.01, max_momentum=0.9, base_momentum=0.6)
        wrap = lambda P: [{"params": P[:1], **seen}, {"params": P[1:], "lr": 0.25, **seen}] if groups else [{"params": P, **seen}] if seen else P
        conf = make_config(c)
        opt = conf.make_optimizer(wrap(A))
        # the reference takes the arguments given, and for the rest the defaults of the configuration, which differ from torch's only
        # for the learning rate of SGD, which old torch requires
        kw = as_args(o["args"])
        if o["name"] == "SGD":
            kw.setdefault("lr", 0.001)
        ref = getattr(torch.optim, o["name"])(wrap(B), **kw)
        rs = [ref_scheduler(ref, s, c["resume"]) for s in c["sched"]]
        require(type(opt.optimizer) is getattr(torch.optim, o["name"]), "class %s, expected %s", type(opt.optimizer), o["name"])
        equal(len(opt.lr_schedulers), len(rs), "schedules")
        for got, want in zip(opt.lr_schedulers, rs):
            require(type(got) is type(want), "schedule %s, expected %s", type(got), type(want))
            require(got.optimizer is opt.optimizer, "the schedule drives another optimizer")
        rec.nt(c["steps"] >= 2 and o["args"])
        rec.label(o["name"], *[s["name"] for s in c["sched"]])
        equal(opt.defaults, ref.defaults, "arguments")
        for t in range(c["steps"]):
            def run(P, optim):
                calls = []

                def closure():
                    calls.append(1)
                    optim.zero_grad()
                    loss = sum(((p - T(g)) ** 2).sum() for p, g in zip(P, grads[t]))
                    loss.backward()
                    return loss

                if c["closure"] or o["name"] == "LBFGS":
                    optim.step(closure)
                else:
                    closure()
                    optim.step()
                return len(calls)

            try:
                m = run(B, ref)
                for s in rs:
                    s.step()
            except ArithmeticError:
                raise Inconclusive("torch itself fails")
            n = run(A, opt)
            equal(n, m, f"evaluations of the closure in step {t}")
            for x, y in zip(A, B):
                close(x, y, f"parameters after step {t}", rtol=1e-5, atol=1e-6)
            rates = lambda o: [{k: v for k, v in g.items() if k != "params"} for g in o.param_groups]
            equal(rates(opt), rates(ref), f"learning rates and momenta after step {t}")
    # the wrapper stands for the optimizer
    require(opt.param_groups is opt.optimizer.param_groups and opt.state is opt.optimizer.state, "attributes are forwarded")
    for gone in ("no_such_thing", "optimiser", "add_parameter_group"):
        require(not hasattr(opt, gone), "the attribute %s, which the optimizer lacks, is there", gone)
        raises(AttributeError, lambda: getattr(opt, gone), f"attribute {gone}")
    opt.zero_grad()
    require(all(p.grad is None or not p.grad.any() for p in A), "gradients remain")


@facet(st.fixed_dictionaries(dict(kw=st.fixed_dictionaries({}, optional=dict(lr=LR, eps=F(1e-8, 0.01), weight_decay=F(0, 0.1), amsgrad=st.booleans())),
                                  name=st.sampled_from(sorted(OPT) + ["SparseAdam", "Adamax"]), sched=st.sampled_from(sorted(SCHED)), seed=st.integers(0, 99))), quick=200, shards=2)
def defaults(c, rec):
    from reagent.optimizer.union import Optimizer__Union, classes

    u = Optimizer__Union.default(**c["kw"])
    p = torch.nn.Parameter(torch.ones(2))
    opt = u.make_optimizer([p])
    require(type(opt.optimizer) is torch.optim.Adam, "the default is %s", type(opt.optimizer))
    want = torch.optim.Adam([p], **c["kw"]).defaults
    equal(opt.defaults, want, "default arguments")
    require(opt.param_groups[0]["params"][0] is p, "other parameters")
    equal(list(opt.lr_schedulers), [], "schedules")
    # every configuration starts from the defaults of torch
    conf = classes[c["name"]]()
    d = defaults_of(c["name"])
    rec.nt(c["kw"])
    for k, v in d.items():
        # later versions of torch have further arguments
        if hasattr(conf, k) and (c["name"], k) not in (("SGD", "lr"), ("Adamax", "lr")):
            equal(getattr(conf, k), v, f"{c['name']}.{k}")
        require(hasattr(conf, k) or k not in OPT.get(c["name"], ()), "%s lacks %s", c["name"], k)
    import reagent.optimizer.uninferrable_schedulers as us

    s = getattr(us, c["sched"])(**SAMPLE[c["sched"]])
    d = inspect.signature(getattr(torch.optim.lr_scheduler, c["sched"])).parameters
    for k, p in d.items():
        if k not in ("optimizer", "verbose") and p.default is not inspect.Parameter.empty and k not in SAMPLE[c["sched"]]:
            equal(getattr(s, k), p.default, f"{c['sched']}.{k}")
    a, b = classes[c["name"]](), classes[c["name"]]()
    require(a == b, "equal configurations")
    equal(hash(Optimizer__Union.default(**c["kw"]).value), hash(u.value), "hash")
    a.lr_schedulers.append(1)
    require(b.lr_schedulers == [] and classes[c["name"]]().lr_schedulers == [], "schedules are shared between configurations")
