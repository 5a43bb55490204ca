"""Observers, aggregators and reporters."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from models import trainers as mt
from models.nets import FakeTrainer, T, arr, rng_of
from vlib.core import Inconclusive, close, equal, facet, raises, require, same

RULE = ("a case is a history of reported values, epoch ends and flushes given to a set of observers or to a reporter; non-trivial = "
        "values left over at the end of an epoch, or some aggregation after an epoch's end")

KEYS = ["x", "y", "z"]


@st.composite
def notify_cases(draw):
    obs = []
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(["list", "composite", "epoch", "plain"]))
        if kind == "list":
            obs.append(dict(kind=kind, keys=[draw(st.sampled_from(KEYS + ["nope"]))]))
        elif kind == "epoch":
            obs.append(dict(kind=kind, keys=[draw(st.sampled_from(KEYS + ["epoch_end"]))]))
        elif kind == "plain":
            obs.append(dict(kind=kind, keys=draw(st.lists(st.sampled_from(KEYS + ["nope"]), unique=True, max_size=4))))
        else:
            obs.append(dict(kind=kind, keys=draw(st.lists(st.sampled_from(KEYS + ["nope"]), min_size=1, max_size=4))))
    val = st.one_of(st.none(), st.integers(-3, 3), st.floats(-2, 2, width=16), st.lists(st.integers(-3, 3), min_size=1, max_size=3),
                    st.just("scalar_tensor"), st.just("grad_tensor"), st.just("object"))
    ops = [["add", list(range(len(obs))), True]] if draw(st.integers(0, 3)) else []
    for _ in range(draw(st.integers(1, 8))):
        if draw(st.integers(0, 3)) == 0:
            ops.append(["add", draw(st.lists(st.integers(0, len(obs) - 1), min_size=1, max_size=3)), draw(st.booleans())])
        else:
            ops.append(["notify", draw(st.dictionaries(st.sampled_from(KEYS * 4 + ["epoch_end"] * 3 + ["unknown"]), val, min_size=1, max_size=3)), 0])
    return dict(how=draw(st.sampled_from(["decorator", "mixin"])), types=[draw(st.booleans()) for _ in range(4)], obs=obs, ops=ops)


@facet(notify_cases(), quick=600, shards=3)
def notifications(c, rec):
    from reagent.core.observers import CompositeObserver, EpochEndObserver, ValueListObserver
    from reagent.core.tracker import ObservableMixin, Observer, observable

    types = {k: torch.Tensor if t else object for k, t in zip(KEYS + ["epoch_end"], c["types"])}
    if c["how"] == "decorator":
        @observable(**types)
        class Source:
            def __init__(self, a, b=2):
                self.ab = (a, b)
        src = Source(1, b=3)
        equal(src.ab, (1, 3), "the decorated class's own constructor")
    else:
        class Source(ObservableMixin):
            @property
            def _observable_value_types(self):
                return types
        src = Source()

    class Plain(Observer):
        def __init__(self, keys):
            super().__init__(keys)
            self.got = []

        def update(self, key, v):
            self.got.append((key, v))

    observers, sinks = [], []
    for o in c["obs"]:
        if o["kind"] == "list":
            x = ValueListObserver(o["keys"][0])
            observers.append(x), sinks.append([(x, o["keys"])])
        elif o["kind"] == "epoch":
            got = []
            x = EpochEndObserver(got.append, o["keys"][0])
            observers.append(x), sinks.append([(got, o["keys"])])
        elif o["kind"] == "plain":
            x = Plain(o["keys"])
            observers.append(x), sinks.append([(x, o["keys"])])
        else:
            inner = [ValueListObserver(k) for k in o["keys"]]
            x = CompositeObserver(inner)
            equal(sorted(x.get_observing_keys()), sorted(set(o["keys"])), "keys of a composite")
            observers.append(x), sinks.append([(i, [k]) for i, k in zip(inner, o["keys"])])
    got_of = lambda s: s if isinstance(s, list) else s.got if isinstance(s, Plain) else s.values
    want = [[[] for _ in s] for s in sinks]
    added = set()
    for op, arg, many in c["ops"]:
        if op == "add":
            todo = [observers[i] for i in arg]
            if many:
                require(src.add_observers(todo) is src, "add_observers is not chainable")
            else:
                for o in todo:
                    require(src.add_observer(o) is src, "add_observer is not chainable")
            added |= set(arg)
            continue
        kw = {k: torch.tensor(1.5) if v == "scalar_tensor" else torch.ones(2, requires_grad=True) * 3 if v == "grad_tensor"
              else Source if v == "object" else v for k, v in arg.items()}
        bad = False
        for k, v in kw.items():
            if v is None:
                continue
            if k not in types:
                bad = True
                break
            for i in added:
                for w, (_, keys) in zip(want[i], sinks[i]):
                    if k in keys:
                        w.append((k, v))
        if bad:
            raises(AssertionError, lambda: src.notify_observers(**kw), "an unknown key was accepted")
        else:
            src.notify_observers(**kw)
    rec.nt(sum(len(w) for ws in want for w in ws) >= 2)
    for i, s in enumerate(sinks):
        for (sink, _), w in zip(s, want[i]):
            got = got_of(sink)
            equal(len(got), len(w), "number of values observed")
            for g, (k, v) in zip(got, w):
                if isinstance(sink, Plain):
                    equal(g[0], k, "observed key")
                    g = g[1]
                if types[k] is not torch.Tensor or v is Source:
                    require(g is v, "an untyped value was changed: %s to %s", v, g)
                    continue
                require(isinstance(g, torch.Tensor) and not g.requires_grad and g.dim() >= 1, "not a detached tensor: %s", g)
                close(g.double(), np.atleast_1d(torch.as_tensor(v).detach().double().numpy()), "observed value")
    for s in sinks:
        if isinstance(s[0][0], ValueListObserver):
            s[0][0].reset()
            equal(s[0][0].values, [], "values after reset")


@st.composite
def aggregation_cases(draw):
    kind = draw(st.sampled_from(["mean", "mean2", "count", "byaction", "recent", "tbhist", "tbhist2", "tbaction", "tbcount"]))
    ops = draw(st.lists(st.one_of(st.integers(1, 150), st.integers(1, 4), st.sampled_from(["epoch", "flush"])), min_size=1, max_size=12))
    return dict(kind=kind, interval=draw(st.sampled_from([None, 0, 1, 2, 3, 5])), at_end=draw(st.booleans()), many=draw(st.integers(1, 7)),
                a=draw(st.integers(1, 5)), ops=ops * draw(st.sampled_from([1, 1, 1, 30])), seed=draw(st.integers(0, 9999)), wrong=draw(st.integers(0, 3)))


@facet(aggregation_cases(), quick=300, shards=3)
def aggregations(c, rec):
    from reagent.core import aggregators as ag
    from reagent.core.observers import CompositeObserver, IntervalAggregatingObserver
    from reagent.tensorboardX import SummaryWriterContext, summary_writer_context

    r = np.random.RandomState(c["seed"])
    a, kind = c["a"], c["kind"]
    names = [f"a{i}" for i in range(a)]
    SummaryWriterContext._reset_globals()
    make = dict(mean=lambda k: ag.MeanAggregator(k), mean2=lambda k: ag.MeanAggregator(k), count=lambda k: ag.ActionCountAggregator(k, names),
                byaction=lambda k: ag.FunctionsByActionAggregator(k, names, {"mean": torch.mean, "sum": torch.sum}),
                recent=lambda k: ag.RecentValuesAggregator(k, 70), tbhist=lambda k: ag.TensorBoardHistogramAndMeanAggregator(k, "t"),
                tbhist2=lambda k: ag.TensorBoardHistogramAndMeanAggregator(k, "t"),
                tbaction=lambda k: ag.TensorBoardActionHistogramAndMeanAggregator(k, "c", "t", names, *(["p"] if c["wrong"] else [])),
                tbcount=lambda k: ag.TensorBoardActionCountAggregator(k, "t", names))[kind]
    batch = lambda n: (torch.tensor(r.randint(-1, a + 1, (n, 1))) if "count" in kind else T(arr(r, (n, a if kind in ("byaction", "tbaction", "mean2") else 1)))
                       if kind not in ("mean", "tbhist") else T(arr(r, (n,))))
    wr = writer()
    try:
        with summary_writer_context(wr):
            main = IntervalAggregatingObserver(c["interval"], make("k"), c["at_end"])
            equal(sorted(main.get_observing_keys()), ["epoch_end", "k"] if c["at_end"] else ["k"], "keys observed")
            # others of the same key beside it
            others = [IntervalAggregatingObserver(i + 1, ag.RecentValuesAggregator("k", 10 ** 6), True) for i in range(c["many"])]
            top = CompositeObserver([*others, main])
            pending, groups, seen, count, ends = [], [], [], 0, 0
            for op in c["ops"]:
                if isinstance(op, int):
                    v = batch(op)
                    top.update("k", v)
                    pending.append(v.double().numpy())
                    seen.append(v.double().numpy())
                    count += 1
                    if c["interval"] and count % c["interval"] == 0:
                        groups.append(np.concatenate(pending))
                        pending = []
                else:
                    ends += 1
                    top.update("epoch_end", 1) if op == "epoch" else main.flush()
                    if c["at_end"] or op == "flush":
                        if pending:
                            groups.append(np.concatenate(pending))
                        count, pending = 0, []
            top.update("epoch_end", 2)
            if pending and c["at_end"]:
                groups.append(np.concatenate(pending))
            for o in others:
                nan(list(o.aggregator.values), np.concatenate([x.flatten() for x in seen]) if seen else [], "values seen by one of many observers")
            rec.nt(len(groups) > 1 and ends)
            rec.label(kind)
            g = main.aggregator
            writes = [x[:3] for x in wr.calls]
            close_all = lambda got, want, what: (equal([x[:2] for x in got], [x[:2] for x in want], what),
                                                 [nan(x[2], y[2], f"{what} {x[1]}") for x, y in zip(got, want)])
            hist = lambda tag, x: [("histogram", tag, x.flatten().tolist()), ("scalar", f"{tag}/mean", x.mean())]
            if kind in ("mean", "mean2"):
                nan(g.values, [x.mean() for x in groups], "means")
            elif kind == "count":
                same(g.values, {n: [int((x == i).sum()) for x in groups] for i, n in enumerate(names)}, "counts")
                tot = np.array([sum(v) for v in zip(*g.values.values())], float)
                if len(tot) and (tot > 0).all():
                    for n in names:
                        close(g.get_distributions()[n], np.array(g.values[n]) / tot, "distribution")
                if tot.sum() > 0:
                    for n in names:
                        close(g.get_cumulative_distributions()[n], sum(g.values[n]) / tot.sum(), "cumulative distribution")
            elif kind == "byaction":
                for f, fn in [("mean", np.mean), ("sum", np.sum)]:
                    for i, n in enumerate(names):
                        got, want = np.array(g.values[f][n]), np.array([fn(x[:, i]) for x in groups])
                        equal(got.shape, want.shape, f"{f} of {n}")
                        require(np.allclose(got, want, rtol=1e-4, atol=1e-3), f"{f} of {n}: %s, expected %s", got, want)
            elif kind == "recent":
                nan(list(g.values), np.concatenate([x.flatten() for x in groups])[-70:] if groups else [], "recent values")
            elif kind.startswith("tbhist"):
                close_all(writes, [w for x in groups for w in hist("t", x)], "writes")
            elif kind == "tbaction":
                p = "p" if c["wrong"] else "c/t"
                close_all(writes, [w for x in groups for i, n in enumerate(names) for w in hist(f"{p}/{n}", x[:, i])], "writes")
            else:
                close_all(writes, [("scalar", f"actions/t/{n}", int((x == i).sum())) for x in groups for i, n in enumerate(names)], "writes")
            # values of another shape are refused
            before = len(wr.calls)
            bad = {"tbhist": [(3, 2), (2, 1, 1)], "tbhist2": [(3, 2), (2, 5)], "tbaction": [(3, a + 1), (3,), (2, a, 1)]}.get(kind, [])
            if a > 1 and kind == "tbaction":
                bad.append((3, a - 1))
            for sh in bad:
                raises((AssertionError, ValueError), lambda: g("k", [torch.zeros(sh)]), f"values of shape {sh} were accepted")
                equal(len(wr.calls), before, "writes of refused values")
            raises(AssertionError, lambda: g("other", [batch(2)]), "an aggregator took another key's values")
    finally:
        SummaryWriterContext._reset_globals()


def writer():
    from torch.utils.tensorboard import SummaryWriter

    class Recorder(SummaryWriter):
        def __init__(self):
            self.calls = []

        def add_scalar(self, tag, v, global_step=None):
            self.calls.append(("scalar", tag, float(v), global_step))

        def add_histogram(self, tag, v, global_step=None):
            v = torch.as_tensor(v)
            if not torch.isfinite(v).all():
                raise ValueError("no histogram of NULL values")
            self.calls.append(("histogram", tag, v.flatten().double().tolist(), global_step))

        def add_custom_scalars(self, layout, global_step=None):
            self.calls.append(("custom", layout))

    return Recorder()


# name -> [(attribute or None, key, kind, parameter, fixed interval)]
def dqn_spec():
    return ([("td_loss", "td_loss", "mean", None), ("reward_loss", "reward_loss", "mean", None),
             ("model_values", "model_values", "byaction", None), ("logged_action", "logged_actions", "count", None),
             ("model_action", "model_action_idxs", "count", None), ("recent_rewards", "logged_rewards", "recent", None),
             ("cpe_results", "cpe_details", "list", None)]
            + [(None, k, "tbcount", f"actions/{t}") for k, t in [("logged_actions", "logged"), ("model_action_idxs", "model")]]
            + [(None, k, "tbhist", t) for k, t in [("td_loss", "td_loss"), ("reward_loss", "reward_loss"),
                                                   ("logged_propensities", "propensities/logged"), ("logged_rewards", "reward/logged")]]
            + [(None, k, "tbaction", t) for k, t in [("model_propensities", "propensities/model"), ("model_rewards", "reward/model"),
                                                     ("model_values", "value/model")]])


QS = [("q1_loss", "loss/q1_loss"), ("actor_loss", "loss/actor_loss"), ("q1_value", "q_value/q1_value"),
      ("next_q_value", "q_value/next_q_value"), ("target_q_value", "q_value/target_q_value"),
      ("actor_q1_value", "q_value/actor_q1_value"), ("q2_loss", "loss/q2_loss"), ("q2_value", "q_value/q2_value")]


def ac_spec(q="logged_action_q_value", propensity=True, reward_loss=False):
    return ([("td_loss", "td_loss", "mean", None), ("recent_rewards", "logged_rewards", "recent", None),
             (q, "model_values_on_logged_actions", "mean", None), ("cpe_results", "cpe_details", "list", None)]
            + ([("reward_loss", "reward_loss", "mean", None)] if reward_loss else [])
            + [(None, k, "tbhist", t) for k, t in [("td_loss", "td_loss"), ("reward_loss", "reward_loss"), ("logged_rewards", "reward/logged")]
               + ([("logged_propensities", "propensities/logged")] if propensity else [])])


SPECS = dict(
    DiscreteDQNReporter=dqn_spec(),
    DiscreteCRRReporter=dqn_spec() + [(None, k, "tbhist", t) for k, t in QS],
    ActorCriticReporter=ac_spec(),
    TD3Reporter=ac_spec() + [(None, k, "tbhist1", t) for k, t in QS],
    SACReporter=ac_spec() + [(None, k, "tbhist1", t) for k, t in [
        ("q1_value", "q1/logged_state_value"), ("q2_value", "q2/logged_state_value"), ("log_prob_a", "log_prob_a"),
        ("target_state_value", "value_network/target"), ("next_state_value", "q_network/next_state_value"),
        ("target_q_value", "q_network/target_q_value"), ("actor_output_log_prob", "actor/log_prob"),
        ("min_q_actor_value", "actor/min_q_actor_value"), ("actor_loss", "actor/loss"), ("action_batch_mean", "kld/mean"),
        ("action_batch_var", "kld/var")]] + [(None, "entropy_temperature", "tbscalar", "entropy_temperature"), (None, "kld", "tbscalar", "kld/kld")],
    ParametricDQNReporter=ac_spec("model_values_on_logged_actions", reward_loss=True),
    SlateQReporter=ac_spec(propensity=False),
)


def make_reporter(name, interval, a):
    import importlib

    mod = {"DiscreteDQNReporter": "discrete_dqn", "DiscreteCRRReporter": "discrete_crr", "ActorCriticReporter": "actor_critic",
           "TD3Reporter": "td3", "SACReporter": "sac", "ParametricDQNReporter": "parametric_dqn", "SlateQReporter": "slate_q"}[name]
    cls = getattr(importlib.import_module(f"reagent.workflow.reporters.{mod}_reporter"), name)
    kw = dict(report_interval=interval)
    if name.startswith("Discrete"):
        kw["actions"] = [f"a{i}" for i in range(a)]
    return cls(**kw)


class Reference:
    """what a reporter's observers should hold and have written"""

    def __init__(self, name, interval, a):
        self.spec, self.a = SPECS[name], a
        self.every = [1 if k.endswith("1") else interval for _, _, k, _ in self.spec]
        self.pending = [[] for _ in self.spec]
        self.count = [0] * len(self.spec)
        self.out = {}
        self.writes = {}
        self.leftover = self.aggregations = 0

    def log(self, kw):
        for i, (attr, key, kind, par) in enumerate(self.spec):
            if kw.get(key) is None:
                continue
            v = torch.as_tensor(kw[key]).detach().double() if kind != "list" else kw[key]
            if kind == "list":
                self.out.setdefault(attr, []).append(v)
                continue
            if v.dim() == 0:
                v = v.reshape(1)
            if kind == "tbscalar":
                self.writes.setdefault(("scalar", par), []).append(float(v))
                continue
            self.pending[i].append(v)
            self.count[i] += 1
            if self.every[i] and self.count[i] % self.every[i] == 0:
                self.aggregate(i)

    def flush(self):
        for i in range(len(self.spec)):
            self.count[i] = 0
            if self.pending[i]:
                self.leftover += 1
                self.aggregate(i)

    def aggregate(self, i):
        attr, key, kind, par = self.spec[i]
        x = np.concatenate([v.numpy() for v in self.pending[i]])
        self.pending[i] = []
        self.aggregations += 1
        if kind == "mean":
            self.out.setdefault(attr, []).append(float(x.mean()))
        elif kind == "recent":
            self.out.setdefault(attr, []).extend(x.flatten().tolist())
        elif kind == "byaction":
            d = self.out.setdefault(attr, {f: {f"a{j}": [] for j in range(self.a)} for f in ("mean", "std")})
            for j in range(self.a):
                d["mean"][f"a{j}"].append(float(x[:, j].mean()))
                d["std"][f"a{j}"].append(float(x[:, j].std(ddof=1)) if len(x) > 1 else math.nan)
        elif kind == "count":
            d = self.out.setdefault(attr, {f"a{j}": [] for j in range(self.a)})
            for j in range(self.a):
                d[f"a{j}"].append(int((x == j).sum()))
        elif kind == "tbcount":
            for j in range(self.a):
                self.writes.setdefault(("scalar", f"{par}/a{j}"), []).append(int((x == j).sum()))
        elif kind.startswith("tbhist"):
            self.hist(par, x)
        elif kind == "tbaction":
            for j in range(self.a):
                self.hist(f"{par}/a{j}", x[:, j])

    def hist(self, tag, x):
        self.writes.setdefault(("histogram", tag), []).append(x.flatten().tolist())
        self.writes.setdefault(("scalar", f"{tag}/mean"), []).append(float(x.mean()))

    def check(self, rep, wr, a):
        empty = {"mean": [], "recent": [], "list": [], "count": {f"a{j}": [] for j in range(a)},
                 "byaction": {f: {f"a{j}": [] for j in range(a)} for f in ("mean", "std")}}
        for attr, _, kind, _ in self.spec:
            if attr is None:
                continue
            got = getattr(rep, attr).values
            want = self.out.get(attr, empty[kind])
            if kind == "list":
                require(len(got) == len(want) and all(x is y for x, y in zip(got, want)), f"{attr}: %s, expected %s", got, want)
            elif kind == "recent":
                close(list(got), want, attr) if want else equal(len(got), 0, attr)
            elif kind == "byaction":
                for f in ("mean", "std"):
                    equal(sorted(got[f]), sorted(want[f]), f"{attr} actions")
                    for k in want[f]:
                        nan(got[f][k], want[f][k], f"{attr} {f} of {k}")
            elif kind == "count":
                same(got, want, attr)
                tot = np.array([sum(x) for x in zip(*want.values())], float)
                if len(tot) and (tot > 0).all():
                    d = getattr(rep, attr).get_distributions()
                    cum = getattr(rep, attr).get_cumulative_distributions()
                    for k in want:
                        close(d[k], np.array(want[k]) / tot, f"{attr} distribution of {k}")
                        close(cum[k], sum(want[k]) / tot.sum(), f"{attr} cumulative distribution of {k}")
            else:
                nan(got, want, attr)
        seen = {}
        for call in wr.calls:
            seen.setdefault(tuple(call[:2]), []).append(call[2])
        equal(sorted(seen), sorted(self.writes), "tags written to tensorboard")
        for tag, want in self.writes.items():
            equal(len(seen[tag]), len(want), f"number of writes of {tag}")
            for g, w in zip(seen[tag], want):
                nan(g, w, f"{tag[0]} {tag[1]}")


def nan(got, want, msg):
    got, want = np.atleast_1d(np.array(got, float)), np.atleast_1d(np.array(want, float))
    equal(got.shape, want.shape, msg)
    ok = np.isclose(got, want, rtol=1e-4, atol=1e-5, equal_nan=True)
    require(ok.all(), f"{msg}: %s, expected %s", got.tolist(), want.tolist())


@st.composite
def reporter_cases(draw):
    name = draw(st.sampled_from(sorted(SPECS)))
    keys = sorted({k for _, k, _, _ in SPECS[name]})
    a = draw(st.integers(2, 4))
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        op = draw(st.sampled_from(["log"] * 5 + ["flush", "epoch_end"]))
        if op == "log":
            few = draw(st.booleans())
            ks = draw(st.lists(st.sampled_from(keys), min_size=1, max_size=3, unique=True)) if few else keys
            ops.append(["log", ks, draw(st.integers(1, 3))])
        else:
            ops.append([op, [], 0])
    return dict(name=name, a=a, interval=draw(st.integers(1, 4)), ops=ops, seed=draw(st.integers(0, 9999)))


def values_for(spec, key, n, a, r):
    kinds = {k.rstrip("1") for _, kk, k, _ in spec if kk == key}
    if "list" in kinds:
        return object()
    if kinds & {"byaction", "tbaction"}:
        return T(arr(r, (n, a)))
    if kinds & {"count", "tbcount"}:
        return torch.tensor(r.randint(0, a, (n, 1)))
    if key.endswith("loss") or kinds == {"tbscalar"}:
        return torch.tensor(round(float(r.uniform(0, 3)), 2), requires_grad=bool(r.rand() < 0.5))
    return T(arr(r, (n, 1)))


@facet(reporter_cases(), quick=500, shards=4)
def reporters(c, rec):
    from reagent.tensorboardX import SummaryWriterContext, summary_writer_context

    r = np.random.RandomState(c["seed"])
    SummaryWriterContext._reset_globals()
    wr = writer()
    try:
        with summary_writer_context(wr):
            rep = make_reporter(c["name"], c["interval"], c["a"])
            ref = Reference(c["name"], c["interval"], c["a"])
            flushed = False
            tds = last = 0
            for op, keys, n in c["ops"]:
                if op == "log":
                    kw = {k: values_for(ref.spec, k, n, c["a"], r) for k in keys}
                    if r.rand() < 0.3:
                        kw[keys[0]] = None
                    rep.log(**kw)
                    ref.log(kw)
                else:
                    flushed = True
                    (rep.flush(1) if op == "flush" else rep.log(epoch_end=1))
                    ref.flush()
                    tds = len(ref.out.get("td_loss", []))
                    if c["name"].startswith("Discrete"):
                        equal(rep.num_data_points_per_epoch, tds - last, "data points of the epoch")
                        last = tds
                ref.check(rep, wr, c["a"])
                SummaryWriterContext.increase_global_step()
            raises(AssertionError, lambda: rep.log(not_a_key=1.0), "an unknown key was accepted")
            raises(AttributeError, lambda: rep.not_an_attribute, "an unknown attribute was found")
            require(rep.generate_training_report() is not None, "no training report")
            if c["name"].startswith("Discrete"):
                wr.calls.clear()
                SummaryWriterContext.add_custom_scalars(wr)
                names = [f"a{i}" for i in range(c["a"])]
                equal(wr.calls[0][1], {
                    "actions": {t: ["Multiline", [f"actions/{t}/{n}" for n in names]] for t in ("logged", "model")},
                    **{k: {"model": ["Multiline", [f"{k}/model/{n}/mean" for n in names]]} for k in ("propensities", "reward", "value")}},
                    "charts")
    finally:
        SummaryWriterContext._reset_globals()
    rec.nt(flushed and (ref.leftover or ref.aggregations))
    rec.label(c["name"])


REPORTER = dict(dqn="DiscreteDQNReporter", dqn_cpe="DiscreteDQNReporter", parametric="ParametricDQNReporter", qrdqn="DiscreteDQNReporter",
                qrdqn_cpe="DiscreteDQNReporter", c51="DiscreteDQNReporter", sac="SACReporter", td3="TD3Reporter",
                crr="DiscreteCRRReporter", slateq="SlateQReporter")


@facet(st.tuples(mt.cases(), st.integers(1, 3), st.integers(1, 2)), quick=300, shards=5)
def trainers_report(c, rec):
    from reagent.tensorboardX import SummaryWriterContext, summary_writer_context

    case, interval, every = c
    kind = case["kind"]
    SummaryWriterContext._reset_globals()
    wr = writer()
    try:
        with summary_writer_context(wr):
            tr = mt.make(case)
            name = REPORTER[kind]
            a = case["c"].get("a", 0)
            rep, ref = make_reporter(name, interval, a), Reference(name, interval, a)

            class Tee:
                logs = []

                def log(self, **kw):
                    for k, v in kw.items():
                        if v is not None and k == "td_loss":
                            self.logs.append(float(v))
                    rep.log(**kw)
                    ref.log(kw)

            tr.set_reporter(Tee())
            ft = FakeTrainer()
            ft.log_every_n_steps = every
            tr.trainer = ft
            tr.log = lambda *x, **k: None
            first = []
            for i, b in enumerate(mt.batches(case)):
                losses = list(tr.train_step_gen(b, i))
                first.append(float(losses[0].detach()))
            rep.flush(0)
            ref.flush()
            ref.check(rep, wr, a)
    finally:
        SummaryWriterContext._reset_globals()
    rec.nt(len(first) > 1)
    rec.label(kind)
    if kind == "td3":
        return  # reports no TD loss
    want = first[::every] if kind == "c51" else first
    # the reported TD loss is the loss that trains the (first) critic
    got = np.concatenate([np.atleast_1d(x) for x in Tee.logs]) if Tee.logs else []
    nan(got, want, "reported TD losses")
    chunks = [want[i:i + interval] for i in range(0, len(want), interval)]
    nan(rep.td_loss.values, [float(np.mean(x)) for x in chunks], "aggregated TD losses")


@facet(mt.cases(max_batches=2), quick=400, shards=4)
def reported_values(c, rec):
    """What trainers report is what they trained on: the losses they yield, the batch's own rewards, actions and propensities, and
    the values of their networks"""
    kind = c["kind"]
    tr = mt.make(c)
    ft = FakeTrainer()
    ft.log_every_n_steps = 1
    tr.trainer = ft
    tr.log = lambda *x, **k: None
    names = mt.plan(c)[0]
    cfg = c["c"]

    class Keep:
        def __init__(self):
            self.got = {}

        def log(self, **kw):
            for k, v in kw.items():
                require(k not in self.got, "%s is reported twice in one step", k)
                self.got[k] = v

    for i, b in enumerate(mt.batches(c)):
        keep = Keep()
        tr.set_reporter(keep)
        losses = list(tr.train_step_gen(b, i))
        loss = {n: x for n, x in zip(names, losses) if x is not None}
        got = {k: v for k, v in keep.got.items() if v is not None}

        def see(key, want, must=True):
            if key not in got:
                require(not must, "%s is not reported by %s", key, kind)
                return
            nan(arr_of(got[key]), arr_of(want), "reported " + key)

        def arr_of(x):
            return np.atleast_1d(np.squeeze(x.detach().double().numpy() if isinstance(x, torch.Tensor) else np.array(x, float)))

        with torch.no_grad():
            if kind in ("td3", "crr"):
                see("q1_loss", loss["q1_network"])
                if cfg["q2"]:
                    see("q2_loss", loss["q2_network"])
                if "actor_network" in loss:
                    see("actor_loss", loss["actor_network"])
                else:
                    require("actor_loss" not in got, "an actor loss was reported although the actor was not trained")
                nan(np.mean((arr_of(got["q1_value"]) - arr_of(got["target_q_value"])) ** 2), float(loss["q1_network"]), "reported values and target against the loss")
            if kind != "td3":
                see("td_loss", losses[0])
            if kind not in ("td3", "slateq"):
                see("logged_rewards", tr.boost_rewards(b.reward, b.action) if hasattr(tr, "boost_rewards") else b.reward)
            if kind in ("dqn", "dqn_cpe", "qrdqn", "qrdqn_cpe", "c51", "crr"):
                see("logged_propensities", b.extras.action_probability)
                see("logged_actions", b.action.argmax(1))
                if kind == "c51":
                    values = (tr.q_network.log_dist(b.state).exp() * tr.support).sum(2)
                else:
                    values = (tr.q1_network if kind == "crr" else tr.q_network)(b.state)
                    values = values.mean(2) if "qrdqn" in kind else values
                see("model_values", values)
                if not getattr(tr, "bcq", False):
                    mask = b.possible_actions_mask if tr.maxq_learning else b.action
                    v = np.where(mask.numpy() > 0, values.double().numpy(), -np.inf)
                    top = np.sort(v, 1)[:, ::-1]
                    clear = np.ones(len(v), bool) if v.shape[1] < 2 else top[:, 0] - top[:, 1] > 1e-3
                    clear &= np.isfinite(top[:, 0])
                    equal(np.atleast_1d(np.squeeze(got["model_action_idxs"].numpy()))[clear].tolist(), v.argmax(1)[clear].tolist(), "reported choices of the model")
            if "reward_network" in loss and "reward_loss" in got or kind == "dqn_cpe":
                see("reward_loss", loss["reward_network"])
            if kind in ("dqn_cpe", "qrdqn_cpe") or kind == "crr" and cfg["cpe"]:
                a = b.action.shape[1]
                see("model_rewards", tr.reward_network(b.state)[:, :a])
                p = arr_of(got["model_propensities"]).reshape(-1, a)
                nan(p.sum(1), np.ones(len(p)), "sum of the reported propensities of the model")
            if kind == "parametric":
                see("reward_loss", loss["reward_network"])
                see("model_values_on_logged_actions", tr.q_network(b.state, b.action))
            if kind in ("sac", "td3"):
                fd = b.action
                see("q1_value", tr.q1_network(b.state, fd))
                if cfg["q2"]:
                    see("q2_value", tr.q2_network(b.state, fd))
            if kind == "sac":
                nan(np.mean(arr_of(got["actor_loss"])), float(loss["actor_network"].mean()), "reported actor loss")
                see("model_values_on_logged_actions", tr.q1_network(b.state, fd))
                if cfg["value"]:
                    nan(np.mean((arr_of(tr.value_network(b.state.float_features)) - arr_of(got["target_state_value"])) ** 2), float(loss["value_network"]), "reported target of the value network")
                else:
                    nan(np.mean((arr_of(got["q1_value"]) - arr_of(got["target_q_value"])) ** 2), float(losses[0]), "reported values and target against the loss")
            if kind == "td3" and "actor_network" in loss:
                nan(np.mean(arr_of(got["actor_q1_value"])), -float(loss["actor_network"]), "reported values of the actor's actions")
            if kind == "crr":
                see("q1_value", (tr.q1_network(b.state) * b.action).sum(1))
                if cfg["q2"]:
                    see("q2_value", (tr.q2_network(b.state) * b.action).sum(1))
    rec.nt()
    rec.label(kind)


@facet(st.fixed_dictionaries(dict(n=st.lists(st.integers(0, 260), min_size=1, max_size=3), w=st.integers(1, 30), k=st.integers(1, 3),
                                  seed=st.integers(0, 999), default=st.booleans(), size=st.integers(1, 40), cut=st.integers(0, 60))),
       quick=200, shards=1)
def windows(c, rec):
    from reagent.core.aggregators import MeanAggregator, RecentValuesAggregator
    from reagent.core.report_utils import calculate_recent_window_average, get_mean_of_recent_values

    r = np.random.RandomState(c["seed"])
    d = {f"k{i}": arr(r, (n,)) for i, n in enumerate(c["n"]) if n}
    got = get_mean_of_recent_values(d) if c["default"] else get_mean_of_recent_values(d, c["w"])
    equal(sorted(got), sorted(d), "keys")
    for k, v in d.items():
        w = max(10 if c["default"] else c["w"], -(-len(v) // 10))
        close(got[k], np.mean(v[-w:]), f"mean of the last {w} of {len(v)}")
    rec.nt(any(n > 10 for n in c["n"]))
    n = c["n"][0]
    rows = arr(r, (n, c["k"])) if c["k"] > 1 else arr(r, (n,))
    got = calculate_recent_window_average(rows, c["w"], c["k"])
    nan(got, np.array(rows)[-c["w"]:].mean(0) if n else np.full(c["k"], np.nan), "window average")
    a = RecentValuesAggregator("k", c["size"])
    m = MeanAggregator("k")
    x = arr(r, (n,))
    parts = [x[: c["cut"]], x[c["cut"]:]]
    for p in parts:
        if p:
            a("k", [T(p)])
            m("k", [T(p[:1]), T(p[1:])])
    close(list(a.values), x[-c["size"]:], "recent values") if x else equal(len(a.values), 0, "recent values")
    nan(m.values, [np.mean(p) for p in parts if p], "means")
    raises(AssertionError, lambda: m("other", [T([1.0])]), "an aggregator took another key's values")


FIELDS1 = ["td_loss", "reward_loss", "imitator_loss", "logged_propensities", "logged_rewards", "logged_values", "model_values_on_logged_actions"]
FIELDS_ACTION = ["model_propensities", "model_rewards", "model_values"]
TAGS = dict(td_loss="td_loss", imitator_loss="imitator_loss", reward_loss="reward_loss", logged_propensities="propensities/logged",
            logged_rewards="reward/logged", logged_values="value/logged", model_values_on_logged_actions="value/model_logged_action",
            model_propensities="propensities/model", model_rewards="reward/model", model_values="value/model")


@st.composite
def loss_histories(draw):
    rng = rng_of(draw)
    a = draw(st.sampled_from([0, 1, 2, 3, 3]))
    ops = draw(st.lists(st.sampled_from(["report"] * 6 + ["flush"]), min_size=1, max_size=16))
    return dict(a=a, ops=ops, interval=draw(st.integers(1, 5)), seed=int(rng.randint(10**6)), epoch=draw(st.integers(0, 9)), many=draw(st.sampled_from([0, 0, 0, 130])),
                fields=sorted(draw(st.sets(st.sampled_from(FIELDS1[1:] + FIELDS_ACTION + ["logged_actions", "model_action_idxs"])))),
                flat=draw(st.booleans()), scalar=draw(st.booleans()))


@facet(loss_histories(), quick=250, shards=3)
def loss_reports(c, rec):
    """Batches reported are merged every so many and at a flush: means, counts, distributions, rewards and writes are theirs"""
    from reagent.tensorboardX import SummaryWriterContext, summary_writer_context
    from reagent.training import loss_reporter as L

    r = np.random.RandomState(c["seed"])
    names = ["n%d" % i for i in range(c["a"])]
    SummaryWriterContext._reset_globals()
    wr = writer()
    try:
        raises(AssertionError, lambda: L.LossReporter([]), "an empty list of actions was accepted")
        rep = L.LossReporter(names or None)
        if names:
            per = lambda k: ["%s/%s" % (k, n) for n in names]
            mean = lambda k: [x + "/mean" for x in per(k)]
            layout = SummaryWriterContext._custom_scalars
            equal({k: {t: list(v[1]) for t, v in d.items()} for k, d in layout.items()},
                  dict(propensities=dict(model=mean("propensities/model"), logged=mean("propensities/logged")),
                       actions=dict(logged=per("actions/logged"), model=per("actions/model"))), "charts")
        else:
            equal(SummaryWriterContext._custom_scalars, {}, "charts without actions")
        rep.loss_report_interval = c["interval"]
        groups, cur, leftover = [], [], False
        fields = ["td_loss"] + c["fields"]
        with summary_writer_context(wr):
            for op in c["ops"] + (["report"] * c["many"]):
                if op == "flush":
                    leftover = leftover or 0 < len(cur)
                    rep.flush()
                    if cur:
                        groups.append(cur)
                        cur = []
                    continue
                n = r.randint(1, 5)
                b = {}
                for f in fields:
                    if f in ("logged_actions", "model_action_idxs"):
                        v = r.randint(0, max(c["a"], 1), (n, 1))
                    elif f in FIELDS_ACTION and c["a"]:
                        v = np.round(r.uniform(-2, 2, (n, c["a"])), 3)
                    elif f in ("td_loss", "reward_loss", "imitator_loss") and c["scalar"]:
                        v = np.round(r.uniform(0, 3, ()), 3)
                    else:
                        v = np.round(r.uniform(-2, 2, (n,) if c["flat"] else (n, 1)), 3)
                    b[f] = v
                given = {f: (float(v) if v.ndim == 0 and r.rand() < 0.5 else torch.tensor(v, requires_grad=v.dtype.kind == "f")) for f, v in b.items()}
                cur.append({f: v.reshape(1) if v.ndim == 0 else v for f, v in b.items()})
                rep.report(**given)
                if len(cur) == c["interval"]:
                    groups.append(cur)
                    cur = []
            equal(len(rep.incoming_stats), len(cur), "batches waiting")
            writes = list(wr.calls)
            wr.calls.clear()
            rep.log_to_tensorboard(c["epoch"])
            scalars = {x[1]: (x[2], x[3]) for x in wr.calls}
        merged = [{f: np.concatenate([b[f] for b in g]) for f in fields} for g in groups]
        equal(rep.num_batches, len(merged), "merged batches")
        nan(rep.td_loss, [m["td_loss"].mean() for m in merged], "TD losses")
        recent = {}
        for f, attr, get in [("td_loss", rep.td_loss, rep.get_recent_td_loss), ("reward_loss", rep.reward_loss, rep.get_recent_reward_loss),
                             ("imitator_loss", rep.imitator_loss, rep.get_recent_imitator_loss)]:
            want = [m[f].mean() for m in merged] if f in fields else []
            nan(attr, want, f)
            recent[f] = np.mean(want[-100:]) if want else float("nan")
            nan(get(), recent[f], f"recent {f}")
        k = c["seed"] % 4
        nan(rep.get_td_loss_after_n(k), [m["td_loss"].mean() for m in merged][k:], "TD losses after some")
        nan(list(rep.get_recent_rewards()), np.concatenate([m["logged_rewards"].flatten() for m in merged]) if merged and "logged_rewards" in fields else [], "rewards")
        nan(rep.logged_action_q_value, [m["model_values_on_logged_actions"].mean() for m in merged] if "model_values_on_logged_actions" in fields else [], "values of logged actions")
        for i, n in enumerate(names):
            has = "model_values" in fields
            nan(rep.model_values.stats[n], [m["model_values"][:, i].mean() for m in merged] if has else [], "mean value of " + n)
            nan(rep.model_value_stds.stats[n], [np.std(m["model_values"][:, i], ddof=1) if len(m["model_values"]) > 1 else np.nan for m in merged] if has else [], "spread of values of " + n)
            both = "logged_actions" in fields and "model_action_idxs" in fields
            logged = [int((m["logged_actions"] == i).sum()) for m in merged] if both else []
            mine = [int((m["model_action_idxs"] == i).sum()) for m in merged] if both else []
            equal(rep.logged_action_counts[n], sum(logged), "times logged: " + n)
            equal(list(rep.model_action_counts.stats[n]), mine, "times chosen: " + n)
            equal(rep.model_action_counts_cumulative[n], sum(mine), "times chosen so far: " + n)
            if both:
                nan(list(rep.model_action_distr.stats[n]), [x / len(m["model_action_idxs"]) for x, m in zip(mine, merged)], "share of " + n)
                if merged:
                    total = sum(len(m["logged_actions"]) for m in merged)
                    close(rep.get_logged_action_distribution()[n], sum(logged) / total, "share logged of " + n)
                    close(rep.get_model_action_distribution()[n], sum(mine) / total, "share chosen of " + n)
        want = []
        for m in merged:
            for f, tag in [("logged_actions", "actions/logged"), ("model_action_idxs", "actions/model")]:
                if f in fields:
                    want += [("scalar", f"{tag}/{n}", int((m[f] == i).sum())) for i, n in enumerate(names)]
            for f in FIELDS1 + FIELDS_ACTION:
                if f in fields:
                    cols = [(TAGS[f], m[f])] if f in FIELDS1 or not names else [(f"{TAGS[f]}/{n}", m[f][:, i]) for i, n in enumerate(names)]
                    for tag, v in cols:
                        want += [("histogram", tag, v.flatten().tolist()), ("scalar", f"{tag}/mean", v.mean())]
        key = lambda w: (w[0], w[1])
        got, want = sorted((x[:3] for x in writes), key=key), sorted(want, key=key)
        equal([key(x) for x in got], [key(x) for x in want], "writes")
        for x, y in zip(got, want):
            nan(x[2], y[2], f"written as {x[1]}")
        for f, tag in [("td_loss", "Training/td_loss"), ("reward_loss", "Training/reward_loss"), ("imitator_loss", "Training/imitator_loss")]:
            close(scalars[tag][0], 0.0 if np.isnan(recent[f]) else recent[f], tag)
            equal(scalars[tag][1], c["epoch"], "epoch of " + tag)
        bad = dict(td_loss=torch.zeros(2, 2))
        if c["interval"] == 1:
            with summary_writer_context(wr):
                raises((AssertionError, ValueError, RuntimeError), lambda: rep.report(**bad), "a TD loss of two columns was accepted")
        if names and cur and "reward_loss" not in fields:
            if len(cur) + 1 < c["interval"]:
                rep.report(**{f: torch.tensor(v) for f, v in cur[-1].items()}, reward_loss=2.0)
                raises(AssertionError, lambda: rep.flush(), "a loss reported for some batches only")
        quiet = L.NoOpLossReporter()
        quiet.report(td_loss=torch.zeros(2))
        quiet.flush()
    finally:
        SummaryWriterContext._reset_globals()
    rec.nt(leftover or len(groups) > 1)
    rec.label("actions" if names else "no actions", *(["left over"] if leftover else []))
