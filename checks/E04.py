"""Off-policy estimators for contextual bandits, their results and the evaluator."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from models.nets import T, arr, rng_of
from vlib.core import Inconclusive, close, equal, facet, raises, require

RULE = ("a case is a set of logged bandit samples with explicit distributions and model outputs, or a list of results; "
        "non-trivial = two or more samples whose target and logging distributions differ")

RTOL, ATOL = 2e-3, 2e-4


def dist(rng, k, zeros=False):
    p = rng.randint(1, 9, k).astype(float)
    if zeros and k > 1 and rng.rand() < 0.4:
        p[rng.randint(k)] = 0.0
    return p / p.sum()


def rewards(draw, rng, n):
    """of both signs, positive, negative, or as good as none"""
    lo, hi, scale = draw(st.sampled_from([(-2, 3, 1), (0.1, 3, 1), (0.1, 3, 1), (-4, -0.5, 1), (0.1, 0.9, 1e-6)]))
    return (np.round(rng.uniform(lo, hi, n), 2) * scale).tolist()


@st.composite
def bandits(draw, min_n=4):
    rng = rng_of(draw)
    n, k = draw(st.integers(min_n, 9)), draw(st.integers(2, 4))
    return dict(
        n=n, k=k, log=[dist(rng, k, True).tolist() for _ in range(n)],
        tgt=[dist(rng, k, True).tolist() for _ in range(n)],
        act=[None if rng.rand() < 0.1 else int(rng.randint(k)) for _ in range(n)],
        rew=rewards(draw, rng, n),
        model=np.round(rng.uniform(*draw(st.sampled_from([(-1, 3), (-1, 3), (-4, -1)])), (n, k)), 2).tolist(),
        gt=draw(st.sampled_from([None, 0.5])),
        clamp=draw(st.sampled_from([None, None, [0.0, 1.5], [0.5, 2.0]])),
        rmax=draw(st.sampled_from([None, None, 0.0, 0.5, 3.0])),
        cand=draw(st.sampled_from([None, None, 0, 1, 2, 5])), base=draw(st.sampled_from([None, None, 1.0, 2.0])),
        keyed=draw(st.booleans()))


def samples(c, feat=False, outputs=True, model=None):
    from reagent.ope.estimators import contextual_bandits_estimators as B
    from reagent.ope.estimators.types import Action, ActionDistribution, ActionSpace

    space = ActionSpace(c["k"])
    mk = (lambda d: ActionDistribution({Action(i): v for i, v in enumerate(d)})) if c.get("keyed") else ActionDistribution
    out = []
    model = model if model is not None else c["model"]
    for i in range(c["n"]):
        a = c["act"][i]
        out.append(B.LogSample(
            context=None, log_action=Action(a), log_reward=c["rew"][i], log_action_probabilities=mk(c["log"][i]),
            tgt_action_probabilities=mk(c["tgt"][i]), tgt_action=Action(int(np.argmax(c["tgt"][i]))),
            model_outputs=B.ModelOutputs(0.0 if a is None else model[i][a], list(model[i])) if outputs else None,
            ground_truth_reward=float("nan") if c.get("gt") is None else c["gt"],
            item_feature=torch.tensor(feat[i]) if feat else None))
    return space, out


def table(c):
    """clamped weights of all actions"""
    log, tgt = np.array(c["log"]), np.array(c["tgt"])
    w = np.where(log < 1e-6, 0.0, tgt / np.maximum(log, 1e-300))
    if c.get("clamp"):
        w = np.clip(w, *c["clamp"])
    return w


def per_sample(c, kind, tau=None):
    """value of each sample by the definitions"""
    n, ri = c["n"], range(c["n"])
    tgt, m, r = np.array(c["tgt"]), np.array(c["model"]), np.array(c["rew"])
    w = table(c)
    dm = (tgt * m).sum(1)
    none = np.array([a is None for a in c["act"]])
    a = np.array([0 if x is None else x for x in c["act"]])
    wl = np.where(none, 0.0, w[ri, a])
    ml = np.where(none, 0.0, m[ri, a])
    if kind == "dm":
        return dm
    if kind == "ips":
        return r * wl
    if kind == "wips":
        return r * wl / wl.mean()
    if kind == "dr":
        return dm + wl * (r - ml)
    keep = wl <= tau
    if kind == "switch":
        return r * wl * keep + (m * tgt * (w > tau)).sum(1)
    assert kind == "switch-dr" and n
    return wl * (r - ml) * keep + dm


def taus(c, kind, rmax):
    """thresholds that may come out as minimising variance + bias^2, rounding considered"""
    w, tgt = table(c), np.array(c["tgt"])
    lo, hi = w.min(), w.max()
    k = 21 if c["cand"] is None else c["cand"]
    b = 1.5 if c["base"] is None else c["base"]
    if k == 0:
        return [lo - 1e-5]
    cands = []
    for x in range(k):
        tau = lo + b ** x / b ** (k - 1) * (hi - lo)
        alts = []
        # a candidate may be a weight itself: rounding decides on which side of it it falls
        for t in (tau, tau * (1 + 1e-6) + 1e-6, tau * (1 - 1e-6) - 1e-6):
            v = per_sample(c, kind, t)
            bias = (tgt * rmax * (w > t)).sum(1).mean()
            alts.append((((v - v.mean()) ** 2).sum() / len(v) ** 2 + bias ** 2, t))
        cands.append(alts)
    best = min(max(x for x, _ in alts) for alts in cands)
    return [t for alts in cands for x, t in alts if x <= best + 1e-4 + 1e-3 * abs(best)]


def clamper(c):
    from reagent.ope.utils import Clamper

    return Clamper(*c["clamp"]) if c.get("clamp") else None


@facet(bandits(), quick=280, shards=6)
def bandit(case, rec):
    """Estimates of every estimator with model outputs agree with the definitions"""
    from reagent.ope.estimators import contextual_bandits_estimators as B

    c = case
    space, ss = samples(c)
    inp = B.BanditsEstimatorInput(space, ss, True)
    kw = {}
    if c["cand"] is not None:
        kw["candidates"] = c["cand"]
    if c["base"] is not None:
        kw["exp_base"] = c["base"]
    rmax = c["rmax"] if c["rmax"] is not None else max(max(c["rew"]), np.max(c["model"]))
    sw = table(c)
    wl = [0.0 if a is None else sw[i, a] for i, a in enumerate(c["act"])]
    ests = [("dm", B.DMEstimator(), {}), ("ips", B.IPSEstimator(clamper(c)), {}),
            ("dr", B.DoublyRobustEstimator(weight_clamper=clamper(c)), {}),
            ("switch", B.SwitchEstimator(weight_clamper=clamper(c), rmax=c["rmax"]), kw),
            ("switch-dr", B.SwitchDREstimator(weight_clamper=clamper(c), rmax=c["rmax"]), kw)]
    if np.mean(wl) > 0.05:
        ests.append(("wips", B.IPSEstimator(clamper(c), weighted=True), {}))
    avg = float(np.mean(c["rew"]))
    for kind, est, k in ests:
        res = est.evaluate(inp, **k)
        if kind.startswith("switch"):
            alts = [per_sample(c, kind, t) for t in taus(c, kind, rmax)]
        else:
            alts = [per_sample(c, kind)]
        v = min(alts, key=lambda x: abs(x.mean() - res.estimated_reward))
        close(res.estimated_reward, v.mean(), f"{kind}: estimate", RTOL, ATOL)
        close(res.log_reward, avg, f"{kind}: logged reward", RTOL, ATOL)
        if c["gt"] is None:
            require(math.isnan(res.ground_truth_reward), f"{kind}: ground truth without any")
        else:
            close(res.ground_truth_reward, c["gt"], f"{kind}: ground truth")
        equal(float(res.estimated_weight), float(c["n"]), f"{kind}: number of samples")
        norm = 0.0 if avg < 1e-6 else 1 / avg
        if abs(avg - 1e-6) > 5e-8:
            close(res.estimated_reward_normalized, res.estimated_reward * norm, f"{kind}: normalised", RTOL, ATOL * max(1, norm))
            close(res.estimated_reward_normalized_std_error, res.estimated_reward_std_error * norm, f"{kind}: error", RTOL, ATOL * max(1, norm))
        # the spread of bootstrapped means of a quarter of the samples
        exp = v.std() / math.sqrt(int(0.25 * c["n"]))
        require(exp * 0.75 - 1e-3 <= res.estimated_reward_std_error <= exp * 1.25 + 1e-3,
                f"{kind}: standard error {res.estimated_reward_std_error}, expected about {exp}")
        rec.label(kind)
    rec.nt(np.abs(np.array(c["log"]) - np.array(c["tgt"])).max() > 0.1)


@st.composite
def full_logs(draw):
    """Logs that hold every action in proportion to its logged probability"""
    rng = rng_of(draw)
    k, nctx = draw(st.integers(2, 3)), draw(st.integers(1, 3))
    c = dict(k=k, ctx=[])
    for _ in range(nctx):
        cnt = rng.randint(1, 4, k)
        # same total for all contexts so that each has the same weight
        c["ctx"].append(dict(cnt=cnt.tolist(), tgt=dist(rng, k, True).tolist(), rew=np.round(rng.uniform(-1, 3, k), 2).tolist(),
                             model=np.round(rng.uniform(-1, 3, k), 2).tolist()))
    c["perfect"] = draw(st.booleans())
    c["same"] = draw(st.booleans())
    c["seed"] = int(rng.randint(1 << 30))
    return c


@facet(full_logs(), quick=120, shards=4)
def unbiased(case, rec):
    """On logs that hold each action exactly as often as the logging policy says, the corrected estimates are the true
    value of the target policy whatever the reward model is"""
    from reagent.ope.estimators import contextual_bandits_estimators as B

    c = case
    k = c["k"]
    d = dict(k=k, n=0, log=[], tgt=[], act=[], rew=[], model=[])
    tot = np.lcm.reduce([sum(x["cnt"]) for x in c["ctx"]])
    if tot > 60:
        raise Inconclusive("too many rows")
    true = 0.0
    for x in c["ctx"]:
        p = np.array(x["cnt"]) / sum(x["cnt"])
        tgt = p if c["same"] else np.array(x["tgt"])
        true += float((tgt * np.array(x["rew"])).sum()) / len(c["ctx"])
        for a in range(k):
            for _ in range(x["cnt"][a] * tot // sum(x["cnt"])):
                d["log"].append(p.tolist())
                d["tgt"].append(tgt.tolist())
                d["act"].append(a)
                d["rew"].append(x["rew"][a])
                d["model"].append(x["rew"] if c["perfect"] else x["model"])
    n = d["n"] = len(d["act"])
    o = np.random.RandomState(c["seed"]).permutation(n)
    for f in ("log", "tgt", "act", "rew", "model"):
        d[f] = [d[f][i] for i in o]
    space, ss = samples(d)
    inp = B.BanditsEstimatorInput(space, ss, True)
    f = lambda e, m, **kw: close(e.evaluate(inp, **kw).estimated_reward, true, m, RTOL, 1e-3)  # noqa: E731
    f(B.IPSEstimator(), "IPS over all actions")
    f(B.IPSEstimator(weighted=True), "weighted IPS over all actions")
    f(B.DoublyRobustEstimator(), "DR over all actions")
    # thresholds above every weight: no switching
    f(B.SwitchEstimator(), "Switch that never switches", exp_base=1.0)
    f(B.SwitchDREstimator(), "SwitchDR that never switches", exp_base=1.0)
    if c["perfect"]:
        f(B.DMEstimator(), "DM of a perfect model")
        f(B.SwitchEstimator(), "Switch with a perfect model")
        f(B.SwitchDREstimator(), "SwitchDR with a perfect model")
        f(B.SwitchDREstimator(), "SwitchDR with a perfect model that always switches", candidates=0)
        f(B.SwitchEstimator(), "Switch with a perfect model that always switches", candidates=0)
    if c["same"]:
        close(B.IPSEstimator().evaluate(inp).estimated_reward, np.mean(d["rew"]), "IPS of the logging policy", RTOL, 1e-3)
    rec.nt(not c["same"])
    rec.label("perfect" if c["perfect"] else "wrong model")


def trainer_of(model_of):
    """A trainer that remembers its data and predicts with what model_of makes of them"""
    from reagent.ope.estimators.types import PredictResults, Trainer

    class Tr(Trainer):
        def __init__(self):
            super().__init__()
            self.log = []

        @property
        def name(self):
            return "recording"

        def train(self, data, iterations=1, num_samples=0):
            self._model = len(self.log)
            self.log.append(("train", data))

        def predict(self, x, device=None):
            require(self._model is not None, "predicted before training")
            self.log.append(("predict", x.clone(), self._model))
            s = model_of(x, [t for t in self.log if t[0] == "train"][-1][1])
            return PredictResults(None, s, None)

        def score(self, x, y, weight=None):
            return 0.0

    return Tr()


@st.composite
def folds(draw):
    rng = rng_of(draw)
    c = draw(bandits(min_n=8))
    n = c["n"] = draw(st.integers(8, 24))
    k = c["k"]
    c.update(log=[dist(rng, k).tolist() for _ in range(n)], tgt=[dist(rng, k).tolist() for _ in range(n)],
             act=rng.randint(0, k, n).tolist(), rew=np.round(rng.uniform(0.1, 3, n), 2).tolist(), model=[[0.0] * k] * n,
             kind=draw(st.sampled_from(["dm", "dr", "switch", "switch-dr"])), fseed=int(rng.randint(1 << 30)))
    return c


@facet(folds(), quick=200, shards=4)
def cross_fitting(case, rec):
    """Without model outputs the reward model is trained on one half of the samples and asked about the other half"""
    from reagent.ope.estimators import contextual_bandits_estimators as B

    c = case
    n, k = c["n"], c["k"]
    # features tell samples apart: the first entry is the index
    feat = [[float(i), round(math.sin(i + c["fseed"] % 97), 3)] for i in range(n)]
    space, ss = samples(c, feat=feat, outputs=False)

    def model_of(x, data):
        b = float(data.train_y.mean())
        return (b + 0.3 * x[:, 0] - 0.5 * x[:, 2]).float()

    tr = trainer_of(model_of)
    mk = {"dm": B.DMEstimator, "dr": B.DoublyRobustEstimator, "switch": B.SwitchEstimator, "switch-dr": B.SwitchDREstimator}
    args = {} if c["kind"] == "dm" else dict(weight_clamper=clamper(c))
    if c["kind"].startswith("switch"):
        args["rmax"] = 3.0
    est = mk[c["kind"]](tr, **args)
    inp = B.BanditsEstimatorInput(space, ss, False)
    res = est.evaluate(inp)
    runs = []
    for e in tr.log:
        if e[0] == "train":
            runs.append((e[1], []))
        else:
            runs[-1][1].append(e[1])
    equal(len(runs), 2, "number of trainings")
    halves, parts = [], []
    for data, preds in runs:
        ids = [int(v) for v in data.train_x[:, 1].tolist()]
        vids = [int(v) for v in data.validation_x[:, 1].tolist()]
        h = ids + vids
        require(len(set(h)) == len(h), "training and validation samples are disjoint")
        equal(len(ids), int(0.8 * len(h)), "training samples of a half")
        halves.append(set(h))
        for xs, ys, ii in ((data.train_x, data.train_y, ids), (data.validation_x, data.validation_y, vids)):
            close(xs, [[c["act"][i]] + feat[i] for i in ii], "features: action and item")
            close(ys, [c["rew"][i] for i in ii], "rewards to learn")
        asked = []
        for x in preds:
            require(x.shape[0] == k, "one row per action")
            i = int(x[0, 1])
            close(x, [[a] + feat[i] for a in range(k)], "features of all actions")
            asked.append(i)
        if not c["kind"].startswith("switch"):
            equal(sorted(asked), sorted(set(range(n)) - set(h)), "samples evaluated with this model")
        ev = sorted(set(range(n)) - set(h))
        b = np.mean([c["rew"][i] for i in ids])
        d = dict(c, n=len(ev), model=[[b + 0.3 * a - 0.5 * feat[i][1] for a in range(k)] for i in ev], cand=None, base=None)
        for f in ("log", "tgt", "act", "rew"):
            d[f] = [c[f][i] for i in ev]
        if c["kind"].startswith("switch"):
            vs = sorted({round(float(per_sample(d, c["kind"], t).mean()), 6) for t in taus(d, c["kind"], 3.0)})
            parts.append(vs)
        else:
            parts.append([float(per_sample(d, c["kind"]).mean())])
    require(halves[0] | halves[1] == set(range(n)) and not halves[0] & halves[1], "halves split the samples")
    require(abs(len(halves[0]) - len(halves[1])) <= 1, "halves are equal")
    exp = min(((x + y) / 2 for x in parts[0] for y in parts[1]), key=lambda v: abs(v - res.estimated_reward))
    close(res.estimated_reward, exp, f"{c['kind']}: mean of the halves", RTOL, ATOL)
    close(res.log_reward, np.mean(c["rew"]), "logged reward", RTOL, ATOL)
    equal(B.DMEstimator(None).evaluate(inp), None, "DM without trainer")
    rec.nt(len(set(c["act"])) > 1)
    rec.label(c["kind"])


# ---------------------------------------------------------------------- results
val = st.one_of(st.floats(-5, 5).map(lambda v: round(v, 3)), st.sampled_from(["nan", "inf", "-inf"]))


@st.composite
def results(draw):
    return dict(rows=draw(st.lists(st.tuples(val, st.floats(-5, 5).map(lambda v: round(v, 3)),
                                             st.one_of(st.none(), st.floats(-5, 5).map(lambda v: round(v, 3))),
                                             st.floats(0.1, 9).map(lambda v: round(v, 2))), min_size=1, max_size=8)),
                avg=draw(st.lists(val, max_size=10)), rep=draw(st.sampled_from([1, 1, 1, 130])), init=draw(st.sampled_from([None, None, 2.0])),
                lo=draw(st.sampled_from([None, -1.0, 0.5])), hi=draw(st.sampled_from([None, 1.0, 2.5])),
                cache=draw(st.lists(st.tuples(st.booleans(), st.integers(0, 5)), max_size=14)), size=draw(st.integers(1, 4)),
                cls=draw(st.lists(st.integers(0, 4), min_size=1, max_size=6)))


@facet(results(), quick=400, shards=2)
def collected(case, rec):
    """Results keep valid estimates only and report means, bias, variance and error"""
    from reagent.ope import utils as U
    from reagent.ope.estimators.estimator import EstimatorResult, EstimatorResults, ResultDiffs

    c = case
    ers = EstimatorResults()
    rows = [(float(a), b, g, w) for a, b, g, w in c["rows"]]
    for a, b, g, w in rows:
        ers.append(EstimatorResult(b, a, g, w))
    ers.append(None)
    good = [(a, b, 0.0 if g is None else g, w) for a, b, g, w in rows if math.isfinite(a)]
    equal([(r.estimated_reward, r.log_reward, r.ground_truth_reward, r.estimated_weight) for r in ers.results], good, "valid results")
    if good:
        e, l, g, w = (np.array(x) for x in zip(*good))
        rep = ers.report()
        close(rep[:3], [l.mean(), e.mean(), g.mean()], "means: logged, estimated, ground truth")
        close(rep[5], w.mean(), "mean weight")
        for d, x, m in ((rep[3], e - g, "ground truth"), (rep[4], e - l, "logged")):
            close(d.rmse, math.sqrt((x ** 2).mean()), f"error against {m}")
            close(d.bias, x.mean(), f"bias against {m}")
            if len(x) > 1:
                close(d.variance, x.var(ddof=1), f"variance against {m}")
        close(ResultDiffs(T(e)).bias, e.mean(), "bias")
    # running averages skip what is not a number
    ra = U.RunningAverage() if c["init"] is None else U.RunningAverage(c["init"])
    seen = [] if c["init"] is None else [c["init"]]
    for v in c["avg"] * c["rep"]:
        v = float(v)
        require(ra.add(v) is ra, "add returns the average")
        if math.isfinite(v):
            seen.append(v)
        equal(ra.count, len(seen), "count")
        if seen:
            close([ra.average, ra.total, float(ra)], [np.mean(seen), np.sum(seen), np.mean(seen)], "running average")
        else:
            require(math.isnan(ra.average), "average of nothing")
    # clamping
    lo, hi = c["lo"], c["hi"]
    kw = {k: v for k, v in (("min_v", lo), ("max_v", hi)) if v is not None}
    cl = U.Clamper(**kw)
    xs = [v for v in (float(a) for a, *_ in c["rows"]) if not math.isnan(v)]
    exp = np.clip(xs, -np.inf if lo is None else lo, np.inf if hi is None else hi) if xs else []
    if xs:
        close(cl(np.array(xs)), exp, "clamped array")
        close(cl(torch.tensor(xs)), exp, "clamped tensor")
        close(cl(xs), exp, "clamped list")
        close([cl(x) for x in xs], exp, "clamped numbers")
    raises(ValueError, lambda: U.Clamper(2.0, 2.0), "empty range")
    # least recently used keys go first
    cache, order = U.LRUCache(c["size"]), []
    for write, key in c["cache"]:
        if write:
            cache[key] = key * 10
            if key not in order:
                order.append(key)
                if len(order) > c["size"]:
                    order.pop(0)
        elif key in order:
            equal(cache[key], key * 10, "cached value")
            order.remove(key)
            order.append(key)
        else:
            raises(KeyError, lambda: cache[key], "missing key")
        equal(sorted(cache.keys()), sorted(order), "keys in the cache")
    oh = U.convert_to_one_hots(torch.tensor(c["cls"]), 5)
    close(oh, np.eye(5)[c["cls"]], "one hots")
    rec.nt(len(good) > 1)


class Fixed:
    """Picklable estimator of given results (tagged by the sample it is given)"""

    def __new__(cls, name, scale):
        from reagent.ope.estimators.estimator import Estimator

        global _Fixed
        if "_Fixed" not in globals():
            class _Fixed(Estimator):
                def __init__(self, name, scale):
                    super().__init__()
                    self.name, self.scale = name, scale

                def evaluate(self, input, **kw):
                    from reagent.ope.estimators.estimator import EstimatorResult

                    if input is None:
                        return None
                    if input == 5.0 and self.name == "b":
                        raise ArithmeticError("no estimate")
                    return EstimatorResult(input, input * self.scale, input + 1, 2.0)

                def __repr__(self):
                    return self.name

            _Fixed.__qualname__ = "_Fixed"
        return _Fixed(name, scale)


@st.composite
def experiments(draw):
    return dict(exps=draw(st.lists(st.tuples(st.lists(st.sampled_from(["a", "b", "c"]), min_size=1, max_size=3, unique=True),
                                             st.one_of(st.none(), st.integers(1, 9), st.sampled_from([3, 5]))), min_size=1, max_size=8)),
                workers=draw(st.integers(1, 4)))


@facet(experiments(), quick=60, shards=3)
def evaluator(case, rec):
    """Every experiment's estimates are collected by estimator, in one process or many"""
    from reagent.ope.estimators.estimator import Evaluator

    c = case
    sc = dict(a=1.0, b=2.0, c=-1.0)
    exps = [([Fixed(x, sc[x]) for x in names], v if v is None else float(v)) for names, v in c["exps"]]
    want = {}
    for names, v in c["exps"]:
        for x in names:
            want.setdefault(x, [])
            if v is not None and (v != 5 or x != "b"):
                want[x].append((float(v), v * sc[x]))
    failing = any(v == 5 and "b" in names for names, v in c["exps"])
    # without workers an error is the caller's
    for workers in (c["workers"],) if failing else (0, c["workers"]):
        got = Evaluator(exps, workers).evaluate()
        got = {k: sorted((r.log_reward, r.estimated_reward) for r in v.results) for k, v in got.items()}
        equal(got, {k: sorted(v) for k, v in want.items()}, f"results with {workers} workers")
    rec.nt(len(exps) > 1)
    rec.label(f"{c['workers']} workers", "failing" if failing else "all estimates")
