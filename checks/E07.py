"""Off-policy estimators for slates."""
import itertools

import numpy as np
import torch
from hypothesis import strategies as st

from checks.E06 import chain, item, marginals, slate_of, slot, slots_of, values_of
from models.nets import rng_of
from vlib.core import Inconclusive, close, equal, facet, require

RULE = ("a case is a set of logged slates with explicit logging and target distributions; non-trivial = two or more slots "
        "and differing distributions")
RTOL, ATOL = 1e-4, 1e-6


def weights(rng, k):
    return (rng.permutation(np.arange(1, k + 1)) + np.round(rng.uniform(0, 0.5, k), 2)).tolist()


@st.composite
def logs(draw):
    rng = rng_of(draw)
    k = draw(st.integers(2, 4))
    n = draw(st.integers(1, min(k, 3)))
    m = draw(st.integers(1, 6))
    rows = []
    for _ in range(m):
        rows.append(dict(slate=rng.permutation(k)[:n].tolist(), r=round(float(rng.uniform(-1, 3)), 2), gt=round(float(rng.uniform(0, 2)), 2),
                         log=weights(rng, k), tgt=weights(rng, k), greedy=bool(rng.rand() < 0.2), logslots=np.round(rng.uniform(0.2, 2, (n, k)), 2).tolist(),
                         tgtslots=np.round(rng.uniform(0.2, 2, (n, k)), 2).tolist(), feat=np.round(rng.uniform(-1, 1, (k, 2)), 2).tolist(),
                         slotw=np.round(rng.uniform(0.1, 1, n), 2).tolist(), slotp=np.round(rng.uniform(0.1, 1, n), 2).tolist()))
        if rng.rand() < 0.25:
            # an item that all but always comes
            i, which = rng.randint(k), "tgt" if rng.rand() < 0.5 else "log"
            rows[-1][which][i] *= 1e4
            for x in rows[-1][which + "slots"]:
                x[i] *= 1e4
        rows[-1].update(lp=float(rng.choice([0.0, 0.25, 0.5, 0.001])), tp=float(rng.choice([0.0, 0.25, 0.3, 1.0])))
    return dict(k=k, n=n, rows=rows, keyed=draw(st.booleans()), named=draw(st.booleans()), form=draw(st.sampled_from(["items", "items", "slots", "given"])),
                weighted=draw(st.booleans()), clamp=draw(st.sampled_from([None, None, [0.2, 1.5]])), same=draw(st.sampled_from([False, False, True])),
                usew=draw(st.booleans()), usep=draw(st.booleans()), ratio=draw(st.sampled_from([0.0, 0.5, 0.8, 1.0])), feats=draw(st.sampled_from([True, True, False])))


def dists(c, row):
    """rows of weights, per slot: logging and target, and whether the target is greedy"""
    n = c["n"]
    if c["form"] == "slots":
        log, tgt = row["logslots"], row["tgtslots"]
    else:
        log, tgt = [row["log"]] * n, [row["tgt"]] * n
    return log, (log if c["same"] else tgt), (row["greedy"] and c["form"] == "items" and not c["same"])


def greedy_prob(rows, order):
    used = []
    for t, i in enumerate(order):
        if i != max((j for j in range(len(rows[t])) if j not in used), key=lambda j: rows[t][j]):
            return 0.0
        used.append(i)
    return 1.0


def probs(c, row):
    if c["form"] == "given":
        # given probabilities count, whatever the distributions say
        return row["lp"], row["lp"] if c["same"] else row["tp"]
    log, tgt, g = dists(c, row)
    return chain(log, row["slate"]), (greedy_prob(tgt, row["slate"]) if g else chain(tgt, row["slate"]))


def sample(c, row, slate=None, reward=None, feats=True):
    from reagent.ope.estimators import slate_estimators as L

    row = dict(row, slate=row["slate"] if slate is None else slate)
    k, n, keyed, named = c["k"], c["n"], c["keyed"], c["named"]
    log, tgt, g = dists(c, row)
    kw = {}

    def by_slot(d):
        v = [values_of(L.SlateItemValues, keyed, x) for x in d]
        return L.SlateSlotItemProbabilities({slot(True, n, t): x for t, x in enumerate(v)} if named else v)

    def by_item(d, greedy=False):
        d = {item(True, i): x for i, x in enumerate(d)} if keyed else list(d)
        return L.SlateItemProbabilities(d, greedy)

    if c["form"] == "slots":
        kw.update(_log_slot_item_probabilities=by_slot(log), _tgt_slot_item_probabilities=by_slot(tgt))
    else:
        kw.update(_log_item_probabilities=by_item(log[0]), _tgt_item_probabilities=by_item(tgt[0], g))
    if c["form"] == "given":
        lp, tp = probs(c, row)
        kw.update(_log_slate_probability=lp, _tgt_slate_probability=tp)
    slots = slots_of(named, n)
    if c["usew"]:
        kw["slot_weights"] = L.SlateSlotValues({slot(True, n, t): x for t, x in enumerate(row["slotw"])} if named else list(row["slotw"]))
    if c["usep"]:
        kw["slot_probabilities"] = L.SlateSlotValues({slot(True, n, t): x for t, x in enumerate(row["slotp"])} if named else list(row["slotp"]))
    if feats:
        f = [torch.tensor(x, dtype=torch.double) for x in row["feat"]]
        kw["item_features"] = L.SlateItemFeatures({item(True, i): x for i, x in enumerate(f)} if keyed else f)
    return L.LogSample(context=L.SlateContext(L.SlateQuery((1,)), slots), metric=L.SlateMetric(),
                       log_slate=slate_of(dict(c, n=n), row["slate"]), log_reward=row["r"] if reward is None else reward, ground_truth_reward=row["gt"], **kw)


def clamper(c):
    from reagent.ope.utils import Clamper

    return Clamper(*c["clamp"]) if c["clamp"] else None


def ratio_weight(c, lp, tp):
    if tp == lp:
        return 1.0
    if tp <= 0:
        return 0.0
    if lp <= 0:
        return None
    w = tp / lp
    return float(np.clip(w, *c["clamp"])) if c["clamp"] else w


def verdict(c, res, pairs, msg, weighted):
    """pairs of (row, weight)"""
    pairs = [(r, w) for r, w in pairs if w is not None]
    if not pairs:
        equal(res, None, f"{msg}: no valid samples")
        return
    w = np.array([x for _, x in pairs])
    r = np.array([x["r"] for x, _ in pairs])
    close(res.log_reward, r.mean(), f"{msg}: logged reward", RTOL, ATOL)
    close(res.ground_truth_reward, np.mean([x["gt"] for x, _ in pairs]), f"{msg}: ground truth", RTOL, ATOL)
    if weighted:
        close(res.estimated_reward, (w * r).sum() / w.sum(), f"{msg}: weighted estimate", RTOL, ATOL)
        close(res.estimated_weight, w.mean(), f"{msg}: mean weight", RTOL, ATOL)
    else:
        close(res.estimated_reward, (w * r).mean(), f"{msg}: estimate", RTOL, ATOL)
        equal(res.estimated_weight, len(w), f"{msg}: number of samples")


@facet(logs(), quick=400, shards=4)
def importance(case, rec):
    """IPS, pseudo-inverse and position-based estimates follow their definitions"""
    from reagent.ope.estimators import slate_estimators as L

    c = case
    k, n = c["k"], c["n"]
    inp = L.SlateEstimatorInput([sample(c, r) for r in c["rows"]])
    wi, wp, wb = [], [], []
    for r in c["rows"]:
        log, tgt, g = dists(c, r)
        wi.append((r, ratio_weight(c, *probs(c, r))))
        ml, mt = marginals(log, k, False), marginals(tgt, k, g)
        p = ml.reshape(-1)
        one = np.zeros((n, k))
        one[np.arange(n), r["slate"]] = 1
        x = float(mt.reshape(-1) @ np.linalg.pinv(np.outer(p, p)) @ one.reshape(-1))
        wp.append((r, float(np.clip(x, *c["clamp"])) if c["clamp"] else x))
        sw = np.array(r["slotw"]) if c["usew"] else np.ones(n)
        if c["usep"]:
            sw = sw * np.array(r["slotp"])
        i = np.arange(n)
        nu, de = (mt[i, r["slate"]] * sw).sum(), (ml[i, r["slate"]] * sw).sum()
        if abs(nu - de) < 1e-9:
            wb.append((r, 1.0))
        else:
            wb.append((r, 0.0 if nu == 0 else float(np.clip(nu / de, *c["clamp"])) if c["clamp"] else nu / de))
    for cls, pairs in ((L.IPSEstimator, wi), (L.PseudoInverseEstimator, wp), (L.PBMEstimator, wb)):
        name = cls.__name__
        for weighted in (False, True):
            tot = sum(w for _, w in pairs if w is not None)
            if weighted and abs(tot) < 1e-3:
                continue
            verdict(c, cls(clamper(c), weighted=weighted).evaluate(inp), pairs, f"{name} weighted={weighted}", weighted)
    if c["same"] and not c["clamp"]:
        res = L.IPSEstimator().evaluate(inp)
        close(res.estimated_reward, np.mean([r["r"] for r in c["rows"]]), "on-policy IPS", RTOL, ATOL)
    rec.nt(n > 1 and not c["same"])
    rec.label(c["form"], "clamped" if c["clamp"] else "free")


@st.composite
def spaces(draw):
    c = draw(logs())
    rng = rng_of(draw)
    c["rows"] = c["rows"][:1]
    c["clamp"] = None
    c["table"] = np.round(rng.uniform(-1, 3, 24), 2).tolist()
    return c


@facet(spaces(), quick=200, shards=4)
def unbiased(case, rec):
    """Over all slates of the logging policy, IPS and DR (of any model) expect the true value of the target policy, and the
    position-based estimate has expected weight one when target and logging agree"""
    from reagent.ope.estimators import slate_estimators as L

    c = case
    k, n = c["k"], c["n"]
    row = c["rows"][0]
    log, tgt, g = dists(c, row)
    ests = {"IPS": L.IPSEstimator(weighted=False)}
    tr = None
    if c["form"] == "items":
        tr = trainer_of(lambda x: x.sum(1) * 0.7 + 0.2)
        # train once on other samples, then ask about each
        ests["DR"] = L.DoublyRobustEstimator(tr, 0.0)
    tot = {x: 0.0 for x in ests}
    true = 0.0
    for j, o in enumerate(itertools.permutations(range(k), n)):
        lp = chain(log, o)
        tp = greedy_prob(tgt, o) if g else chain(tgt, o)
        true += tp * c["table"][j]
        for name, e in ests.items():
            s = sample(c, dict(row, lp=lp, tp=tp), slate=list(o), reward=c["table"][j])
            res = e.evaluate(L.SlateEstimatorInput([s]))
            tot[name] += lp * (0.0 if res is None else res.estimated_reward)
    for name, v in tot.items():
        close(v, true, f"{name} over all slates", 1e-4, 1e-4)
    rec.nt(n > 1 and not c["same"])
    rec.label(*ests)


def trainer_of(f):
    from reagent.ope.estimators.types import PredictResults, Trainer

    class Tr(Trainer):
        def __init__(self):
            super().__init__()
            self.data = []

        @property
        def name(self):
            return "recording"

        def train(self, data, iterations=1, num_samples=0):
            self._model = 1
            self.data.append(data)

        def predict(self, x, device=None):
            require(self._model is not None, "predicted before training")
            # like the trainers of the library: single precision
            return PredictResults(None, f(x.double()).float(), None)

        def score(self, x, y, weight=None):
            return 0.0

    return Tr()


@facet(logs(), quick=300, shards=4)
def models(case, rec):
    """The reward model learns from the first part of the samples and is asked about the target policy on the rest; the
    doubly robust estimate corrects it with the weighted residual, or is IPS without features"""
    from reagent.ope.estimators import slate_estimators as L

    c = case
    c = dict(c, form="items")
    k, n, m = c["k"], c["n"], len(c["rows"])
    co = np.linspace(0.5, 1.5, 2 * n)
    f = lambda x: x @ torch.tensor(co) + 0.3  # noqa: E731
    fn = lambda r, o: float(np.array([r["feat"][i] for i in o]).reshape(-1) @ co + 0.3)  # noqa: E731
    inp = L.SlateEstimatorInput([sample(c, r, feats=c["feats"]) for r in c["rows"]])
    cut = int(m * c["ratio"]) if 0 < c["ratio"] < 1 else m
    train, ev = c["rows"][:cut], (c["rows"][cut:] if cut < m else c["rows"])
    usable = c["feats"] and cut > 0

    def q_of(r):
        log, tgt, g = dists(c, r)
        return sum((greedy_prob(tgt, o) if g else chain(tgt, o)) * fn(r, o) for o in itertools.permutations(range(k), n))

    tr = trainer_of(f)
    res = L.DMEstimator(tr, c["ratio"]).evaluate(inp)
    if not usable:
        equal(res, None, "DM without data to learn from")
    else:
        equal(len(tr.data), 1, "trainings")
        d = tr.data[0]
        close(d.train_x, [np.array([r["feat"][i] for i in r["slate"]]).reshape(-1) for r in train], "features to learn from")
        close(d.train_y, [r["r"] for r in train], "rewards to learn", 1e-5, 1e-6)
        close(d.validation_x, [np.array([r["feat"][i] for i in r["slate"]]).reshape(-1) for r in ev], "features to validate with")
        close(d.validation_y, [r["r"] for r in ev], "rewards to validate with", 1e-5, 1e-6)
        close(res.estimated_reward, np.mean([q_of(r) for r in ev]), "DM", 1e-4, 1e-5)
        close(res.log_reward, np.mean([r["r"] for r in ev]), "logged reward of DM", RTOL, ATOL)
        close(res.ground_truth_reward, np.mean([r["gt"] for r in ev]), "ground truth of DM", RTOL, ATOL)
        equal(res.estimated_weight, len(ev), "samples of DM")
    for weighted in (False, True):
        tr = trainer_of(f)
        res = None
        if usable and weighted:
            continue
        pairs = [(r, ratio_weight(c, *probs(c, r))) for r in (ev if usable else c["rows"])]
        pairs = [(r, w) for r, w in pairs if w is not None]
        if not pairs or (weighted and sum(w for _, w in pairs) < 1e-3):
            continue
        res = L.DoublyRobustEstimator(tr, c["ratio"], clamper(c), weighted=weighted).evaluate(inp)
        v = [q_of(r) + w * (r["r"] - fn(r, r["slate"])) if usable else w * r["r"] for r, w in pairs]
        exp = sum(v) / sum(w for _, w in pairs) if weighted else np.mean(v)
        close(res.estimated_reward, exp, f"DR (model: {usable}, weighted: {weighted})", 1e-4, 1e-5)
        close(res.log_reward, np.mean([r["r"] for r, _ in pairs]), "logged reward of DR", RTOL, ATOL)
    rec.nt(n > 1 and usable)
    rec.label("model" if usable else "no model", f"ratio {c['ratio']}")
