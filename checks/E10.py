"""Models trained for off-policy estimators: selection on validation data, predictions, scores, files."""
import os
import tempfile

import numpy as np
import torch
from hypothesis import strategies as st

from models.nets import rng_of
from vlib.core import close, equal, facet, raises, require

RULE = ("a case is a training and a validation table with weights, a trainer and its settings; non-trivial = twenty or more rows "
        "and a label of more than two values, weights, or a subsample")

FITS = []


def modern():
    """the installed scikit-learn spells three settings differently and says so by failing; records every fit"""
    from sklearn import linear_model, tree

    if hasattr(linear_model.Lasso, "recorded"):
        return

    def adapt(cls, fix):
        class Recorded(cls):
            recorded = True

            def __init__(self, *a, **kw):
                super().__init__(*a, **fix(kw))

            @classmethod
            def _get_param_names(c):
                return cls._get_param_names()

            def fit(self, x, y, sample_weight=None, **kw):
                out = super().fit(x, y, sample_weight=sample_weight, **kw) if sample_weight is not None else super().fit(x, y, **kw)
                FITS.append((self, np.array(x), np.array(y), None if sample_weight is None else np.array(sample_weight)))
                return out

        Recorded.__name__ = Recorded.__qualname__ = cls.__name__
        Recorded.__module__ = __name__
        globals()[cls.__name__] = Recorded
        return Recorded

    def renamed(key, **names):
        return lambda kw: {k: names.get(v, v) if k == key else v for k, v in kw.items()}

    linear_model.Lasso = adapt(linear_model.Lasso, lambda kw: kw)
    linear_model.LogisticRegression = adapt(linear_model.LogisticRegression, lambda kw: {k: 1 if k == "n_jobs" else v for k, v in kw.items() if k != "multi_class"})
    linear_model.SGDClassifier = adapt(linear_model.SGDClassifier, renamed("loss", log="log_loss"))
    tree.DecisionTreeRegressor = adapt(tree.DecisionTreeRegressor, renamed("criterion", mse="squared_error"))
    tree.DecisionTreeClassifier = adapt(tree.DecisionTreeClassifier, lambda kw: kw)


modern()

CLASSIFIERS = ["DecisionTreeClassifierTrainer", "LogisticRegressionTrainer", "SGDClassifierTrainer", "hinge"]
REGRESSORS = ["LassoTrainer", "DecisionTreeTrainer"]


@st.composite
def tables(draw, kinds=tuple(CLASSIFIERS + REGRESSORS)):
    rng = rng_of(draw)
    n, m, d = draw(st.integers(12, 50)), draw(st.integers(3, 25)), draw(st.integers(1, 4))
    kind = draw(st.sampled_from(kinds))
    k = draw(st.integers(2, 4))
    labels = sorted(rng.permutation(6)[:k].tolist()) if draw(st.booleans()) else list(range(k))
    return dict(kind=kind, n=n, m=m, d=d, labels=labels, seed=int(rng.randint(10**6)), w=draw(st.sampled_from([None, "validation", "both"])),
                noise=draw(st.sampled_from([0.1, 1.0, 3.0])), scale=draw(st.sampled_from([0.3, 1.0])), iterations=draw(st.integers(1, 2)), sample=draw(st.sampled_from([0, 0, 0.75, 0.75, 3])))


def build(c):
    from reagent.ope.estimators.types import TrainingData

    rng = np.random.RandomState(c["seed"])

    def part(n):
        x = rng.randn(n, c["d"])
        z = x @ np.linspace(1, -0.5, c["d"]) + c["noise"] * rng.randn(n)
        if c["kind"] in REGRESSORS:
            y = z * c["scale"]
        else:
            k = len(c["labels"])
            q = np.clip(np.floor((z + 2) / 4 * k), 0, k - 1).astype(int)
            q[:k] = range(k) if n >= k else q[:k]
            y = np.array(c["labels"])[q]
        w = np.round(rng.uniform(0.2, 3, n), 2)
        return torch.tensor(x).float(), torch.tensor(y).float() if c["kind"] in REGRESSORS else torch.tensor(y), torch.tensor(w).float()

    a, b = part(c["n"]), part(c["m"])
    return TrainingData(a[0], a[1], a[2] if c["w"] == "both" else None, b[0], b[1], b[2] if c["w"] else None)


def make(kind):
    from reagent.ope.trainers import linear_trainers as L

    return L.SGDClassifierTrainer(loss="hinge") if kind == "hinge" else getattr(L, kind)()


def value(kind, y, p, w):
    """accuracy of a classifier, or 2 to the minus mean squared error, weighted"""
    y, p = np.asarray(y, dtype=float), np.asarray(p, dtype=float)
    w = np.ones(len(y)) if w is None else np.asarray(w, dtype=float)
    if kind in REGRESSORS:
        return 2.0 ** -float((w * (y - p) ** 2).sum() / w.sum())
    return float((w * (y == p)).sum() / w.sum())


@facet(tables(), quick=160, shards=4)
def trained(case, rec):
    """The model that validates best, of those fitted to the rows sampled; predictions by label, scores by expectation"""
    import warnings

    c = case
    warnings.simplefilter("ignore")
    data = build(c)
    t = make(c["kind"])
    require(not t.is_trained, "trained before training")
    raises(Exception, lambda: t.predict(data.train_x), "a prediction before training")
    num = int(c["sample"] * c["n"])
    np.random.seed(c["seed"])
    FITS.clear()
    if c["kind"] not in REGRESSORS and 0 < num < c["n"]:
        # a subsample needs two labels
        num = max(num, c["n"] - 2)
    t.train(data, iterations=c["iterations"], num_samples=num)
    require(t.is_trained, "trained")
    fits = list(FITS)
    least = {"LassoTrainer": 7, "DecisionTreeTrainer": 6, "DecisionTreeClassifierTrainer": 6, "LogisticRegressionTrainer": 10, "SGDClassifierTrainer": 8, "hinge": 8}
    require(len(fits) >= least[c["kind"]] * c["iterations"], "%d models were tried", len(fits))
    tx, ty = data.train_x.numpy(), data.train_y.numpy()
    tw = None if data.train_weight is None else data.train_weight.numpy()
    where = {r.tobytes(): i for i, r in enumerate(tx)}
    want = num if 0 < num < c["n"] else c["n"]
    subsets = set()
    for model, x, y, w in fits:
        equal(len(x), want, "rows fitted to")
        rows = [where.get(np.ascontiguousarray(r).tobytes()) for r in x]
        require(None not in rows and len(set(rows)) == len(rows), "rows fitted to are distinct rows of the training table")
        close(y, ty[rows], "their labels")
        if w is not None:
            close(w, tw[rows], "their weights")
        elif c["kind"] not in ("LassoTrainer", "SGDClassifierTrainer", "hinge"):
            require(tw is None, "weights not used")
        subsets.add(tuple(sorted(rows)))
    if want < c["n"]:
        require(len(subsets) <= c["iterations"], "more samples than iterations")
    vx, vy, vw = data.validation_x, data.validation_y, data.validation_weight
    vals = [value(c["kind"], vy, m.predict(vx.numpy()), None if vw is None else vw.numpy()) for m, *_ in fits]
    got = t.score(vx, vy, vw)
    close(got, max(vals), "score of the model chosen on the validation table", rtol=1e-6, atol=1e-6)
    best = [m for (m, *_), v in zip(fits, vals) if v >= max(vals) - 1e-9]
    x = torch.tensor(np.random.RandomState(c["seed"] + 1).randn(9, c["d"])).float()
    p = t.predict(x)
    equal(list(p.scores.shape), [9], "a score per row")
    if c["kind"] in REGRESSORS or c["kind"] == "hinge":
        require(p.predictions is None and p.probabilities is None, "only scores")
        outs = [m.predict(x.numpy()) for m in best]
        require(any(np.allclose(p.scores.numpy(), o, atol=1e-4, rtol=1e-4) for o in outs), "scores are not what a best model predicts")
    else:
        pr = p.probabilities.numpy().astype(float)
        close(pr.sum(1), np.ones(9), "probabilities")
        labels = sorted(set(fits[0][2].tolist())) if len(subsets) == 1 else None
        if labels is not None:
            equal(pr.shape[1], len(labels), "one probability per label")
            close(p.scores, pr @ np.array(labels, dtype=float), "expected label", rtol=1e-3, atol=1e-3)
            require(all(pr[i, labels.index(int(v))] >= pr[i].max() - 1e-6 for i, v in enumerate(p.predictions.tolist())), "most probable label: %s of %s for %s", p.predictions, labels, pr)
        require(any(np.allclose(pr, m.predict_proba(x.numpy()), atol=1e-4) for m in best if m.predict_proba(x.numpy()).shape == pr.shape), "probabilities of no best model")
    got = t.score(data.train_x, data.train_y)
    require(any(abs(got - value(c["kind"], ty, m.predict(tx), None)) < 1e-5 for m in best), "score without weights: %g is that of no best model", got)
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "model")
        t.save_model(f)
        u = make(c["kind"])
        u.save_model(os.path.join(d, "none"))
        require(not os.path.exists(os.path.join(d, "none")), "nothing to save")
        u.load_model(os.path.join(d, "missing"))
        require(not u.is_trained, "nothing to load")
        u.load_model(f)
        require(u.is_trained, "loaded")
        other = make(c["kind"])
        other.train(build(dict(c, seed=c["seed"] + 1, kind=c["kind"])))
        other.load_model(os.path.join(d, "missing"))
        other.load_model(f)
        close(other.predict(x).scores, p.scores, "scores after loading over another model")
        q = u.predict(x)
        close(q.scores, p.scores, "scores after loading")
        if p.predictions is not None:
            close(q.predictions, p.predictions, "predictions after loading")
    again = t.predict(x)
    close(again.scores, p.scores, "the same scores again")
    require(t.name == u.name and t.name, "name")
    t.reset()
    require(not t.is_trained, "trained after a reset")
    raises(Exception, lambda: t.predict(x), "a prediction after a reset")
    rec.nt(c["n"] >= 20 and (len(c["labels"]) > 2 or c["w"] or want < c["n"]))
    rec.label(c["kind"], "subsample" if want < c["n"] else "every row")


@st.composite
def regressions(draw):
    rng = rng_of(draw)
    return dict(n=draw(st.integers(20, 50)), d=draw(st.integers(1, 3)), out=draw(st.integers(0, 3)), seed=int(rng.randint(10**6)), sample=draw(st.booleans()), epochs=draw(st.integers(1, 2)))


@facet(regressions(), quick=12, shards=4)
def network(case, rec):
    """The network trainer fits the table better than its mean; its score is its own mean squared error; its predictions the largest outputs"""
    from reagent.ope.estimators.types import TrainingData
    from reagent.ope.trainers.linear_trainers import NNTrainer

    c = case
    rng = np.random.RandomState(c["seed"])
    torch.manual_seed(c["seed"])
    np.random.seed(c["seed"])
    x = rng.randn(c["n"], c["d"])
    k = max(c["out"], 1)
    y = 2 * x @ rng.choice([-1.0, 1.0], (c["d"], k)) + np.arange(k)
    if c["out"] == 0:
        y = y[:, 0]
    X, Y = torch.tensor(x).float(), torch.tensor(y).float()
    t = NNTrainer()
    require(not t.is_trained, "trained before training")
    raises(Exception, lambda: t.predict(X), "a prediction before training")
    raises(Exception, lambda: t.score(X, Y), "a score before training")
    data = TrainingData(X.clone(), Y.clone(), None, X.clone(), Y.clone(), None)
    t.train(data, iterations=60, epochs=c["epochs"], num_samples=15 if c["sample"] else 0)
    require(t.is_trained, "trained")
    p = t.predict(X.clone())
    out = p.scores.detach().numpy().reshape(c["n"], k)
    mse = float(((out - y.reshape(c["n"], k)) ** 2).mean())
    base = float(((y - y.mean(0)) ** 2).mean())
    require(mse < 0.5 * base, "no better than the mean: %g against %g", mse, base)
    close(p.predictions, out.argmax(1), "largest output")
    close(t.score(X.clone(), Y.clone()), mse, "mean squared error", rtol=1e-3)
    Z, W = torch.tensor(rng.randn(5, c["d"])).float(), torch.tensor(rng.randn(5, k) if c["out"] else rng.randn(5)).float()
    o = t.predict(Z.clone()).scores.detach().reshape(5, k).numpy()
    close(t.score(Z.clone(), W.clone()), float(((o - W.numpy().reshape(5, k)) ** 2).mean()), "mean squared error on other rows", rtol=1e-3)
    close(t.predict(Z[2:3].clone()).scores.detach().reshape(1, k), o[2:3], "outputs of one row alone", rtol=1e-3, atol=1e-3)
    empty = NNTrainer()
    equal(empty.train(TrainingData(torch.zeros(4, 0), torch.zeros(4), None, torch.zeros(4, 0), torch.zeros(4), None)), None, "nothing to learn from")
    require(not empty.is_trained, "trained on no features")
    rec.nt(k > 1 or c["d"] > 1)
