"""Slates: values by item and slot, distributions over slates, metrics."""
import itertools
import math

import numpy as np
import torch
from hypothesis import strategies as st

from models.nets import T, arr, rng_of
from vlib.core import Inconclusive, close, equal, facet, raises, require, same

RULE = ("a case is a history of operations on a value map, or explicit item (and slot) weights with a slate; non-trivial = "
        "named keys, or a slate of two or more slots over three or more items")


def item(keyed, i):
    from reagent.ope.estimators.types import Action

    return Action((i, 7)) if keyed else Action(i)


def slots_of(keyed, n):
    from reagent.ope.estimators import slate_estimators as L

    return L.SlateSlots([L.SlateSlot((9, n - i)) for i in range(n)]) if keyed else L.SlateSlots(n)


def slot(keyed, n, i):
    from reagent.ope.estimators import slate_estimators as L

    return L.SlateSlot((9, n - i)) if keyed else L.SlateSlot(i)


def values_of(cls, keyed, v):
    return cls({item(True, i): x for i, x in enumerate(v)}) if keyed else cls(list(v))


num = st.integers(1, 60).map(lambda v: v / 8)


@st.composite
def histories(draw):
    k = draw(st.integers(1, 5))
    distinct = draw(st.lists(num, min_size=k, max_size=k, unique=True))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("set"), st.integers(0, k - 1), num), st.tuples(st.just("get"), st.integers(0, k - 1)),
        st.tuples(st.just("sort"), st.booleans()), st.tuples(st.just("prob"), st.integers(0, k - 1)),
        st.tuples(st.just("greedy"), st.integers(1, k)), st.tuples(st.just("sample"), st.integers(1, k)),
        st.tuples(st.just("replace"), st.sampled_from(["list", "tensor", "array", "map"]), st.lists(num, min_size=k, max_size=k), st.booleans()),
        st.tuples(st.just("keys")), st.tuples(st.just("iter"))), min_size=1, max_size=12))
    return dict(k=k, v=distinct, ops=[list(o) for o in ops], keyed=draw(st.booleans()), src=draw(st.sampled_from(["list", "tensor", "array"])))


@facet(histories(), quick=500, shards=4)
def value_maps(case, rec):
    """Maps from actions to values behave as a dictionary with normalised probabilities, whatever was asked before"""
    from reagent.ope.estimators.types import Action, ActionDistribution

    c = case
    k, keyed = c["k"], c["keyed"]
    conv = dict(list=list, tensor=torch.tensor, array=np.array)
    d = values_of(ActionDistribution, True, c["v"]) if keyed else ActionDistribution(conv[c["src"]](c["v"]))
    m = list(c["v"])
    keys = [item(keyed, i) for i in range(k)]
    olds = []
    for op in c["ops"]:
        o, x = op[0], op[1:]
        if o == "set":
            d[keys[x[0]]] = x[1]
            m[x[0]] = x[1]
        elif o == "get":
            close(d[keys[x[0]]], m[x[0]], "value")
        elif o == "sort":
            ks, vs = d.sort(descending=x[0])
            close(vs, sorted(m, reverse=x[0]), f"sorted values (descending: {x[0]})")
            close([m[keys.index(y)] for y in ks], sorted(m, reverse=x[0]), f"sorted keys (descending: {x[0]})")
            require(len(set(keys.index(y) for y in ks)) == k, "sorting keeps all keys")
        elif o == "prob":
            close(d.probability(keys[x[0]]), m[x[0]] / sum(m), "probability")
        elif o == "greedy":
            g = d.greedy(x[0])
            close([m[keys.index(y)] for y in g], sorted(m, reverse=True)[:x[0]], "greedy keys")
        elif o == "sample":
            ss = d.sample(x[0])
            require(len(ss) == x[0] and len(set(keys.index(y) for y in ss)) == x[0], "sample without replacement")
        elif o == "replace":
            new = x[1]
            if x[0] == "map":
                # keys that are not mentioned keep their values
                n = max(1, len(new) // 2)
                arg = {keys[i]: new[i] for i in range(n)}
                new = new[:n] + m[n:]
            else:
                arg = conv[x[0]](new)
            d2 = d.replace(arg)
            close(d2.values, new, "replaced values")
            close(d.values, m, "original after replacing")
            require(type(d2) is type(d), "type of the copy")
            if x[2]:
                olds.append((d, list(m)))
                d, m = d2, list(new)
            else:
                olds.append((d2, list(new)))
        elif o == "keys":
            equal(list(d.keys), keys, "keys")
            equal([d.index_of(y) for y in keys], list(range(k)), "indices of keys")
            for i in (k, k + 3, -1, -k):
                raises(ValueError, lambda i=i: d.index_of(item(keyed, i)), "index of an unknown key")
        elif o == "iter":
            got = list(d)
            equal([y for y, _ in got], keys, "iterated keys")
            close([v for _, v in got], m, "iterated values")
        equal(len(d), k, "size")
        out = d.values
        close(out, m, "values")
        # what is done to the values handed out is the caller's business
        out.mul_(0.5).add_(1.0)
    for e, v in olds:
        close(e.values, v, "map replaced earlier")
        close([e.probability(y) for y in keys], np.array(v) / sum(v), "probabilities of a map replaced earlier")
        close(e.sort()[1], sorted(v, reverse=True), "order of a map replaced earlier")
    rec.nt(keyed or len(c["ops"]) > 3)
    rec.label("named" if keyed else "indexed")


@st.composite
def fills(draw):
    n = draw(st.integers(1, 4))
    return dict(n=n, keyed=draw(st.booleans()), vals=draw(st.lists(num, max_size=6)), known=draw(st.lists(st.integers(0, 5), max_size=5)))


@facet(fills(), quick=200, shards=1)
def item_lists(case, rec):
    """Items are found by index or name and filled with values, zero where there is none"""
    from reagent.ope.estimators.types import Action, ActionSpace

    c = case
    n, keyed = c["n"], c["keyed"]
    keys = [item(keyed, i) for i in range(n)]
    sp = ActionSpace(keys) if keyed else ActionSpace(n)
    equal(list(sp), keys, "items")
    equal(len(sp), n, "number of items")
    equal([sp.index_of(x) for x in keys], list(range(n)), "indices")
    for i in (n, n + 3, -1, -n):
        raises(ValueError, lambda i=i: sp.index_of(item(keyed, i)), "unknown item")
    d = sp.distribution(c["vals"])
    equal(list(d.keys), keys, "keys of the distribution")
    close(d.values, (c["vals"] + [0.0] * n)[:n], "filled from a list")
    by = {item(keyed, i): i / 2 + 1 for i in c["known"]}
    close(sp.distribution(by).values, [by.get(x, 0.0) for x in keys], "filled from a map")
    # what equals hashes alike
    for a in keys:
        for b in keys:
            equal(a == b, a.value == b.value, "equality of actions")
            if a == b:
                equal(hash(a), hash(b), "hash of equal actions")
            equal(a < b, a.value < b.value, "order of actions")
    equal(Action(3) == 3, False, "an action is not its value")
    x, y = Action(torch.tensor([1.0, 2.0])), Action(torch.tensor([1.0, 2.0]))
    require(x == y and hash(x) == hash(y) and x != Action(torch.tensor([1.0, 3.0])), "actions with tensors")
    equal(int(Action(np.int64(2))), 2, "action as a number")
    rec.nt(n > 1)


# ----------------------------------------------------------------- distributions
@st.composite
def slate_cases(draw, max_items=5):
    rng = rng_of(draw)
    k = draw(st.integers(1, max_items))
    n = draw(st.integers(1, min(k, 4)))
    if max_items > 3 and draw(st.integers(0, 19)) == 7:
        k, n = draw(st.integers(7, 9)), draw(st.integers(3, 4))
    w = rng.permutation(np.arange(1, k + 1)) + np.round(rng.uniform(0, 0.5, k), 2)
    zero = draw(st.sampled_from([False, False, True])) and k > n
    if zero:
        w[rng.randint(k)] = 0.0
    sw = np.round(rng.uniform(0.2, 3, (n, k)), 2)
    rare = draw(st.sampled_from([None, None, "rare", "almost one"]))
    if rare == "rare" and max_items > 3:
        # one item all but certain
        sw[:, rng.randint(k)] *= 1e4
        w[rng.randint(k)] *= 1e4
    elif rare:
        # almost, but not quite, normalised
        sw = sw / sw.sum(1, keepdims=True) * (1 + rng.uniform(-0.04, 0.04, (n, 1)))
    return dict(k=k, n=n, w=w.tolist(), sw=sw.tolist(), slate=rng.permutation(k)[:n].tolist(), keyed=draw(st.booleans()), named=draw(st.booleans()),
                greedy=draw(st.booleans()), change=draw(st.sampled_from([None, None, round(float(rng.uniform(0.3, 6)), 3)])), warm=draw(st.lists(st.sampled_from(["prob", "expect", "space", "sample", "sort"]), max_size=3)),
                seed=int(rng.randint(1 << 30)))


def slate_of(c, order):
    from reagent.ope.estimators import slate_estimators as L

    return L.make_slate(slots_of(c["named"], c["n"]), [item(c["keyed"], i) for i in order])


def chain(rows, order):
    """probability of drawing the items in this order without replacement, one row of weights per slot"""
    p, used = 1.0, []
    for t, i in enumerate(order):
        w = np.array(rows[t], dtype=float)
        w[used] = 0.0
        if w.sum() <= 0:
            return 0.0
        p *= w[i] / w.sum()
        used.append(i)
    return p


def greedy_order(rows):
    used = []
    for w in rows:
        used.append(max((i for i in range(len(w)) if i not in used), key=lambda i: w[i]))
    return used


def marginals(rows, k, greedy):
    n = len(rows)
    out = np.zeros((n, k))
    if greedy:
        out[np.arange(n), greedy_order(rows)] = 1.0
        return out
    for o in itertools.permutations(range(k), n):
        p = chain(rows, o)
        for t, i in enumerate(o):
            out[t, i] += p
    return out


@facet(slate_cases(), quick=400, shards=4)
def item_distribution(case, rec):
    """Item weights make a distribution over slates: probabilities, the space of slates, slot marginals and samples agree"""
    from reagent.ope.estimators import slate_estimators as L

    c = case
    k, n, g = c["k"], c["n"], c["greedy"]
    w = np.array(c["w"])
    mk = lambda: (L.SlateItemProbabilities({item(True, i): x for i, x in enumerate(c["w"])}, g) if c["keyed"]  # noqa: E731
                  else L.SlateItemProbabilities(list(c["w"]), g))
    d, slots = mk(), slots_of(c["named"], n)
    sl = slate_of(c, c["slate"])
    for op in c["warm"]:
        dict(prob=lambda: d.slate_probability(sl), expect=lambda: d.slot_item_expectations(slots), space=lambda: d.slate_space(slots),
             sample=lambda: d.sample_slate(slots), sort=lambda: d.sort())[op]()
    keys = [item(c["keyed"], i) for i in range(k)]
    if c["change"] is not None and all(abs(c["change"] - x) > 1e-3 for x in c["w"]):
        # nothing of the former weight is left
        w[c["seed"] % k] = c["change"]
        d[keys[c["seed"] % k]] = c["change"]
    rows = [w] * n
    exp = (1.0 if list(c["slate"]) == greedy_order(rows) else 0.0) if g else chain(rows, c["slate"])
    close(d.slate_probability(sl), exp, "probability of a slate", 1e-6, 1e-9)
    space = [([keys.index(x) for x in its], p) for its, p in d.slate_space(slots)]
    if g:
        equal(space, [(greedy_order(rows), 1.0)], "space of a greedy policy")
    else:
        want = {o: chain(rows, o) for o in itertools.permutations(range(k), n)}
        got = {}
        for o, p in space:
            require(tuple(o) not in got, f"slate {o} listed twice")
            got[tuple(o)] = p
        for o, p in want.items():
            close(got.get(o, 0.0), p, f"probability of slate {o} in the space", 1e-6, 1e-9)
        close(sum(got.values()), 1.0, "sum over the space", 1e-6, 1e-9)
        lim = d.slate_space(slots, 2)
        require(len(list(lim)) <= 2, "limited space")
    m = marginals(rows, k, g)
    ex = d.slot_item_expectations(slots)
    if w.min() > 0 or g:
        close(ex.values_tensor(), m, "slot marginals", 1e-6, 1e-9)
        for t in range(n):
            e = ex[slot(c["named"], n, t)]
            close([e[x] for x in keys], m[t], "marginals by name", 1e-6, 1e-9)
            close([e.probability(x) for x in keys], m[t], "marginals as probabilities", 1e-6, 1e-9)
        rew = values_of(L.SlateItemValues, c["keyed"], [i * i + 0.5 for i in range(k)])
        er = ex.expected_rewards(rew)
        close(er.values, m @ np.array([i * i + 0.5 for i in range(k)]), "expected rewards", 1e-6, 1e-9)
        equal(list(er.keys), [slot(c["named"], n, t) for t in range(n)], "slots of expected rewards")
    equal(d.is_deterministic, g, "deterministic")
    s = d.sample_slate(slots)
    got = [keys.index(x) for x in s.items]
    require(len(set(got)) == n, "items of a sampled slate differ")
    require(d.slate_probability(s) > 0, f"sampled slate {got} of no probability")
    close(d.values, w, "weights unchanged")
    rec.nt(n > 1 and k > 2)
    rec.label("greedy" if g else "stochastic", "named items" if c["keyed"] else "indexed items", "zero weight" if w.min() == 0 else "positive")


@facet(slate_cases(max_items=4), quick=400, shards=4)
def slot_distribution(case, rec):
    """The same with weights of each slot"""
    from reagent.ope.estimators import slate_estimators as L

    c = case
    k, n, g = c["k"], c["n"], c["greedy"]
    rows = np.array(c["sw"])
    vals = [values_of(L.SlateItemValues, c["keyed"], r) for r in c["sw"]]
    d = L.SlateSlotItemProbabilities({slot(True, n, t): v for t, v in enumerate(vals)} if c["named"] else vals, g)
    sl = slate_of(c, c["slate"])
    slots = slots_of(c["named"], n)
    if g:
        srt = np.sort(rows, 1)
        if k > 1 and (srt[:, 1:] - srt[:, :-1]).min() < 1e-6:
            raise Inconclusive("ties")
    for op in c["warm"]:
        dict(prob=lambda: d.slate_probability(sl), expect=lambda: d.slot_item_expectations(), space=lambda: 0,
             sample=lambda: d.sample_slate(slots), sort=lambda: vals[0].sort())[op]()
    keys = [item(c["keyed"], i) for i in range(k)]
    exp = (1.0 if list(c["slate"]) == greedy_order(rows) else 0.0) if g else chain(rows, c["slate"])
    close(d.slate_probability(sl), exp, "probability of a slate", 1e-6, 1e-9)
    m = marginals(rows, k, g)
    ex = d.slot_item_expectations()
    close(ex.values_tensor(), m, "slot marginals", 1e-6, 1e-9)
    for t in range(n):
        e = ex[slot(c["named"], n, t)]
        close([e[x] for x in keys], m[t], "marginals by name", 1e-6, 1e-9)
    s = d.sample_slate(slots)
    got = [keys.index(x) for x in s.items]
    require(len(set(got)) == n, "items of a sampled slate differ")
    if g:
        equal(got, greedy_order(rows), "greedy slate")
    require(d.slate_probability(s) > 0, f"sampled slate {got} of no probability")
    equal([x for x, _ in s], [slot(c["named"], n, t) for t in range(n)], "slots of the sample")
    rec.nt(n > 1 and k > 2)
    rec.label("greedy" if g else "stochastic")


@facet(slate_cases(max_items=3), quick=16, shards=4)
def sampling(case, rec):
    """Sampled slates come as often as their probability says"""
    from reagent.ope.estimators import slate_estimators as L

    c = case
    k, n = c["k"], c["n"]
    slots = slots_of(c["named"], n)
    keys = [item(c["keyed"], i) for i in range(k)]
    N = 1500
    for rows, d in (([c["w"]] * n, values_of(L.SlateItemProbabilities, c["keyed"], c["w"])),
                    (c["sw"], L.SlateSlotItemProbabilities([values_of(L.SlateItemValues, c["keyed"], r) for r in c["sw"]]))):
        cnt = {}
        for _ in range(N):
            o = tuple(keys.index(x) for x in d.sample_slate(slots).items)
            cnt[o] = cnt.get(o, 0) + 1
        for o in itertools.permutations(range(k), n):
            p = chain(rows, o)
            require(abs(cnt.get(o, 0) / N - p) <= 6 * math.sqrt(p * (1 - p) / N) + 1e-9, f"slate {o}: {cnt.get(o, 0)} of {N}, expected {p}")
    rec.nt(k > 1)


@st.composite
def long_slates(draw):
    rng = rng_of(draw)
    k = 8
    return dict(k=k, w=np.round(rng.uniform(0.5, 3, k), 2).tolist(), sw=np.round(rng.uniform(0.5, 3, (k, k)), 2).tolist(),
                keyed=draw(st.booleans()), named=draw(st.booleans()), seed=int(rng.randint(1 << 30)), per_slot=draw(st.booleans()))


@facet(long_slates(), quick=8, shards=4)
def sampled_marginals(case, rec):
    """Slates too long to count through have marginals estimated from samples"""
    from reagent.ope.estimators import slate_estimators as L

    c = case
    k = c["k"]
    torch.manual_seed(c["seed"])
    if c["per_slot"]:
        rows = c["sw"]
        vals = [values_of(L.SlateItemValues, c["keyed"], r) for r in rows]
        d = L.SlateSlotItemProbabilities({slot(True, k, t): v for t, v in enumerate(vals)} if c["named"] else vals)
        ex, N = d.slot_item_expectations(300), 300 * k
    else:
        rows = [c["w"]] * k
        ex, N = values_of(L.SlateItemProbabilities, c["keyed"], c["w"]).slot_item_expectations(slots_of(c["named"], k)), 20000 * k
    m = marginals(rows, k, False)
    got = ex.values_tensor().numpy()
    close(got.sum(1), np.ones(k), "marginals of a slot", 1e-6, 1e-9)
    close(got.sum(0), np.ones(k), "marginals of an item", 1e-6, 1e-9)
    require((np.abs(got - m) <= 6 * np.sqrt(m * (1 - m) / N) + 1e-9).all(), f"marginals {got.tolist()}, expected about {m.tolist()} from {N} samples")
    rec.nt()
    rec.label("slots" if c["per_slot"] else "items")


# ---------------------------------------------------------------------- metrics
@st.composite
def metric_cases(draw):
    rng = rng_of(draw)
    k = draw(st.integers(1, 6))
    n = draw(st.integers(1, k))
    sizes = [1, n] + [int(x) for x in rng.randint(1, k + 1, 2)]
    mx = draw(st.sampled_from([1.0, 2.0, 3.0, 4.0, 5.0]))
    return dict(k=k, n=n, sizes=sizes, rel=rng.randint(0, int(mx) + draw(st.integers(1, 3)), k).astype(float).tolist(), mx=mx, order=rng.permutation(k).tolist(),
                keyed=draw(st.booleans()), named=draw(st.booleans()), alpha=draw(st.sampled_from([-1.0, 0.0, 0.5, 1.0, 2.0])),
                shape=draw(st.sampled_from([0.5, 1.0, 1.5, 2.0])), sc=np.round(rng.permutation(k) + rng.uniform(0.1, 0.9, k), 2).tolist(),
                det=draw(st.booleans()), wts=arr(rng, (k,)))


def dcg(r):
    return sum((2 ** x - 1) / math.log2(i + 2) for i, x in enumerate(r))


@facet(metric_cases(), quick=400, shards=2)
def metrics(case, rec):
    """Slate metrics (sum, DCG, NDCG, ERR) and reward distributions follow their definitions, slates of every size in turn"""
    from reagent.ope.estimators import slate_estimators as L

    c = case
    k = c["k"]
    rel = values_of(L.SlateItemValues, c["keyed"], c["rel"])
    dev = torch.device("cpu") if c["det"] else None
    nd, dc, er_, sm = L.NDCGSlateMetric(rel, dev), L.DCGSlateMetric(dev), L.ERRSlateMetric(c["mx"], dev), L.SlateMetric(dev)
    feats = (L.SlateItemFeatures({item(True, i): torch.tensor([float(i), i * 2.0]) for i in range(k)}) if c["keyed"]
             else L.SlateItemFeatures(torch.tensor([[float(i), i * 2.0] for i in range(k)])))
    for n in c["sizes"]:
        slots = slots_of(c["named"], n)
        o = c["order"][:n]
        r = [c["rel"][i] for i in o]
        sl = L.make_slate(slots, [item(c["keyed"], i) for i in o])
        sv = sl.slot_values(rel)
        close(sv.values, r, "rewards by slot")
        equal(list(sv.keys), [slot(c["named"], n, t) for t in range(n)], "slots of rewards")
        sf = sl.slot_features(feats)
        close(sf.features, [[float(i), i * 2.0] for i in o], "features by slot")
        sf[slot(c["named"], n, 0)].add_(1.0)
        close(feats[item(c["keyed"], o[0])], [float(o[0]), o[0] * 2.0], "features of an item after a change of the slot's")
        oh = sl.one_hots(L.SlateItems([item(True, i) for i in range(k)]) if c["keyed"] else L.SlateItems(k))
        close(oh, np.eye(k)[o], "one hots")
        close(sm(slots, sv), sum(r), "sum of rewards", 1e-6, 1e-8)
        close(dc(slots, sv), dcg(r), "DCG", 1e-6, 1e-8)
        ideal = dcg(sorted(c["rel"], reverse=True)[:n])
        close(nd(slots, sv), dcg(r) / ideal if ideal > 0 else 0.0, "NDCG", 1e-6, 1e-8)
        p, err = 1.0, 0.0
        for i, x in enumerate(r):
            R = (2 ** min(max(x, 0), c["mx"]) - 1) / 2 ** c["mx"]
            err += p * R / (i + 1)
            p *= 1 - R
        close(er_(slots, sv), err, "ERR", 1e-6, 1e-8)
        wt = slots.fill(c["wts"][:n])
        close(sm.calculate_reward(slots, sv, None, wt), float(np.dot(c["wts"][:n], r)), "weighted reward", 1e-5, 1e-6)
    # distributions from rewards
    sc = values_of(L.SlateItemValues, c["keyed"], c["sc"])
    keys = [item(c["keyed"], i) for i in range(k)]
    s = np.array(c["sc"])
    rank = np.empty(k)
    rank[np.argsort(-s)] = np.arange(1, k + 1)
    for dist, w in ((L.PassThruDistribution(c["det"]), s), (L.FrechetDistribution(c["shape"], c["det"]), s ** c["shape"]),
                    (L.RankingDistribution(c["alpha"], c["det"]), s if c["alpha"] < 0 else 2.0 ** -np.floor(c["alpha"] * np.log2(rank) + 1e-12))):
        d = dist(sc)
        close([d[x] for x in keys], w, f"{dist}: weights", 1e-6, 1e-8)
        equal(d.is_deterministic, c["det"], f"{dist}: deterministic")
    close(sc.values, s, "rewards unchanged")
    rec.nt(k > 2)
