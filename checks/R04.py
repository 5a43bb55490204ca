"""Sum tree."""
import random
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from vlib.core import close, equal, facet, raises, require

RULE = ("a case is a capacity and a sequence of leaf updates and queries, compared with a plain list "
        "of leaf values after every operation; non-trivial = at least three distinct leaves were "
        "written, one of them twice, and the capacity is not a power of two or exceeds 4")

# multiples of 1/8 keep every sum exact in floating point
val = st.integers(0, 400).map(lambda k: k / 8)


@st.composite
def cases(draw):
    cap = draw(st.integers(1, 40))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("set"), st.integers(0, cap - 1), val),
        st.tuples(st.just("sample"), st.one_of(st.integers(0, 9999).map(lambda x: x / 10000),
                                               st.just(1.0))),
        st.tuples(st.just("strat"), st.integers(1, 8)),
        st.tuples(st.just("draw"))), min_size=1, max_size=40))
    return dict(cap=cap, ops=ops)


@facet(cases(), quick=4000, shards=6)
def agrees_with_list(case, rec):
    from reagent.replay_memory.sum_tree import SumTree

    cap = case["cap"]
    t, leaves, mx = SumTree(cap), [0.0] * cap, 1.0
    writes = {}
    for op in case["ops"]:
        total = sum(leaves)
        if op[0] == "set":
            t.set(op[1], op[2])
            leaves[op[1]] = op[2]
            mx = max(mx, op[2])
            writes[op[1]] = writes.get(op[1], 0) + 1
        elif total == 0:
            raises(Exception, lambda: t.sample() if op[0] != "strat" else
                   t.stratified_sample(op[1]), "sampling an empty tree")
            continue
        elif op[0] == "sample":
            q = op[1]
            i = t.sample(q)
            lo = sum(leaves[:i])
            x = q * total
            require(leaves[i] > 0, f"sample({q}) returned leaf {i} of weight 0")
            require(lo - 1e-9 * total <= x <= lo + leaves[i] + 1e-9 * total,
                    f"sample({q}) returned leaf {i} covering [{lo},{lo + leaves[i]}), not {x}")
        elif op[0] == "strat":
            k = op[1]
            out = t.stratified_sample(k)
            equal(len(out), k, "number of stratified draws")
            for j, i in enumerate(out):
                lo, hi = sum(leaves[:i]), sum(leaves[:i + 1])
                a, b = j / k * total, (j + 1) / k * total
                require(leaves[i] > 0, f"stratified draw returned leaf {i} of weight 0")
                require(hi >= a - 1e-9 * total and lo <= b + 1e-9 * total,
                        f"draw {j} of {k} returned leaf {i} outside its stratum")
        else:
            i = t.sample()
            require(0 <= i < cap and leaves[i] > 0, f"drew leaf {i} of weight 0")
        for i in range(cap):
            equal(float(t.get(i)), leaves[i], f"leaf {i}")
        equal(float(t.max_recorded_priority), mx, "largest priority seen")
    rec.nt(len(writes) >= 3 and max(writes.values()) > 1 and (cap > 4 or cap & (cap - 1)))
    rec.label("pow2" if cap & (cap - 1) == 0 else "not pow2")


real = st.one_of(st.floats(0, 1), st.floats(0, 1e5), st.sampled_from([0.0, 0.1, 1e-3, 1e6]))


@st.composite
def real_cases(draw):
    cap = draw(st.integers(1, 20))
    return dict(cap=cap, ops=draw(st.lists(st.tuples(st.integers(0, cap - 1), real), min_size=1,
                                           max_size=30)),
                qs=draw(st.lists(st.floats(0, 1), min_size=1, max_size=6)))


@facet(real_cases(), quick=2000, shards=2)
def arbitrary_weights_keep_double_precision(case, rec):
    from reagent.replay_memory.sum_tree import SumTree

    cap = case["cap"]
    t, leaves = SumTree(cap), [0.0] * cap
    tol = 0.0
    for i, v in case["ops"]:
        t.set(i, v)
        leaves[i] = v
        tol = max(tol, 1e-12 * (v + sum(leaves)))
        for j in range(cap):
            close(float(t.get(j)), leaves[j], f"leaf {j}", rtol=0, atol=tol)
    total = sum(leaves)
    if total <= 1e-6:
        return
    for q in case["qs"]:
        i = t.sample(q)
        require(i < cap, f"sample({q}) returned leaf {i} of {cap}")
        lo, hi = sum(leaves[:i]), sum(leaves[:i + 1])
        x = q * total
        require(lo - 100 * tol <= x <= hi + 100 * tol,
                f"sample({q}) returned leaf {i} covering [{lo},{hi}), not {x}")
    rec.nt(len({v for v in leaves if v}) > 1)


@st.composite
def bad(draw):
    cap = draw(st.integers(1, 20))
    return dict(cap=cap, i=draw(st.integers(0, cap - 1)),
                v=draw(st.floats(-100, -1e-3)), init=draw(st.lists(val, min_size=cap, max_size=cap)),
                q=draw(st.one_of(st.floats(1.01, 50), st.floats(-50, -0.01))))


@facet(bad(), quick=500, shards=1)
def invalid_requests_are_refused(case, rec):
    from reagent.replay_memory.sum_tree import SumTree

    t = SumTree(case["cap"])
    for i, v in enumerate(case["init"]):
        t.set(i, v)
    raises(ValueError, lambda: t.set(case["i"], case["v"]), "negative priority")
    if sum(case["init"]) > 0:
        raises(ValueError, lambda: t.sample(case["q"]), "query outside [0, 1]")
        rec.nt()
    for i, v in enumerate(case["init"]):
        equal(float(t.get(i)), v, "leaf after refused requests")
    raises(ValueError, lambda: SumTree(1 - case["cap"]), "capacity below 1")


@st.composite
def dist(draw):
    cap = draw(st.integers(2, 17))
    return dict(vals=draw(st.lists(val, min_size=cap, max_size=cap)))


@facet(dist(), quick=80, shards=2)
def draw_frequencies(case, rec):
    from reagent.replay_memory.sum_tree import SumTree

    vals = case["vals"]
    t = SumTree(len(vals))
    for i, v in enumerate(vals):
        t.set(i, v)
    if sum(vals) == 0:
        return
    n = 2000
    c = np.bincount([t.sample() for _ in range(n)], minlength=len(vals))
    for i, v in enumerate(vals):
        p = v / sum(vals)
        require(abs(c[i] - n * p) < 7 * (np.sqrt(n * p * (1 - p)) + 1),
                f"leaf {i} drawn {c[i]} of {n}, probability {p:.4f}")
    rec.nt(len({v for v in vals if v}) > 1)
