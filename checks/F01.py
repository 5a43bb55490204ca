"""Turning logged tables into training datasets (on an in-memory stand-in for PySpark)."""
import zlib

import numpy as np
from hypothesis import strategies as st

from models import fakespark
from models.nets import rng_of
from vlib.core import Inconclusive, close, equal, facet, raises, require, same

RULE = ("a case is a table of logged steps (sparse maps, single or multi-step) and query options; non-trivial = two or more rows and "
        "two or more feature names")

ACTIONS = ["L", "R", "U", "LR", "UD"]
# episodes whose hashes are the least, the greatest and a half
EDGES = ["aaurSyQj", "aabayIJy"]
EXPRS = {  # SQL -> python over a row's columns; None where SQL gives NULL
    "POWER(reward, 3) + 10": lambda r: None if r["reward"] is None else r["reward"] ** 3 + 10,
    "reward * 2 - 1": lambda r: None if r["reward"] is None else r["reward"] * 2 - 1,
    "reward / action_probability": lambda r: None if r["reward"] is None or r["action_probability"] in (None, 0) else r["reward"] / r["action_probability"],
    "GREATEST(reward, 0)": lambda r: None if r["reward"] is None else max(r["reward"], 0),
    "action_probability": lambda r: r["action_probability"],
}


@st.composite
def tables(draw):
    rng = rng_of(draw)
    n = draw(st.integers(1, 6))
    discrete = draw(st.booleans())
    multi = draw(st.sampled_from([None, None, 1, 2, 3, 5]))
    k = draw(st.integers(1, 4))
    actions = [ACTIONS[i] for i in rng.permutation(5)[:k]]
    F = lambda: round(float(rng.uniform(-3, 3)), 2)  # noqa: E731
    num = lambda names, p=0.6: {str(x): (F() if rng.rand() < 0.9 else None if rng.rand() < 0.5 else 0.0) for x in names if rng.rand() < p}  # noqa: E731
    ids = [int(x) for x in rng.permutation(60)[: draw(st.integers(1, 4))]]
    aids = [int(x) + 100 for x in rng.permutation(60)[: draw(st.integers(1, 3))]]
    mets = ["reward", "click", "m2"][: draw(st.integers(1, 3))]
    null_reward = draw(st.booleans())
    rows = []
    for i in range(n):
        L = rng.randint(1, multi + 1) if multi else 1
        if multi and draw(st.booleans()):
            L = min(multi, L)
        more = L + (rng.randint(0, 3) if multi and L == multi else 0)
        end = rng.rand() < 0.4 and more <= (multi or 1)  # the step after the last one is terminal
        seq = []
        for j in range(more):
            last = j == more - 1 and end
            na = ("" if last else actions[rng.randint(k)]) if discrete else ({} if last else num(aids, 0.7) or {str(aids[0]): F()})
            seq.append(dict(ns=num(ids), na=na, td=int(rng.randint(1, 5)), m=num(mets, 0.8),
                            pna=[""] if last else [a for a in actions if rng.rand() < 0.6] if discrete else []))
        rows.append(dict(mdp_id=f"m{rng.randint(0, 4) if rng.rand() < 0.5 else rng.randint(0, 400)}" if rng.rand() < 0.85 else EDGES[rng.randint(2)], seq=int(rng.randint(0, 50)), ordinal=i + 1, sf=num(ids), steps=seq,
                         action=actions[rng.randint(k)] if discrete else num(aids, 0.7), prob=round(float(rng.uniform(0, 1)), 2),
                         pa=[a for a in actions if rng.rand() < 0.6],
                         reward=[F() for _ in range(min(L, multi))] if multi else (None if null_reward and rng.rand() < 0.4 else F())))
    rng_ = draw(st.sampled_from([None, [0.0, 100.0], [0.0, 50.0], [25.0, 75.0], [50.0, 100.0], [30.0, 30.0], [0.0, 33.3], [12.99, 99.9],
                                   [0.0, 0.0], [100.0, 100.0]]))
    return dict(rows=rows, discrete=discrete, multi=multi, actions=actions, gamma=draw(st.sampled_from([0.0, 0.5, 0.9, 1.0])),
                expr=draw(st.sampled_from([None] + sorted(EXPRS))) if not multi else draw(st.sampled_from([None, None, "action_probability"])), range=rng_, unseen=draw(st.booleans()))


def ints(m):
    return {int(k): v for k, v in m.items()}


def load(c, name="logged"):
    """put the table where spark finds it; -> rows as given"""
    out = []
    for r in c["rows"]:
        S = r["steps"]
        pick = (lambda f: [f(x) for x in S]) if c["multi"] else (lambda f: f(S[0]))
        row = dict(mdp_id=r["mdp_id"], sequence_number=r["seq"], sequence_number_ordinal=r["ordinal"], state_features=ints(r["sf"]),
                   action=r["action"] if c["discrete"] else ints(r["action"]), action_probability=r["prob"], reward=r["reward"],
                   next_state_features=pick(lambda x: ints(x["ns"])), next_action=pick(lambda x: x["na"] if c["discrete"] else ints(x["na"])),
                   time_diff=pick(lambda x: x["td"]), metrics=pick(lambda x: dict(x["m"])), ds="2019-07-17")
        if c["discrete"]:
            row.update(possible_actions=list(r["pa"]), possible_next_actions=pick(lambda x: list(x["pna"])))
        out.append(row)
    fakespark.SESSION.tables[name] = fakespark.Frame(list(out[0]), out)
    return out


def dense(m, keys):
    return [[m.get(k) is not None for k in keys], [float(m[k]) if m.get(k) is not None else 0.0 for k in keys]]


def expected(c):
    rows = []
    nxt = lambda r: r["steps"][min(len(r["steps"]), c["multi"] or 1) - 1]  # noqa: E731
    ids = sorted({int(k) for r in c["rows"] for m in [r["sf"]] + [s["ns"] for s in r["steps"]] for k in m})
    mets = sorted({k for r in c["rows"] for s in r["steps"] for k in s["m"]})
    aids = None if c["discrete"] else sorted({int(k) for r in c["rows"] for m in [r["action"]] + [s["na"] for s in r["steps"]] for k in m})
    for r in c["rows"]:
        x = nxt(r)
        if c["multi"] and not c["expr"]:
            rew = sum(c["gamma"] ** j * v for j, v in enumerate(r["reward"]))
        elif c["expr"]:
            rew = EXPRS[c["expr"]](dict(reward=r["reward"], action_probability=r["prob"]))
            rew = 0.0 if rew is None else rew
        else:
            rew = r["reward"]
        h = zlib.crc32(r["mdp_id"].encode())
        if c["range"] and not c["range"][0] / 100 * 4294967295 <= h <= c["range"][1] / 100 * 4294967295:
            continue
        e = dict(reward=rew, mdp_id=h, sequence_number=r["ordinal"], step=min(len(r["steps"]), c["multi"]) if c["multi"] else 1,
                 time_diff=x["td"], action_probability=r["prob"])
        for n, m, keys in [("state_features", ints(r["sf"]), ids), ("next_state_features", ints(x["ns"]), ids), ("metrics", x["m"], mets)]:
            e[n + "_presence"], e[n] = dense(m, keys)
        A = c["actions"]
        if c["discrete"]:
            e.update(action=A.index(r["action"]), next_action=A.index(x["na"]) if x["na"] in A else len(A), not_terminal=x["na"] in A,
                     possible_actions_mask=[int(a in r["pa"]) for a in A], possible_next_actions_mask=[int(a in x["pna"]) for a in A])
        else:
            e["not_terminal"] = len(x["na"]) > 0
            for n, m in [("action", ints(r["action"])), ("next_action", ints(x["na"]))]:
                e[n + "_presence"], e[n] = dense(m, aids)
        rows.append(e)
    return rows


def query(c, name="logged", rng="given"):
    from reagent.workflow.data_fetcher import query_data
    from reagent.workflow.types import TableSpec

    kw = dict(input_table_spec=TableSpec(table_name=name), discrete_action=c["discrete"], custom_reward_expression=c["expr"],
              sample_range=(tuple(c["range"]) if c["range"] else None) if rng == "given" else rng, multi_steps=c["multi"],
              gamma=c["gamma"] if c["multi"] else None)
    if c["discrete"]:
        kw["actions"] = list(c["actions"])
    else:
        kw["include_possible_actions"] = False
    return query_data(**kw)


@facet(tables(), quick=400, shards=4)
def datasets(c, rec):
    fakespark.install()
    from reagent.workflow.types import Dataset

    load(c)
    want = expected(c)
    rec.nt(len(c["rows"]) > 1 and len({k for r in c["rows"] for k in r["sf"]}) > 1)
    rec.label("discrete" if c["discrete"] else "parametric", "multi" if c["multi"] else "single", "sampled" if c["range"] else "all")
    ds = query(c)
    require(isinstance(ds, Dataset), "returned a %s", type(ds))
    require(len(fakespark.SESSION.saved) == 1, "tables written: %s", fakespark.SESSION.saved)
    got = fakespark.parquet(ds.parquet_url).rows
    equal(len(got), len(want), "rows")
    for g, w in zip(got, want):
        equal(sorted(g), sorted(w), "columns")
        for k, v in w.items():
            if v is None:
                require(g[k] is None, f"{k}: %s, expected NULL", g[k])
            else:
                require(g[k] is not None, f"{k}: NULL, expected %s", v)
                close(np.array(g[k], float), np.array(v, float), k, rtol=1e-5, atol=1e-5)
        for k in g:
            kind = float if k in ("reward", "action_probability") else bool if k == "not_terminal" or k.endswith("presence") else None
            vals = g[k] if isinstance(g[k], list) else [g[k]]
            if kind and any(v is not None and type(v) is not kind for v in vals):
                require(False, f"{k} is of type %s", [type(v) for v in vals])
    # another query of the same table gives another dataset with the same rows, and the table is left alone
    ds2 = query(c)
    require(ds2.parquet_url != ds.parquet_url, "a dataset was overwritten")
    equal(fakespark.parquet(ds2.parquet_url).rows, got, "the same query again")
    # training and evaluation ranges that meet split the episodes
    if c["range"] is None:
        for cut in (20.0, 50.0, 80.0, 33.99):
            a, b = (fakespark.parquet(query(c, rng=r).parquet_url).rows for r in ((0.0, cut), (cut, 100.0)))
            equal(sorted(map(repr, a + b)), sorted(map(repr, got)), f"rows of both sides of {cut}%")
            require(not {r["mdp_id"] for r in a} & {r["mdp_id"] for r in b}, "an episode is on both sides")


@facet(tables(), quick=80, shards=2)
def refusals(c, rec):
    fakespark.install()
    load(c)
    rec.nt(len(c["rows"]) > 1)
    for bad in [(-1.0, 50.0), (60.0, 50.0), (0.0, 101.0)]:
        raises(AssertionError, lambda: query(c, rng=bad), f"sample range {bad} was accepted")
    if c["multi"] and not c["expr"]:
        raises(AssertionError, lambda: query(dict(c, gamma=None)), "multi-step rewards without a discount")
    if c["discrete"]:
        from reagent.workflow.data_fetcher import query_data
        from reagent.workflow.types import TableSpec

        raises(AssertionError, lambda: query_data(TableSpec(table_name="logged"), True, multi_steps=c["multi"], gamma=0.5), "no actions given")
    else:
        from reagent.workflow.data_fetcher import query_data
        from reagent.workflow.types import TableSpec

        raises((AssertionError, NotImplementedError), lambda: query_data(TableSpec(table_name="logged"), False, multi_steps=c["multi"], gamma=0.5, include_possible_actions=True),
               "possible actions of parametric data")
    require(fakespark.SESSION.saved == [], "a refused query wrote %s", fakespark.SESSION.saved)
