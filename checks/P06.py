"""Sparse id features."""
import numpy as np
import torch
from hypothesis import strategies as st

from vlib.core import close, equal, facet, raises, require, same

RULE = ("a case is a feature configuration (id-list and id-score-list features sharing or not sharing "
        "id tables) and a batch with known and unknown features; non-trivial = at least one known "
        "feature with two or more ids and one unknown feature")


@st.composite
def cases(draw):
    tables = {f"t{k}": draw(st.lists(st.integers(0, 10 ** 9), min_size=1, max_size=6, unique=True))
              for k in range(draw(st.integers(1, 3)))}
    n = draw(st.integers(1, 5))
    fids = draw(st.lists(st.integers(0, 99), min_size=n, max_size=n, unique=True))
    feats = [dict(id=f, name=f"n{i}", table=draw(st.sampled_from(sorted(tables))),
                  scored=draw(st.booleans())) for i, f in enumerate(fids)]
    B = draw(st.integers(1, 4))

    def column(table, scored):
        rows = [draw(st.lists(st.sampled_from(tables[table]), max_size=4)) for _ in range(B)]
        sc = [[draw(st.integers(-20, 20)) / 4 for _ in r] for r in rows]
        return dict(rows=rows, scores=sc if scored else None)

    cols = [dict(fid=f["id"], known=True, **column(f["table"], f["scored"])) for f in feats
            if draw(st.integers(0, 3)) > 0]
    for fid in draw(st.lists(st.integers(100, 120), max_size=2, unique=True)):
        cols.append(dict(fid=fid, known=False, **column(draw(st.sampled_from(sorted(tables))),
                                                       draw(st.booleans()))))
    return dict(tables=tables, feats=feats, cols=cols,
                unmapped=draw(st.booleans()), serving_first=draw(st.booleans()))


def config(case):
    import reagent.types as rlt

    return rlt.ModelFeatureConfig(
        float_feature_infos=[],
        id_mapping_config={k: rlt.IdMapping(ids=v) for k, v in case["tables"].items()},
        id_list_feature_configs=[
            rlt.IdListFeatureConfig(name=f["name"], feature_id=f["id"], id_mapping_name=f["table"])
            for f in case["feats"] if not f["scored"]],
        id_score_list_feature_configs=[
            rlt.IdScoreListFeatureConfig(name=f["name"], feature_id=f["id"], id_mapping_name=f["table"])
            for f in case["feats"] if f["scored"]])


def tensors(c):
    flat = [x for r in c["rows"] for x in r]
    off = list(np.cumsum([0] + [len(r) for r in c["rows"]])[:-1])
    t = (torch.tensor(off, dtype=torch.int32), torch.tensor(flat, dtype=torch.int64))
    if c["scores"] is None:
        return t
    return t + (torch.tensor([x for r in c["scores"] for x in r], dtype=torch.float32),)


def check(case, out, scored):
    byid = {f["id"]: f for f in case["feats"]}
    want = {}
    for c in case["cols"]:
        if (c["scores"] is not None) == scored and c["known"]:
            want[byid[c["fid"]]["name"]] = c
    equal(set(out), set(want), "features kept")
    for name, c in want.items():
        f = byid[c["fid"]]
        table = case["tables"][f["table"]]
        ts = tensors(c)
        same(out[name][0], ts[0].numpy(), f"{name} offsets")
        equal(out[name][1].tolist(), [table.index(int(x)) for x in ts[1]], f"{name} table rows")
        if scored:
            same(out[name][2], ts[2].numpy(), f"{name} scores")


@facet(cases(), quick=350, shards=8)
def ids_become_table_rows(case, rec):
    from reagent.preprocessing.sparse_preprocessor import make_sparse_preprocessor
    from reagent.preprocessing.transforms import MapIDListFeatures

    cfg = config(case)
    byid = {f["id"]: f for f in case["feats"]}
    equal(dict(cfg.id2name), {f["id"]: f["name"] for f in case["feats"]}, "id to name")
    equal(dict(cfg.name2id), {f["name"]: f["id"] for f in case["feats"]}, "name to id")
    equal({k: v.id_mapping_name for k, v in cfg.name2config.items()},
          {f["name"]: f["table"] for f in case["feats"]}, "name to table")
    for k, v in case["tables"].items():
        equal(cfg.id_mapping_config[k].table_size, len(v), "table size")
    sp = make_sparse_preprocessor(cfg, torch.device("cpu"))
    lists = {c["fid"]: tensors(c) for c in case["cols"] if c["scores"] is None}
    scored = {c["fid"]: tensors(c) for c in case["cols"] if c["scores"] is not None}
    check(case, sp.preprocess_id_list(lists), False)
    check(case, sp.preprocess_id_score_list(scored), True)
    # the batch transform does the same and leaves other keys alone
    tr = MapIDListFeatures(["L", "L2"], ["S", "S2"], cfg, torch.device("cpu"))
    other = torch.arange(3.0)
    data = tr({"L": lists, "S": scored, "x": other})
    require(data["x"] is other and data["L2"] is None and data["S2"] is None, "other keys changed")
    check(case, data["L"], False)
    check(case, data["S"], True)
    if case["unmapped"] and case["cols"]:
        for c in case["cols"]:
            if c["known"] and c["scores"] is None:
                bad = dict(lists)
                bad[c["fid"]] = (torch.tensor([0], dtype=torch.int32), torch.tensor([-5]))
                raises(Exception, lambda: sp.preprocess_id_list(bad), "an id outside the table")
                rec.label("unmapped id")
                break
    rec.nt(any(c["known"] and sum(map(len, c["rows"])) > 1 for c in case["cols"])
           and any(not c["known"] for c in case["cols"]))


@st.composite
def dups(draw):
    n = draw(st.integers(2, 4))
    return dict(n=n, ids=draw(st.lists(st.integers(1, 4), min_size=n, max_size=n)),
                names=draw(st.lists(st.sampled_from("abcd"), min_size=n, max_size=n)),
                scored=draw(st.lists(st.booleans(), min_size=n, max_size=n)))


@facet(dups(), quick=300, shards=1)
def duplicate_features_are_refused(case, rec):
    case = dict(case, tables={"t": [1]})
    case["feats"] = [dict(id=i, name=nm, table="t", scored=s)
                     for i, nm, s in zip(case["ids"], case["names"], case["scored"])]
    bad = len(set(case["ids"])) < case["n"] or len(set(case["names"])) < case["n"]
    if bad:
        raises((AssertionError, ValueError), lambda: config(case), "duplicate feature id or name")
        rec.nt()
    else:
        config(case)
