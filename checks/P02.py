"""Missing features and independence of rows and features."""
import torch
from hypothesis import strategies as st

from checks.P01 import run
from models import norm
from vlib.core import close, equal, facet, require, same

RULE = ("a case is a normalisation map, a batch with presence flags, replacement values for the "
        "missing entries, a row permutation and a feature subset; non-trivial = some value is "
        "missing, at least two rows and two features")


@st.composite
def cases(draw):
    sp = draw(norm.spec(min_size=2))
    rows, pres = draw(norm.batch(sp, min_rows=2))
    o = norm.order(sp)
    junk = [[draw(st.one_of(norm.value(f), st.sampled_from([-1337.1337, 1e6, -1e6, 0.0])))
             for _, f in o] for _ in rows]
    keep = draw(st.lists(st.integers(0, len(o) - 1), min_size=1, unique=True))
    return dict(spec=sp, rows=rows, pres=pres, dtype="bool", junk=junk,
                perm=draw(st.permutations(range(len(rows)))), keep=sorted(keep))


@facet(cases(), quick=1500, shards=8)
def missing_values_never_matter(case, rec):
    _, base = run(case)
    o = norm.order(case["spec"])
    # a missing feature reads as zero whatever its value
    mixed = [[x if p else j for x, j, p in zip(r, jr, pr)]
             for r, jr, pr in zip(case["rows"], case["junk"], case["pres"])]
    _, out = run(dict(case, rows=mixed))
    same(out, base.numpy(), "output after changing values that are not present")
    col = 0
    for k, (_, f) in enumerate(o):
        w = norm.width(f)
        for i, pr in enumerate(case["pres"]):
            if not pr[k]:
                require(bool((base[i, col:col + w] == 0).all()),
                        f"missing {f['feature_type']} produced {base[i, col:col + w].tolist()}")
        col += w
    equal(col, base.shape[1], "output width")
    flat = [x for r in case["pres"] for x in r]
    rec.nt(not all(flat))


@facet(cases(), quick=900, shards=6)
def rows_and_features_are_independent(case, rec):
    _, base = run(case)
    perm = case["perm"]
    _, out = run(dict(case, rows=[case["rows"][i] for i in perm], pres=[case["pres"][i] for i in perm]))
    close(out, base[list(perm)].numpy(), "permuted rows", rtol=1e-6, atol=1e-6)
    _, out = run(dict(case, rows=case["rows"][:1], pres=case["pres"][:1]))
    close(out, base[:1].numpy(), "first row alone", rtol=1e-6, atol=1e-6)
    # the columns of a subset of the features do not depend on the other features
    o = norm.order(case["spec"])
    kept = [o[k] for k in case["keep"]]
    sub = dict(case, spec=list(reversed(kept)),
               rows=[[r[k] for k in case["keep"]] for r in case["rows"]],
               pres=[[r[k] for k in case["keep"]] for r in case["pres"]])
    _, out = run(sub)
    cols, c = [], 0
    for k, (_, f) in enumerate(o):
        w = norm.width(f)
        if k in case["keep"]:
            cols += list(range(c, c + w))
        c += w
    close(out, base[:, cols].numpy(), "subset of the features", rtol=1e-6, atol=1e-6)
    rec.nt(len(kept) < len(o) and list(perm) != sorted(perm))
