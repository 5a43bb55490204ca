"""JSON serialization of configurations and results, and small tensor utilities."""
import dataclasses
import json
import math
from typing import Dict, List, NamedTuple, Optional

import numpy as np
import torch
from hypothesis import strategies as st

from models.nets import T, arr
from vlib.core import Inconclusive, close, equal, facet, raises, require, same

RULE = ("a case is a set of nested record types with values of them, or tensors with masks, temperatures and ranges; non-trivial = a "
        "nested record inside a container, or two or more rows or parts")

LEAF = dict(int=int, float=float, str=str, bool=bool)


@st.composite
def types(draw, depth=0, n=None):
    k = draw(st.sampled_from(["int", "float", "str", "bool"] + (["list", "dict", "opt", "rec", "rec"] if depth < 3 else [])))
    if isinstance(k, str) and k in LEAF:
        return k
    if k == "rec":
        names = draw(st.lists(st.sampled_from(["a", "b", "c", "d"]), min_size=1, max_size=3, unique=True))
        return ["rec", [[n, draw(types(depth + 1))] for n in names], draw(st.booleans())]
    return [k, draw(types(depth + 1))]


def values(t):
    if t == "int":
        return st.integers(-10**6, 10**6)
    if t == "float":
        return st.floats(-1e6, 1e6)
    if t == "str":
        return st.text(max_size=4)
    if t == "bool":
        return st.booleans()
    if t[0] == "list":
        return st.lists(values(t[1]), max_size=3)
    if t[0] == "dict":
        return st.dictionaries(st.text(max_size=3), values(t[1]), max_size=3)
    if t[0] == "opt":
        return st.none() | values(t[1])
    return st.fixed_dictionaries({n: values(x) for n, x in t[1]})


@st.composite
def json_cases(draw):
    names = draw(st.lists(st.sampled_from(["a", "b", "c", "d"]), min_size=1, max_size=4, unique=True))
    t = ["rec", [[n, draw(types(1))] for n in names], draw(st.booleans())]
    return dict(t=t, v=draw(values(t)), top=draw(st.sampled_from(["dataclass", "dataclass", "namedtuple"])), drop=draw(st.integers(0, 3)))


def build(t, made):
    from reagent.core.dataclasses import dataclass

    if isinstance(t, str):
        return LEAF[t]
    if t[0] == "list":
        return List[build(t[1], made)]
    if t[0] == "dict":
        return Dict[str, build(t[1], made)]
    if t[0] == "opt":
        return Optional[build(t[1], made)]
    key = json.dumps(t)
    if key not in made:
        ann = {n: build(x, made) for n, x in t[1]}
        cls = type(f"R{len(made)}", (), {"__annotations__": ann, "__module__": __name__})
        made[key] = (dataclass if t[2] else dataclasses.dataclass)(cls)
    return made[key]


def make(t, v, made):
    if v is None or isinstance(t, str):
        return v
    if t[0] == "list":
        return [make(t[1], x, made) for x in v]
    if t[0] == "dict":
        return {k: make(t[1], x, made) for k, x in v.items()}
    if t[0] == "opt":
        return make(t[1], v, made)
    return build(t, made)(**{n: make(x, v[n], made) for n, x in t[1]})


def shape(t, v, x, made, path="value"):
    """x is v, with every record of the right type"""
    if v is None:
        require(x is None, f"{path}: %s, expected None", x)
    elif isinstance(t, str):
        require(type(x) is LEAF[t] or (t == "float" and type(x) in (int, float)), f"{path}: type %s", type(x))
        require(x == v, f"{path}: %s, expected %s", x, v)
    elif t[0] == "list":
        require(type(x) is list and len(x) == len(v), f"{path}: %s", x)
        for i, (p, q) in enumerate(zip(v, x)):
            shape(t[1], p, q, made, f"{path}[{i}]")
    elif t[0] == "dict":
        require(type(x) is dict and set(x) == set(v), f"{path}: %s", x)
        for k in v:
            shape(t[1], v[k], x[k], made, f"{path}[{k!r}]")
    elif t[0] == "opt":
        shape(t[1], v, x, made, path)
    else:
        require(type(x) is build(t, made), f"{path}: a %s, expected %s", type(x), build(t, made))
        for n, s in t[1]:
            shape(s, v[n], getattr(x, n), made, f"{path}.{n}")


def nested(t, inside=False):
    if isinstance(t, str):
        return False
    if t[0] == "rec":
        return inside or any(nested(x) for _, x in t[1])
    return nested(t[1], True)


@facet(json_cases(), quick=800, shards=4)
def round_trip(c, rec):
    from reagent import json_serialize as js

    t, v, made = c["t"], c["v"], {}
    rec.nt(nested(t))
    rec.label(c["top"], "pydantic" if t[2] else "dataclass")
    if c["top"] == "namedtuple":
        # fields are prepared one by one: every field of a named tuple may be a record
        N = NamedTuple("N", [(n, build(x, made)) for n, x in t[1]])
        o = N(**{n: make(x, v[n], made) for n, x in t[1]})
        if any(not isinstance(x, str) and x[0] in ("list", "dict") and nested(x) for _, x in t[1]) or any(not isinstance(x, str) and x[0] == "opt" and nested(x[1], False) for _, x in t[1]):
            raise Inconclusive("records inside containers of a named tuple")
        d = js.prepare_for_json(o)
        equal(json.loads(json.dumps(d)), v, "prepared named tuple")
        back = js.from_json(json.loads(json.dumps(d)), N)
        require(type(back) is N, "read back a %s", type(back))
        for n, x in t[1]:
            shape(x, v[n], getattr(back, n), made, n)
        raises(AssertionError, lambda: js.object_to_json(o), "something else than a dataclass was serialized")
        raises(AssertionError, lambda: js.json_to_object("{}", N), "something else than a dataclass was deserialized")
        raises(AssertionError, lambda: js.from_json({**d, "zzz": 1}, N), "an unknown field was accepted")
        return
    cls = build(t, made)
    o = make(t, v, made)
    text = js.object_to_json(o)
    equal(json.loads(text), v, "serialized record")
    back = js.json_to_object(text, cls)
    shape(t, v, back, made)
    require(back == o, "read back %s, expected %s", back, o)
    raises(AssertionError, lambda: js.json_to_object(json.dumps({**v, "zzz": 1}), cls), "an unknown field was accepted")
    # a record of nothing is a record, not nothing
    blank = dataclasses.make_dataclass("Blank", [("p", int, 3), ("q", Optional[cls], None)])
    around = dataclasses.make_dataclass("Around", [("one", blank), ("many", List[blank]), ("named", Dict[str, blank]), ("maybe", Optional[blank], None)])
    none = blank()
    require(js.json_to_object("{}", blank) == none, "an empty object is not the record of defaults")
    require(js.json_to_object('{"one": {}, "many": [{}, {"p": 4}], "named": {"": {}}, "maybe": {}}', around) == around(none, [none, blank(4)], {"": none}, none),
            "empty objects inside a record are not records of defaults")
    require(js.from_json(None, cls) is None, "null is not None")
    for n, x in t[1]:
        if not isinstance(x, str) and x[0] in ("list", "dict"):
            wrong = {"k": 1} if x[0] == "list" else [1]
            raises(AssertionError, lambda: js.json_to_object(json.dumps({**v, n: wrong}), cls), f"{n} of another kind was accepted")


@st.composite
def real_cases(draw):
    F = lambda lo, hi: st.floats(lo, hi)
    opt = lambda **k: st.fixed_dictionaries({}, optional=k)
    which = draw(st.sampled_from(["NormalizationParameters", "RLParameters", "CEMTrainerParameters", "EvaluationParameters"]))
    kw = draw(dict(
        NormalizationParameters=st.fixed_dictionaries(dict(feature_type=st.sampled_from(["CONTINUOUS", "BOXCOX", "ENUM", "QUANTILE"])), optional=dict(
            boxcox_lambda=F(-2, 2), boxcox_shift=F(-2, 2), mean=F(-5, 5), stddev=F(0, 5), possible_values=st.lists(st.integers(-9, 9), max_size=4),
            quantiles=st.lists(F(-5, 5), max_size=4), min_value=F(-5, 5), max_value=F(-5, 5))),
        RLParameters=opt(gamma=F(0, 1), epsilon=F(0, 1), target_update_rate=F(0, 1), maxq_learning=st.booleans(), temperature=F(0.1, 2),
                         multi_steps=st.integers(1, 5), reward_boost=st.dictionaries(st.text(max_size=3), F(-2, 2), max_size=3)),
        CEMTrainerParameters=opt(plan_horizon_length=st.integers(1, 9), num_elites=st.integers(1, 9)),
        EvaluationParameters=opt(calc_cpe_in_training=st.booleans()))[which])
    return dict(which=which, kw=kw)


@facet(real_cases(), quick=150, shards=1)
def repository_records(c, rec):
    from reagent import json_serialize as js
    from reagent import parameters as rp

    cls = getattr(rp, c["which"], None)
    if cls is None or not dataclasses.is_dataclass(cls):
        raise Inconclusive(f"no {c['which']}")
    names = {f.name for f in dataclasses.fields(cls)}
    kw = {k: v for k, v in c["kw"].items() if k in names}
    o = cls(**kw)
    back = js.json_to_object(js.object_to_json(o), cls)
    require(type(back) is cls and back == o, "read back %s, expected %s", back, o)
    rec.nt(len(kw) >= 2)
    rec.label(c["which"])


@st.composite
def tensor_cases(draw):
    b, n = draw(st.integers(1, 4)), draw(st.integers(1, 5))
    return dict(b=b, n=n, m=draw(st.integers(1, 4)), d=draw(st.integers(1, 3)), seed=draw(st.integers(0, 99999)),
                temp=draw(st.sampled_from([0.001, 0.01, 0.1, 0.5, 1.0, 3.0, 10.0])), scale=draw(st.sampled_from([0.01, 1.0, 30.0, 1000.0])),
                tiny=draw(st.sampled_from([1.0, 1.0, 1e-3, 1e-6, 1e4])), mask=draw(st.lists(st.lists(st.integers(0, 1), min_size=n, max_size=n), min_size=b, max_size=b)))


@facet(tensor_cases(), quick=400, shards=2)
def tensors(c, rec):
    from reagent import torch_utils as tu

    r = np.random.RandomState(c["seed"])
    b, n, m, d, temp = c["b"], c["n"], c["m"], c["d"], c["temp"]
    rec.nt(b > 1 and n > 1)
    x = np.array(arr(r, (b, n))) * c["scale"]
    mask = np.array(c["mask"])

    def ref(x, mask):
        out = np.zeros_like(x)
        for i in range(len(x)):
            k = mask[i] > 0
            if k.any():
                e = np.exp(x[i][k] / temp - (x[i][k] / temp).max())
                out[i][k] = e / e.sum()
        return out

    X = T(x)
    x = X.double().numpy()
    keep = X.clone()
    # float32 resolution of the scaled scores
    tol = 1e-4 + 2e-7 * np.abs(x / temp).max() * 2
    close(tu.softmax(X, temp), ref(x, np.ones_like(x)), "softmax", rtol=tol, atol=tol)
    close(tu.masked_softmax(X, T(mask), temp), ref(x, mask), "masked softmax", rtol=tol, atol=tol)
    same(X, keep, "scores after a softmax")
    # rescaling
    lo, hi = np.array(arr(r, (1, n))), np.array(arr(r, (1, n), 0.5, 3))
    nlo, nhi = np.array(arr(r, (1, n))), np.array(arr(r, (1, n), 0.5, 3))
    args = [T(lo), T(lo + hi), T(nlo), T(nlo + nhi)]
    y = T(arr(r, (b, n)))
    z = tu.rescale_torch_tensor(y, new_min=args[2], new_max=args[3], prev_min=args[0], prev_max=args[1])
    close(z, (y.double().numpy() - lo) / hi * nhi + nlo, "rescaled", rtol=1e-3, atol=1e-3)
    close(tu.rescale_torch_tensor(z, args[0], args[1], args[2], args[3]), y, "rescaled back", rtol=1e-2, atol=1e-2)
    close(tu.rescale_torch_tensor(args[0], args[2], args[3], args[0], args[1]), nlo, "rescaled minimum", atol=1e-4)
    close(tu.rescale_torch_tensor(args[1], args[2], args[3], args[0], args[1]), nlo + nhi, "rescaled maximum", atol=1e-4)
    raises(AssertionError, lambda: tu.rescale_torch_tensor(T(arr(r, (b, n + 1))), *args), "columns without a range")
    # ranges of any size
    k = c["tiny"]
    zero = torch.zeros(1, n)
    close(tu.rescale_torch_tensor(T(hi * k * 0.25), zero, args[3] - args[2], zero, T(hi * k)), nhi / 4, f"rescaled from a range of {k}", rtol=1e-3, atol=1e-5)
    close(tu.rescale_torch_tensor(T(hi * 0.25), zero, T(nhi * k), zero, T(hi)) / k, nhi / 4, f"rescaled to a range of {k}", rtol=1e-3, atol=1e-5)
    # stacking
    for sh in [(n,), (n, d), (b, n, d)]:
        parts = [T(arr(r, sh)) for _ in range(m)]
        same(tu.stack(parts), torch.stack(parts), f"stack of {sh}")
    # gathering
    data = T(arr(r, (b, n, d)))
    idx = r.randint(0, n, (b, m))
    got = tu.gather(data, torch.tensor(idx))
    same(got, np.stack([data[i].numpy()[idx[i]] for i in range(b)]), "gather")
    # dictionaries of arrays
    batch = {"f": np.array(arr(r, (b, n)), np.float32), "i": r.randint(0, 5, (b,)), "t": r.rand(b) < 0.5}
    out = tu.dict_to_tensor(batch)
    equal(list(out), list(batch), "keys")
    for k, v in batch.items():
        require(isinstance(out[k], torch.Tensor), "not a tensor")
        same(out[k], v, k)
        equal(out[k].dtype, torch.from_numpy(v).dtype, f"type of {k}")
    # modules survive exporting
    net = torch.jit.trace(torch.nn.Linear(n, d), X)
    buf = tu.export_module_to_buffer(net)
    buf.seek(0)
    close(torch.jit.load(buf)(X), net(X), "exported module", rtol=0, atol=0)
    equal(tu.get_device(net), torch.device("cpu"), "device")
