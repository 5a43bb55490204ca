"""Configuration classes made from signatures, and default resolution."""
import dataclasses
from typing import Dict, List, Optional

from hypothesis import strategies as st

from vlib.core import equal, facet, raises, require

RULE = ("a case is a generated signature with white or black lists, and values for some of its parameters; non-trivial = three or "
        "more parameters, one of them left out or left at a default made by a factory")

KINDS = ["int", "float", "str", "bool", "list", "dict", "optint", "optstr", "module", "optmodule", "nested"]


def value(draw, kind):
    if kind == "int":
        return draw(st.integers(-5, 5))
    if kind == "float":
        return draw(st.sampled_from([0.0, 0.5, -1.25, 3.0]))
    if kind == "str":
        return draw(st.sampled_from(["", "a", "xyz"]))
    if kind == "bool":
        return draw(st.booleans())
    if kind == "list":
        return draw(st.lists(st.integers(0, 3), max_size=3))
    if kind == "dict":
        return draw(st.dictionaries(st.sampled_from("abc"), st.integers(0, 3), max_size=3))
    if kind == "optint":
        return draw(st.one_of(st.none(), st.integers(0, 3)))
    if kind == "optstr":
        return draw(st.one_of(st.none(), st.sampled_from(["", "q"])))
    if kind == "nested":
        return draw(st.integers(0, 4))
    return None


@st.composite
def signatures(draw):
    n = draw(st.integers(1, 6))
    ps, need_default = [], False
    for i in range(n):
        kind = draw(st.sampled_from(KINDS))
        annotated = draw(st.integers(0, 4)) > 0
        has_default = need_default or draw(st.booleans())
        p = dict(name=f"p{i}", kind=kind, annotated=annotated, default=has_default, factory=False, value=None)
        if kind in ("module", "optmodule"):
            p["annotated"] = True
            if has_default:
                if kind == "module":
                    p["kind"] = kind = "optmodule"
        elif kind in ("list", "dict"):
            if has_default:
                p["annotated"], p["factory"] = True, True
        elif kind == "nested":
            p["annotated"] = True
            p["factory"] = has_default
        elif has_default and p["annotated"]:
            p["factory"] = draw(st.sampled_from([False] * 5 + [True, True, "plain"]))  # "plain": a field with a value
        if has_default:
            p["value"] = value(draw, kind)
            if not p["annotated"] and p["value"] is None:
                p["annotated"] = True
        if not p["annotated"] and kind in ("optint", "optstr"):
            p["kind"] = kind = kind[3:]  # inferred from the default
            if not has_default:
                p["annotated"] = True
        need_default = has_default
        ps.append(p)
    mode = draw(st.sampled_from(["none", "none", "white", "black", "both"]))
    ann = [p["name"] for p in ps if (p["annotated"] or p["default"]) and p["kind"] not in ("module", "optmodule")]
    names = [p["name"] for p in ps]
    white = black = None
    if mode in ("white", "both"):
        white = [x for x in ann if draw(st.booleans())] or None
    if mode in ("black", "both"):
        black = [x for x in names if draw(st.integers(0, 2)) == 0]
    args = {p["name"]: value(draw, p["kind"]) for p in ps if not p["default"] or draw(st.booleans())}
    return dict(ps=ps, white=white, black=black, args=args, bad=draw(st.sampled_from([None] * 6 + ["none", "tuple", "dict"])),
                other=draw(st.sampled_from(sorted(args) or [""])), pos=draw(st.integers(0, 6)))


def world():
    """The types generated signatures refer to"""
    from torch import nn

    from reagent.core.dataclasses import dataclass

    @dataclass
    class Inner:
        k: int = 0

    class Mod(nn.Linear):
        pass

    return Inner, Mod


def ann_of(kind, Inner, Mod):
    return {"int": int, "float": float, "str": str, "bool": bool, "list": List[int], "dict": Dict[str, int],
            "optint": Optional[int], "optstr": Optional[str], "module": Mod, "optmodule": Optional[Mod], "nested": Inner}[kind]


def real(kind, v, Inner):
    if kind == "nested":
        return Inner(k=v)
    return list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v


def make(ps, Inner, Mod, method=False, bad=None):
    from reagent.core.dataclasses import field

    env, parts = {}, ["self"] if method else []
    for p in ps:
        s = p["name"]
        if p["annotated"]:
            env["A_" + s] = ann_of(p["kind"], Inner, Mod)
            s += ": A_" + p["name"]
        if p["default"]:
            k, v = p["kind"], p["value"]
            env["D_" + p["name"]] = (field(default=real(k, v, Inner)) if p["factory"] == "plain" else
                                      field(default_factory=lambda k=k, v=v: real(k, v, Inner)) if p["factory"] else real(k, v, Inner))
            s += " = D_" + p["name"]
        parts.append(s)
    if bad:
        env["D_bad"] = {"none": None, "tuple": (1, 2), "dict": {}}[bad]
        parts.append("bad=D_bad")
    exec("def fn(%s):\n    return dict(%s)" % (", ".join(parts), ", ".join(f"{p['name']}={p['name']}" for p in ps)), env)
    return env["fn"]


@facet(signatures(), quick=1000)
def config_classes(c, rec):
    from reagent.core.configuration import make_config_class

    Inner, Mod = world()
    ps = {p["name"]: p for p in c["ps"]}
    rec.nt(len(ps) >= 3)
    fn = make(c["ps"], Inner, Mod, method=c["pos"] % 2 == 0, bad=c["bad"])
    if c["white"] is not None and c["black"] is not None:
        rec.label("both lists")
        raises(AssertionError, lambda: make_config_class(fn, whitelist=c["white"], blacklist=c["black"]), "both lists are refused")
        return
    if c["bad"] and c["white"] is None:
        rec.label("uninferable default")
        raises(ValueError, lambda: make_config_class(fn, blacklist=c["black"])(type("Cfg", (), {})), "a type that cannot be inferred is refused")
        make_config_class(fn, blacklist=(c["black"] or []) + ["bad"])
        return
    Cfg = make_config_class(fn, whitelist=c["white"], blacklist=c["black"])(type("Cfg", (), {}))
    want = c["white"] or [n for n, p in ps.items() if n not in (c["black"] or []) and (p["annotated"] or p["default"])
                          and p["kind"] not in ("module", "optmodule")]
    equal([f.name for f in dataclasses.fields(Cfg)], list(want), "fields")
    args = {k: v for k, v in c["args"].items() if k in want}
    missing = [n for n in want if not ps[n]["default"] and n not in args]
    require(not missing, "generator leaves out required arguments")
    kw = {k: real(ps[k]["kind"], v, Inner) for k, v in args.items()}
    a = Cfg(**kw)
    b = Cfg(**{k: real(ps[k]["kind"], v, Inner) for k, v in args.items()})
    exp = {n: args.get(n, ps[n]["value"]) for n in want}
    got = a.asdict()
    equal(list(got), list(want), "order of asdict")
    for n in want:
        v = got[n]
        if ps[n]["kind"] == "nested":
            require(isinstance(v, Inner), "asdict must not convert nested configurations, got %r", v)
            equal(v.k, exp[n], n)
        else:
            equal(v, exp[n], n)
            require(type(v) is type(exp[n]) or exp[n] is None, "%s changed type to %s", n, type(v))
    require(a == b, "equal arguments make equal configurations")
    for n in want:
        if ps[n]["default"] and ps[n]["factory"] and n not in args and ps[n]["kind"] in ("list", "dict"):
            rec.nt(len(ps) >= 2)
            require(getattr(a, n) is not getattr(b, n), "%s is shared between configurations", n)
    hashable = [n for n in want if ps[n]["kind"] == "nested"] == []
    if hashable:
        equal(hash(a), hash(b), "hash of equal configurations")
        if a.asdict():
            require({a: 1}[b] == 1, "configurations work as keys")
    if want:
        raises(dataclasses.FrozenInstanceError, lambda: setattr(a, want[0], got[want[0]]), "configurations are frozen")
    if c["other"] in want and ps[c["other"]]["kind"] in ("int", "float", "list"):
        k = c["other"]
        v2 = exp[k] + [9] if ps[k]["kind"] == "list" else exp[k] + 7
        d = Cfg(**{**{x: real(ps[x]["kind"], y, Inner) for x, y in args.items()}, k: v2})
        require(d != a, "different values of %s compare equal", k)
    raises(TypeError, lambda: Cfg(**{**kw, "unknown_field": 1}), "unknown fields are refused")
    # configurations parse from plain dictionaries, nested ones included
    if c["white"] is None and c["black"] is None:
        plain = {k: ({"k": v} if ps[k]["kind"] == "nested" else v) for k, v in args.items()}
        p = Cfg(**plain)
        for n in want:
            if ps[n]["kind"] == "nested":
                rec.label("nested")
                require(isinstance(getattr(p, n), Inner), "nested dictionaries become configurations")
                equal(getattr(p, n).k, exp[n], n)


@facet(signatures(), quick=800)
def resolved_defaults(c, rec):
    from reagent.core.configuration import resolve_defaults

    Inner, Mod = world()
    ps = c["ps"]
    fn = resolve_defaults(make(ps, Inner, Mod))
    names = [p["name"] for p in ps]
    exp = {p["name"]: c["args"].get(p["name"], p["value"]) for p in ps}
    # the longest prefix of given arguments may be passed by position
    pos = []
    for p in ps[: c["pos"]]:
        if p["name"] not in c["args"]:
            break
        pos.append(p["name"])
    given = {p["name"]: real(p["kind"], c["args"][p["name"]], Inner) for p in ps if p["name"] in c["args"]}
    call = lambda: fn(*[given[n] for n in pos], **{k: v for k, v in given.items() if k not in pos})
    r1, r2 = call(), call()
    equal(list(r1), names, "parameters")
    for p in ps:
        n, v = p["name"], r1[p["name"]]
        require(not isinstance(v, dataclasses.Field), "%s was left unresolved", n)
        if p["kind"] == "nested":
            equal(v.k, exp[n], n)
        else:
            equal(v, exp[n], n)
        if n in given:
            require(v is given[n], "%s was replaced", n)
        elif p["factory"] and p["kind"] in ("list", "dict", "nested"):
            rec.nt(len(ps) >= 3)
            require(v is not r2[n], "%s is shared between calls", n)
    require(fn.__name__ == "fn", "the wrapper keeps the name")
    raises((ValueError, TypeError), lambda: fn(*([1] * (len(ps) + 1))), "too many arguments")


@facet(st.fixed_dictionaries(dict(a=st.lists(st.integers(0, 3), max_size=3), b=st.lists(st.tuples(st.sampled_from("abcd"), st.integers(0, 2)), max_size=4),
                                  c=st.integers(0, 2), perm=st.integers(0, 23))), quick=200, shards=2)
def parameter_hashes(c, rec):
    from reagent.core.configuration import param_hash
    from reagent.core.dataclasses import dataclass

    @dataclass
    class P:
        a: List[int]
        b: Dict[str, int]
        c: int
        __hash__ = param_hash

    d = dict(map(tuple, c["b"]))
    items = list(d.items())
    k = c["perm"] % max(1, len(items))
    x, y = P(c["a"], d, c["c"]), P(list(c["a"]), dict(items[k:] + items[:k]), c["c"])
    rec.nt(len(items) > 1 and k)
    equal(x, y, "same parameters")
    equal(hash(x), hash(y), "hash ignores the order of dictionaries")
    require(hash(x) != hash(P(c["a"] + [5], d, c["c"])) or hash(x) != hash(P(c["a"], d, c["c"] + 1)), "hash ignores the values")
    equal(len({x, y, P(c["a"], d, c["c"] + 1)}), 2, "set of parameters")


@facet(st.lists(st.tuples(st.sampled_from(["get", "other", "new"]), st.integers(0, 2)), min_size=1, max_size=8), quick=100, shards=2)
def lazy_properties(c, rec):
    from reagent.core.utils import lazy_property

    calls = []

    class A:
        def __init__(self, v):
            self.v = v

        @lazy_property
        def x(self):
            "doc of x"
            calls.append(self.v)
            return [self.v]

        @lazy_property
        def y(self):
            calls.append(("y", self.v))
            return None

    objs = [A(0)]
    seen = {}
    for op, i in c:
        if op == "new":
            objs.append(A(len(objs)))
            continue
        o = objs[i % len(objs)]
        v = o.x if op == "get" else o.y
        equal(v, [o.v] if op == "get" else None, "value")
        if (op, o.v) in seen:
            rec.nt()
            require(seen[op, o.v] is v, "computed again")
        seen[op, o.v] = v
    equal(sorted(map(str, calls)), sorted(str(v if op == "get" else ("y", v)) for op, v in seen), "each value is computed once per object")
