"""Decision plans written in Python mean the same to the serving platform."""
import json
import math
import os
import shutil
import sys
import tempfile
import types

from hypothesis import strategies as st

import reagent
from checks.S02 import NAMES, Arms, dmap, evaluate, softmax, text, trees
from checks.S03 import same_json
from vlib.core import close, equal, facet, raises, require
from vlib.serving import REPO, Refused, service, unwrap

RULE = "a case is a graph of operators and constants (shared nodes included) or a set of applications; non-trivial = two or more operators, or two or more plans"

_dir = os.path.join(REPO, "serving", "reagent")
if _dir not in reagent.__path__:
    reagent.__path__.append(_dir)
# the package of applications imports through an interface Python 3.12 no longer has
sys.modules.setdefault("reagent.serving.config.applications", types.ModuleType("applications"))

import reagent.serving.config.builder as B  # noqa: E402
import reagent.serving.config.config as C  # noqa: E402

num = st.one_of(st.sampled_from([0.0, 1.0, -2.5]), st.floats(-9, 9, width=32))


@st.composite
def graphs(draw):
    acts = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    nodes = []
    for i in range(draw(st.integers(2, 7))):
        kind = draw(st.sampled_from(["Softmax", "Softmax", "PropensityFit", "PropensityFit", "InputFromRequest", "ActionValueScoring", "Constant"]))
        nodes.append(dict(kind=kind, a=draw(st.one_of(st.just(i - 1), st.integers(-1, i - 1))), b=draw(st.integers(-1, i - 1)), t=draw(st.sampled_from([0.5, 1.0, 4.0])), v=[draw(num) for _ in acts], ints=draw(st.lists(st.booleans(), min_size=len(acts), max_size=len(acts))), m=[draw(st.integers(0, 1)), draw(st.integers(0, 1))]))
    return dict(
        acts=acts,
        nodes=nodes,
        root=draw(st.sampled_from(["EpsilonGreedyRanker", "EpsilonGreedyRanker", "SoftmaxRanker", "same"])),
        x=[draw(num) for _ in acts],
        scores=[draw(num) for _ in acts],
        seed=draw(st.sampled_from([None, 3])),
        choose=draw(st.sampled_from([None, 1, 3])),
        reward=draw(st.sampled_from([None, "r", "r*2-s"])),
        agg=draw(st.sampled_from([None, "DRA_SUM", "DRA_MAX"])),
        positional=draw(st.booleans()),
        twice=draw(st.booleans()),
        settings=draw(st.lists(st.tuples(st.sampled_from([1, 2, 5]), st.sampled_from(["", "s", "r-s*2"]), st.sampled_from(["DRA_SUM", "DRA_MAX"]), st.booleans()), max_size=3)),
    )


def make(c):
    """(root operator, reference value of the last node, operators reachable)"""
    acts = c["acts"]
    inp = dict(zip(acts, c["x"]))
    built = []
    for n in c["nodes"]:
        mixed = {a: (int(v) if i and v == int(v) else float(v)) for a, v, i in zip(acts, n["v"], n["ints"])}
        if all(isinstance(x, int) for x in mixed.values()):
            mixed[acts[0]] = float(mixed[acts[0]])
        ref_const = {a: float(v) for a, v in mixed.items()}

        def arg(j):
            return (mixed, ref_const, set()) if j < 0 else built[j]

        a, b = arg(n["a"]), arg(n["b"])
        if n["kind"] == "Softmax":
            op = B.Softmax(n["t"], a[0]) if c["positional"] else B.Softmax(temperature=n["t"], values=a[0])
            ref = dict(zip(a[1], map(float, softmax(list(a[1].values()), n["t"]))))
            deps = a[2]
        elif n["kind"] == "PropensityFit":
            op = B.PropensityFit(a[0], b[0]) if c["positional"] else B.PropensityFit(input=a[0], targets=b[0])
            ref, deps = a[1], a[2] | b[2]
        elif n["kind"] == "InputFromRequest":
            op, ref, deps = B.InputFromRequest(), inp, set()
        elif n["kind"] == "ActionValueScoring":
            op, deps = B.ActionValueScoring(model_id=n["m"][0], snapshot_id=n["m"][1]), set()
            ref = {k: v + n["m"][0] - 2.0 * n["m"][1] for k, v in zip(acts, c["scores"])}
        else:
            built.append((mixed, ref_const, set()))
            continue
        built.append((op, ref, deps | {id(op)}))
    last, ref, deps = built[-1]
    if c["root"] == "EpsilonGreedyRanker" or (c["root"] == "same" and isinstance(last, dict)):
        root = B.EpsilonGreedyRanker(epsilon=0.0, values=last)
    elif c["root"] == "SoftmaxRanker":
        root = B.SoftmaxRanker(temperature=1.0, values=last, seed=c["seed"])
    else:
        root = last
    return root, ref, deps | {id(root)}, inp


@facet(graphs(), quick=600, shards=4)
def graph_plans(case, rec):
    """A plan built in Python is served as the graph it was built from: shared operators once, constants as given, settings kept"""
    c = case
    root, ref, ops, inp = make(c)
    b = B.DecisionPlanBuilder()
    for i, (n, f, g, build) in enumerate(c["settings"]):
        # earlier settings and builds leave nothing behind
        b.set_num_actions_to_choose(n).set_reward_function(f).set_reward_aggregator(getattr(C.DecisionRewardAggreation, g)).set_root(B.Softmax(float(i), {"other": 1.0}))
        if build:
            early = json.loads(json.dumps(b.build()))
            equal((early["num_actions_to_choose"], early["reward_function"], early["reward_aggregator"]), (n, f, g[4:].lower()), "settings so far")
            equal([len(early["operators"]), len(early["constants"])], [1, 2], "operators and constants so far")
    if c["settings"]:
        n, f, g, _ = c["settings"][-1]
        c = dict(c, choose=c["choose"] or n, reward=f if c["reward"] is None else c["reward"], agg=c["agg"] or g)
    require(b.set_root(root) is b, "set_root chains")
    if c["choose"] is not None:
        b.set_num_actions_to_choose(c["choose"])
    if c["reward"] is not None:
        b.set_reward_function(c["reward"])
    if c["agg"] is not None:
        b.set_reward_aggregator(getattr(C.DecisionRewardAggreation, c["agg"]))
    plan = json.loads(json.dumps(b.build()))
    if c["twice"]:
        again = json.loads(json.dumps(b.build()))
        equal(again, plan, "built again from the same builder")
        # the same operators in another builder
        equal(json.loads(json.dumps(B.DecisionPlanBuilder().set_root(root).build()))["operators"], plan["operators"], "built from another builder")
    equal(len(plan["operators"]), len(ops), "operators of the graph, shared ones once")
    names = [o["name"] for o in plan["operators"]]
    equal(len(set(names)), len(names), "names are unique")
    seen = {x["name"] for x in plan["constants"]} | {"input"}
    require(len(seen) == len(plan["constants"]) + 1, "constants' names are unique")
    for o in plan["operators"]:
        require(set(o["input_dep_map"].values()) <= seen, "%s comes before what it needs", o["name"])
        require(all(isinstance(x, str) for x in o["input_dep_map"]), "inputs by name")
        seen.add(o["name"])
    s = service()
    s.call("new", scores={"%d/%d" % (m, n): {k: v + m - 2.0 * n for k, v in zip(c["acts"], c["scores"])} for m in (0, 1) for n in (0, 1)})
    s.call("plan", name="p", config=plan)
    shown = s.call("show", name="p")
    equal(shown["choose"], c["choose"] or 1, "number of actions to choose")
    equal(shown["reward"], c["reward"] or "", "reward function")
    equal(shown["aggregator"], "sum" if c["agg"] == "DRA_SUM" else "max", "aggregator")
    request = {"plan_name": "p", "actions": {"names": c["acts"]}, "input": dmap(inp)}
    out = s.call("run", name="p", request=request)
    got = unwrap(out[shown["root"]])
    if isinstance(got, list):
        r = s.call("request", request=request)
        equal(sorted(a["name"] for a in r["actions"]), sorted(ref), "actions ranked")
        if root.op_name == "EpsilonGreedyRanker":
            vals = [ref[a["name"]] for a in r["actions"]]
            require(all(x >= y - 1e-6 for x, y in zip(vals, vals[1:])), "best first: %s by %s", [a["name"] for a in r["actions"]], ref)
        feeding = plan["operators"][-1]["input_dep_map"]["values"]
        got = unwrap(out[feeding])
        if c["reward"]:
            s.call("feedback", feedback={"plan_name": "p", "request_id": r["request_id"], "actions": [{"name": c["acts"][0], "metrics": {"r": -3.0, "s": 1.0}}, {"name": c["acts"][0], "metrics": {"r": -1.0, "s": 5.0}}]})
            (j,) = s.call("logged")
            rs = [{"r": m, "s": n, "r*2-s": 2 * m - n, "r-s*2": m - 2 * n}[c["reward"]] for m, n in ((-3.0, 1.0), (-1.0, 5.0))]
            close(j["feedback"]["computed_reward"], sum(rs) if c["agg"] == "DRA_SUM" else max(rs), "reward of the plan")
    equal(set(got), set(ref), "actions scored")
    close([got[a] for a in ref], list(ref.values()), "scores", rtol=1e-5, atol=1e-7)
    rec.nt(len(ops) >= 2)
    rec.label("ops%d" % min(len(ops), 4))


@facet(st.fixed_dictionaries(dict(arms=st.lists(st.sampled_from(NAMES), min_size=2, max_size=3, unique=True), batch=st.sampled_from([None, 1, 2, 3]), rewards=st.lists(num, min_size=1, max_size=10), agg=st.sampled_from(["DRA_SUM", "DRA_MAX"]))), quick=150, shards=2)
def bandit_plans(case, rec):
    """A bandit plan built in Python learns from its feedback"""
    kw = {} if case["batch"] is None else dict(batch_size=case["batch"])
    op = B.UCB(method="UCB1", **kw)
    plan = B.DecisionPlanBuilder().set_root(op).set_reward_function("r").set_reward_aggregator(getattr(C.DecisionRewardAggreation, case["agg"])).build()
    s = service()
    s.call("new")
    s.call("plan", name="p", config=json.loads(json.dumps(plan)))
    m = Arms(case["batch"], None)
    for x in case["rewards"]:
        ok, p = m.options(case["arms"])
        r = s.call("request", request={"plan_name": "p", "actions": {"names": case["arms"]}})
        require([a["name"] in ok for a in r["actions"]] == [True], "chose %s, expected one of %s", r["actions"], ok)
        close(r["actions"][0]["propensity"], p, "propensity")
        s.call("feedback", feedback={"plan_name": "p", "request_id": r["request_id"], "actions": [{"name": r["actions"][0]["name"], "metrics": {"r": x}}]})
        m.reward(r["actions"][0]["name"], x)
    rec.nt(len(case["rewards"]) >= 3)


consts = st.one_of(
    st.text(max_size=4),
    st.integers(-9, 9),
    num,
    st.lists(st.text("ab", max_size=2), min_size=1, max_size=3),
    st.lists(st.integers(-9, 9), min_size=1, max_size=3),
    st.lists(st.one_of(num, st.integers(-9, 9)), min_size=1, max_size=3),
    st.dictionaries(st.text("ab", max_size=2), st.text("xy", max_size=2), min_size=1, max_size=3),
    st.dictionaries(st.text("ab", max_size=2), st.integers(-9, 9), min_size=1, max_size=3),
    st.dictionaries(st.text("ab", max_size=2), st.one_of(num, st.integers(-9, 9)), min_size=1, max_size=3),
)
bad_consts = st.sampled_from([[], {}, {"a": None}, [None], {"#1": 2.0}, {"a": [1]}, [[1]], [{"a": 1}], {"a": "x", "b": 1}, ["x", 1], [1, "x"], {"a": 1, "b": "x"}, {"a": 1.0, "#2": 1.0}])
scalars = st.sampled_from(["x", "", 1, 2.0, None, -3])


def mixture(xs):
    """Text and numbers together, or nothing at all: no kind holds it"""
    return any(x is None for x in xs) or len({isinstance(x, str) for x in xs}) == 2


bad_consts = st.one_of(bad_consts, st.lists(scalars, min_size=1, max_size=4).filter(mixture), st.dictionaries(st.sampled_from("abcd"), scalars, min_size=1, max_size=4).filter(lambda d: mixture(list(d.values()))))


@facet(st.one_of(st.tuples(st.just("good"), consts), st.tuples(st.just("good"), consts), st.tuples(st.just("bad"), bad_consts)), quick=300, shards=2)
def constant_kinds(case, rec):
    """Constants reach the service with their values; what it has no kind for is refused when the plan is built"""
    kind, v = case
    if kind == "bad":
        v = {int(k[1:]) if k[0] == "#" else k: x for k, x in v.items()} if isinstance(v, dict) else v
        raises((TypeError, ValueError, AssertionError), lambda: B.DecisionPlanBuilder().set_root(B.Softmax(1.0, v)).build(), "constant %r" % (v,))
        rec.label("refused")
        return
    plan = json.loads(json.dumps(B.DecisionPlanBuilder().set_root(B.Softmax(1.0, v)).build()))
    s = service()
    s.call("new")
    s.call("plan", name="p", config=plan)
    name = plan["operators"][-1]["input_dep_map"]["values"]
    got = unwrap(s.call("show", name="p")["constants"][name])

    def floats(x):
        if isinstance(x, dict):
            return {k: floats(y) for k, y in x.items()}
        return [floats(y) for y in x] if isinstance(x, list) else float(x) if isinstance(x, int) else x

    same_json(floats(got), floats(v), "constant %r" % (v,))
    inner = list(v.values()) if isinstance(v, dict) else v if isinstance(v, list) else [v]
    outer = list(got.values()) if isinstance(got, dict) else got if isinstance(got, list) else [got]
    if any(isinstance(x, float) for x in inner):
        require(all(isinstance(x, float) for x in outer), "fractions stay fractions: %r came as %r", v, got)
    elif all(isinstance(x, int) for x in inner):
        require(all(isinstance(x, int) for x in outer), "whole numbers stay whole: %r came as %r", v, got)
    rec.nt(len(inner) > 1)


@facet(st.sampled_from(["none", "constant", "missing", "extra", "unknown"]), quick=5, shards=1)
def bad_plans(case, rec):
    """A plan without an operator at its root, or operators with wrong arguments, are refused"""
    if case == "none":
        raises(ValueError, lambda: B.DecisionPlanBuilder().build(), "no root")
    elif case == "constant":
        raises(ValueError, lambda: B.DecisionPlanBuilder().set_root({"a": 1.0}).build(), "a constant as root")
    elif case == "missing":
        raises(TypeError, lambda: B.Softmax(temperature=1.0), "a missing argument")
    elif case == "extra":
        raises(TypeError, lambda: B.Softmax(temperature=1.0, values={"a": 1.0}, more=1), "an argument too many")
    else:
        raises(TypeError, lambda: C.Constant(name="x"), "a configuration without a value")
    rec.nt()


apps = st.dictionaries(st.sampled_from(["shop", "feed", "ads", "shop/eu", "a.b", "feed/x/y"]), st.dictionaries(st.sampled_from(["main", "x.y", "b"]), st.lists(st.sampled_from(NAMES), min_size=1, max_size=2, unique=True), min_size=1, max_size=3), min_size=1, max_size=3)


@facet(st.fixed_dictionaries(dict(apps=apps, pick=st.sampled_from([None, None, 0, 1, "nobody"]), exists=st.sampled_from(["no", "folder", "stale", "again"]))), quick=150, shards=2)
def exports(case, rec):
    """Exported plans are files the service finds: one per plan under its application, all or one application's"""
    from click.testing import CliRunner
    from reagent.serving.config.main import export

    tmp = tempfile.mkdtemp(prefix="s04-")
    saved = dict(B.DECISION_PLANS)
    try:
        B.DECISION_PLANS.clear()
        for app, plans in case["apps"].items():
            B.export(app_id=app, configs={n: B.DecisionPlanBuilder().set_root(B.SoftmaxRanker(temperature=1.0, values={a: 1.0 for a in arms})).build() for n, arms in plans.items()})
        names = sorted(case["apps"])
        pick = case["pick"] if case["pick"] in (None, "nobody") else names[case["pick"] % len(names)]
        if case["exists"] == "folder":
            os.makedirs(os.path.join(tmp, names[0]), exist_ok=True)
        elif case["exists"] in ("stale", "again") and pick != "nobody":
            # an earlier export, with other plans of the same names
            for app, plans in case["apps"].items():
                for n in plans if pick in (None, app) else ():
                    os.makedirs(os.path.join(tmp, app), exist_ok=True)
                    with open(os.path.join(tmp, app, n + ".json"), "w") as f:
                        f.write("x" * 9000 if case["exists"] == "stale" else json.dumps(B.DecisionPlanBuilder().set_root(B.SoftmaxRanker(temperature=1.0, values={"old": 1.0})).build(), indent=8))
        out = CliRunner().invoke(export, ["--config-dir", tmp] + ([] if pick is None else ["--app-id", pick]))
        if pick == "nobody":
            require(out.exit_code != 0, "an unknown application")
            equal([f for _, _, fs in os.walk(tmp) for f in fs], [], "nothing written")
            return
        require(out.exit_code == 0, "export failed: %r", out.exception)
        want = {"%s/%s.json" % (a, n): arms for a, plans in case["apps"].items() if pick in (None, a) for n, arms in plans.items()}
        got = {os.path.relpath(os.path.join(d, f), tmp) for d, _, fs in os.walk(tmp) for f in fs}
        equal(got, set(want), "files written")
        s = service()
        s.call("new", configs=tmp)
        for name, arms in want.items():
            r = s.call("request", request={"plan_name": name, "actions": {"names": []}})
            equal(sorted(a["name"] for a in r["actions"]), sorted(arms), "actions of " + name)
        rec.nt(len(want) >= 2)
        rec.label("one" if pick else "all")
    finally:
        B.DECISION_PLANS.clear()
        B.DECISION_PLANS.update(saved)
        shutil.rmtree(tmp, ignore_errors=True)


@facet(st.just(0), quick=1, shards=1)
def example_plans(case, rec):
    """The example application's plans are accepted by the service"""
    import runpy

    saved = dict(B.DECISION_PLANS)
    try:
        runpy.run_path(os.path.join(_dir, "serving", "config", "applications", "example", "example.py"))
        plans = B.DECISION_PLANS["example"]
        s = service()
        s.call("new")
        for n, plan in plans.items():
            s.call("plan", name=n, config=json.loads(json.dumps(plan)))
        for n in ("softmaxranker", "epsilongreedyranker", "ucb"):
            r = s.call("request", request={"plan_name": n, "actions": {"names": ["a", "b"]}})
            require(r["actions"], "an answer of %s", n)
        rec.nt(len(plans) > 1)
    finally:
        B.DECISION_PLANS.clear()
        B.DECISION_PLANS.update(saved)
