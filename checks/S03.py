"""The serving platform's decision service (C++) over histories of requests and feedback."""
import json
import math
import os
import re
import shutil
import subprocess
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

from checks.S02 import NAMES, Arms, constants, dmap, evaluate, key, maps, num, softmax, text, trees
from vlib.core import close, equal, facet, raises, require
from vlib.serving import Refused, service, unwrap, wrap

RULE = "a case is a plan, a history of requests and feedback, a set of files or a message; non-trivial = two or more operators, or a joined decision, or a message with something in it"

UUID4 = re.compile(r"^[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}$")


def same_json(a, b, what, path=""):
    """Equal JSON, numbers up to rounding"""
    if isinstance(b, dict):
        require(isinstance(a, dict) and set(a) == set(b), "%s%s: got %s, expected %s", what, path, a, b)
        for k in b:
            same_json(a[k], b[k], what, path + "/" + str(k))
    elif isinstance(b, list):
        require(isinstance(a, list) and len(a) == len(b), "%s%s: got %s, expected %s", what, path, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            same_json(x, y, what, path + "/%d" % i)
    elif isinstance(b, float) and isinstance(a, (int, float)) and not isinstance(a, bool):
        require(math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9), "%s%s: got %r, expected %r", what, path, a, b)
    else:
        require(type(a) == type(b) and a == b, "%s%s: got %r, expected %r", what, path, a, b)


# ------------------------------------------------------------------ plans
@st.composite
def graphs(draw):
    """Operators over earlier ones; every operator maps actions to numbers"""
    acts = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    ops = []
    for i in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(["Softmax", "Expression", "Expression", "PropensityFit", "InputFromRequest", "ActionValueScoring"]))
        src = draw(st.lists(st.integers(-2, i - 1), min_size=3, max_size=3))  # -1 the input, -2 a constant
        ops.append(dict(kind=kind, src=src, t=draw(st.sampled_from([0.5, 1.0, 4.0])), tree=draw(trees())))
    return dict(
        acts=acts,
        ops=ops,
        x=draw(st.lists(st.floats(-3, 3, width=32), min_size=3 * len(acts), max_size=3 * len(acts))),
        order=draw(st.permutations(range(len(ops)))),
        seeds=draw(st.lists(st.integers(0, 10**6), min_size=2, max_size=3)),
        bad=draw(st.sampled_from([None] * 5 + ["dep", "op", "none", "twice", "cycle"])),
    )


def plan_of(c):
    """(config, reference values by operator, request)"""
    acts = c["acts"]
    k = len(acts)
    const = dict(zip(acts, c["x"][:k]))
    inp = dict(zip(acts, c["x"][k : 2 * k]))
    scores = dict(zip(acts, c["x"][2 * k : 3 * k]))
    consts = [dict(name="c", value=dmap(const)), dict(name="m", value={"int_value": 3}), dict(name="n", value={"int_value": 1})]
    ref, ops = {}, []

    def name(j):
        return {-1: "input", -2: "c"}.get(j, "op%d" % j)

    def val(j):
        return {-1: inp, -2: const}[j] if j < 0 else ref["op%d" % j]

    for i, o in enumerate(c["ops"]):
        a = o["src"]
        if o["kind"] == "Softmax":
            consts.append(dict(name="t%d" % i, value={"double_value": o["t"]}))
            deps, v = {"values": name(a[0]), "temperature": "t%d" % i}, val(a[0])
            out = dict(zip(v, softmax(list(v.values()), o["t"])))
        elif o["kind"] == "Expression":
            consts.append(dict(name="e%d" % i, value={"string_value": text(o["tree"])}))
            deps = dict(x=name(a[0]), y=name(a[1]), z=name(a[2]), equation="e%d" % i)
            out = {s: float(evaluate(o["tree"], dict(x=val(a[0])[s], y=val(a[1])[s], z=val(a[2])[s]))) for s in acts}
        elif o["kind"] == "PropensityFit":
            deps, out = {"input": name(a[0]), "targets": name(a[1])}, val(a[0])
        elif o["kind"] == "InputFromRequest":
            deps, out = {}, inp
        else:
            deps, out = {"model_id": "m", "snapshot_id": "n"}, scores
        ref["op%d" % i] = {s: float(x) for s, x in out.items()}
        ops.append(dict(name="op%d" % i, op_name=o["kind"], input_dep_map=deps))
    config = dict(operators=[ops[i] for i in c["order"]], constants=consts, num_actions_to_choose=1, reward_function="", reward_aggregator="sum")
    request = {"request_id": "q", "plan_name": "p", "actions": {"names": acts}, "input": dmap(inp), "context_features": dict(list(zip(acts, c["x"][2 * k :]))[: c["seeds"][0] % (k + 1)])}
    return config, ref, request, scores


@facet(graphs(), quick=500, shards=4)
def plans(case, rec):
    """Every operator of a plan gets its inputs' values, whatever the order they are listed or run in; broken plans are refused"""
    c = case
    config, ref, request, scores = plan_of(c)
    flat = [x for v in ref.values() for x in v.values()]
    if not all(math.isfinite(x) and abs(x) < 1e9 for x in flat):
        return
    s = service()
    s.call("new", scores={"3/1": scores})
    if c["bad"]:
        o = config["operators"][0]
        if c["bad"] == "dep":
            o["input_dep_map"]["extra"] = "nowhere"
        elif c["bad"] == "op":
            o["op_name"] = "Softmin"
        elif c["bad"] == "none":
            config["operators"] = []
        elif c["bad"] == "twice":
            config["operators"].append(dict(o))
        else:
            o["input_dep_map"]["extra"] = o["name"]

        def go():
            s.call("plan", name="p", config=config)
            return s.call("run", name="p", request=request)

        raises(Refused, go, "a broken plan (%s)" % c["bad"])
        rec.label("broken")
        rec.nt()
        return
    s.call("plan", name="p", config=config)
    shown = s.call("show", name="p")
    equal(shown["root"], config["operators"][-1]["name"], "the last operator gives the output")
    equal([n for n, _ in shown["ops"]], [o["name"] for o in config["operators"]], "operators")
    for seed in c["seeds"]:
        s.call("order", seed=seed)
        out = s.call("run", name="p", request=request)
        equal(set(out), set(ref) | {x["name"] for x in config["constants"]} | {"input"}, "values by name")
        for k, v in ref.items():
            got = unwrap(out[k])
            equal(set(got), set(v), "actions of " + k)
            close([got[a] for a in v], list(v.values()), "%s of %s" % (k, [(o["op_name"], o["input_dep_map"]) for o in config["operators"]]), rtol=1e-5, atol=1e-7)
        for x in config["constants"]:
            same_json(out[x["name"]], x["value"], "constant")
        same_json(out["input"], request["input"], "input")
    rec.nt(len(ref) >= 2)


# ------------------------------------------------------------------ histories
@st.composite
def histories(draw):
    plans = draw(
        st.lists(
            st.fixed_dictionaries(
                dict(
                    kind=st.sampled_from(["Ucb", "Ucb", "SoftmaxRanker", "EpsilonGreedyRanker"]),
                    batch=st.sampled_from([None, 1, 2, 3]),
                    agg=st.sampled_from(["sum", "max"]),
                    reward=st.sampled_from(["", "r", "r*2-s", "r-5", "max(r, s)"]),
                )
            ),
            min_size=1,
            max_size=2,
        )
    )
    n = st.floats(-4, 4, width=32)
    step = st.one_of(
        st.tuples(st.just("ask"), st.integers(0, 1), st.booleans()),
        st.tuples(st.just("ask"), st.integers(0, 1), st.booleans()),
        st.tuples(st.just("tell"), st.integers(0, 5), st.lists(st.tuples(n, n), max_size=3)),
        st.tuples(st.just("tell"), st.integers(0, 5), st.lists(st.tuples(n, n), max_size=3)),
        st.tuples(st.just("stray"), st.integers(0, 1), st.lists(st.tuples(n, n), max_size=2)),
        st.tuples(st.just("again"), st.integers(0, 5), st.lists(st.tuples(n, n), max_size=2)),
        st.tuples(st.just("lost"), st.just(0), st.just(0)),
    )
    return dict(plans=plans, acts=draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True)), steps=[("ask", 0, False)] * draw(st.integers(0, 3)) + draw(st.lists(step, min_size=1, max_size=16)), path=draw(st.sampled_from(["file", "file", "deep", "bare", "none", "append"])), context=draw(st.dictionaries(st.sampled_from(["0", "1", "7"]), num, max_size=2)))


def reward_of(kind, m):
    r, s = m["r"], m["s"]
    return {"": 0.0, "r": r, "r*2-s": r * 2 - s, "r-5": r - 5, "max(r, s)": max(r, s)}[kind]


@facet(histories(), quick=500, shards=4)
def decisions(case, rec):
    """Requests are answered under their ids; each feedback joins its decision once, with rewards as the plan defines; the log has every pair"""
    c = case
    s = service()
    tmp = tempfile.mkdtemp(prefix="s03-")
    old = os.getcwd()
    try:
        log = {"file": os.path.join(tmp, "log.txt"), "append": os.path.join(tmp, "log.txt"), "deep": os.path.join(tmp, "a", "b", "log.txt"), "bare": "log.txt", "none": None}[c["path"]]
        if c["path"] == "append":
            open(log, "w").write("{}\n")
        if c["path"] == "bare":  # the service runs where the log belongs
            s.stop()
            os.chdir(tmp)
        s.call("new", **({} if log is None else dict(log=log)))
        if c["path"] == "bare":
            os.chdir(old)
        asked, joined, models = _history(c, s, rec)
        got = s.call("logged")
        equal(len(got), len(joined), "decisions joined")
        for g, (a, f) in zip(got, joined):
            same_json(g["decision_response"], a["response"], "logged response")
            same_json(g["feedback"], f, "logged feedback")
            q = g["decision_request"]
            for k in ("request_id", "plan_name"):
                equal(q[k], a["response"][k], "logged request's " + k)
            same_json(q["context_features"], c["context"], "logged features")
            equal(q["actions"]["names"], c["acts"], "logged actions")
            same_json(unwrap(g["operator_outputs"]["op"]), a["response"]["actions"], "logged output")
        if log is not None:
            lines = open(os.path.join(tmp, log)).read().splitlines()
            if c["path"] == "append":
                equal(lines[:1], ["{}"], "what the log held before")
                lines = lines[1:]
            same_json([json.loads(x) for x in lines], got, "log file")
        for i, m in models.items():
            ok, p = m.options(c["acts"])
            r = s.call("request", request={"plan_name": "plan%d" % i, "actions": {"names": c["acts"]}})
            require(r["actions"][0]["name"] in ok, "after the history the bandit chose %r, expected one of %s", r["actions"][0]["name"], ok)
            close(r["actions"][0]["propensity"], p, "propensity")
        rec.nt(len(joined) >= 1)
        rec.label("joined%d" % min(len(joined), 3))
    finally:
        os.chdir(old)
        if c["path"] == "bare":
            s.stop()
        shutil.rmtree(tmp, ignore_errors=True)


def _history(c, s, rec):
    acts = c["acts"]
    models = {}
    for i, p in enumerate(c["plans"]):
        consts, deps = [], {}

        def const(n, v):
            consts.append(dict(name=n, value=v))
            deps[n] = n

        if p["kind"] == "Ucb":
            const("method", {"string_value": "UCB1"})
            if p["batch"]:
                const("batch_size", {"int_value": p["batch"]})
            models[i] = Arms(p["batch"], None)
        else:
            const("values", dmap({a: float(j) for j, a in enumerate(acts)}))
            const("temperature", {"double_value": 1.0}) if p["kind"] == "SoftmaxRanker" else const("epsilon", {"double_value": 0.5})
        s.call("plan", name="plan%d" % i, config=dict(operators=[dict(name="op", op_name=p["kind"], input_dep_map=deps)], constants=consts, num_actions_to_choose=1, reward_function=p["reward"], reward_aggregator=p["agg"]))
    asked, joined, ids = [], [], set()
    for kind, i, x in c["steps"]:
        if kind == "ask":
            i %= len(c["plans"])
            q = {"plan_name": "plan%d" % i, "actions": {"names": acts}, "context_features": c["context"]}
            if x:
                q["request_id"] = "id%d" % len(asked)
            r = s.call("request", request=q)
            equal(r["plan_name"], q["plan_name"], "plan echoed")
            if x:
                equal(r["request_id"], q["request_id"], "id echoed")
            else:
                require(UUID4.match(r["request_id"]), "generated id %r", r["request_id"])
            require(r["request_id"] not in ids, "id used twice")
            ids.add(r["request_id"])
            require(r["duration"] >= 0, "duration")
            if i in models:
                ok, p = models[i].options(acts)
                require([a["name"] in ok for a in r["actions"]] == [True], "bandit chose %s, expected one of %s", r["actions"], ok)
            else:
                equal(sorted(a["name"] for a in r["actions"]), sorted(acts), "actions ranked")
            asked.append(dict(plan=i, response=r, told=False))
        elif kind == "lost":
            raises(Refused, lambda: s.call("request", request={"plan_name": "no such plan", "actions": {"names": acts}}), "a plan that does not exist")
            raises(Refused, lambda: s.call("feedback", feedback={"plan_name": "no such plan", "request_id": "x", "actions": []}), "feedback for a plan that does not exist")
        else:
            if kind == "stray":
                a = dict(plan=i % len(c["plans"]), response={"request_id": "never asked"}, told=True)
            else:
                pool = [a for a in asked if a["told"] == (kind == "again")]
                if not pool:
                    continue
                a = pool[i % len(pool)]
            p = c["plans"][a["plan"]]
            ms = [{"r": r, "s": t} for r, t in x]
            f = {"plan_name": "plan%d" % a["plan"], "request_id": a["response"]["request_id"], "actions": [{"name": acts[j % len(acts)], "metrics": m} for j, m in enumerate(ms)]}
            # rewards the feedback itself claims are not the plan's
            s.call("feedback", feedback=dict(f, actions=[dict(g, computed_reward=99.0) if (i + j) % 3 == 0 else g for j, g in enumerate(f["actions"])]))
            if a["told"]:
                rec.label(kind)
                continue
            a["told"] = True
            rs = [float(reward_of(p["reward"], m)) for m in ms]
            total = 0.0 if not rs else (sum(rs) if p["agg"] == "sum" else max(rs))
            f = dict(f, actions=[dict(g, computed_reward=r) for g, r in zip(f["actions"], rs)], computed_reward=float(total))
            joined.append((a, f))
            if rs and p["agg"] == "max" and max(rs) < 0:
                rec.label("negative max")
            if a["plan"] in models:
                models[a["plan"]].reward(a["response"]["actions"][0]["name"], total)
    return asked, joined, models


unit = st.one_of(st.sampled_from([0.0, 0.25, 0.5, 1.0]), st.floats(0, 1, width=32))


@st.composite
def learners(draw):
    plans = []
    for _ in range(draw(st.integers(1, 2))):
        ops = [dict(src=draw(st.integers(-1, i - 1)), tgt=draw(st.integers(-2, i - 1))) for i in range(draw(st.integers(1, 4)))]
        plans.append(dict(ops=ops, order=draw(st.permutations(range(len(ops)))), root=draw(st.integers(0, len(ops) - 1)), targets=[draw(st.dictionaries(st.sampled_from(NAMES[:4]), unit, min_size=1, max_size=4)) for _ in range(2)]))
    step = st.one_of(st.tuples(st.just("ask"), st.integers(0, 1), st.lists(unit, min_size=3, max_size=3)), st.tuples(st.just("tell"), st.integers(0, 5), st.just(0)))
    return dict(plans=plans, acts=draw(st.lists(st.sampled_from(NAMES[:4]), min_size=1, max_size=3, unique=True)), steps=[("ask", 0, [0.5, 0.25, 1.0])] + draw(st.lists(step, min_size=2, max_size=14)))


@facet(learners(), quick=250, shards=2)
def learning(case, rec):
    """Feedback teaches every operator of the decision's plan, each from the inputs and the output it had when it was asked, and no other plan's"""
    c = case
    acts = c["acts"]
    s = service()
    s.call("new")
    for n, p in enumerate(c["plans"]):
        ops = []
        for i in p["order"]:
            o = p["ops"][i]
            ops.append(dict(name="f%d" % i, op_name="PropensityFit", input_dep_map={"input": "input" if o["src"] < 0 else "f%d" % o["src"], "targets": "t%d" % (o["tgt"] + 2) if o["tgt"] < 0 else "f%d" % o["tgt"]}))
        ops.append(dict(name="rank", op_name="EpsilonGreedyRanker", input_dep_map={"values": "f%d" % p["root"], "epsilon": "e"}))
        consts = [dict(name="t%d" % j, value=dmap(t)) for j, t in enumerate(p["targets"])] + [dict(name="e", value={"double_value": 0.0})]
        s.call("plan", name="plan%d" % n, config=dict(operators=ops, constants=consts, num_actions_to_choose=1, reward_function="", reward_aggregator="sum"))
        p["shift"], p["seen"] = [{} for _ in p["ops"]], [{} for _ in p["ops"]]

    def values(p, inp):
        out = []
        for i, o in enumerate(p["ops"]):
            v = inp if o["src"] < 0 else out[o["src"]]
            out.append({k: x + p["shift"][i].get(k, 0.0) for k, x in v.items()})
        return out

    open_, told = [], 0
    for kind, i, x in c["steps"]:
        if kind == "ask":
            i %= len(c["plans"])
            p = c["plans"][i]
            inp = dict(zip(acts, map(float, x)))
            q = {"plan_name": "plan%d" % i, "request_id": "id%d" % len(open_), "actions": {"names": acts}, "input": dmap(inp)}
            want = values(p, inp)
            out = s.call("run", name=q["plan_name"], request=q)
            for j, w in enumerate(want):
                got = unwrap(out["f%d" % j])
                equal(set(got), set(w), "actions of f%d" % j)
                close([got[k] for k in w], list(w.values()), "f%d of plan%d" % (j, i), rtol=1e-9, atol=1e-9)
            r = s.call("request", request=q)
            equal(sorted(a["name"] for a in r["actions"]), sorted(acts), "actions ranked")
            open_.append(dict(plan=i, id=q["request_id"], out=want, told=False))
            continue
        pool = [a for a in open_ if not a["told"]]
        if not pool:
            continue
        a = pool[i % len(pool)]
        a["told"] = True
        told += 1
        s.call("feedback", feedback={"plan_name": "plan%d" % a["plan"], "request_id": a["id"], "actions": []})
        p = c["plans"][a["plan"]]
        for j, o in enumerate(p["ops"]):
            t = p["targets"][o["tgt"] + 2] if o["tgt"] < 0 else a["out"][o["tgt"]]
            for k, v in a["out"][j].items():
                if k in t:
                    p["seen"][j].setdefault(k, []).append(v)
            for k, goal in t.items():
                vs = p["seen"][j].get(k)
                if not vs:
                    continue
                mean = sum(vs) / len(vs)
                if abs(mean - goal) < 1e-9 and (len(vs) > 1 or o["tgt"] >= 0 or any(p["shift"])):
                    return  # which side rounding falls is not judged
                p["shift"][j][k] = p["shift"][j].get(k, 0.0) + (-0.01 if mean > goal else 0.01)
            # what has no target any more is not shifted any more
            p["shift"][j] = {k: v for k, v in p["shift"][j].items() if k in t}
    for n, p in enumerate(c["plans"]):
        inp = {a: 0.5 for a in acts}
        out = s.call("run", name="plan%d" % n, request={"plan_name": "plan%d" % n, "request_id": "x", "actions": {"names": acts}, "input": dmap(inp)})
        for j, w in enumerate(values(p, inp)):
            got = unwrap(out["f%d" % j])
            close([got[k] for k in w], list(w.values()), "f%d of plan%d at the end" % (j, n), rtol=1e-9, atol=1e-9)
    rec.nt(told >= 2)
    rec.label("told%d" % min(told, 4))


@facet(st.fixed_dictionaries(dict(order=st.booleans(), broken=st.sampled_from([None, None, "feedbacks", "decisions", "one", "three"]), reward=num, context=st.dictionaries(key, num, max_size=2), out=constants())), quick=200, shards=2)
def joins(case, rec):
    """A decision and its feedback join into the same record in either order; two of a kind do not"""
    c = case
    s = service()
    s.call("new")
    s.call("plan", name="p", config=dict(operators=[dict(name="i", op_name="InputFromRequest", input_dep_map={})], constants=[], num_actions_to_choose=1, reward_function="", reward_aggregator="sum"))
    d = {"decision_request": {"request_id": "q", "meta_data": None, "plan_name": "p", "actions": {"names": ["a"], "features": {}}, "context_features": c["context"], "input": c["out"]}, "decision_response": {"request_id": "q", "plan_name": "p", "actions": [{"name": "a", "propensity": 0.5}], "duration": 3}, "operator_outputs": {"i": c["out"], "input": c["out"]}, "feedback": None}
    f = {"decision_request": None, "decision_response": None, "operator_outputs": None, "feedback": {"plan_name": "p", "request_id": "q", "actions": [{"name": "a", "metrics": {"m": 1.5}, "computed_reward": c["reward"]}], "computed_reward": c["reward"]}}
    parts = [json.dumps(x) for x in ((d, f) if c["order"] else (f, d))]
    if c["broken"]:
        parts = {"feedbacks": [json.dumps(f)] * 2, "decisions": [json.dumps(d)] * 2, "one": parts[:1], "three": parts + parts[:1]}[c["broken"]]
        raises(Refused, lambda: s.call("join", parts=parts), c["broken"])
        equal(s.call("logged"), [], "nothing joined")
        return
    s.call("join", parts=parts)
    (got,) = s.call("logged")
    same_json(got, dict(d, feedback=f["feedback"]), "joined")
    rec.nt()


# ------------------------------------------------------------------ messages
actions = st.lists(st.fixed_dictionaries(dict(name=key, propensity=num)), max_size=3)
request = st.fixed_dictionaries(
    dict(request_id=key, plan_name=key, actions=st.fixed_dictionaries(dict(names=st.lists(key, max_size=3), features=st.dictionaries(key, st.dictionaries(key, num, max_size=2), max_size=2))), context_features=st.dictionaries(key, num, max_size=3), input=constants())
)
response = st.fixed_dictionaries(dict(request_id=key, plan_name=key, actions=actions, duration=st.integers(0, 2**53)))
act_feedback = st.fixed_dictionaries(dict(name=key, metrics=st.dictionaries(key, num, max_size=2), computed_reward=st.one_of(st.none(), num)))
fb = st.fixed_dictionaries(dict(plan_name=key, request_id=key, actions=st.lists(act_feedback, max_size=3)), optional=dict(computed_reward=num))
config = st.fixed_dictionaries(
    dict(
        operators=st.lists(st.fixed_dictionaries(dict(name=key, op_name=key, input_dep_map=st.dictionaries(key, key, max_size=3))), max_size=3),
        constants=st.lists(st.fixed_dictionaries(dict(name=key, value=constants())), max_size=3),
        num_actions_to_choose=st.integers(-3, 2**40),
        reward_function=key,
        reward_aggregator=st.sampled_from(["sum", "max", None]),
    )
)
messages = st.one_of(
    st.tuples(st.just("constant"), constants()),
    st.tuples(st.just("request"), request),
    st.tuples(st.just("response"), response),
    st.tuples(st.just("feedback"), fb),
    st.tuples(st.just("config"), config),
    st.tuples(st.just("joined"), st.fixed_dictionaries(dict(decision_request=st.one_of(st.none(), request), decision_response=st.one_of(st.none(), response), operator_outputs=st.one_of(st.none(), st.dictionaries(key, constants(), max_size=3)), feedback=st.one_of(st.none(), fb)))),
)


@facet(messages, quick=800, shards=2)
def round_trips(case, rec):
    """Messages come out of a round trip through the service's structures as they went in"""
    kind, v = case
    out = service().call("roundtrip", kind=kind, value=v)

    def plain(x):
        if isinstance(x, dict):
            return {k: plain(y) for k, y in x.items() if k != "meta_data"}
        return [plain(y) for y in x] if isinstance(x, list) else x

    same_json(plain(out), v, kind)
    rec.nt(len(json.dumps(v)) > 30)
    rec.label(kind)


@facet(st.fixed_dictionaries(dict(kind=st.sampled_from(["request", "response", "feedback", "config"]), drop=st.integers(0, 5), request=request, response=response, feedback=fb, config=config)), quick=200, shards=2)
def missing_parts(case, rec):
    """Messages without a required part are refused; optional parts have defaults"""
    kind = case["kind"]
    v = dict(case[kind])
    need = {"request": ["plan_name", "actions"], "response": ["request_id", "plan_name", "actions", "duration"], "feedback": ["plan_name", "request_id", "actions"], "config": ["operators", "constants", "num_actions_to_choose", "reward_function", "reward_aggregator"]}[kind]
    k = need[case["drop"] % len(need)]
    del v[k]
    raises(Refused, lambda: service().call("roundtrip", kind=kind, value=v), "%s without %s" % (kind, k))
    if kind == "request":
        out = service().call("roundtrip", kind=kind, value={"plan_name": "p", "actions": {"names": ["a"]}})
        equal(out["request_id"], "", "no id")
        equal(out["context_features"], {}, "no features")
        equal(out["actions"]["features"], {}, "no action features")
    rec.nt()


@facet(st.integers(1, 300), quick=20, shards=1)
def ids(case, rec):
    """Generated ids are version-4 UUIDs and do not repeat"""
    out = service().call("uuid", n=case)
    require(all(UUID4.match(x) for x in out), "not a version-4 UUID: %s", [x for x in out if not UUID4.match(x)][:1])
    equal(len(set(out)), case, "distinct ids")
    if case >= 200:
        bits = np.array([[int(b) for ch in x.replace("-", "") for b in format(int(ch, 16), "04b")] for x in out])
        fixed = {48, 49, 50, 51, 64, 65}
        m = bits.mean(0)
        require(all(0.05 < m[i] < 0.95 for i in range(128) if i not in fixed), "some bit hardly varies: %s", [i for i in range(128) if i not in fixed and not 0.05 < m[i] < 0.95])
    rec.nt(case > 1)


# ------------------------------------------------------------------ files
@st.composite
def folders(draw):
    files = draw(
        st.lists(
            st.tuples(st.sampled_from(["a.json", "b.json", "app/a.json", "app/x.json", "app/deep/c.json", "z"]), st.sampled_from(["good", "good", "good", "text", "empty", "partial", "unknown op", "no ops"])),
            min_size=0,
            max_size=6,
            unique_by=lambda t: t[0],
        )
    )
    return dict(files=files, dirs=draw(st.lists(st.sampled_from(["bare", "app/bare"]), max_size=2, unique=True)), slash=draw(st.booleans()))


@facet(folders(), quick=200, shards=2)
def plan_files(case, rec):
    """Every valid plan file under the folder is served under its relative path; other files are skipped"""
    s = service()
    tmp = tempfile.mkdtemp(prefix="s03-")
    try:
        good = []
        for d in case["dirs"]:
            os.makedirs(os.path.join(tmp, d), exist_ok=True)
        for i, (name, kind) in enumerate(case["files"]):
            p = os.path.join(tmp, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            cfg = dict(operators=[dict(name="op", op_name="SoftmaxRanker", input_dep_map={"values": "v", "temperature": "t"})], constants=[dict(name="v", value=dmap({"n%d" % i: 1.0})), dict(name="t", value={"double_value": 1.0})], num_actions_to_choose=1, reward_function="", reward_aggregator="sum")
            if kind == "partial":
                del cfg["constants"]
            if kind == "unknown op":
                cfg["operators"][0]["op_name"] = "Nothing"
            if kind == "no ops":
                cfg["operators"] = []
            open(p, "w").write({"text": "not json", "empty": ""}.get(kind, json.dumps(cfg)))
            if kind == "good":
                good.append((name, "n%d" % i))
        s.call("new", configs=tmp + ("/" if case["slash"] else ""))
        for name, arm in good:
            r = s.call("request", request={"plan_name": name, "actions": {"names": []}})
            equal(r["actions"], [{"name": arm, "propensity": 1.0}], "answer of " + name)
        for name, kind in case["files"]:
            if kind != "good":
                raises(Refused, lambda: s.call("show", name=name), "a plan from a file with " + kind)
        rec.nt(len(case["files"]) >= 2)
        if any("/" in n for n, _ in good):
            rec.label("nested")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


@facet(st.fixed_dictionaries(dict(acts=st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True), context=st.lists(st.dictionaries(st.sampled_from(["0", "1", "12"]), num, max_size=3), min_size=1, max_size=4), vals=st.lists(st.floats(-3, 3, width=32), min_size=4, max_size=4))), quick=10, thorough=100, shards=2)
def log_to_table(case, rec):
    """The platform's script turns a log into a table of what was decided and earned"""
    import pandas as pd

    s = service()
    tmp = tempfile.mkdtemp(prefix="s03-")
    try:
        log, out = os.path.join(tmp, "log.txt"), os.path.join(tmp, "out.pkl")
        s.call("new", log=log)
        s.call("plan", name="p", config=dict(operators=[dict(name="op", op_name="SoftmaxRanker", input_dep_map={"values": "v", "temperature": "t"})], constants=[dict(name="v", value=dmap({a: float(i) for i, a in enumerate(case["acts"])})), dict(name="t", value={"double_value": 1.0})], num_actions_to_choose=1, reward_function="r*2", reward_aggregator="sum"))
        told = []
        for i, f in enumerate(case["context"]):
            r = s.call("request", request={"request_id": "id%d" % i, "plan_name": "p", "actions": {"names": case["acts"]}, "context_features": f})
            top = r["actions"][0]
            v = case["vals"][i % 4]
            s.call("feedback", feedback={"plan_name": "p", "request_id": "id%d" % i, "actions": [{"name": top["name"], "metrics": {"r": v}}] + [{"name": x["name"], "metrics": {"r": v + 1.0 + j}} for j, x in enumerate(r["actions"][1:]) if (i + j) % 2 == 0]})
            told.append((f, top, v))
        env = dict(os.environ, PYTHONHASHSEED="0")
        p = subprocess.run([sys.executable, "/repo/serving/scripts/rasp_to_model.py", log, out], env=env, cwd=tmp, capture_output=True, text=True, timeout=120)
        require(p.returncode == 0, "the script failed: %s", p.stderr[-400:])
        df = pd.read_pickle(out)
        equal(len(df), len(told), "rows")
        for row, (f, top, v) in zip(df.to_dict("records"), told):
            same_json({str(k): x for k, x in row["state_features"].items()}, f, "features")
            require(all(type(k) is int for k in row["state_features"]), "feature ids are numbers")
            equal(row["action"], top["name"], "action")
            close(row["action_probability"], top["propensity"], "action probability")
            close(row["reward"], v * 2, "reward")
            close(row["metrics"]["r"], v, "metric")
            equal(list(row["possible_actions"]), case["acts"], "possible actions")
            equal(row["sequence_number"], 0, "sequence number")
        equal(len(set(df["mdp_id"])), len(told), "an id for every decision")
        rec.nt(len(told) >= 2)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
