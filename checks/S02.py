"""The serving platform's operators (C++) compute what they are documented to."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from vlib.core import close, equal, facet, raises, require
from vlib.serving import Refused, service, unwrap, wrap

RULE = "a case is one operator with inputs, or a history of runs and feedback; non-trivial = two or more actions with different values, or three or more steps"

TINY = 1e-9
NAMES = ["a", "b", "c", "Ribs", "Bacon", "x y", "é", "0", "1", "long_action_name"]
value = st.one_of(st.integers(-20, 20).map(float), st.floats(-50, 50, width=32))


def maps(lo=1, hi=6, vals=value):
    return st.lists(st.tuples(st.sampled_from(NAMES), vals), min_size=lo, max_size=hi, unique_by=lambda t: t[0]).map(dict)


def new(**kw):
    s = service()
    s.call("new", **kw)
    return s


def mk(s, op, name="op", plan="plan", deps=None, id=None):
    s.call("op", name=name, op=op, plan=plan, deps=deps or {}, id=id or name)


def run(s, inputs, times=1, name="op", request=None):
    kw = {} if request is None else dict(request=request)
    return [unwrap(j) for j in s.call("oprun", name=name, inputs=inputs, times=times, **kw)]


def dmap(m):
    return {"map_double_value": m}


def softmax(v, t):
    v = np.asarray(v, float)
    e = np.exp((v - v.max()) / t)
    return e / e.sum()


@facet(st.fixed_dictionaries(dict(v=maps(0), t=st.one_of(st.sampled_from([1.0, 0.001, 0.1, 100.0, 1e-300, 1e300]), st.floats(0.01, 50)))), quick=500, shards=2)
def softmax_scores(case, rec):
    """Softmax: exp(v / T) normalised over the actions given"""
    s = new()
    mk(s, "Softmax")
    v, t = case["v"], case["t"]
    out = run(s, {"values": dmap(v), "temperature": {"double_value": t}}, times=2)
    equal(out[0], out[1], "same scores for the same input")
    equal(set(out[0]), set(v), "actions scored")
    if v:
        close([out[0][k] for k in v], softmax(list(v.values()), t), "softmax", rtol=1e-6, atol=1e-9)
    rec.nt(len(set(v.values())) > 1)


def frequencies(counts, probs, what):
    """Chi-square test with a threshold no sound sampler will cross"""
    n = sum(counts.values())
    names = list(probs)
    for k in counts:
        require(k in probs, what + ": chose %r, not on offer" % k)
    exp = np.array([probs[k] * n for k in names])
    got = np.array([counts.get(k, 0) for k in names], float)
    for e, g, k in zip(exp, got, names):
        if e < 1e-6:
            require(g <= 2, "%s: %r chosen %d times of %d, probability %g" % (what, k, g, n, e / n))
    big = exp >= 5
    if big.sum() >= 1:
        e, g = np.append(exp[big], exp[~big].sum()), np.append(got[big], got[~big].sum())
        keep = e >= 5
        # the small rest is judged with the others only when it is large enough
        e, g = e[keep], g[keep]
        if len(e) < 2:
            return
        e = e * g.sum() / e.sum()
        p = stats.chisquare(g, e).pvalue
        require(p > TINY, "%s: chosen %s times, expected %s (p=%g)" % (what, dict(zip(names, got)), dict(zip(names, exp.round(1))), p))


@facet(st.fixed_dictionaries(dict(v=maps(0), t=st.one_of(st.sampled_from([1.0, 0.1, 10.0]), st.floats(0.05, 50)), n=st.sampled_from([3, 3, 800]))), quick=400, shards=4)
def softmax_ranker(case, rec):
    """Softmax ranking: every action once; propensities multiply the softmax over those still left; drawn accordingly"""
    s = new()
    mk(s, "SoftmaxRanker")
    v, t = case["v"], case["t"]
    outs = run(s, {"values": dmap(v), "temperature": {"double_value": t}}, times=case["n"])
    counts, second = {}, {}
    for r in outs:
        equal(sorted(a["name"] for a in r), sorted(v), "a ranking of all the actions")
        left, roll = list(v), 1.0
        for a in r:
            p = softmax([v[k] for k in left], t)
            roll *= p[left.index(a["name"])]
            close(a["propensity"], roll, "propensity of %r" % a["name"], rtol=1e-6, atol=1e-12)
            left.remove(a["name"])
        if r:
            counts[r[0]["name"]] = counts.get(r[0]["name"], 0) + 1
            if len(r) > 1:
                second[r[1]["name"]] = second.get(r[1]["name"], 0) + 1
    if case["n"] > 100 and v:
        p = dict(zip(v, softmax(list(v.values()), t)))
        frequencies(counts, p, "first place")
        if len(v) > 1:
            q = {k: sum(p[j] * softmax([v[i] for i in v if i != j], t)[[i for i in v if i != j].index(k)] for j in v if j != k) for k in v}
            frequencies(second, q, "second place")
        rec.label("sampled")
    rec.nt(len(set(v.values())) > 1)


@facet(st.fixed_dictionaries(dict(v=maps(0), e=st.one_of(st.sampled_from([0.0, 1.0, 0.3]), st.floats(0, 1)), n=st.sampled_from([3, 3, 800]), seed=st.integers(0, 10**6))), quick=400, shards=4)
def epsilon_greedy(case, rec):
    """Epsilon-greedy ranking: the best left with 1 - epsilon, else any of those left; propensities are the probabilities of that"""
    s = new()
    s.call("order", seed=case["seed"])
    mk(s, "EpsilonGreedyRanker")
    v, e = case["v"], case["e"]
    outs = run(s, {"values": dmap(v), "epsilon": {"double_value": e}}, times=case["n"])
    unique = len(set(v.values())) == len(v)
    counts, greedy_seconds = {}, 0
    for r in outs:
        equal(sorted(a["name"] for a in r), sorted(v), "a ranking of all the actions")
        left, roll = list(v), {1.0}
        for a in r:
            best = max(v[k] for k in left)
            n = len(left)
            ties = sum(v[k] == best for k in left)
            if v[a["name"]] < best:
                ps = {e / n}
            elif ties == 1:
                ps = {1 - e + e / n}
            else:  # the rule does not say which of the best is the greedy one
                ps = {e / n, 1 - e + e / n}
            roll = {x * p for x in roll for p in ps}
            require(any(abs(a["propensity"] - x) <= 1e-9 + 1e-6 * x for x in roll), "propensity of %r in %s: %r, expected %s", a["name"], [b["name"] for b in r], a["propensity"], sorted(roll))
            left.remove(a["name"])
        if e == 0:
            vals = [v[a["name"]] for a in r]
            equal(vals, sorted(vals, reverse=True), "best first without exploration")
        if r:
            counts[r[0]["name"]] = counts.get(r[0]["name"], 0) + 1
    if case["n"] > 100 and v and unique:
        best = max(v, key=v.get)
        frequencies(counts, {k: e / len(v) + (1 - e if k == best else 0) for k in v}, "first place")
        rec.label("sampled")
    rec.nt(unique and len(v) > 1)


frechet_cases = st.fixed_dictionaries(
    dict(
        v=maps(0, vals=st.floats(0.1, 100)),
        rho=st.one_of(st.sampled_from([1.0, 0.5, 0.0, -1.0]), st.floats(0.01, 20)),
        gamma=st.one_of(st.sampled_from([1.0, 2.0, 0.5]), st.floats(1, 30)),
        seed=st.one_of(st.none(), st.integers(0, 2**31 - 1)),
        many=st.booleans(),
    )
)


@facet(frechet_cases, quick=400, shards=2)
def frechet(case, rec):
    """Fréchet scores: v * rho * (-log u)^(-1/gamma), u uniform; the same for the same seed; bad parameters refused"""
    s = new()
    mk(s, "Frechet")
    v, rho, g = case["v"], case["rho"], case["gamma"]
    if case["many"]:
        v = {"n%d" % i: 1.0 + i % 7 for i in range(400)}
    inputs = {"values": dmap(v), "rho": {"double_value": rho}, "gamma": {"double_value": g}}
    if case["seed"] is not None:
        inputs["seed"] = {"int_value": case["seed"]}
    if rho <= 0 or g < 1:
        raises(Refused, lambda: run(s, inputs), "rho %g gamma %g" % (rho, g))
        rec.label("refused")
        return
    a, b = run(s, inputs, times=2)
    equal(set(a), set(v), "actions scored")
    require(all(x > 0 and math.isfinite(x) for x in a.values()), "positive scores")
    u = {k: math.exp(-((a[k] / (v[k] * rho)) ** -g)) for k in v}
    if case["seed"] is not None:
        equal(a, b, "same seed")
        c = run(s, dict(inputs, rho={"double_value": rho * 2}))[0]
        close([c[k] for k in v], [2 * a[k] for k in v], "scores grow with rho", rtol=1e-6)
        d = run(s, dict(inputs, values=dmap({k: 3 * x for k, x in v.items()})))[0]
        close([d[k] for k in v], [3 * a[k] for k in v], "scores grow with the values", rtol=1e-6)
        f = run(s, dict(inputs, gamma={"double_value": g + 1}))[0]
        ref = [v[k] * rho * (a[k] / (v[k] * rho)) ** (g / (g + 1)) for k in v]
        close([f[k] for k in v], ref, "gamma's exponent", rtol=1e-6)
        if len(v) > 1:
            h = run(s, dict(inputs, seed={"int_value": (case["seed"] + 12345) % 2**31}))[0]
            require(h != a, "another seed draws other numbers")
    if len(v) > 1:
        require(len(set(round(x, 12) for x in u.values())) > 1, "every action has its own draw")
    if len(v) >= 100:
        p = stats.kstest(list(u.values()), "uniform").pvalue
        require(p > TINY, "draws are not uniform: p=%g", p)
    rec.nt(len(v) > 1)


history = st.fixed_dictionaries(
    dict(
        arms=st.one_of(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True), st.lists(st.sampled_from(NAMES), min_size=5, max_size=8, unique=True)),
        batch=st.one_of(st.none(), st.integers(1, 4)),
        window=st.one_of(st.none(), st.integers(3, 12)),
        features=st.booleans(),
        steps=st.lists(st.tuples(st.sampled_from(["go", "go", "go", "force", "force", "look", "subset", "other", "plan"]), st.one_of(st.sampled_from([0.0, 1.0, -1.0]), st.floats(-3, 3, width=32)), st.integers(0, 255)), min_size=1, max_size=40),
    )
)


class Arms:
    """Reference: rewards averaged per batch; arms without a full batch first; then UCB1"""

    def __init__(self, batch, window):
        self.batch, self.window, self.done, self.open = batch or 1, window or 1 << 20, {}, {}

    def options(self, arms):
        empty = [a for a in arms if not self.done.get(a)]
        if empty:
            return empty, 1.0 / len(empty)
        n = sum(len(self.done[a]) for a in arms)
        score = {a: sum(self.done[a]) / len(self.done[a]) + math.sqrt(2 * math.log(n) / len(self.done[a])) for a in arms}
        top = max(score.values())
        return [a for a in arms if score[a] >= top - 1e-9 * (1 + abs(top))], 1.0

    def mean(self, arm):
        d = self.done.get(arm)
        return sum(d) / len(d) if d else 0.0

    def reward(self, arm, r):
        b = self.open.setdefault(arm, [])
        b.append(r)
        if len(b) == self.batch:
            self.done.setdefault(arm, []).append(sum(b) / len(b))
            self.done[arm] = self.done[arm][-self.window :]
            self.open[arm] = []


@facet(history, quick=500, shards=4)
def ucb(case, rec):
    """UCB: arms without rewards first, at random; then the highest mean + sqrt(2 ln N / n); rewards averaged in batches"""
    c = case
    if c["batch"] and c["window"] and c["window"] < c["batch"]:
        c = dict(c, window=None)
    s = new(**({} if c["window"] is None else dict(window=c["window"])))
    # three bandits: two in one plan, and one of the same name in another plan
    for name, plan, id in (("u", "p", "u"), ("v", "p", "v"), ("u", "q", "w")):
        mk(s, "Ucb", name, plan, {"method": "m"}, id)
    inputs = {"method": {"string_value": "UCB1"}}
    if c["batch"]:
        inputs["batch_size"] = {"int_value": c["batch"]}
    models = {k: Arms(c["batch"], c["window"]) for k in "uvw"}

    def request(arms):
        if c["features"]:
            return {"plan_name": "p", "actions": {"names": [], "features": {a: {"f": 1.0} if i % 2 else {} for i, a in enumerate(arms)}}}
        return {"plan_name": "p", "actions": {"names": arms}}

    bandits = 0
    for kind, reward, pick in c["steps"]:
        name = {"other": "v", "plan": "w"}.get(kind, "u")
        arms = c["arms"] if kind != "subset" else [a for i, a in enumerate(c["arms"]) if pick >> i & 1] or c["arms"][:1]
        m = models[name]
        ok, p = m.options(arms)
        bandits += p == 1.0 and len(arms) > 1
        (out,) = run(s, inputs, name=name, request=request(arms))
        equal(len(out), 1, "one arm chosen")
        require(out[0]["name"] in ok, "chose %r, expected one of %s", out[0]["name"], ok)
        close(out[0]["propensity"], p, "propensity", rtol=1e-9)
        if kind == "look":
            continue
        # which of several arms the service picks is random; feedback is given for one that the case names
        chosen = arms[pick % len(arms)] if kind == "force" else ok[pick % len(ok)]
        s.call("opfeedback", name=name, inputs=inputs, output={"ranked_action_list": [dict(name=chosen, propensity=p)]}, feedback={"plan_name": "p", "request_id": "r", "actions": [], "computed_reward": reward})
        m.reward(chosen, reward)
        got = s.call("armmeans", name=name, arms=arms)
        close([got[a] for a in arms], [m.mean(a) for a in arms], "means of the arms of " + name, rtol=1e-9, atol=1e-9)
    rec.nt(len(c["steps"]) >= 3)
    if bandits >= 2:
        rec.label("exploited")
    ok, p = models["u"].options(c["arms"])
    if p < 1 and len(c["steps"]) % 3 == 0:
        outs = run(s, inputs, times=400, name="u", request=request(c["arms"]))
        counts = {}
        for (o,) in outs:
            counts[o["name"]] = counts.get(o["name"], 0) + 1
        frequencies(counts, {a: 1.0 / len(ok) for a in ok}, "arms without rewards")
        rec.label("sampled")
    if p == 1.0 and all(models["u"].done.get(a) for a in c["arms"]):
        raises(Refused, lambda: run(s, dict(inputs, method={"string_value": "UCB9"}), name="u", request=request(c["arms"])), "an unknown method")


@facet(st.fixed_dictionaries(dict(features=st.booleans())), quick=4, shards=1)
def ucb_nothing(case, rec):
    """A request without actions is refused, and the service goes on"""
    s = new()
    mk(s, "Ucb", deps={"method": "m"})
    req = {"plan_name": "plan", "actions": {"names": []}}
    if case["features"]:
        req["actions"]["features"] = {}
    raises(Refused, lambda: run(s, {"method": {"string_value": "UCB1"}}, request=req), "no actions to choose from")
    (out,) = run(s, {"method": {"string_value": "UCB1"}}, request={"plan_name": "plan", "actions": {"names": ["z"]}})
    equal(out, [{"name": "z", "propensity": 1.0}], "the next request")
    rec.nt()


prop_steps = st.lists(st.one_of(st.tuples(st.sampled_from(["run", "run g", "run h"]), maps(0, 4, st.floats(-2, 2))), st.tuples(st.sampled_from(["back", "back", "back", "back g", "back h"]), maps(0, 4, st.one_of(st.sampled_from([0.0, 0.5, 1.0]), st.floats(0, 1))))), min_size=1, max_size=16)


@facet(st.fixed_dictionaries(dict(targets=maps(0, 4, st.one_of(st.sampled_from([0.0, 0.5, 1.0]), st.floats(0, 1))), steps=prop_steps, window=st.one_of(st.none(), st.integers(1, 4)))), quick=500, shards=4)
def propensity_fit(case, rec):
    """PropensityFit: scores are shifted by what feedback taught: 0.01 down while the mean is above the target, else up"""
    c = case
    s = new(**({} if c["window"] is None else dict(window=c["window"])))
    for name, plan, id in (("f", "p", "f"), ("g", "p", "g"), ("f", "q", "h")):
        mk(s, "PropensityFit", name, plan, {"input": "i", "targets": "t"}, id)
    win = c["window"] or 1 << 20
    shifts, seens, backs = {k: {} for k in "fgh"}, {k: {} for k in "fgh"}, 0
    targets = {"targets": dmap(c["targets"])}
    for kind, m in c["steps"]:
        who = kind[5:] if kind[:4] == "back" else kind[4:]
        who = who or "f"
        shift, seen = shifts[who], seens[who]
        if kind[:4] == "back":
            s.call("opfeedback", name=who, inputs=dict(targets, input=dmap({})), output=dmap(m), feedback={"plan_name": "p", "request_id": "r", "actions": []})
            for k, x in m.items():
                if k in c["targets"]:
                    seen[k] = (seen.get(k, []) + [x])[-win:]
            tie = False
            for k, t in c["targets"].items():
                if not seen.get(k):
                    continue
                mean = sum(seen[k]) / len(seen[k])
                if abs(mean - t) < 1e-9 and mean != t:
                    tie = True
                shift[k] = shift.get(k, 0.0) + (-0.01 if mean > t else 0.01)
            if tie:
                return
            backs += 1
        probe = m if kind[:3] == "run" else {k: 0.25 for k in list(m) + list(c["targets"])}
        for w in "fgh":
            (out,) = run(s, dict(targets, input=dmap(probe)), name=w)
            equal(set(out), set(probe), "actions scored")
            close([out[k] for k in probe], [probe[k] + shifts[w].get(k, 0.0) for k in probe], "shifted scores", rtol=1e-9, atol=1e-9)
    rec.nt(backs >= 2 and any(shifts.values()))


names = ["x", "y", "equation_b", "equation_bias"]


def trees(names=("x", "y", "z")):
    leaf = st.one_of(st.sampled_from(list(names)), st.integers(0, 9).map(str), st.sampled_from(["0.5", "2.25"]))
    return st.recursive(leaf, lambda t: st.one_of(st.tuples(st.sampled_from("+-*/"), t, t), st.tuples(st.just("neg"), t), st.tuples(st.just("^"), t, st.sampled_from(["2", "3"]))), max_leaves=6)


def text(t):
    if isinstance(t, str):
        return t
    if t[0] == "neg":
        return "(-" + text(t[1]) + ")"
    return "(" + text(t[1]) + t[0] + text(t[2]) + ")"


def evaluate(t, env):
    if isinstance(t, str):
        return env[t] if t in env else float(t)
    if t[0] == "neg":
        return -evaluate(t[1], env)
    a, b = evaluate(t[1], env), evaluate(t[2], env)
    with np.errstate(all="ignore"):
        a, b = np.float64(a), np.float64(b)
        return {"+": a + b, "-": a - b, "*": a * b, "/": a / b if b != 0 else np.nan, "^": a**b if t[0] == "^" else 0}[t[0]]


@facet(st.fixed_dictionaries(dict(t=trees(names), acts=st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True), vals=st.lists(st.floats(-9, 9, width=32), min_size=16, max_size=16))), quick=400, shards=2)
def expressions(case, rec):
    """Expression: the equation evaluated for every action with that action's inputs"""
    s = new()
    mk(s, "Expression")
    t = case["t"]
    ins = {n: {a: case["vals"][(4 * j + i) % 16] for j, a in enumerate(case["acts"])} for i, n in enumerate(names)}
    ref = {a: float(evaluate(t, {n: ins[n][a] for n in names})) for a in case["acts"]}
    if not all(math.isfinite(x) for x in ref.values()):
        return
    (out,) = run(s, dict({n: dmap(m) for n, m in ins.items()}, equation={"string_value": text(t)}))
    equal(set(out), set(case["acts"]), "actions scored")
    close([out[a] for a in case["acts"]], [ref[a] for a in case["acts"]], "value of " + text(t), rtol=1e-6, atol=1e-9)
    rec.nt(not isinstance(t, str) and len(case["acts"]) > 1)


num = st.floats(-1e6, 1e6, width=32)
key = st.text("abc é0", min_size=0, max_size=3)


def constants():
    i = st.one_of(st.integers(-9, 9), st.integers(-(2**63), 2**63 - 1))
    return st.one_of(
        st.text(max_size=5).map(lambda v: {"string_value": v}),
        i.map(lambda v: {"int_value": v}),
        num.map(lambda v: {"double_value": v}),
        st.lists(st.text("ab", max_size=2), max_size=3).map(lambda v: {"list_string_value": v}),
        st.lists(i, max_size=3).map(lambda v: {"list_int_value": v}),
        st.lists(num, max_size=3).map(lambda v: {"list_double_value": v}),
        st.dictionaries(key, st.text("ab", max_size=2), max_size=3).map(lambda v: {"map_string_value": v}),
        st.dictionaries(key, i, max_size=3).map(lambda v: {"map_int_value": v}),
        st.dictionaries(key, num, max_size=3).map(lambda v: {"map_double_value": v}),
        st.dictionaries(key, st.dictionaries(key, num, max_size=2), max_size=3).map(lambda v: {"map_map_double_value": v}),
        st.lists(st.fixed_dictionaries(dict(name=key, propensity=num)), max_size=3).map(lambda v: {"ranked_action_list": v}),
    )


@facet(st.fixed_dictionaries(dict(c=constants(), table=st.dictionaries(st.sampled_from(["0/0", "0/1", "7/2", "700/100002", "2000000000/300"]), maps(0), min_size=1), pick=st.sampled_from(["0/0", "0/1", "7/2", "700/100002", "2000000000/300"]))), quick=300, shards=2)
def inputs_and_models(case, rec):
    """InputFromRequest hands on the request's input; ActionValueScoring asks the scorer for the given model and snapshot"""
    s = new(scores=case["table"])
    mk(s, "InputFromRequest", "i")
    (j,) = s.call("oprun", name="i", inputs={}, request={"plan_name": "p", "actions": {"names": []}, "input": case["c"]})
    equal(j, case["c"], "the request's input")
    mk(s, "ActionValueScoring", "m")
    m, n = map(int, case["pick"].split("/"))
    inputs = {"model_id": {"int_value": m}, "snapshot_id": {"int_value": n}}
    req = {"request_id": "q", "plan_name": "p", "actions": {"names": ["z"]}}
    if case["pick"] in case["table"]:
        (out,) = run(s, inputs, name="m", request=req)
        equal(out, case["table"][case["pick"]], "the model's scores")
    else:
        raises(Refused, lambda: run(s, inputs, name="m", request=req), "an unknown model")
    equal(s.call("calls"), [["q", m, n]], "what the scorer was asked")
    rec.nt(True)


@facet(st.fixed_dictionaries(dict(window=st.one_of(st.integers(1, 6), st.integers(10, 40)), steps=st.lists(st.tuples(st.sampled_from(["add"] * 14 + ["clear", "read"]), st.sampled_from(["k", "k", "l"]), num), min_size=1, max_size=50))), quick=400, shards=2)
def counters(case, rec):
    """Counters: number, mean and variance of each key's last values (0 without any), cleared on demand"""
    s = new(window=case["window"])
    got = s.call("counter", steps=case["steps"])
    ref, cleared = {}, False
    for (kind, k, x), (n, mean, var) in zip(case["steps"], got):
        if kind == "add":
            ref[k] = (ref.get(k, []) + [x])[-case["window"] :]
        elif kind == "clear":
            cleared = cleared or bool(ref.get(k))
            ref[k] = []
        v = ref.get(k, [])
        equal(n, len(v), "number of values after %s" % kind)
        close(mean, np.mean(v) if v else 0.0, "mean", rtol=1e-9, atol=1e-6)
        close(var, np.var(v) if v else 0.0, "variance", rtol=1e-6, atol=1e-3)
    rec.nt(len(case["steps"]) >= 3)
    if cleared:
        rec.label("cleared")
