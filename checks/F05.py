"""Running workflows from configuration files, and offline data and evaluation in simulators."""
import json
import os
import sys
import tempfile
import types as pytypes
from typing import Dict, List, Optional

import numpy as np
import torch
from hypothesis import strategies as st

from models import fakespark
from models.nets import rng_of
from vlib.core import Inconclusive, close, equal, facet, raises, require, same

RULE = ("a case is a workflow function with a configuration file, or an environment with a data or evaluation request; non-trivial = two or "
        "more parameters, one of them left out or unknown (or two or more steps)")

fakespark.install()
MODULE = "vf_flows"
VALUES = {  # annotation -> values as written in a file
    "int": st.integers(-5, 10**6),
    "float": st.floats(-100, 100, allow_nan=False).map(lambda x: round(x, 4)),
    "str": st.sampled_from(["", "x", "CartPole-v0", "a: b", "#no comment", "yes", "1.0", "null", "é"]),
    "bool": st.booleans(),
    "ints": st.lists(st.integers(0, 9), max_size=3),
    "floats_by_name": st.dictionaries(st.sampled_from(["reward", "m1", "x y"]), st.floats(-5, 5).map(lambda x: round(x, 3)), max_size=3),
    "table": st.builds(lambda n, s: dict(table_name=n, **({} if s is None else {"table_sample": s})), st.sampled_from(["t", "t2"]), st.sampled_from([None, 10.0, 50.0])),
    "reader": st.builds(lambda b: {"minibatch_size": b}, st.integers(1, 2048)),
    "publisher": st.sampled_from([{"NoPublishing": {}}, {"FileSystemPublisher": {"publishing_file": "published"}}]),
}
BAD = {"int": "many", "float": "x1", "bool": "perhaps", "ints": ["a"], "floats_by_name": {"a": "b"}, "table": {"table_sample": 3.0}, "reader": {"minibatch_size": "z"},
       "publisher": {"NoSuchPublisher": {}}}
NAMES = ["alpha", "beta", "input_table_spec", "num_epochs", "publisher", "zeta"]


def annotation(kind, optional):
    from reagent.publishers.union import ModelPublisher__Union
    from reagent.workflow.types import ReaderOptions, TableSpec

    t = dict(int=int, float=float, str=str, bool=bool, ints=List[int], floats_by_name=Dict[str, float], table=TableSpec, reader=ReaderOptions,
             publisher=ModelPublisher__Union)[kind]
    return Optional[t] if optional else t


@st.composite
def flows(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True))
    ps = []
    for n in names:
        kind = draw(st.sampled_from(sorted(VALUES)))
        default = draw(st.sampled_from(["none", "optional", "value"]))
        if default == "value" and kind in ("ints", "floats_by_name", "table", "reader", "publisher"):
            default = "optional"
        ps.append(dict(name=n, kind=kind, default=default, dv=draw(VALUES[kind]) if default == "value" else None,
                       given=default == "none" or draw(st.booleans()), value=draw(VALUES[kind])))
    ps.sort(key=lambda p: p["default"] != "none")  # parameters with defaults come last
    bad = draw(st.sampled_from([None, None, None, "type", "missing", "empty"]))
    return dict(ps=ps, bad=bad, which=draw(st.integers(0, 4)), extra=draw(st.dictionaries(st.sampled_from(["comment", "other", "max_steps"]), st.integers(0, 5), max_size=2)),
                style=draw(st.sampled_from(["json", "yaml", "anchor"])), shuffle=draw(st.booleans()), boom=draw(st.integers(0, 7)) == 0)


def install_flow(c):
    """module `vf_flows` with a function of the case's signature, writing down its calls"""
    import inspect

    calls = []

    def flow(*args, **kw):
        calls.append((args, kw))
        if c["boom"]:
            raise ZeroDivisionError("the workflow fails")

    P = inspect.Parameter
    flow.__signature__ = inspect.Signature([
        P(p["name"], P.POSITIONAL_OR_KEYWORD, annotation=annotation(p["kind"], p["default"] == "optional"),
          default=P.empty if p["default"] == "none" else p["dv"]) for p in c["ps"]])
    m = pytypes.ModuleType(MODULE)
    m.flow = flow
    sys.modules[MODULE] = m
    return calls


def text_of(c, config):
    items = list(config.items())
    if c["shuffle"]:
        items.reverse()
    if c["style"] == "json":
        return json.dumps(dict(items))
    import io

    from ruamel.yaml import YAML

    y = YAML(typ="safe")
    y.default_flow_style = False
    f = io.StringIO()
    y.dump(dict(items), f)
    s = f.getvalue()
    if c["style"] == "anchor":
        s = "# a comment\n%s\n" % s
    return s


def run_cli(args):
    from click.testing import CliRunner
    from reagent.workflow.cli import reagent as cli

    hook, root = sys.excepthook, os.environ.get("USE_VANILLA_DATACLASS")
    try:
        return CliRunner().invoke(cli, args)
    finally:
        sys.excepthook = hook
        if root is None:
            os.environ.pop("USE_VANILLA_DATACLASS", None)
        else:
            os.environ["USE_VANILLA_DATACLASS"] = root


def matches(p, got, written, what):
    """the value the workflow got against what the file says"""
    k = p["kind"]
    if written is None:
        return equal(got, None, what)
    if k == "table":
        equal((type(got).__name__, got.table_name, got.table_sample, got.eval_table_sample), ("TableSpec", written["table_name"], written.get("table_sample"), None), what)
    elif k == "reader":
        equal((type(got).__name__, got.minibatch_size, got.petastorm_reader_pool_type), ("ReaderOptions", written["minibatch_size"], "thread"), what)
    elif k == "publisher":
        equal(type(got.value).__name__, list(written)[0], what)
        if "FileSystemPublisher" in written:
            equal(os.path.basename(got.value.publishing_file), "published", what)
    else:
        equal(type(got), type(written) if k != "float" else float, what + "'s type")
        if k in ("float", "floats_by_name"):
            require(got == written or json.dumps(got) == json.dumps(written), "%s: got %s, written %s", what, got, written)
        else:
            equal(got, written, what)


@facet(flows(), quick=500, shards=4)
def cli_runs(c, rec):
    """`run` calls the workflow once with the file's values for its parameters, and defaults for the rest"""
    calls = install_flow(c)
    ps = c["ps"]
    config = {p["name"]: p["value"] for p in ps if p["given"]}
    need = [p for p in ps if p["default"] == "none"]
    bad = c["bad"]
    if bad == "missing":
        if not need:
            bad = None
        else:
            config.pop(need[c["which"] % len(need)]["name"])
    elif bad == "type":
        can = [p for p in ps if p["given"] and p["kind"] in BAD]
        if not can:
            bad = None
        else:
            p = can[c["which"] % len(can)]
            config[p["name"]] = BAD[p["kind"]]
    elif bad == "empty":
        config = {}
    config.update({k: v for k, v in c["extra"].items() if bad != "empty"})
    rec.nt(len(ps) > 1 and (len(c["extra"]) > 0 or any(not p["given"] for p in ps)))
    rec.label(bad or ("failing" if c["boom"] else "run"))
    here = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            path = os.path.join(d, "c.yaml")
            with open(path, "w", encoding="utf-8") as f:
                f.write(text_of(c, config) if config else "# nothing here\n")
            r = run_cli(["run", f"{MODULE}.flow", path])
            if bad or not config:
                require(r.exit_code != 0, "running with a bad file (%s) succeeded", bad or "empty")
                return equal(len(calls), 0, "calls of the workflow with a bad file")
            if not calls and r.exception is not None:
                raise r.exception
            equal(len(calls), 1, "calls of the workflow")
            equal(isinstance(r.exception, ZeroDivisionError), c["boom"], "the workflow's failure shows")
            equal(r.exit_code == 0, not c["boom"], "success")
            args, kw = calls[0]
            equal(list(args), [], "positional arguments")
            equal(sorted(kw), sorted(p["name"] for p in ps), "arguments given")
            for p in ps:
                matches(p, kw[p["name"]], p["value"] if p["given"] else p["dv"], f"argument {p['name']}")
        finally:
            os.chdir(here)
    r = run_cli(["run", f"{MODULE}.no_such", os.devnull])
    require(r.exit_code != 0, "an unknown workflow runs")


@facet(flows(), quick=200, shards=2)
def cli_schemas(c, rec):
    """`print-schema` lists every parameter, with those required"""
    c["boom"] = False
    calls = install_flow(c)
    ps = [p for p in c["ps"] if p["kind"] != "publisher"]
    if len(ps) != len(c["ps"]):
        c = dict(c, ps=ps)
        if not ps:
            return
        calls = install_flow(c)
    rec.nt(len(ps) > 1)
    r = run_cli(["print-schema", f"{MODULE}.flow"])
    if r.exception is not None:
        raise r.exception
    s = json.loads(r.output.strip().splitlines()[-1])
    equal(sorted(s["properties"]), sorted(p["name"] for p in ps), "properties")
    equal(sorted(s.get("required", [])), sorted(p["name"] for p in ps if p["default"] == "none"), "required properties")
    names = dict(int="integer", float="number", str="string", bool="boolean", ints="array", floats_by_name="object")
    for p in ps:
        if p["kind"] in names:
            equal(s["properties"][p["name"]]["type"], names[p["kind"]], f"the type of {p['name']}")
        if p["default"] == "value":
            equal(s["properties"][p["name"]]["default"], p["dv"], f"the default of {p['name']}")
    equal(len(calls), 0, "calls of the workflow")


@facet(st.lists(st.text("abcdef_", min_size=1, max_size=5), min_size=0, max_size=12, unique=True), quick=150, shards=1)
def entity_ids(names, rec):
    """one id per module, all different, in any number"""
    from reagent.workflow.env import get_new_named_entity_ids, get_workflow_id

    rec.nt(len(names) > 2)
    ids = get_new_named_entity_ids(list(names))
    equal(sorted(ids), sorted(names), "modules")
    equal(len(set(ids.values())), len(names), "different ids")
    if names:
        equal(ids[names[0]], get_workflow_id(), "the first module's id")


# ------------------------------------------------------------------ simulators
CASE = {}


def environment():
    import gym

    class Env(gym.Env):
        """states walk a cycle, rewards come from a table, episodes end after given lengths in turn"""

        def __init__(self):
            c = CASE
            self.c, self.episode = c, -1
            n = len(c["states"][0])
            self.observation_space = gym.spaces.Box(-10, 10, (n,), dtype=np.float32)
            if c["box"]:
                self.action_space = gym.spaces.Box(np.float32(-2.0), np.float32(3.0), (2,), dtype=np.float32)
                self.action_space.seed(c["seed"])
            else:
                self.action_space = gym.spaces.Discrete(len(c["rewards"][0]))
                self.action_space.seed(c["seed"])
            self.taken = []
            MADE.append(self)

        def obs(self):
            return np.array(self.c["states"][self.t % len(self.c["states"])], dtype=np.float32)

        def reset(self):
            self.episode += 1
            self.t = 0
            return self.obs()

        def step(self, a):
            i = self.t % len(self.c["states"])
            self.taken.append((self.episode, self.t, a if not self.c["box"] else [float(x) for x in a]))
            r = float(self.c["rewards"][i][int(a)]) if not self.c["box"] else float(np.sum(a))
            self.t += 1
            ends = self.c["lengths"]
            return self.obs(), r, self.t >= ends[self.episode % len(ends)], {}

        def seed(self, s=None):
            return [s]

    return Env()


MADE = []


def register():
    import gym

    try:
        gym.spec("VerifFlow-v0")
    except Exception:
        gym.register(id="VerifFlow-v0", entry_point=environment)
    MADE.clear()


@st.composite
def simulators(draw):
    rng = rng_of(draw)
    n, k, a = draw(st.integers(1, 3)), draw(st.integers(1, 4)), draw(st.integers(2, 3))
    return dict(states=[[round(float(x), 2) for x in rng.uniform(-2, 2, n)] for _ in range(k)], rewards=[[round(float(x), 2) for x in rng.uniform(-3, 3, a)] for _ in range(k)],
                lengths=[draw(st.integers(1, 6)) for _ in range(draw(st.integers(1, 3)))], seed=draw(st.integers(0, 10**6)), box=draw(st.booleans()), size=draw(st.integers(2, 12)),
                max_steps=draw(st.sampled_from([None, 1, 2, 4])), slack=draw(st.sampled_from([-0.01, 0.01, 3.0, -3.0])), same=draw(st.booleans()))


@facet(simulators(), quick=200, shards=4)
def offline_data(c, rec):
    """the saved frame holds the requested number of transitions, each as the environment made it; seeds repeat it"""
    import pandas as pd
    from reagent.workflow import gym_batch_rl as g

    register()
    CASE.clear()
    CASE.update(c)
    rec.nt(c["size"] > 2)
    rec.label("box" if c["box"] else "discrete")
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "x.pkl")
        g.offline_gym("VerifFlow-v0", p, c["size"], None, c["seed"])
        df = pd.read_pickle(p)
        q = os.path.join(d, "y.pkl")
        g.offline_gym("VerifFlow-v0", q, c["size"], None, c["seed"])
        again = pd.read_pickle(q)
        require(df.astype(str).equals(again.astype(str)), "two runs with one seed differ")
        rows = df.to_dict("records")
        k = len(c["states"])
        equal(len(rows), c["size"], "transitions saved")
        log = MADE[0].taken
        by = {(str(e), t): a for e, t, a in log}
        for r in rows:
            t = int(r["sequence_number"])
            close([r["state_features"][i] for i in sorted(r["state_features"])], c["states"][t % k], "state features", atol=1e-5)
            key = (str(r["mdp_id"]).strip("[]"), t)
            if key not in by:
                raise Inconclusive(f"row {key} of {sorted(by)[:9]}")
            if c["box"]:
                close([r["action"][i] for i in sorted(r["action"])], by[key], "the action", atol=1e-4)
                close(r["reward"], sum(by[key]), "the reward", atol=1e-4)
            else:
                equal(int(r["action"]), int(by[key]), "the action")
                close(r["reward"], c["rewards"][t % k][int(by[key])], "the reward", atol=1e-5)
        equal(len({(str(r["mdp_id"]), r["sequence_number"]) for r in rows}), len(rows), "different steps")
        # on to the timeline operator
        spec = __import__("reagent.workflow.types", fromlist=["TableSpec"]).TableSpec(table_name="target")
        sent = []
        fakespark.SESSION.__init__()
        fakespark.SESSION.created = []

        class View:
            def __init__(self, frame):
                self.frame = frame

            def createTempView(self, name):
                fakespark.SESSION.created.append((name, self.frame))

        fakespark.SESSION.createDataFrame = View
        ns = pytypes.SimpleNamespace
        fakespark.SESSION._jvm = ns(com=ns(facebook=ns(spark=ns(rl=ns(Timeline=ns(main=sent.append))))))
        g.timeline_operator(p, spec)
        (name, frame), = fakespark.SESSION.created
        require(frame.astype(str).equals(df.astype(str)), "the frame handed to spark differs from the one saved")
        arg, = [json.loads(x) for x in sent]
        equal((arg["inputTableName"], arg["outputTableName"]), (name, "target"), "tables of the timeline operator")
        equal(arg["includePossibleActions"], "possible_actions" in df, "possible actions in the timeline")
        require("reward" in arg["rewardColumns"] and "metrics" in arg["rewardColumns"], "reward columns %s", arg["rewardColumns"])
        require(arg["addTerminalStateRow"], "no terminal rows")


@facet(simulators(), quick=120, shards=4)
def evaluations(c, rec):
    """a published model passes exactly when its average return reaches the bar"""
    from checks.S01 import data, fill
    from reagent.publishers.union import ModelPublisher__Union
    from reagent.workflow import gym_batch_rl as g
    from reagent.workflow.model_managers.union import ModelManager__Union
    from reagent.workflow.types import RewardOptions, RLTrainingOutput

    register()
    c = dict(c, box=False)
    CASE.clear()
    CASE.update(c)
    n, a = len(c["states"][0]), len(c["rewards"][0])
    u = ModelManager__Union(DiscreteDQN=dict(trainer_param=dict(actions=[str(i) for i in range(a)]), net_builder={"FullyConnected": dict(sizes=[4], activations=["tanh"])}))
    m = u.value
    m.initialize_trainer(False, RewardOptions(), dict(state=data([[i, dict(feature_type="DO_NOT_PREPROCESS")] for i in range(n)])))
    fill(m.trainer.q_network, c["seed"])
    mod = m.build_serving_module()
    import reagent.types as rlt

    x = torch.tensor(c["states"])
    with torch.no_grad():
        v = mod(rlt.ServingFeatureData((x, torch.ones_like(x)), {}, {}))[1].numpy()
    top = np.sort(v, 1)
    if (top[:, -1] - top[:, -2] < 1e-4).any():
        raise Inconclusive("values too close")
    pick = v.argmax(1)
    L = c["lengths"][0] if c["max_steps"] is None else min(c["lengths"][0], c["max_steps"])
    k = len(c["states"])
    total = sum(c["rewards"][t % k][pick[t % k]] for t in range(L))
    rec.nt(L > 1)
    with tempfile.TemporaryDirectory() as d:
        pub = ModelPublisher__Union(FileSystemPublisher=dict(publishing_file=os.path.join(d, "pub")))
        run = lambda bar, name="default_model": g.evaluate_gym("VerifFlow-v0", u, pub, 1, bar, name, c["max_steps"])  # noqa: E731
        raises(ValueError, lambda: run(total - 100), "evaluating what was never published")
        path = os.path.join(d, "m.torchscript")
        torch.jit.save(mod, path)
        pub.value.publish(m, RLTrainingOutput(output_paths=dict(default_model=path)), dict(default_model=1), 2, None)
        raises(AssertionError, lambda: run(total - 100, "other"), "evaluating a module the manager does not have")
        bar = total + c["slack"]
        rec.label("pass" if total >= bar else "fail")
        if total >= bar:
            run(bar)
        else:
            raises(AssertionError, lambda: run(bar), f"return {total} against the bar {bar}")
        raises(AssertionError, lambda: g.evaluate_gym("VerifFlow-v0", u, ModelPublisher__Union(NoPublishing={}), 1, bar), "a publisher that publishes nothing")
