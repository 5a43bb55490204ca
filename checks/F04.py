"""The training workflow end to end, on an in-memory stand-in for PySpark and Petastorm."""
import contextlib
import os
import pickle
import tempfile

import numpy as np
import torch
from hypothesis import strategies as st

from models import fakespark
from models.nets import rng_of
from vlib.core import Inconclusive, close, equal, facet, raises, require, same

RULE = ("a case is a table, a manager's configuration, epochs and batch size (or sample sizes, data-module histories, checkpoints); "
        "non-trivial = two or more epochs or two or more batches (ranges: both sizes given)")

fakespark.install()
DISCRETE = ["DiscreteDQN", "DiscreteQRDQN", "DiscreteC51DQN", "DiscreteCRR"]
KINDS = DISCRETE + ["SAC", "TD3"]


@contextlib.contextmanager
def scratch():
    """a directory of its own as cwd: the workflow writes logs and modules there"""
    from reagent.tensorboardX import SummaryWriterContext

    here = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            SummaryWriterContext._reset_globals()
            yield d
        finally:
            os.chdir(here)
            SummaryWriterContext._reset_globals()


# ------------------------------------------------------------------ sample ranges
@st.composite
def sizes(draw):
    n = st.one_of(st.none(), st.sampled_from([0.0, 50.0, 100.0, 100, 33.3]), st.floats(0, 100).map(lambda x: round(x, 3)))
    return dict(t=draw(n), e=draw(n), cpe=draw(st.booleans()))


@facet(sizes(), quick=400, shards=2)
def sample_ranges(c, rec):
    """training uses the table's beginning, evaluation its end, and the two do not meet"""
    import reagent.workflow.data.manual_data_module as mdm
    import reagent.workflow.training as wt
    from reagent.workflow.types import TableSpec

    t, e = c["t"], c["e"]
    spec = TableSpec(table_name="t", table_sample=t, eval_table_sample=e)
    rec.nt(t is not None and e is not None)
    for f in (wt.get_sample_range, mdm.get_sample_range):
        if c["cpe"] and (t is None or e is None or t + e > 100.001):
            rec.label("refused")
            raises(AssertionError, lambda: f(spec, True), f"sizes {t} and {e} for evaluation in training")
            continue
        r = f(spec, c["cpe"])
        tr, ev = r.train_sample_range, r.eval_sample_range
        close(tr, (0.0, 100.0 if t is None else t), "the training range")
        if c["cpe"]:
            close(ev, (100.0 - e, 100.0), "the evaluation range", atol=1e-6)
            require(tr[1] <= ev[0] + 2e-3, "ranges %s and %s overlap", tr, ev)
        else:
            equal(tuple(ev), (0.0, 0.0), "the unused evaluation range")
        rec.label("cpe" if c["cpe"] else "no cpe")


# ------------------------------------------------------------------ data modules
LOG = []


def module_class():
    from reagent.workflow.data.manual_data_module import ManualDataModule

    class Module(ManualDataModule):
        """answers with the arguments of each call, and writes them down"""
        cpe, tables = False, {}

        def run_feature_identification(self, input_table_spec):
            from reagent.parameters import NormalizationData

            LOG.append(("identify", input_table_spec.table_name))
            return {"state": NormalizationData(dense_normalization_parameters={})}

        required_normalization_keys = ["state"]

        @property
        def should_generate_eval_dataset(self):
            return self.cpe

        def query_data(self, input_table_spec, sample_range, reward_options):
            from reagent.workflow.types import Dataset

            LOG.append(("query", input_table_spec.table_name, tuple(sample_range), reward_options))
            name = f"out{len([x for x in LOG if x[0] == 'query'])}"
            lo, hi = sample_range
            rows = fakespark.SESSION.tables[input_table_spec.table_name].rows
            n = len(rows)
            fakespark.SESSION.tables[name] = fakespark.Frame(["v"], rows[int(round(lo * n / 100)): int(round(hi * n / 100))])
            return Dataset(parquet_url=f"file:///warehouse/{name}")

        def build_batch_preprocessor(self):
            return lambda b: ("seen", b["v"].tolist())

    return Module


@st.composite
def module_cases(draw):
    n = draw(st.integers(4, 20))
    return dict(n=n, cpe=draw(st.booleans()), t=draw(st.sampled_from([25.0, 50.0, 75.0])), batch=draw(st.integers(1, 7)), epochs=draw(st.integers(1, 3)),
                pool=draw(st.sampled_from(["thread", "dummy"])), saved=draw(st.booleans()), again=draw(st.booleans()), abandon=draw(st.booleans()))


@facet(module_cases(), quick=200, shards=4)
def data_modules(c, rec):
    """prepare_data looks at the table once and its outcome is enough to read all batches, elsewhere and repeatedly"""
    from reagent.parameters import NormalizationData, NormalizationParameters
    from reagent.workflow.types import ReaderOptions, RewardOptions, TableSpec

    LOG.clear()
    fakespark.install()
    vals = [float(i) for i in range(c["n"])]
    fakespark.SESSION.tables["logs"] = fakespark.Frame(["v"], [dict(v=v) for v in vals])
    M = module_class()
    M.cpe = c["cpe"]
    spec = TableSpec(table_name="logs", table_sample=c["t"], eval_table_sample=100 - c["t"])
    ro, opts = RewardOptions(metric_reward_values={"m": 2.0}), ReaderOptions(minibatch_size=c["batch"], petastorm_reader_pool_type=c["pool"])
    old = {"state": NormalizationData(dense_normalization_parameters={7: NormalizationParameters(feature_type="BINARY")})}
    saved = {"normalization_data_map": pickle.dumps(old), "train_dataset": pickle.dumps("stale")} if c["saved"] else None
    m = M(input_table_spec=spec, reward_options=ro, reader_options=opts, saved_setup_data=saved)
    setup = m.prepare_data()
    k = int(round(c["t"] * c["n"] / 100))
    equal([x for x in LOG if x[0] == "identify"], [] if c["saved"] else [("identify", "logs")], "feature identification")
    q = [x for x in LOG if x[0] == "query"]
    equal(len(q), 2 if c["cpe"] else 1, "queries")
    close(q[0][2], (0, c["t"]), "the range trained on")
    require(all(x[3] is ro for x in q), "reward options passed on")
    if c["cpe"]:
        close(q[1][2], (c["t"], 100), "the range evaluated")
    require(all(isinstance(v, bytes) for v in setup.values()), "setup data is not bytes")
    equal(M(setup_data=setup).prepare_data(), None, "preparing what is prepared")
    n_log = len(LOG)
    elsewhere = M(setup_data=pickle.loads(pickle.dumps(setup)), reader_options=opts)
    for mod in [elsewhere] + ([m] if c["again"] else []):
        mod.setup()
        if c["again"]:
            mod.setup("fit")
        nm = mod.get_normalization_data_map(["state"])
        equal(sorted(nm["state"].dense_normalization_parameters), [7] if c["saved"] else [], "normalisation")
        require(mod.state_normalization_data is nm["state"], "normalisation by attribute")
        raises(AttributeError, lambda: mod.item_normalization_data, "normalisation of an unknown key")
        raises(AttributeError, lambda: mod.nonsense, "an unknown attribute")
        for epoch in range(c["epochs"]):
            for what, load, want in (("training", mod.train_dataloader, vals[:k]), ("evaluation", mod.test_dataloader, vals[k:])):
                fakespark.OPENED.clear()
                dl = load()
                if what == "evaluation" and not c["cpe"]:
                    equal(dl, None, "evaluation data without evaluation in training")
                    continue
                got = [b for b in dl]
                equal([x for _, b in got for x in b], want, f"rows of the {what} epoch {epoch}")
                require(all(len(b) == c["batch"] for _, b in got[:-1]), "%s batches of %s", what, [len(b) for _, b in got])
                equal(len(fakespark.OPENED), 1, "readers opened")
                require(fakespark.OPENED[0].closed, "the %s reader is left open after the epoch", what)
                equal(fakespark.OPENED[0].pool, c["pool"], "the reader's pool")
    equal(len(LOG), n_log, "calls to the table after preparation")
    rec.nt(c["epochs"] > 1 or k > c["batch"])


# ------------------------------------------------------------------ training runs
@st.composite
def runs(draw, kinds=KINDS):
    kind = draw(st.sampled_from(kinds))
    rng = rng_of(draw)
    n = draw(st.integers(22, 36))
    a = draw(st.integers(2, 3))
    rl = dict(gamma=draw(st.sampled_from([0.5, 0.9])), target_update_rate=0.2, maxq_learning=draw(st.booleans()), softmax_policy=draw(st.booleans()))
    net = {"FullyConnected": dict(sizes=[draw(st.integers(2, 4))], activations=["tanh"])}
    tp = dict(rl=rl)
    cpe = draw(st.integers(0, 2)) == 0
    cfg = dict(trainer_param=tp, eval_parameters=dict(calc_cpe_in_training=cpe))
    multi = draw(st.sampled_from([None, None, None, 2])) if kind in DISCRETE else None
    batch = draw(st.sampled_from([5, 8, 16, 64]))
    own = None
    if multi:
        rl["multi_steps"] = multi
    elif kind not in DISCRETE and draw(st.integers(0, 2)) == 0:
        own = draw(st.sampled_from([6, 9]))  # the manager's own batch size
        cfg["reader_options"] = dict(minibatch_size=own)
    opts = dict(num_samples=n)
    if kind in DISCRETE:
        tp["actions"] = [f"a{i}" for i in range(a)]
        cfg["preprocessing_options"] = opts
        tp["minibatch_size"] = 16
        if kind == "DiscreteDQN":
            cfg["net_builder"] = net
        elif kind != "DiscreteCRR":
            tp["num_atoms"] = 3
        else:
            tp.pop("minibatch_size")
            cfg.update(critic_net_builder=net)
        if kind == "DiscreteC51DQN":
            tp.update(qmin=-4, qmax=6)
        if kind != "DiscreteC51DQN":
            cfg["cpe_net_builder"] = net
    else:
        cfg.update(state_preprocessing_options=opts, action_preprocessing_options=opts, action_float_features=[[100 + i, "x"] for i in range(a)],
                   critic_net_builder=net)
    return dict(kind=kind, cfg=cfg, n=n, a=a, seed=draw(st.integers(0, 10**6)), states=draw(st.integers(1, 3)), epochs=draw(st.integers(1, 3)), more=draw(st.integers(1, 2)),
                batch=own or batch, asked=batch, multi=multi, pool=draw(st.sampled_from(["thread", "dummy"])),
                expr=None if multi else draw(st.sampled_from([None, None, "reward * 2 - 1"])), t=draw(st.sampled_from([50.0, 60.0])), reward=draw(st.sampled_from([None, {"m1": 2.0, "m2": -1.0}])),
                publish=draw(st.booleans()), validate=draw(st.booleans()), split=draw(st.booleans()))


def table(c):
    rng = np.random.RandomState(c["seed"])
    n, a = c["n"], c["a"]
    rows = []
    disc = c["kind"] in DISCRETE
    F = lambda: round(float(rng.normal()), 3)  # noqa: E731
    for i in range(n):
        steps = rng.randint(1, c["multi"] + 2) if c["multi"] else 1
        end = rng.rand() < 0.3 and steps <= (c["multi"] or 1)
        act = (lambda: f"a{rng.randint(a)}") if disc else (lambda: {100 + j: F() for j in range(a)})
        acts = [f"a{j}" for j in range(a)]
        rows.append(dict(mdp_id=f"m{i // 3}", sequence_number=i % 3, sequence_number_ordinal=i % 3 + 1, state_features={j: F() for j in range(c["states"])},
                         action=act(), action_probability=0.5, reward=F(), next_state_features={j: F() for j in range(c["states"])},
                         next_action=("" if disc else {}) if end else act(), time_diff=1, metrics={"m1": F(), "m2": F()}, ds="x"))
        if disc:
            rows[-1].update(possible_actions=acts, possible_next_actions=[""] if end else acts)
        if c["multi"]:  # what follows, step by step
            k = min(steps, c["multi"])
            rows[-1].update(reward=[F() for _ in range(k)], next_state_features=[{j: F() for j in range(c["states"])} for _ in range(steps)], time_diff=[1] * steps,
                            next_action=[act() for _ in range(steps - 1)] + [rows[-1]["next_action"]], metrics=[{"m1": F(), "m2": F()} for _ in range(steps)],
                            possible_next_actions=[acts for _ in range(steps - 1)] + [rows[-1]["possible_next_actions"]])
    fakespark.SESSION.tables["logs"] = fakespark.Frame(list(rows[0]), rows)


class Spy:
    """a manager that remembers the trainer's first state, and starts training from known random state"""

    def __init__(self, c):
        from reagent.workflow.model_managers.union import ModelManager__Union

        import copy

        self.union = ModelManager__Union(**{c["kind"]: copy.deepcopy(c["cfg"])})
        self.manager = m = self.union.value
        self.first = None
        build = m.build_trainer

        def build_trainer():
            torch.manual_seed(c["seed"])
            t = build()
            self.first = {k: v.clone() for k, v in t.state_dict().items()}
            torch.manual_seed(c["seed"] + 1)
            return t

        m.build_trainer = build_trainer


def options(c):
    from reagent.workflow.types import ReaderOptions, RewardOptions, TableSpec

    cpe = c["cfg"]["eval_parameters"]["calc_cpe_in_training"]
    spec = TableSpec(table_name="logs", table_sample=c["t"], eval_table_sample=100 - c["t"] if cpe else None)
    return spec, RewardOptions(metric_reward_values=c["reward"], custom_reward_expression=c["expr"]), ReaderOptions(minibatch_size=c["asked"], petastorm_reader_pool_type=c["pool"])


def datasets(c):
    """the rows training and evaluation should see, from the table itself"""
    from reagent.workflow.data_fetcher import query_data

    spec, _, _ = options(c)
    disc = c["kind"] in DISCRETE
    kw = dict(actions=c["cfg"]["trainer_param"]["actions"], multi_steps=c["multi"], gamma=c["cfg"]["trainer_param"]["rl"]["gamma"]) if disc else {}
    saved, opened = list(fakespark.SESSION.saved), list(fakespark.OPENED)
    out = []
    for r in [(0.0, c["t"])] + ([(c["t"], 100.0)] if c["cfg"]["eval_parameters"]["calc_cpe_in_training"] else []):
        d = query_data(spec, disc, include_possible_actions=disc, custom_reward_expression=c["expr"], sample_range=r, **kw)
        out.append(fakespark.parquet(d.parquet_url).rows)
    fakespark.SESSION.saved[:], fakespark.OPENED[:] = saved, opened
    return out


class Recorder:
    """a validator or publisher that remembers what it is given"""

    def __init__(self):
        self.value, self.got = self, []

    def validate(self, output):
        from reagent.validators.union import ModelValidator__Union

        self.got.append(output)
        return ModelValidator__Union(NoValidation={}).value.validate(output)

    def publish(self, *args):
        from reagent.publishers.union import ModelPublisher__Union

        self.got.append(args)
        return ModelPublisher__Union(NoPublishing={}).value.publish(*args)


def reference(c, spy, url, epochs, norms):
    """the same trainer, from the same start, on the same batches -- through the training API alone"""
    import pytorch_lightning as pl

    from reagent.workflow.training import get_workflow_id  # noqa: F401

    other = Spy(c)
    spec, ro, reader = options(c)
    tr = other.manager.initialize_trainer(False, ro, norms)
    tr.load_state_dict(spy.first)
    m = other.manager
    dm = m.get_data_module(reward_options=ro, reader_options=reader)
    if dm is None:
        pre = m.build_batch_preprocessor()
    else:
        from reagent.parameters import NormalizationData  # noqa: F401

        dm.setup_data = {k: pickle.dumps(v) for k, v in dict(normalization_data_map=norms, train_dataset=None, eval_dataset=None).items()}
        dm.setup()
        pre = dm.build_batch_preprocessor()
    rows = fakespark.parquet(url).rows
    chunks = [rows[i: i + c["batch"]] for i in range(0, len(rows), c["batch"])]

    class Batches(pl.LightningDataModule):
        def train_dataloader(self):
            for ch in chunks:
                yield pre(fakespark.decimal_friendly_collate([dict(r) for r in ch]))

    torch.manual_seed(c["seed"] + 1)
    t = pl.Trainer(max_epochs=epochs, logger=False, checkpoint_callback=False, progress_bar_refresh_rate=0, weights_summary=None, reload_dataloaders_every_epoch=True)
    t.fit(tr, datamodule=Batches())
    return tr


def state(tr):
    return {k: v.clone() for k, v in tr.state_dict().items() if not k.startswith("_")}


def alike(a, b, what):
    equal(sorted(a), sorted(b), f"{what}: entries")
    for k in a:
        close(a[k], b[k], f"{what}: {k}", rtol=1e-4, atol=1e-5)


def norms_of(spy):
    return {k: getattr(spy.manager, f"{k}_normalization_data") for k in spy.manager.required_normalization_keys}


def go(c, spy, epochs, **kw):
    import reagent.training  # noqa: F401
    from reagent.workflow.training import identify_and_train_network

    spec, ro, reader = options(c)
    return identify_and_train_network(spec, spy.union, epochs, use_gpu=False, reward_options=ro, reader_options=reader, **kw)


@facet(runs(), quick=40, thorough=400, shards=8)
def training_runs(c, rec):
    """epochs, batches and rows as asked for; modules saved are those of the trained network; results attached"""
    from reagent.publishers.union import ModelPublisher__Union
    from reagent.validators.union import ModelValidator__Union

    fakespark.install()
    table(c)
    rec.nt(c["epochs"] > 1 or c["batch"] < c["n"] // 2)
    rec.label(c["kind"])
    cpe = c["cfg"]["eval_parameters"]["calc_cpe_in_training"]
    with scratch() as d:
        spy = Spy(c)
        kw = {}
        if c["validate"]:
            kw["validator"] = ModelValidator__Union(NoValidation={})
        if c["publish"]:
            kw["publisher"] = ModelPublisher__Union(FileSystemPublisher=dict(publishing_file=os.path.join(d, "published")))
        o = go(c, spy, c["epochs"], **kw)
        m = spy.manager
        urls = {x.url: [y for y in fakespark.OPENED if y.url == x.url] for x in fakespark.OPENED}
        scored = cpe and c["kind"] in ("DiscreteDQN", "DiscreteQRDQN", "DiscreteCRR")  # others have nothing to evaluate
        equal(len(fakespark.SESSION.saved), 1 + cpe, "datasets made")
        require(len(urls) == 1 + scored or not scored and len(urls) <= 2, "%s datasets read", len(urls))
        train = fakespark.OPENED[0].url
        equal(len(urls[train]), c["epochs"], "times the training data is read")
        for u, rs in urls.items():
            if u != train:
                equal(len(rs), 1, "times the evaluation data is read")
            for r in rs:
                equal(r.batch_size, c["batch"], "batch size")
                equal(r.pool, "thread" if c["batch"] != c["asked"] else c["pool"], "the reader's pool")
                require(r.closed, "a reader is left open")
        if len(urls) > 1:
            ids = [sorted(str(r["state_features"]) for r in fakespark.parquet(u).rows) for u in urls]
            ids = [set(x) for x in ids]
            require(not ids[0] & ids[1], "rows %s are trained on and evaluated", ids[0] & ids[1])
        for what, name, want in zip(("trained on", "evaluated"), fakespark.SESSION.saved, datasets(c)):
            got = fakespark.SESSION.tables[name].rows
            equal(sorted(map(repr, [sorted(r.items()) for r in got])), sorted(map(repr, [sorted(r.items()) for r in want])), f"rows {what}")
        # the trained network
        trained = state(m.trainer)
        ref = reference(c, spy, train, c["epochs"], norms_of(spy))
        if len(fakespark.parquet(train).rows):
            alike(trained, state(ref), "the trained network and the plain loop's")
            require(any(not torch.equal(v, spy.first[k]) for k, v in trained.items() if v.is_floating_point()), "training changed nothing")
        # what is saved
        names = m.serving_module_names()
        equal(sorted(o.output_paths), sorted(names), "modules saved")
        equal(len({os.path.abspath(p) for p in o.output_paths.values()}), len(names), "files saved")
        built = m.build_serving_modules()
        for name, path in o.output_paths.items():
            a, b = torch.jit.load(path).state_dict(), built[name].state_dict()
            equal(sorted(a), sorted(b), f"entries of {name}")
            for k in a:
                same(a[k], b[k].detach().numpy(), f"{name}: {k}")
            if name not in ("dqn", "actor_dqn"):
                continue
        equal(o.validation_result is not None, c["validate"], "a validation result")
        equal(o.publishing_result is not None, c["publish"], "a publishing result")
        require(o.training_report is not None, "no training report")
        if c["validate"]:
            require(o.validation_result.value.should_publish, "the validation result")
            from reagent.workflow.training import run_validator

            raises(AssertionError, lambda: run_validator(kw["validator"], o), "validating twice")
        if c["publish"]:
            require(o.publishing_result.value.success, "the publishing result")
            pub = kw["publisher"].value
            for name, path in o.output_paths.items():
                equal(os.path.abspath(pub.get_latest_published_model(m, name)), os.path.abspath(path), f"the {name} published")
            raises(ValueError, lambda: pub.get_latest_published_model(m, "nonsense"), "a module never published")
            from reagent.workflow.env import get_new_named_entity_ids
            from reagent.workflow.training import run_publisher

            raises(AssertionError, lambda: run_publisher(kw["publisher"], spy.union, o, get_new_named_entity_ids(names), 1, None), "publishing twice")
            rec.label("published")


@facet(runs(kinds=DISCRETE), quick=24, thorough=240, shards=4)
def warm_starts(c, rec):
    """training for some epochs, saving, and training on elsewhere = training for all of them"""
    fakespark.install()
    table(c)
    rec.nt(True)
    rec.label(c["kind"])
    with scratch() as d:
        a = Spy(c)
        go(c, a, c["epochs"])
        path = os.path.join(d, "checkpoint")
        kept = state(a.manager.trainer)
        a.manager.save_trainer(path)
        alike(state(a.manager.trainer), kept, "the trainer after saving")
        spare = os.path.join(d, "another")
        a.manager.save_trainer(spare)
        fakespark.OPENED.clear()
        b = Spy(dict(c, seed=c["seed"] + 5))
        go(c, b, c["more"], warmstart_path=path)
        url = fakespark.OPENED[0].url
        equal(len([x for x in fakespark.OPENED if x.url == url]), c["more"], "epochs trained on")
        total = c["epochs"] + c["more"]
        if c["split"]:
            b.manager.save_trainer(path)  # over the old one
            fakespark.OPENED.clear()
            e = Spy(dict(c, seed=c["seed"] + 9))
            go(c, e, 1, warmstart_path=path)
            url = fakespark.OPENED[0].url
            equal(len([x for x in fakespark.OPENED if x.url == url]), 1, "epochs trained on, again")
            total += 1
            b = e
        ref = reference(c, a, url, total, norms_of(a))
        alike(state(b.manager.trainer), state(ref), f"trained for {c['epochs']} and {c['more']} epochs, and for all of them")


@st.composite
def save_cases(draw):
    return dict(a=draw(runs(kinds=["DiscreteDQN", "DiscreteCRR"])), b=draw(runs(kinds=["DiscreteQRDQN", "DiscreteDQN"])))


@facet(save_cases(), quick=8, thorough=64, shards=2)
def saved_at_the_same_time(c, rec):
    """two trainers saved at the same time: each file holds its own trainer"""
    fakespark.install()
    rec.nt(True)
    with scratch() as d:
        spies = []
        for x in (c["a"], c["b"]):
            fakespark.SESSION.__init__()
            table(x)
            s = Spy(x)
            go(x, s, 1)
            spies.append(s)
        pa, pb = os.path.join(d, "a"), os.path.join(d, "b")
        a, b = [s.manager for s in spies]
        lt = a._lightning_trainer if "_lightning_trainer" in vars(a) else None
        if lt is None:
            raise Inconclusive("no lightning trainer kept")
        save = lt.save_checkpoint

        def save_checkpoint(*args, **kw):
            r = save(*args, **kw)
            b.save_trainer(pb)
            return r

        lt.save_checkpoint = save_checkpoint
        a.save_trainer(pa)
        for p, s in ((pa, a), (pb, b)):
            got = torch.load(p)["state_dict"]
            alike({k: v for k, v in got.items() if not k.startswith("_")}, state(s.trainer), "the trainer saved")


# ------------------------------------------------------------------ query_and_train
@st.composite
def query_cases(draw):
    return dict(run=draw(runs()), how=draw(st.sampled_from(["both", "neither", "saved", "setup", "map"])))


@facet(query_cases(), quick=24, thorough=240, shards=4)
def prepared_elsewhere(c, rec):
    """preparation and training in different places; normalisation identified earlier is used as given"""
    import copy

    from reagent.parameters import NormalizationParameters
    from reagent.workflow.training import query_and_train

    fakespark.install()
    how, c = c["how"], c["run"]
    table(c)
    spec, ro, reader = options(c)
    disc = c["kind"] in DISCRETE
    rec.nt(c["batch"] < c["n"] // 2)
    rec.label(how, c["kind"])
    kw = dict(reward_options=ro, reader_options=reader)
    with scratch():
        s = Spy(c)
        m = s.manager
        dm = m.get_data_module(input_table_spec=spec, reward_options=ro, reader_options=reader)
        equal(dm is not None, disc, "a data module")
        ident = (dm or m).run_feature_identification(spec)
        first = sorted(ident["state"].dense_normalization_parameters)[0]
        odd = copy.deepcopy(ident)
        odd["state"].dense_normalization_parameters[first] = NormalizationParameters(feature_type="CONTINUOUS", mean=40.0, stddev=8.0)
        if how == "both" and disc:
            return raises(ValueError, lambda: query_and_train(spec, s.union, 1, False, setup_data=dm.prepare_data(), normalization_data_map=odd, **kw), "setup data and normalisation")
        if how in ("both", "neither") and not disc:
            return raises(ValueError, lambda: query_and_train(spec, s.union, 1, False, **kw), "neither setup data nor normalisation")
        import datetime

        from reagent.workflow.env import get_new_named_entity_ids, get_workflow_id

        looks, pubs = Recorder(), Recorder()
        period = datetime.datetime(2020, 1, 2) if c["split"] else None
        ids = {n: 7 + i for i, n in enumerate(m.serving_module_names())} if c["validate"] else None
        kw.update(validator=looks, publisher=pubs, named_model_ids=ids, recurring_period=period)
        if disc and how == "saved":
            class Blob:
                data = pickle.dumps(odd)

            out = query_and_train(spec, s.union, c["epochs"], False, saved_setup_data={"normalization_data_map": Blob if c["split"] else pickle.dumps(odd)}, **kw)
            want = odd
        elif disc and how == "setup":
            out = query_and_train(spec, s.union, c["epochs"], False, setup_data=dm.prepare_data(), **kw)
            want = ident
        elif disc:
            out = query_and_train(spec, s.union, c["epochs"], False, normalization_data_map=odd if how == "map" else None, **kw)
            want = ident  # identified anew
        else:
            out = query_and_train(spec, s.union, c["epochs"], False, normalization_data_map=odd, **kw)
            want = odd
        equal(norms_of(s)["state"].dense_normalization_parameters, want["state"].dense_normalization_parameters, "the normalisation used")
        url = fakespark.OPENED[0].url
        alike(state(m.trainer), state(reference(c, s, url, c["epochs"], want)), "the trained network and the plain loop's")
        equal(len(looks.got), 1, "times validated")
        require(looks.got[0].validation_result is None and looks.got[0].publishing_result is None, "the output validated")
        equal(looks.got[0].output_paths, out.output_paths, "the files validated")
        require(out.validation_result.value.should_publish and out.publishing_result.value.success, "results attached")
        equal(len(pubs.got), 1, "times published")
        manager, output, named, child, rec_ = pubs.got[0]
        require(manager is m, "another manager is published")
        equal(output.validation_result, out.validation_result, "the output published")
        equal(output.output_paths, out.output_paths, "the files published")
        equal(named, ids or get_new_named_entity_ids(m.serving_module_names()), "the ids published")
        equal((child, rec_), (get_workflow_id(), period), "the workflow's id and period")
