"""Logging to tensorboard: the context of writers, and the writer of a module's logger."""
import numpy as np
import torch
from hypothesis import strategies as st

from vlib.core import Inconclusive, close, equal, facet, raises, require, same

RULE = ("a case is a history of nested contexts, writes, failures and steps; non-trivial = writes at two or more depths, or a failing write")


class Boom(Exception):
    pass


class Other(Exception):
    pass


def writer(name, fail=None, ignore=None, logger=False):
    from torch.utils.tensorboard import SummaryWriter

    class Recorder(SummaryWriter):
        def __init__(self):
            self.calls, self.logged = [], []
            if ignore:
                self.exceptions_to_ignore = ignore
            if logger:
                self.exception_logging_func = self.logged.append

        def _write(self, kind, tag, v, step):
            if fail:
                raise fail(tag)
            self.calls.append([kind, tag, v, step])
            return len(self.calls)

        def add_scalar(self, tag, v, global_step=None):
            return self._write("scalar", tag, v, global_step)

        def add_histogram(self, tag, v, bins="auto", global_step=None):
            return self._write("histogram", tag, [v, bins], global_step)

        def add_custom_scalars(self, layout, global_step=None):
            self.calls.append(["custom", "layout", layout, None])

    return Recorder()


FAILS = [None, None, None, "ValueError", "Boom", "Other"]


@st.composite
def context_cases(draw):
    ws = [dict(fail=draw(st.sampled_from(FAILS)), ignore=draw(st.sampled_from([[], ["Boom"], ["Boom", "ValueError"]])), logger=draw(st.booleans()))
          for _ in range(draw(st.integers(1, 3)))]
    ops = st.recursive(
        st.sampled_from(["scalar", "histogram", "bins", "explicit", "zero", "step", "step", "chart", "none", "unknown"]).map(lambda x: [x])
        | st.tuples(st.sampled_from(["cat1", "cat2"]), st.sampled_from(["t1", "t2", "t3"])).map(lambda x: ["chart", *x]),
        lambda s: st.tuples(st.integers(-1, len(ws) - 1), st.lists(s, max_size=4), st.booleans()).map(lambda x: ["with", *x]), max_leaves=14)
    return dict(ws=ws, ops=draw(st.lists(ops, min_size=1, max_size=6)))


@facet(context_cases(), quick=700, shards=3)
def contexts(c, rec):
    from reagent.tensorboardX import SummaryWriterContext as C
    from reagent.tensorboardX import summary_writer_context

    names = dict(ValueError=ValueError, Boom=Boom, Other=Other)
    W = [writer(i, names.get(w["fail"]), tuple(names[x] for x in w["ignore"]), w["logger"]) for i, w in enumerate(c["ws"])]
    want = [[] for _ in W]
    logged = [0] * len(W)
    state = dict(step=0, n=0, charts={}, depths=set(), failed=0)
    C._reset_globals()

    def write(kind, stack):
        state["n"] += 1
        tag, v = f"t{state['n']}", state["n"] / 4
        args = [tag, v]
        kw = {}
        if kind == "bins":
            args.append("fd")
        if kind in ("explicit", "zero"):
            kw["global_step"] = 77 if kind == "explicit" else 0
        method = dict(scalar="add_scalar", histogram="add_histogram", bins="add_histogram", explicit="add_scalar", zero="add_scalar")[kind]
        call = lambda: getattr(C, method)(*args, **kw)
        if not stack:
            require(call() is None, "a write without a writer returned something")
            return
        i = stack[-1]
        state["depths"].add(len(stack))
        w = c["ws"][i]
        if w["fail"]:
            state["failed"] += 1
            ignored = w["fail"] in w["ignore"]
            if ignored:
                logged[i] += w["logger"]
            if ignored or (w["fail"] == "ValueError" and kind in ("histogram", "bins")):
                require(call() is None, "an ignored failure returned something")
            else:
                raises(names[w["fail"]], call, "a failing write passed silently")
            return
        step = kw.get("global_step", state["step"])
        want[i].append(["histogram" if "add_h" in method else "scalar", tag, [v, args[2] if kind == "bins" else "auto"] if "add_h" in method else v, step])
        equal(call(), len(want[i]), "the writer's result")

    def run(ops, stack):
        for op in ops:
            if op[0] == "with":
                w = W[op[1]] if op[1] >= 0 else None
                inner = stack + [op[1]] if w is not None else stack
                if op[3]:  # leave through an exception
                    def body():
                        with summary_writer_context(w):
                            run(op[2], inner)
                            raise Boom("left")
                    raises(Boom, body, "an exception was swallowed")
                else:
                    with summary_writer_context(w):
                        run(op[2], inner)
            elif op[0] == "step":
                C.increase_global_step()
                state["step"] += 1
            elif op[0] == "chart":
                if len(op) == 1:
                    raises(AssertionError, lambda: C.add_custom_scalars_multilinechart(["x"], category="c"), "a chart without a title")
                    raises(AssertionError, lambda: C.add_custom_scalars_multilinechart(["x"], title="c"), "a chart without a category")
                    continue
                _, cat, title = op
                tags = [f"{cat}/{title}/{x}" for x in ("b", "a", "c", "a0")]
                add = lambda: C.add_custom_scalars_multilinechart(list(tags), category=cat, title=title)
                if title in state["charts"].get(cat, {}):
                    raises(AssertionError, add, "a chart was defined twice")
                else:
                    add()
                    state["charts"].setdefault(cat, {})[title] = ["Multiline", tags]
            elif op[0] == "none":
                raises(AssertionError, lambda: C.push("not a writer"), "something else than a writer was pushed")
            elif op[0] == "unknown":
                if stack:
                    raises(AttributeError, lambda: C.add_nothing(1), "an unknown method was found")
                else:
                    require(C.add_nothing(1) is None, "an unknown method without a writer")
            else:
                write(op[0], stack)

    try:
        run(c["ops"], [])
        write("scalar", [])
        for i, w in enumerate(W):
            equal(w.calls, want[i], f"writes to writer {i}")
            equal(len(w.logged), logged[i], f"ignored failures told to writer {i}")
            require(all(type(e) is names[c["ws"][i]["fail"]] for e in w.logged), "failures told to writer %s: %s", i, w.logged)
        C.add_custom_scalars(W[0])
        equal(W[0].calls[-1], ["custom", "layout", state["charts"], None], "charts")
        C._reset_globals()
        C.push(W[0])
        require(C.pop() is W[0], "popped another writer")
        if not c["ws"][0]["fail"]:
            with summary_writer_context(W[0]):
                C.add_scalar("after", 1)
            equal(W[0].calls[-1], ["scalar", "after", 1, 0], "step after a reset")
    finally:
        C._reset_globals()
    rec.nt(len(state["depths"]) >= 2 or state["failed"])


@st.composite
def logger_cases(draw):
    kinds = st.sampled_from(["none", "tb", "csv"])
    state = st.one_of(kinds, st.lists(st.sampled_from(["tb", "csv"]), min_size=1, max_size=3))
    return dict(states=draw(st.lists(st.tuples(state, st.integers(1, 2)), min_size=1, max_size=5)))


@facet(logger_cases(), quick=120, shards=2)
def writer_of_logger(c, rec):
    import tempfile

    from pytorch_lightning.loggers import CSVLogger, LoggerCollection, TensorBoardLogger
    from reagent.training.reagent_lightning_module import ReAgentLightningModule

    class Module(ReAgentLightningModule):
        pass

    class TB(TensorBoardLogger):
        made = 0

        @property
        def experiment(self):
            TB.made += 1
            return self.fake

    with tempfile.TemporaryDirectory() as d:
        m = Module()
        seen = False
        for state, times in c["states"]:
            def make(k):
                if k == "tb":
                    x = TB(d)
                    x.fake = object()
                    return x
                return CSVLogger(d)
            if state == "none":
                lg, want = None, None
            elif isinstance(state, str):
                lg = make(state)
                want = lg.fake if state == "tb" else None
            else:
                inner = [make(k) for k in state]
                lg = LoggerCollection(inner)
                want = next((x.fake for x in inner if isinstance(x, TB)), None)
            m.logger = lg  # as lightning's trainer does
            for _ in range(times + 1):
                require(m.summary_writer is want, "writer of %s: %s, expected %s", state, m.summary_writer, want)
            seen |= want is not None
        rec.nt(seen and len(c["states"]) > 1)
