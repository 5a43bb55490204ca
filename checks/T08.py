"""The generator training API, driven by the real Lightning trainer."""
import copy

import numpy as np
import torch
from hypothesis import strategies as st

from models import nets, trainers
from vlib.core import Inconclusive, close, equal, facet, raises, require

RULE = ("a case is a trainer of any kind with explicit weights and several batches, or a synthetic module with "
        "any number of losses and optimizers; non-trivial = three or more optimizers, or two or more batches")


class Data(torch.utils.data.IterableDataset):
    def __init__(self, bs):
        self.bs = bs

    def __iter__(self):
        return iter(self.bs)


def fit(module, bs, epochs=1, callbacks=None, **kw):
    import pytorch_lightning as pl

    t = pl.Trainer(max_epochs=epochs, logger=False, checkpoint_callback=False, progress_bar_refresh_rate=0,
                   weights_summary=None, callbacks=callbacks, **kw)
    t.fit(module, torch.utils.data.DataLoader(Data(bs), batch_size=None))
    return t


LR = 0.01


@facet(trainers.cases(), quick=420, shards=6)
def matches_plain_loop(case, rec):
    """Parameters after Lightning training = parameters after the obvious loop over losses and networks."""
    names, soft = trainers.plan(case)
    tr = trainers.make(case)
    trainers.use_sgd(tr, LR)
    ref = copy.deepcopy(tr)
    nets.instrument(ref)
    allp = list(ref.parameters())
    for bi, b in enumerate(trainers.batches(case)):
        gen = ref.train_step_gen(b, bi)
        for n in names:
            ps = trainers.params(ref, n)
            for p in allp:
                p.requires_grad_(any(p is q for q in ps))
            loss = next(gen)
            if loss is None:
                continue
            gs = torch.autograd.grad(loss, ps, allow_unused=True)
            with torch.no_grad():
                for p, g in zip(ps, gs):
                    if g is not None:
                        p -= LR * g
        for p in allp:
            p.requires_grad_(False)
        last = next(gen)
        if last is not None:
            with torch.no_grad():
                for s in soft:
                    for t, p in zip(trainers.params(ref, s + "_target"), trainers.params(ref, s)):
                        t.copy_(case["tau"] * p + (1 - case["tau"]) * t)
        require(next(gen, "end") == "end", "too many losses")
    if any(not bool(torch.isfinite(p).all()) or float(p.abs().max()) > 1e3 for p in allp):
        raise Inconclusive("diverged")
    tr.__dict__.pop("log", None)
    tr.__dict__.pop("trainer", None)
    tr.trainer = None
    fit(tr, list(trainers.batches(case)))
    for (n, p), q in zip(tr.named_parameters(), allp):
        scale = float(q.abs().max())
        close(p, q.detach(), f"{case['kind']}: {n} after {len(case['rewards'])} batches", rtol=2e-3, atol=2e-3 * max(1, scale))
    rec.nt(len(names) > 1 or len(case["rewards"]) > 1)
    rec.label(case["kind"])


@st.composite
def synthetic(draw):
    return dict(n=draw(st.integers(2, 4)), yields=draw(st.integers(1, 6)), batches=draw(st.integers(1, 3)),
                none=draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 3)), max_size=2)))


def _module(case, log):
    from reagent.training.reagent_lightning_module import ReAgentLightningModule

    class M(ReAgentLightningModule):
        def __init__(self):
            super().__init__()
            self.ps = torch.nn.ParameterList([torch.nn.Parameter(torch.zeros(1)) for _ in range(case["n"])])

        def configure_optimizers(self):
            return [torch.optim.SGD([p], lr=1.0) for p in self.ps]

        def train_step_gen(self, training_batch, batch_idx: int):
            for i in range(case["yields"]):
                # what earlier optimizers did must be visible here
                log.append((batch_idx, i, [float(p.detach()) for p in self.ps]))
                if [batch_idx, i] in [list(x) for x in case["none"]]:
                    yield None
                else:
                    p = self.ps[min(i, case["n"] - 1)]
                    yield (p * training_batch * (i + 1)).sum()

    return M()


@facet(synthetic(), quick=200, shards=2)
def one_loss_per_optimizer(case, rec):
    from reagent.tensorboardX import SummaryWriterContext

    log = []
    m = _module(case, log)
    bs = [torch.tensor([1.0 + b]) for b in range(case["batches"])]
    if case["yields"] > case["n"]:
        raises(RuntimeError, lambda: fit(m, bs), f"{case['yields']} losses for {case['n']} optimizers")
        rec.nt()
        return
    if case["yields"] < case["n"]:
        raises(Exception, lambda: fit(m, bs), f"{case['yields']} losses for {case['n']} optimizers")
        rec.nt()
        return
    SummaryWriterContext._reset_globals()
    fit(m, bs)
    cur = [0.0] * case["n"]
    exp = []
    for b in range(case["batches"]):
        for i in range(case["n"]):
            exp.append((b, i, list(cur)))
            if [b, i] not in [list(x) for x in case["none"]]:
                cur[i] -= (1.0 + b) * (i + 1)
    equal(log, exp, "sequence of (batch, loss, parameters seen)")
    equal([float(p.detach()) for p in m.ps], cur, "final parameters")
    equal(SummaryWriterContext._global_step, case["batches"], "global step: one per batch")
    rec.nt(case["n"] > 1 and case["batches"] > 1)


@facet(st.builds(lambda r, nb: dict(rounds=r, nb=nb), st.lists(st.integers(1, 3), min_size=1, max_size=4),
                 st.integers(1, 3)), quick=60, shards=2)
def incremental_epochs(case, rec):
    """Each round of incremental training (resumed from the previous checkpoint) runs for its own number of epochs."""
    import os
    import tempfile

    from reagent.training import StoppingEpochCallback

    with tempfile.TemporaryDirectory() as d:
        path = None
        for k in case["rounds"]:
            log = []
            m = _module(dict(n=2, yields=2, none=[]), log)
            kw = dict(resume_from_checkpoint=path) if path else {}
            t = fit(m, [torch.ones(1)] * case["nb"], 1000, [StoppingEpochCallback(k)], **kw)
            equal(len(log), 2 * k * case["nb"], f"batches trained in a round of {k} epochs")
            m._cleanly_stopped[0] = True
            path = os.path.join(d, f"c{len(os.listdir(d))}")
            t.save_checkpoint(path)
    rec.nt(len(case["rounds"]) > 1)
