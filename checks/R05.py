"""Replay checkpoints."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from models import replay as m
from vlib.core import close, equal, facet, raises, require

RULE = ("a case is a buffer configuration, a history, the additions after which checkpoints are "
        "written, one checkpoint to restore into another buffer, and a continuation; non-trivial = "
        "the buffer had wrapped or had padding when saved, and the continuation is not empty")


@st.composite
def cases(draw):
    cfg = draw(m.configs(max_cap=20))
    prioritized = draw(st.booleans()) and not cfg["timeline"] and not cfg["extras"]
    ts = draw(m.terminals(cfg))
    return dict(cfg=cfg, ts=ts, prioritized=prioritized,
                cont=draw(m.terminals(cfg))[: draw(st.integers(0, 20))],
                other=draw(m.terminals(cfg))[: draw(st.integers(1, 30))],
                every=draw(st.integers(1, 4)), it0=draw(st.integers(0, 3)))


def build(cfg, prioritized):
    if prioritized:
        from checks.R03 import build as b

        return b(cfg)
    return m.make_buffer(cfg)


def add(buf, log, t, prioritized):
    d = log.add(t)
    if prioritized:
        d["priority"] = 1.0 + log.count % 5
    buf.add(**d)


def compare(cfg, buf, log, what):
    el = sorted(p % cfg["cap"] for p in log.eligible_positions())
    equal(int(buf.size), len(el), f"{what}: size")
    equal(int(buf.add_count), log.total, f"{what}: add count")
    equal([i for i in range(cfg["cap"]) if bool(buf.is_valid_transition(i))], el,
          f"{what}: eligible indices")
    if el:
        b = buf.sample_all_valid_transitions()
        m.check_batch(cfg, log, b, [log.pos_of(int(i)) for i in b.indices.flatten()])


@facet(cases(), quick=420, shards=8)
def restored_buffer_behaves_the_same(case, rec):
    cfg, pr = case["cfg"], case["prioritized"]
    if pr:
        cfg = dict(cfg, timeline=False, everything=False)
    d = tempfile.mkdtemp(prefix="verif_r05_")
    try:
        a, log = build(cfg, pr), m.Log(cfg)
        for t in case["ts"]:
            add(a, log, t, pr)
        a.save(d, 7)
        compare(cfg, a, log, "after save")
        # the target holds unrelated data of the same signature
        b, junk = build(cfg, pr), m.Log(cfg)
        for t in case["other"]:
            add(b, junk, t, pr)
        b.load(d, 7)
        compare(cfg, b, log, "restored")
        if pr:
            ix = np.arange(cfg["cap"], dtype=np.int32)
            close(b.get_priority(ix), a.get_priority(ix), "restored priorities")
        for t in case["cont"]:
            add(b, log, t, pr)
            compare(cfg, b, log, "continued after restore")
        rec.nt((len(case["ts"]) > cfg["cap"] or cfg["stack"] > 1) and case["cont"])
        rec.label("prioritized" if pr else "uniform", *("extra:" + x for x in cfg["extras"]))
    finally:
        shutil.rmtree(d)


@facet(cases(), quick=160, shards=4)
def retention_and_missing_files(case, rec):
    """Several checkpoints in one directory: a recent one still restores its own
    contents, old ones are collected, a damaged one is refused untouched."""
    cfg = case["cfg"]
    d = tempfile.mkdtemp(prefix="verif_r05_")
    try:
        a, log = build(cfg, False), m.Log(cfg)
        it, snaps = case["it0"], {}
        for i, t in enumerate(case["ts"]):
            add(a, log, t, False)
            if i % case["every"] == 0 and len(snaps) < 7:
                before = set(os.listdir(d))
                a.save(d, it)
                snaps[it] = i + 1
                it += 1
        last = it - 1
        for j, n in snaps.items():
            files = [f for f in os.listdir(d) if f.endswith(f"_ckpt.{j}.gz")]
            if j <= last - 4:
                equal(files, [], f"files of checkpoint {j} after checkpoint {last}")
                b, junk = build(cfg, False), m.Log(cfg)
                add(b, junk, 0, False)
                raises(FileNotFoundError, lambda: b.load(d, j), "restoring a collected checkpoint")
                rec.nt()
            else:
                l2 = m.Log(cfg)
                for t in case["ts"][:n]:
                    l2.add(t)
                b, junk = build(cfg, False), m.Log(cfg)
                add(b, junk, 0, False)
                b.load(d, j)
                compare(cfg, b, l2, f"checkpoint {j} of {last}")
        # drop one file: the restore must refuse and leave the target alone
        files = sorted(f for f in os.listdir(d) if f.endswith(f"_ckpt.{last}.gz"))
        os.remove(os.path.join(d, files[case["every"] % len(files)]))
        b, junk = build(cfg, False), m.Log(cfg)
        for t in case["other"]:
            add(b, junk, t, False)
        raises(FileNotFoundError, lambda: b.load(d, last), "restoring an incomplete checkpoint")
        compare(cfg, b, junk, "after a refused restore")
    finally:
        shutil.rmtree(d)
