"""Sampled transitions are faithful."""
import torch
from hypothesis import strategies as st

from models import replay as m
from vlib.core import equal, facet, require, raises

RULE = ("a case is a buffer configuration (stack, horizon, capacity, shapes, extra fields, output "
        "formats) and a history of terminal flags; the checkpoints after which samples are compared "
        "with the log are part of the case; non-trivial = the log has wrapped past the capacity or "
        "the horizon or stack exceeds 1, and at least two episodes were written")


@st.composite
def cases(draw):
    cfg = draw(m.configs())
    ts = draw(m.terminals(cfg))
    n = len(ts)
    cps = draw(st.lists(st.integers(1, n), min_size=1, max_size=3, unique=True))
    order = draw(st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=6))
    return dict(cfg=cfg, ts=ts, at=sorted(set(cps + [n])), pick=order)


@facet(cases(), quick=1600, shards=6)
def samples_match_log(case, rec):
    cfg = case["cfg"]
    buf, log = m.make_buffer(cfg), m.Log(cfg)
    for i, t in enumerate(case["ts"]):
        buf.add(**log.add(t))
        if i + 1 not in case["at"]:
            continue
        pos = log.eligible_positions()
        if not pos:
            raises(RuntimeError, lambda: buf.sample_transition_batch(2),
                   "sampling with nothing eligible")
            continue
        # explicit indices, repeats included
        ps = [pos[k % len(pos)] for k in case["pick"]]
        b = buf.sample_transition_batch(
            batch_size=len(ps), indices=torch.tensor([p % cfg["cap"] for p in ps]))
        m.check_batch(cfg, log, b, ps)
        # everything
        b = buf.sample_all_valid_transitions()
        ps = [log.pos_of(int(j)) for j in b.indices.flatten()]
        equal(sorted(ps), pos, "sample of all eligible transitions")
        m.check_batch(cfg, log, b, ps)
        # random draw
        b = buf.sample_transition_batch()
        ps = [log.pos_of(int(j)) for j in b.indices.flatten()]
        equal(len(ps), cfg["batch"], "default batch size")
        require(all(p in pos for p in ps), "random draw picked an ineligible transition")
        m.check_batch(cfg, log, b, ps)
    wrapped = log.total > cfg["cap"]
    rec.nt((wrapped or cfg["horizon"] > 1 or cfg["stack"] > 1) and log.ep >= 1)
    rec.label("wrapped" if wrapped else "not wrapped",
              f"stack{cfg['stack']}", f"horizon{cfg['horizon']}",
              "timeline" if cfg["timeline"] else "flat", *("extra:" + x for x in cfg["extras"]))
