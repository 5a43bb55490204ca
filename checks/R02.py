"""Exactly the eligible transitions can be sampled."""
import numpy as np
import torch
from hypothesis import strategies as st

from models import replay as m
from vlib.core import Violation, equal, facet, raises, require

RULE = ("a case is a buffer configuration and a history of terminal flags, compared after every "
        "single addition; non-trivial = the buffer wrapped and some stored transitions were "
        "ineligible at some point")


@st.composite
def cases(draw):
    cfg = draw(m.configs(timeline=False, idlist=False))
    return dict(cfg=dict(cfg, obs_shape=[], extras=[]), ts=draw(m.terminals(cfg)))


@facet(cases(), quick=1600, shards=6)
def eligibility_after_every_add(case, rec):
    cfg = case["cfg"]
    buf, log = m.make_buffer(cfg), m.Log(cfg)
    equal(int(buf.size), 0, "size of an empty buffer")
    require(buf.is_empty() and not buf.is_full(), "fresh buffer is empty")
    some_invalid = False
    for t in case["ts"]:
        buf.add(**log.add(t))
        want = {p % cfg["cap"] for p in log.eligible_positions()}
        equal(int(buf.size), len(want), "size")
        got = {i for i in range(cfg["cap"]) if bool(buf.is_valid_transition(i))}
        equal(sorted(got), sorted(want), "eligible indices")
        equal(int(buf.add_count), log.total, "add count")
        equal(int(buf.cursor()), log.total % cfg["cap"], "cursor")
        equal(bool(buf.is_full()), log.total >= cfg["cap"], "is_full")
        require(not buf.is_empty(), "buffer with data reported empty")
        if want:
            idx = buf.sample_all_valid_transitions().indices.flatten().tolist()
            equal(sorted(idx), sorted(want), "indices of sample_all")
            s = buf.sample_index_batch(7).tolist()
            require(len(s) == 7 and set(s) <= want, f"drawn {s}, eligible {sorted(want)}")
        else:
            raises(RuntimeError, lambda: buf.sample_index_batch(1), "drawing from nothing")
        some_invalid |= len(want) < min(log.total, cfg["cap"])
    rec.nt(log.total > cfg["cap"] and some_invalid)
    rec.label("wrapped" if log.total > cfg["cap"] else "not wrapped",
              f"episodes{min(log.ep + 1, 6)}")


@facet(cases(), quick=80, shards=2)
def draws_are_uniform(case, rec):
    cfg = case["cfg"]
    buf, log = m.make_buffer(cfg), m.Log(cfg)
    for t in case["ts"]:
        buf.add(**log.add(t))
    want = sorted(p % cfg["cap"] for p in log.eligible_positions())
    if not want:
        return
    per = 400
    n = per * len(want)
    c = np.bincount(buf.sample_index_batch(n).numpy(), minlength=cfg["cap"])
    for i in want:
        # 400 expected, standard deviation below 20: ten sigma
        require(abs(c[i] - per) < 200, f"index {i} drawn {c[i]} times, expected about {per}")
    rec.nt(len(want) > 2)


@st.composite
def bad_cases(draw):
    cfg = draw(m.configs(timeline=False, idlist=False))
    cfg["extras"] = draw(st.sampled_from([[], ["xf"], ["xv"]]))
    return dict(cfg=cfg, ts=draw(m.terminals(cfg)), kind=draw(st.sampled_from(
        ["missing", "extra", "shape", "dtype", "tensor"])))


@facet(bad_cases(), quick=300, shards=2)
def malformed_additions_are_refused(case, rec):
    cfg = case["cfg"]
    buf, log = m.make_buffer(cfg), m.Log(cfg)
    for t in case["ts"]:
        buf.add(**log.add(t))
    before = (int(buf.size), int(buf.add_count))
    d = m.content(cfg, 3, False)
    k = case["kind"]
    if k == "missing":
        d.pop("action")
    elif k == "extra":
        d["unheard_of"] = 1.0
    elif k == "shape":
        d["observation"] = np.zeros(list(cfg["obs_shape"]) + [5], dtype=d["observation"].dtype)
    elif k == "dtype":
        d["action"] = d["action"].astype(np.float32)
    else:
        d["observation"] = torch.tensor(d["observation"])
    try:
        buf.add(**d)
    except (ValueError, AssertionError, KeyError, TypeError):
        pass
    else:
        raise Violation(f"malformed transition ({k}) was accepted")
    equal((int(buf.size), int(buf.add_count)), before, "buffer after a refused addition")
    rec.nt()
    rec.label(k)


@st.composite
def cap_cases(draw):
    return dict(stack=draw(st.integers(1, 6)), horizon=draw(st.integers(1, 6)),
                cap=draw(st.integers(1, 12)))


@facet(cap_cases(), quick=300, shards=1)
def too_small_capacity_is_refused(case, rec):
    from reagent.replay_memory.circular_replay_buffer import ReplayBuffer

    mk = lambda: ReplayBuffer(stack_size=case["stack"], replay_capacity=case["cap"],
                              update_horizon=case["horizon"])
    if case["cap"] < case["stack"] + case["horizon"]:
        raises(ValueError, mk, "capacity below stack + horizon")
        rec.nt()
    else:
        mk()
