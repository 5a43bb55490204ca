"""Prioritised sampling."""
import numpy as np
import torch
from hypothesis import strategies as st

from models import replay as m
from vlib.core import Violation, close, equal, facet, raises, require

RULE = ("a case is a buffer configuration and a history of additions with priorities and priority "
        "updates, compared with the log plus a priority per slot after every operation; non-trivial "
        "= priorities differ, at least one was updated or is zero, and the buffer wrapped or has "
        "padding")

prio = st.one_of(st.sampled_from([0.0, 1.0, 0.5, 100.0]),
                 st.floats(0, 50, width=32).map(lambda x: round(x, 3)))


@st.composite
def cases(draw):
    cfg = draw(m.configs(timeline=False, idlist=False, max_cap=20))
    cfg["extras"] = []
    ts = draw(m.terminals(cfg))
    ops = []
    for t in ts:
        ops.append(["add", t, draw(prio)])
        if draw(st.integers(0, 3)) == 0:
            k = draw(st.integers(1, 3))
            ops.append(["set", [draw(st.integers(0, 60)) for _ in range(k)],
                        [draw(prio) for _ in range(k)]])
    return dict(cfg=cfg, ops=ops, q=draw(st.integers(1, 6)),
                own=draw(st.lists(st.integers(0, 30), min_size=1, max_size=6)))


def build(cfg, attempts=1000):
    from reagent.replay_memory.prioritized_replay_buffer import PrioritizedReplayBuffer

    return PrioritizedReplayBuffer(
        stack_size=cfg["stack"], replay_capacity=cfg["cap"], batch_size=cfg["batch"],
        update_horizon=cfg["horizon"], gamma=cfg["gamma"], max_sample_attempts=attempts)


class Model:
    def __init__(self, cfg):
        self.cfg, self.log, self.pr = cfg, m.Log(cfg), {}

    def add(self, t, p):
        before = self.log.total
        d = self.log.add(t)
        for q in range(before, self.log.total):
            self.pr[q % self.cfg["cap"]] = p if q == self.log.total - 1 else 0.0
        return dict(d, priority=p)

    def eligible(self):
        return {p % self.cfg["cap"]: p for p in self.log.eligible_positions()}


def play(case, attempts=1000):
    cfg = case["cfg"]
    buf, mod = build(cfg, attempts), Model(cfg)
    for op in case["ops"]:
        if op[0] == "add":
            buf.add(**mod.add(op[1], op[2]))
        else:
            used = min(mod.log.total, cfg["cap"])
            ix = [i % used for i in op[1]]
            buf.set_priority(np.array(ix, dtype=np.int32), np.array(op[2]))
            for i, p in zip(ix, op[2]):
                mod.pr[i] = p
        yield buf, mod, op


@facet(cases(), quick=900, shards=6)
def priorities_and_samples(case, rec):
    cfg = case["cfg"]
    sets = 0
    for buf, mod, op in play(case):
        sets += op[0] == "set"
        allidx = np.arange(cfg["cap"], dtype=np.int32)
        close(buf.get_priority(allidx), [mod.pr.get(i, 0.0) for i in range(cfg["cap"])],
              "priorities (0 for unused slots)", rtol=1e-4, atol=1e-3)
        equal(int(buf.size), len(mod.eligible()), "size")
    el = mod.eligible()
    mass = sum(mod.pr[i] for i in el)
    total = sum(mod.pr.values())
    # with a tiny fraction of eligible mass giving up is legitimate
    if el and mass > 0.2 * total and total > 0.01:
        for bs in (case["q"], None):
            b = buf.sample_transition_batch(batch_size=bs)
            ps = [mod.log.pos_of(int(i)) for i in b.indices.flatten()]
            equal(len(ps), bs or cfg["batch"], "batch size")
            for i in b.indices.flatten().tolist():
                require(i in el, f"drew index {i}, eligible {sorted(el)}")
                require(mod.pr[i] > 0, f"drew index {i} whose priority is 0")
            close(b.sampling_probabilities, [[mod.pr[int(i)]] for i in b.indices.flatten()],
                  "sampling probabilities are the priorities", rtol=1e-4, atol=1e-3)
            plain = dict(cfg, timeline=False, everything=False)
            m.check_batch(plain, mod.log, b, ps)
        rec.label("sampled")
    if el:
        # a caller's own indices come back in the caller's order, with their own priorities
        want = [sorted(el)[i % len(el)] for i in case["own"]]
        b = buf.sample_transition_batch(batch_size=len(want), indices=torch.tensor(want))
        equal(b.indices.flatten().tolist(), want, "indices asked for")
        close(b.sampling_probabilities, [[mod.pr.get(i, 0.0)] for i in want],
              "priorities of the indices asked for", rtol=1e-4, atol=1e-3)
    rec.nt(sets and len(set(mod.pr.values())) > 1)


@facet(cases(), quick=60, shards=3)
def draws_follow_priorities(case, rec):
    for buf, mod, op in play(case, attempts=10 ** 7):
        pass
    el = mod.eligible()
    mass = sum(mod.pr[i] for i in el)
    total = sum(mod.pr.values())
    if not el or mass < 0.3 * total or total < 0.01 or len(el) < 2:
        return
    # Stratification only lowers the variance of the counts; draws over ineligible
    # slots are redrawn from the whole distribution.
    n = 3000
    c = np.bincount(buf.sample_index_batch(n).numpy(), minlength=mod.cfg["cap"])
    for i in range(mod.cfg["cap"]):
        p = mod.pr.get(i, 0.0) / mass if i in el else 0.0
        sd = np.sqrt(n * p * (1 - p)) + 1
        require(abs(c[i] - n * p) < 7 * sd,
                f"index {i}: drawn {c[i]} of {n}, probability {p:.4f}")
    rec.nt()


@facet(cases(), quick=200, shards=2)
def giving_up_is_an_error(case, rec):
    """With few attempts, either a batch of eligible indices or an error."""
    for buf, mod, op in play(case, attempts=case["q"] - 1):
        el = mod.eligible()
        try:
            ix = buf.sample_index_batch(4).tolist()
        except Exception:
            rec.label("gave up")
            rec.nt()
            continue
        require(all(i in el for i in ix), f"drew {ix}, eligible {sorted(el)}")
