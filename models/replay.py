"""Reference model of the transition store: an unbounded log of everything that
was written, padding included.  No circular storage, no validity bookkeeping."""
import numpy as np
from hypothesis import strategies as st


_EMPTY = np.empty


def _poisoned_empty(*a, **k):
    """np.empty promises nothing about the contents: make them the worst ones."""
    x = _EMPTY(*a, **k)
    if x.dtype.kind in "fc":
        x.fill(np.nan)
    elif x.dtype.kind in "iu":
        x.fill(np.iinfo(x.dtype).max)
    elif x.dtype.kind == "b":
        x.fill(True)
    return x


def poison():
    import torch

    np.empty = _poisoned_empty
    if getattr(torch, "_vp_empty", None) is None:
        torch._vp_empty = torch.empty

        def empty(*a, **k):
            x = torch._vp_empty(*a, **k)
            if x.dtype.is_floating_point:
                with torch.no_grad():
                    x.fill_(float("nan"))
            return x

        torch.empty = empty



@st.composite
def configs(draw, timeline=True, idlist=True, max_cap=26):
    stack = draw(st.integers(1, 4))
    horizon = draw(st.integers(1, 5))
    cap = stack + horizon + draw(st.integers(0, max_cap - 9))
    return dict(
        stack=stack, horizon=horizon, cap=cap,
        gamma=draw(st.sampled_from([0.99, 0.5, 1.0, 0.9])),
        timeline=draw(st.booleans()) if timeline else False,
        everything=draw(st.booleans()) if timeline else False,
        obs_shape=draw(st.sampled_from([[], [1], [3], [2, 2]])),
        obs_int=draw(st.booleans()),
        act_shape=draw(st.sampled_from([[], [2]])),
        extras=draw(st.lists(st.sampled_from(
            ["xf", "xv", "xb"] + (["ids", "scored"] if idlist and stack == 1 else [])),
            unique=True, max_size=3)),
        batch=draw(st.integers(1, 5)),
    )


@st.composite
def terminals(draw, cfg, max_len=None):
    """A history: the terminal flag of each added transition, in order; episode
    lengths concentrate around the window sizes that matter."""
    out = []
    for _ in range(draw(st.integers(1, 8))):
        kind = draw(st.integers(0, 3))
        n = (draw(st.integers(1, cfg["horizon"] + 2)) if kind < 2 else
             draw(st.integers(1, cfg["cap"] + 3)) if kind == 2 else 1)
        out += [0] * (n - 1) + [1]
    if draw(st.booleans()):
        out += [0] * draw(st.integers(1, cfg["cap"] + 2))
    limit = max_len or 4 * cfg["cap"]
    return out[:limit]


class Rec:
    __slots__ = ("pad", "ep", "t", "data", "terminal")


def content(cfg, c, terminal):
    """The c-th transition ever added (values are all distinct)."""
    n = int(np.prod(cfg["obs_shape"])) if cfg["obs_shape"] else 1
    obs = np.array([c * 10 + 1 + i for i in range(n)]).reshape(cfg["obs_shape"])
    obs = obs.astype(np.int64) if cfg["obs_int"] else obs.astype(np.float32) / 4
    m = int(np.prod(cfg["act_shape"])) if cfg["act_shape"] else 1
    act = np.array([c * 7 + 2 + i for i in range(m)], dtype=np.int64).reshape(cfg["act_shape"])
    d = dict(observation=obs, action=act, reward=float((c * 37) % 101 + 1) / 2,
             terminal=bool(terminal))
    for x in cfg["extras"]:
        if x == "xf":
            d[x] = float(c) + 0.25
        elif x == "xv":
            d[x] = np.array([c, -c - 1], dtype=np.float32)
        elif x == "xb":
            d[x] = bool((c * 5) % 3 == 0)
        elif x == "ids":
            d[x] = {"a": [c + 1] * (c % 3), "b": [5 * c]}
        elif x == "scored":
            d[x] = {"a": ([c + 2] * (c % 2), [0.5 * c] * (c % 2))}
    return d


class Log:
    def __init__(self, cfg):
        self.cfg = cfg
        self.recs = []
        self.ep = -1
        self.count = 0

    def _put(self, pad, t, data, terminal):
        r = Rec()
        r.pad, r.ep, r.t, r.data, r.terminal = pad, self.ep, t, data, terminal
        self.recs.append(r)

    def add(self, terminal):
        """Returns the keyword arguments to hand to the real buffer."""
        if not self.recs or self.recs[-1].terminal:
            self.ep += 1
            for _ in range(self.cfg["stack"] - 1):
                self._put(True, -1, None, False)
        t = self.recs[-1].t + 1 if (self.recs and self.recs[-1].ep == self.ep
                                    and not self.recs[-1].pad) else 0
        d = content(self.cfg, self.count, terminal)
        self.count += 1
        self._put(False, t, d, bool(terminal))
        return d

    @property
    def total(self):
        return len(self.recs)

    def pos_of(self, index):
        """Log position currently held at a storage index, or None."""
        cap, n = self.cfg["cap"], self.total
        if n == 0:
            return None
        p = (n - 1) - ((n - 1 - index) % cap)
        return p if p >= 0 else None

    def steps(self, p):
        """(number of steps used, ended) for a window that starts at p; None while
        the window is not complete yet."""
        n = self.cfg["horizon"]
        for k in range(n):
            if p + k >= self.total:
                return None
            if self.recs[p + k].terminal:
                return k + 1, True
        if p + n >= self.total:
            return None
        return n, False

    def eligible(self, p):
        r = self.recs[p]
        if r.pad or p - (self.cfg["stack"] - 1) < max(0, self.total - self.cfg["cap"]):
            return False
        return self.steps(p) is not None

    def eligible_positions(self):
        lo = max(0, self.total - self.cfg["cap"])
        return [p for p in range(lo, self.total) if self.eligible(p)]

    def value(self, key, p):
        r = self.recs[p]
        if not r.pad:
            return r.data[key]
        example = content(self.cfg, 0, False)[key]
        return np.zeros(np.shape(example))

    def stack(self, key, p):
        s = self.cfg["stack"]
        v = np.stack([np.asarray(self.value(key, q), dtype=np.float64)
                      for q in range(p - s + 1, p + 1)], axis=-1)
        return v[..., 0] if s == 1 else v

    def nstep_reward(self, p):
        k, _ = self.steps(p)
        return sum(self.recs[p + i].data["reward"] * self.cfg["gamma"] ** i for i in range(k))


def make_buffer(cfg, **kw):
    from reagent.replay_memory.circular_replay_buffer import ReplayBuffer

    poison()
    return ReplayBuffer(
        stack_size=cfg["stack"], replay_capacity=cfg["cap"], batch_size=cfg["batch"],
        return_everything_as_stack=cfg["everything"],
        return_as_timeline_format=cfg["timeline"], update_horizon=cfg["horizon"],
        gamma=cfg["gamma"], **kw)


def check_batch(cfg, log, batch, positions):
    """Every element of a sampled batch against the log."""
    import torch

    from vlib.core import close, equal, require, same

    B = len(positions)
    idx = batch.indices
    equal(list(idx.shape), [B, 1], "shape of the returned indices")
    equal([int(i) for i in idx.flatten()], [p % cfg["cap"] for p in positions], "returned indices")
    ks = [log.steps(p) for p in positions]
    same(batch.step, np.array([[k[0]] for k in ks]), "number of steps")
    same(batch.terminal, np.array([[k[1]] for k in ks]), "terminal")

    def col(v):
        v = np.asarray(v)
        return v[:, None] if v.ndim == 1 else v

    def dense(name, key, qs, got, keep=None):
        got = got.detach().numpy() if hasattr(got, "detach") else got
        require(isinstance(got, np.ndarray), f"{name}: not a tensor")
        want = col(np.stack([log.stack(key, q) if q is not None else
                             np.zeros_like(log.stack(key, positions[0])) for q in qs]))
        equal(got.shape, want.shape, f"{name} shape")
        rows = [i for i, q in enumerate(qs) if q is not None]
        close(got[rows], want[rows], name)

    def timeline(name, key, start, got, drop_terminal):
        require(isinstance(got, list), f"{name}: timeline format is a list per row")
        equal(len(got), B, f"{name} rows")
        for i, p in enumerate(positions):
            k, end = ks[i]
            qs = [p + start + j for j in range(k)]
            g = got[i]
            if isinstance(g, dict):
                continue
            equal(len(g), k, f"{name} row {i} length")
            if drop_terminal and end:
                qs = qs[:-1]
            if qs:
                close(g[: len(qs)], np.stack([log.stack(key, q) for q in qs]), f"{name} row {i}")

    dense("state", "observation", positions, batch.state)
    dense("action", "action", positions, batch.action)
    if cfg["timeline"]:
        timeline("next_state", "observation", 1, batch.next_state, True)
        timeline("next_action", "action", 1, batch.next_action, True)
        timeline("next_reward", "reward", 1, batch.next_reward, True)
        timeline("reward", "reward", 0, batch.reward, False)
    else:
        nxt = [p + k if not end else None for p, (k, end) in zip(positions, ks)]
        dense("next_state", "observation", nxt, batch.next_state)
        dense("next_action", "action", nxt, batch.next_action)
        dense("next_reward", "reward", nxt, batch.next_reward)
        if cfg["everything"]:
            dense("reward", "reward", positions, batch.reward)
        else:
            close(batch.reward, np.array([[log.nstep_reward(p)] for p in positions]), "reward")
    for x in cfg["extras"]:
        v = getattr(batch, x)
        if x in ("ids", "scored"):
            for k in v:
                parts = [log.value(x, p)[k] for p in positions]
                ids = [q if x == "ids" else q[0] for q in parts]
                offs = list(np.cumsum([0] + [len(q) for q in ids])[:-1])
                equal([int(z) for z in v[k][0]], [int(o) for o in offs], f"{x}.{k} offsets")
                equal([int(z) for z in v[k][1]], [z for q in ids for z in q], f"{x}.{k} ids")
                if x == "scored":
                    close(v[k][2], np.array([z for q in parts for z in q[1]]), f"{x}.{k} scores")
            if not cfg["timeline"]:
                # next lists: rows of finished windows are unspecified
                nv = getattr(batch, "next_" + x)
                for k in nv:
                    offs = [int(o) for o in nv[k][0]] + [len(nv[k][1])]
                    equal(len(offs), B + 1, f"next {x}.{k} offsets")
                    for i, (p, (s, end)) in enumerate(zip(positions, ks)):
                        if not end:
                            q = log.value(x, p + s)[k]
                            q = q if x == "ids" else q[0]
                            equal([int(z) for z in nv[k][1][offs[i]:offs[i + 1]]], list(q),
                                  f"next {x}.{k} row {i}")
        else:
            dense(x, x, positions, v)
            if cfg["timeline"]:
                timeline("next_" + x, x, 1, getattr(batch, "next_" + x), True)
            else:
                dense("next_" + x, x, nxt, getattr(batch, "next_" + x))
