"""Tiny networks whose outputs are fully determined by the case, and batch
builders shared by the trainer checks."""
import numpy as np
import torch
from hypothesis import strategies as st
from torch import nn


def rng_of(draw):
    return np.random.RandomState(draw(st.integers(0, 2**31 - 1)))


def arr(rng, shape, lo=-3.0, hi=3.0, digits=2):
    return np.round(rng.uniform(lo, hi, shape), digits).tolist()


def T(x, dtype=torch.float32):
    return torch.tensor(x, dtype=dtype)


class Lin(nn.Module):
    """state -> state @ W, reshaped to (batch, *shape)"""

    def __init__(self, w, shape=None, raw=False):
        super().__init__()
        self.w = nn.Parameter(T(w))
        self.shape, self.raw = shape, raw

    def forward(self, state):
        x = state if self.raw else state.float_features
        y = x @ self.w
        return y if self.shape is None else y.reshape(-1, *self.shape)

    def log_dist(self, state):
        return torch.log_softmax(self.forward(state), dim=-1)


class Bil(nn.Module):
    """(state, action) -> (state @ W . action, one column per metric)"""

    def __init__(self, w):
        super().__init__()
        self.w = nn.Parameter(T(w))

    def forward(self, state, action):
        return ((state.float_features @ self.w) * action.float_features).sum(
            1, keepdim=True
        )


class Capture:
    """Reporter / logger stand-in keeping the values it is given."""

    def __init__(self):
        self.values = {}

    def log(self, **kw):
        self.values.update(kw)

    def flush(self, *_):
        pass


class FakeTrainer:
    log_every_n_steps = 1
    global_step = 0
    current_epoch = 0


def instrument(trainer):
    cap = Capture()
    trainer.set_reporter(cap)
    trainer.trainer = FakeTrainer()
    trainer.log = lambda *a, **k: None
    return cap


def np_(t):
    return t.detach().cpu().double().numpy()


def snapshot(obj):
    """Deep copy of every tensor of a (nested) batch, as comparable lists."""
    import dataclasses

    if isinstance(obj, torch.Tensor):
        return (str(obj.dtype), obj.detach().clone().tolist())
    if dataclasses.is_dataclass(obj):
        return {f.name: snapshot(getattr(obj, f.name)) for f in dataclasses.fields(obj)}
    if isinstance(obj, dict):
        return {k: snapshot(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [snapshot(v) for v in obj]
    return repr(obj)


def onehot(idx, n):
    """-1 -> all zeros"""
    out = np.zeros((len(idx), n))
    for i, j in enumerate(idx):
        if j >= 0:
            out[i, j] = 1
    return out


@st.composite
def discrete_batch(draw, max_b=4, max_a=4, max_s=3, metrics=0):
    rng = rng_of(draw)
    b, a, s = draw(st.integers(1, max_b)), draw(st.integers(2, max_a)), draw(st.integers(1, max_s))
    nt = [int(x) for x in draw(st.lists(st.integers(0, 1), min_size=b, max_size=b))]
    action = rng.randint(0, a, b).tolist()
    mask = (rng.rand(b, a) < 0.6).astype(int)
    for i in range(b):
        mask[i, action[i]] = 1
    nmask = (rng.rand(b, a) < 0.6).astype(int)
    naction = []
    for i in range(b):
        if nt[i]:
            k = rng.randint(a)
            nmask[i, k] = 1
            naction.append(int(k))
        else:
            nmask[i] = 0 if rng.rand() < 0.5 else nmask[i]
            naction.append(-1)
    return dict(
        b=b, a=a, s=s, state=arr(rng, (b, s)), next_state=arr(rng, (b, s)), action=action,
        next_action=naction, mask=mask.tolist(), nmask=nmask.tolist(), not_terminal=nt,
        reward=arr(rng, (b, 1)), time_diff=rng.randint(1, 5 if rng.rand() < 0.6 else 60, (b, 1)).tolist(),
        step=rng.randint(1, 5, (b, 1)).tolist(), metrics=arr(rng, (b, metrics)) if metrics else None,
        mask_dtype=draw(st.sampled_from(["float32", "uint8"])),
    )


def build_discrete(c):
    import reagent.types as rlt

    md = getattr(torch, c.get("mask_dtype", "float32"))
    return rlt.DiscreteDqnInput(
        state=rlt.FeatureData(T(c["state"])),
        next_state=rlt.FeatureData(T(c["next_state"])),
        reward=T(c["reward"]), time_diff=T(c["time_diff"]), step=T(c["step"]),
        not_terminal=T(c["not_terminal"]).reshape(-1, 1),
        action=T(onehot(c["action"], c["a"])), next_action=T(onehot(c["next_action"], c["a"])),
        possible_actions_mask=T(c["mask"]).to(md), possible_next_actions_mask=T(c["nmask"]).to(md),
        extras=rlt.ExtraData(
            action_probability=torch.full((c["b"], 1), 0.5),
            metrics=T(c["metrics"]) if c.get("metrics") is not None else None,
        ),
    )


@st.composite
def rl_params(draw, actions=0, boost=True, maxq=True):
    d = dict(gamma=draw(st.sampled_from([0.0, 0.5, 0.9, 0.99, 1.0])),
             target_update_rate=draw(st.sampled_from([0.001, 0.1, 0.5, 1.0])),
             temperature=draw(st.sampled_from([0.01, 0.1, 0.5, 1.0, 3.0])),
             maxq_learning=draw(st.booleans()) if maxq else False,
             q_network_loss=draw(st.sampled_from(["mse", "huber"])))
    mode = draw(st.sampled_from(["plain", "plain", "time_diff", "multi"]))
    if mode == "time_diff":
        d["use_seq_num_diff_as_time_diff"] = True
    if mode == "multi":
        d["multi_steps"] = draw(st.integers(1, 5))
    if boost and actions and draw(st.booleans()):
        ks = draw(st.lists(st.integers(0, actions - 1), min_size=1, unique=True))
        d["reward_boost"] = {f"a{k}": round(draw(st.floats(-5, 5)), 2) for k in ks}
    return d


def discount(rl, c):
    if rl.get("use_seq_num_diff_as_time_diff"):
        return rl["gamma"] ** np.array(c["time_diff"], float)
    if rl.get("multi_steps") is not None:
        return rl["gamma"] ** np.array(c["step"], float)
    return np.full((c["b"], 1), rl["gamma"])


def boosted(rl, c):
    r = np.array(c["reward"], float)
    for k, v in (rl.get("reward_boost") or {}).items():
        r = r + v * (np.array(c["action"]) == int(k[1:])).reshape(-1, 1)
    return r


def mse(x, y):
    return float(np.mean((np.asarray(x) - np.asarray(y)) ** 2))


def huber_el(d):
    d = np.abs(d)
    return np.where(d < 1, 0.5 * d * d, d - 0.5)


def td_loss(kind, x, y):
    return mse(x, y) if kind == "mse" else float(np.mean(huber_el(np.asarray(x) - np.asarray(y))))


def dloss(kind, x, y):
    """Derivative of the (mean) loss with respect to x."""
    d = np.asarray(x) - np.asarray(y)
    return (2 * d if kind == "mse" else np.clip(d, -1, 1)) / d.size


def softmax_masked(x, m, temp):
    x, m = np.asarray(x, float) / temp, np.asarray(m, float)
    out = np.zeros_like(x)
    for i in range(len(x)):
        k = m[i] > 0
        if k.any():
            e = np.exp(x[i][k] - x[i][k].max())
            out[i][k] = e / e.sum()
    return out


def near_tie(x, m, gap=1e-3):
    """Some row's best two allowed entries are too close to call."""
    for r, k in zip(np.asarray(x, float), np.asarray(m)):
        v = np.sort(r[k > 0])
        if len(v) > 1 and v[-1] - v[-2] < gap:
            return True
    return False


def best(x, m):
    x = np.where(np.asarray(m) > 0, np.asarray(x, float), -np.inf)
    return x.argmax(1)
