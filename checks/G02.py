"""What trainers are fed: transitions through inserters, replay buffers and input makers."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from models.nets import T, rng_of
from vlib.core import Inconclusive, close, equal, facet, raises, require, same

RULE = "a case is a history of episodes and the spaces of an environment; non-trivial = an episode ends before the last transition and there are four or more transitions"


# ------------------------------------------------------------------ histories
@st.composite
def histories(draw, longest=6):
    """Episodes of transitions; rewards identify them"""
    rng = rng_of(draw)
    lens = draw(st.lists(st.integers(1, longest), min_size=1, max_size=4))
    n = sum(lens)
    acts = draw(st.integers(2, 4))
    dim = draw(st.integers(1, 3))
    return dict(lens=lens, closed=draw(st.booleans()), acts=acts, dim=dim, action=rng.randint(0, acts, n).tolist(), obs=np.round(rng.uniform(-2, 2, (n, dim)), 2).tolist(),
                lp=np.round(rng.uniform(-3, 0, n), 2).tolist(), r=(np.arange(n) + np.round(rng.rand(n) / 2, 2)).tolist(), mask=rng.randint(0, 2, (n, acts)).tolist(),
                masks=draw(st.booleans()), box=np.round(rng.uniform(-1, 1, (n, 2)), 3).tolist(), low=np.round(rng.uniform(-4, -1, 2), 2).tolist(), high=np.round(rng.uniform(0, 5, 2), 2).tolist(),
                stack=draw(st.integers(1, 3)), module=draw(st.booleans()), own=draw(st.integers(0, 2)) == 0)


def steps(c):
    """(episode, step in episode, terminal) per transition"""
    out = []
    for e, k in enumerate(c["lens"]):
        for s in range(k):
            out.append((e, s, s == k - 1 and (c["closed"] or e < len(c["lens"]) - 1)))
    return out


def buffer_of(c, kind="discrete", **kw):
    from reagent.gym.preprocessors import make_replay_buffer_inserter
    from reagent.gym.types import Transition
    from reagent.replay_memory.circular_replay_buffer import ReplayBuffer

    rb = ReplayBuffer(replay_capacity=64, batch_size=4, **kw)
    put = make_replay_buffer_inserter(env_of(c, kind))
    low, high = np.array(c["low"]), np.array(c["high"])
    for i, (e, s, t) in enumerate(steps(c)):
        act = np.int64(c["action"][i]) if kind == "discrete" else (low + (np.array(c["box"][i]) + 1) / 2 * (high - low)).astype(np.float32)
        put(rb, Transition(mdp_id=e, sequence_number=s, observation=np.array(c["obs"][i], dtype=np.float32), action=act, reward=float(c["r"][i]), terminal=t, log_prob=float(c["lp"][i]),
                           possible_actions_mask=np.array(c["mask"][i], dtype=np.int64) if c["masks"] and kind == "discrete" else None))
    return rb


def valid(c):
    """Transitions that have a successor, or end their episode"""
    n = sum(c["lens"])
    return [i for i in range(n) if i < n - 1 or c["closed"]]


def env_of(c, kind="discrete"):
    import gym

    class Env(gym.Env):
        observation_space = gym.spaces.Box(low=-np.ones(c["dim"], dtype=np.float32), high=np.ones(c["dim"], dtype=np.float32))
        action_space = gym.spaces.Discrete(c["acts"]) if kind == "discrete" else gym.spaces.Box(low=np.array(c["low"], dtype=np.float32), high=np.array(c["high"], dtype=np.float32))

    return Env()


def maker(cls_name, env, module, online=False):
    """The batch transform a trainer taking `cls_name` gets for the environment"""
    import reagent.types as rlt
    from reagent.gym.preprocessors import make_replay_buffer_trainer_preprocessor, make_trainer_preprocessor_online
    from reagent.training.reagent_lightning_module import ReAgentLightningModule

    typ = getattr(rlt, cls_name)
    if module:

        class Tr(ReAgentLightningModule):
            def train_step_gen(self, training_batch: typ, batch_idx: int):
                yield None

            def configure_optimizers(self):
                return []

        t = Tr()
    else:

        class Plain:
            def train(self, training_batch: typ):
                pass

        t = Plain()
    f = make_trainer_preprocessor_online if online else make_replay_buffer_trainer_preprocessor
    return f(t, torch.device("cpu"), env)


def check_common(out, c, v, state, nstate):
    st_ = steps(c)
    close(out.reward.reshape(-1), [c["r"][i] for i in v], "reward")
    close(out.not_terminal.float().reshape(-1), [0.0 if st_[i][2] else 1.0 for i in v], "not_terminal")
    equal(list(out.reward.shape), [len(v), 1], "shape of the reward")
    equal(list(out.not_terminal.shape), [len(v), 1], "shape of not_terminal")
    close(state, [c["obs"][i] for i in v], "state", atol=1e-5)
    for k, i in enumerate(v):
        if not st_[i][2]:
            close(nstate[k], c["obs"][i + 1], "next state", atol=1e-5)


def onehot(c, v):
    st_ = steps(c)
    a = np.eye(c["acts"])[[c["action"][i] for i in v]]
    na = np.stack([np.zeros(c["acts"]) if st_[i][2] else np.eye(c["acts"])[c["action"][i + 1]] for i in v])
    return a, na


def nontrivial(c, rec):
    rec.nt(sum(c["lens"]) >= 4 and len(c["lens"]) > 1)
    rec.label("closed" if c["closed"] else "open end")


@facet(histories(), quick=160, shards=2)
def discrete_batches(case, rec):
    """DQN batches: one-hot actions, no next action after the end, masks as recorded or all possible"""
    c, v, st_ = case, valid(case), steps(case)
    if not v:
        raise Inconclusive("nothing to train on")
    batch = buffer_of(c).sample_all_valid_transitions()
    env, own = env_of(c), c.get("own")
    if own:
        import reagent.types as rlt

        env.trainer_preprocessor = lambda x: rlt.FeatureData(float_features=x * 2 + 1, id_list_features={"x": (torch.arange(len(x)), x[:, 0])})
    out = maker("DiscreteDqnInput", env, c["module"])(batch)
    a, na = onehot(c, v)
    if own:
        close(out.state.id_list_features["x"][1], [c["obs"][i][0] for i in v], "the environment's features of the state", atol=1e-5)
        for k, i in enumerate(v):
            if not st_[i][2]:
                close(out.next_state.id_list_features["x"][1][k], c["obs"][i + 1][0], "the environment's features of the next state", atol=1e-5)
    undo = (lambda x: (x - 1) / 2) if own else (lambda x: x)
    check_common(out, c, v, undo(out.state.float_features), undo(out.next_state.float_features))
    close(out.action, a, "one-hot action")
    close(out.next_action, na, "one-hot next action")
    close(out.extras.action_probability.reshape(-1), np.exp([c["lp"][i] for i in v]), "logged propensity", rtol=1e-3)
    if c["masks"]:
        close(out.possible_actions_mask, [c["mask"][i] for i in v], "possible actions")
        for k, i in enumerate(v):
            if not st_[i][2]:
                close(out.possible_next_actions_mask[k], c["mask"][i + 1], "possible next actions")
    else:
        close(out.possible_actions_mask, np.ones((len(v), c["acts"])), "every action possible")
        close(out.possible_next_actions_mask, np.ones((len(v), c["acts"])), "every next action possible")
    require(torch.is_floating_point(out.possible_actions_mask) and torch.is_floating_point(out.action), "float masks and actions")
    nontrivial(c, rec)


@facet(histories(), quick=120, shards=2)
def parametric_batches(case, rec):
    """Parametric DQN batches: actions as one-hot features, every action possible, laid out action by action"""
    c, v = case, valid(case)
    if not v:
        raise Inconclusive("nothing to train on")
    out = maker("ParametricDqnInput", env_of(c), c["module"])(buffer_of(c).sample_all_valid_transitions())
    a, na = onehot(c, v)
    check_common(out, c, v, out.state.float_features, out.next_state.float_features)
    close(out.action.float_features, a, "action")
    close(out.next_action.float_features, na, "next action")
    for what, t in (("possible actions", out.possible_actions), ("possible next actions", out.possible_next_actions)):
        close(t.float_features, np.concatenate([np.eye(c["acts"])] * len(v)), what)
    for t in (out.possible_actions_mask, out.possible_next_actions_mask):
        close(t, np.ones((len(v), c["acts"])), "mask")
    close(out.extras.action_probability.reshape(-1), np.exp([c["lp"][i] for i in v]), "logged propensity", rtol=1e-3)
    nontrivial(c, rec)


@facet(histories(), quick=120, shards=2)
def continuous_batches(case, rec):
    """Actor-critic batches: actions moved from the environment's range to the training range"""
    from reagent.parameters import CONTINUOUS_TRAINING_ACTION_RANGE as R

    c, v, st_ = case, valid(case), steps(case)
    if not v:
        raise Inconclusive("nothing to train on")
    out = maker("PolicyNetworkInput", env_of(c, "box"), c["module"])(buffer_of(c, "box").sample_all_valid_transitions())
    check_common(out, c, v, out.state.float_features, out.next_state.float_features)

    def want(i):
        return R[0] + (np.array(c["box"][i]) + 1) / 2 * (R[1] - R[0])

    close(out.action.float_features, [want(i) for i in v], "action in the training range", atol=1e-3)
    close(out.next_action.float_features, [np.zeros(2) if st_[i][2] else want(i + 1) for i in v], "next action", atol=1e-3)
    close(out.extras.action_probability.reshape(-1), np.exp([c["lp"][i] for i in v]), "logged propensity", rtol=1e-3)
    nontrivial(c, rec)


@facet(histories(), quick=120, shards=2)
def memory_batches(case, rec):
    """World-model batches: steps first, episodes never mixed, actions one-hot or as they are"""
    c = case
    kind = "discrete" if c["module"] else "box"
    n, v = sum(c["lens"]), valid(case)
    if not v:
        raise Inconclusive("nothing to train on")
    kw = dict(stack_size=c["stack"], return_everything_as_stack=True) if c["stack"] > 1 else {}
    batch = buffer_of(dict(c, masks=False), kind, **kw).sample_all_valid_transitions()
    if kind == "discrete" or c["stack"] > 1:
        out = maker("MemoryNetworkInput", env_of(c, kind), c["masks"])(batch)
    else:
        out = maker("MemoryNetworkInput", env_of(c, kind), c["masks"])(batch)
    S, st_ = c["stack"], steps(c)
    adim = c["acts"] if kind == "discrete" else 2
    equal(list(out.state.float_features.shape), [S, len(v), c["dim"]], "state layout")
    equal(list(out.action.shape), [S, len(v), adim], "action layout")
    equal(list(out.reward.shape), [S, len(v)], "reward layout")
    equal(list(out.not_terminal.shape), [S, len(v)], "not_terminal layout")
    low, high = np.array(c["low"]), np.array(c["high"])
    for k, i in enumerate(v):
        for s in range(S):
            j = i - (S - 1 - s)
            here = j >= 0 and st_[j][0] == st_[i][0]
            if not here:
                close(out.state.float_features[s, k], np.zeros(c["dim"]), "padding before the episode")
                close(out.reward[s, k], 0.0, "padding before the episode")
                close(out.not_terminal[s, k], 1.0, "earlier steps did not end the episode")
                continue
            close(out.state.float_features[s, k], c["obs"][j], "state", atol=1e-5)
            close(out.reward[s, k], c["r"][j], "reward")
            close(out.not_terminal[s, k], 0.0 if st_[j][2] else 1.0, "not_terminal")
            want = np.eye(adim)[c["action"][j]] if kind == "discrete" else low + (np.array(c["box"][j]) + 1) / 2 * (high - low)
            close(out.action[s, k], want, "action", atol=1e-4)
        if not st_[i][2]:
            close(out.next_state.float_features[S - 1, k], c["obs"][i + 1], "next state", atol=1e-5)
    nontrivial(c, rec)
    rec.label("stack %d" % S, kind)


@facet(histories(), quick=120, shards=2)
def trajectory_batches(case, rec):
    """Policy-gradient batches: one trajectory, in order, nothing dropped"""
    from reagent.gym.types import Trajectory, Transition

    c = case
    kind = "discrete" if c["masks"] else "box"
    tr = Trajectory()
    n = c["lens"][0]
    for i in range(n):
        act = np.array([c["action"][i]]) if kind == "discrete" and c["closed"] else (np.int64(c["action"][i]) if kind == "discrete" else np.array(c["box"][i], dtype=np.float32))
        tr.add_transition(Transition(mdp_id=3, sequence_number=i, observation=np.array(c["obs"][i]), action=act, reward=float(c["r"][i]), terminal=i == n - 1, log_prob=float(c["lp"][i])))
    out = maker("PolicyGradientInput", env_of(c, kind), c["module"], online=True)(tr)
    close(out.state.float_features, c["obs"][:n], "states", atol=1e-5)
    close(out.action, np.eye(c["acts"])[c["action"][:n]] if kind == "discrete" else np.array(c["box"][:n]), "actions", atol=1e-5)
    close(out.reward, c["r"][:n], "rewards")
    close(out.log_prob, c["lp"][:n], "log-probabilities")
    rec.nt(n >= 4)
    rec.label(kind)


@facet(histories(), quick=40, shards=1)
def unknown_batches(case, rec):
    """Trainers taking a batch nobody can make, or naming it otherwise, are refused"""
    import reagent.types as rlt
    from reagent.gym.preprocessors import make_replay_buffer_trainer_preprocessor

    c = case
    raises(KeyError, lambda: maker("PolicyGradientInput", env_of(c), c["module"]), "not made from replay buffers")
    raises(KeyError, lambda: maker("DiscreteDqnInput", env_of(c), c["module"], online=True), "not made online")

    class Other:
        def train(self, batch: rlt.DiscreteDqnInput):
            pass

    raises(AssertionError, lambda: make_replay_buffer_trainer_preprocessor(Other(), torch.device("cpu"), env_of(c)), "no training_batch")
    rec.nt(sum(c["lens"]) >= 4)


@facet(histories(), quick=120, shards=2)
def timeline_frames(case, rec):
    """Rows for the timeline operator: every usable transition once, in order, features by id"""
    from reagent.replay_memory.utils import replay_buffer_to_pre_timeline_df

    c, v, st_ = case, valid(case), steps(case)
    if not v:
        raise Inconclusive("nothing to write")
    kind = "discrete" if c["module"] else "box"
    df = replay_buffer_to_pre_timeline_df(kind == "discrete", buffer_of(dict(c, masks=False), kind))
    equal(len(df), len(v), "rows")
    low, high = np.array(c["low"]), np.array(c["high"])

    def one(x):
        return x[0] if isinstance(x, (list, tuple, np.ndarray)) else x

    known = sorted({c["action"][i] for i in v})
    for k, i in enumerate(v):
        row = df.iloc[k]
        equal(int(one(row["mdp_id"])), st_[i][0], "episode")
        equal(int(one(row["sequence_number"])), st_[i][1], "place in the episode")
        close(row["reward"], c["r"][i], "reward")
        close(row["metrics"]["reward"], c["r"][i], "reward metric")
        close(row["action_probability"], math.exp(c["lp"][i]), "propensity", rtol=1e-3)
        equal(sorted(row["state_features"]), list(range(c["dim"])), "feature ids")
        close([row["state_features"][f] for f in range(c["dim"])], c["obs"][i], "features", atol=1e-5)
        if kind == "discrete":
            equal(row["action"], str(c["action"][i]), "action")
            equal(list(row["possible_actions"]), [] if st_[i][2] else [str(a) for a in known], "possible actions")
            equal(list(row["possible_actions_mask"]), [] if st_[i][2] else [1] * len(known), "mask")
        else:
            close([row["action"][f] for f in range(2)], low + (np.array(c["box"][i]) + 1) / 2 * (high - low), "action", atol=1e-4)
    equal(len(set(df["ds"])), 1, "one partition")
    nontrivial(c, rec)


# -------------------------------------------------------- slates of documents
@st.composite
def slate_cases(draw):
    rng = rng_of(draw)
    lens = draw(st.lists(st.integers(1, 4), min_size=1, max_size=3))
    n, docs, slate = sum(lens), draw(st.integers(2, 4)), draw(st.integers(1, 2))
    return dict(lens=lens, docs=docs, slate=slate, ids=[str(i) for i in rng.choice(30, docs, replace=False)] if draw(st.booleans()) else [str(i) for i in range(docs)], dim=draw(st.integers(1, 3)), plain=draw(st.booleans()), seed=int(rng.randint(10**6)), aug=draw(st.booleans()), discrete=draw(st.integers(2, 4)), box=draw(st.integers(1, 2)),
                first_none=draw(st.booleans()), scalar=draw(st.booleans()))


def slate_env(c, plain, aug=True, extra=True):
    import collections

    import gym
    from gym import spaces as S

    def box(*shape):
        return S.Box(low=-np.ones(shape, dtype=np.float32), high=np.ones(shape, dtype=np.float32))

    doc = box(2) if plain else S.Dict(collections.OrderedDict([("z", box(c["box"])), ("kind", S.Discrete(c["discrete"])), ("a", S.Box(low=np.float32(0), high=np.float32(1), shape=())), ("era", S.Discrete(3)), ("big", S.Discrete(2)), ("none", S.Discrete(1))]))
    parts = collections.OrderedDict(user=box(c["dim"]), doc=S.Dict(collections.OrderedDict((k, doc) for k in c["ids"])),
                                    response=S.Tuple([S.Dict(click=S.Discrete(2), watch_time=S.Box(low=np.float32(0), high=np.float32(9), shape=()))] * c["slate"]))
    if aug:
        parts["augmentation"] = S.Dict(collections.OrderedDict((k, S.Dict(value=S.Box(low=np.float32(0), high=np.float32(1), shape=()), rank=S.Discrete(5))) for k in c["ids"]))

    class Env(gym.Env):
        observation_space = S.Dict(parts)
        action_space = S.MultiDiscrete([c["docs"]] * c["slate"])

    return Env()


def observations(c):
    rng = np.random.RandomState(c["seed"])
    out = []
    k = 0
    for e, L in enumerate(c["lens"]):
        for s in range(L):
            doc = {}
            for d in range(c["docs"]):
                doc[c["ids"][d]] = rng.rand(2).astype(np.float32) if c["plain"] else dict(z=rng.rand(c["box"]).astype(np.float32), kind=int(rng.randint(c["discrete"])), a=np.float32(rng.rand()), era=int(rng.randint(3)), big=int(rng.randint(2)), none=0)
            resp = None if s == 0 and c["first_none"] else tuple(dict(click=int(rng.randint(2)), watch_time=np.float32(round(rng.rand() * 5, 2))) for _ in range(c["slate"]))
            obs = dict(user=rng.rand(c["dim"]).astype(np.float32), doc=doc, response=resp)
            obs["augmentation"] = {d: dict(value=np.float32(rng.rand()), rank=int(rng.randint(5))) for d in c["ids"]}
            out.append(dict(e=e, s=s, t=s == L - 1, obs=obs, a=rng.permutation(c["docs"])[:c["slate"]].astype(np.int64), r=float(k), lp=float(-rng.rand())))
            k += 1
    return out


@facet(slate_cases(), quick=160, shards=2)
def document_observations(case, rec):
    """Documents' features: one-hot kinds then numbers, by name; documents in order; values from the augmentation"""
    from reagent.gym.preprocessors.default_preprocessors import RecsimObsPreprocessor

    c = case
    if c["docs"] < c["slate"]:
        raise Inconclusive("more slots than documents")
    pre = RecsimObsPreprocessor.create_from_env(slate_env(c, c["plain"]))
    for o in observations(c)[:3]:
        obs = o["obs"]
        out = pre(obs)
        close(out.float_features, [obs["user"]], "user")
        if c["plain"]:
            want = np.stack([obs["doc"][d] for d in c["ids"]])
        else:
            want = np.stack([np.concatenate([np.eye(2)[v["big"]], np.eye(3)[v["era"]], np.eye(c["discrete"])[v["kind"]], [1.0], [v["a"]], v["z"]]) for v in obs["doc"].values()])
        close(out.candidate_docs.float_features, [want], "documents")
        close(out.candidate_docs.value, [[obs["augmentation"][d]["value"] for d in c["ids"]]], "values")
    rec.nt(c["docs"] > 2 and not c["plain"])
    rec.label("plain documents" if c["plain"] else "documents with fields")


@facet(slate_cases(), quick=160, shards=2)
def document_inserter(case, rec):
    """Every field of documents, augmentations and responses is stored; a missing response is all zeros"""
    from reagent.gym.preprocessors.replay_buffer_inserters import RecSimReplayBufferInserter
    from reagent.gym.types import Transition
    from reagent.replay_memory.circular_replay_buffer import ReplayBuffer

    c = case
    env = slate_env(c, c["plain"], aug=c["aug"])
    put = RecSimReplayBufferInserter.create_for_env(env)
    rb = ReplayBuffer(replay_capacity=64, batch_size=4)
    obs = observations(c)
    for o in obs:
        put(rb, Transition(mdp_id=o["e"], sequence_number=o["s"], observation=o["obs"], action=o["a"], reward=o["r"], terminal=o["t"], log_prob=o["lp"]))
    b = rb.sample_all_valid_transitions()
    equal(b.state.shape[0], len(obs), "transitions")
    for k, o in enumerate(obs):
        x = o["obs"]
        close(b.state[k], x["user"], "user")
        close(b.action[k], o["a"], "action")
        close(b.reward[k], [o["r"]], "reward")
        if c["plain"]:
            close(b.doc[k], np.stack(list(x["doc"].values())), "documents")
        else:
            close(b.doc_z[k], np.stack([v["z"] for v in x["doc"].values()]), "document numbers")
            close(b.doc_kind[k], [v["kind"] for v in x["doc"].values()], "document kinds")
            close(b.doc_a[k], [v["a"] for v in x["doc"].values()], "document scalars")
            close(b.doc_era[k], [v["era"] for v in x["doc"].values()], "document eras")
            close(b.doc_big[k], [v["big"] for v in x["doc"].values()], "document sizes")
        if c["aug"]:
            close(b.augmentation_value[k], [v["value"] for v in x["augmentation"].values()], "augmentation")
            close(b.augmentation_rank[k], [v["rank"] for v in x["augmentation"].values()], "ranks of the augmentation")
        else:
            require(not hasattr(b, "augmentation_value"), "no augmentation in the space")
        resp = x["response"]
        close(b.response_click[k], [0] * c["slate"] if resp is None else [v["click"] for v in resp], "clicks")
        close(b.response_watch_time[k], [0.0] * c["slate"] if resp is None else [v["watch_time"] for v in resp], "watch time")
        if not o["t"]:
            close(b.next_state[k], obs[k + 1]["obs"]["user"], "next user")
    rec.nt(len(obs) >= 4 and len(c["lens"]) > 1)
    rec.label("first response missing" if c["first_none"] else "responses")


@facet(slate_cases(), quick=120, shards=2)
def slate_batches(case, rec):
    """SlateQ batches: rewards by position, the null item clicked exactly when nothing was"""
    from reagent.gym.preprocessors.replay_buffer_inserters import RecSimReplayBufferInserter
    from reagent.gym.types import Transition
    from reagent.replay_memory.circular_replay_buffer import ReplayBuffer

    c = dict(case, plain=True)
    env = slate_env(c, True)
    put = RecSimReplayBufferInserter.create_for_env(env)
    rb = ReplayBuffer(replay_capacity=64, batch_size=4)
    obs = observations(c)
    for o in obs:
        put(rb, Transition(mdp_id=o["e"], sequence_number=o["s"], observation=o["obs"], action=o["a"], reward=o["r"], terminal=o["t"], log_prob=o["lp"]))
    out = maker("SlateQInput", env, c["aug"])(rb.sample_all_valid_transitions())
    n, S = len(obs), c["slate"]
    equal(list(out.action.shape), [n, S + 1], "slate and the null item")
    close(out.not_terminal.float().reshape(-1), [0.0 if o["t"] else 1.0 for o in obs], "not_terminal")
    for k, o in enumerate(obs):
        x = o["obs"]
        close(out.state.float_features[k], x["user"], "user")
        close(out.state.candidate_docs.float_features[k], np.stack(list(x["doc"].values())), "documents")
        close(out.state.candidate_docs.value[k], [v["value"] for v in x["augmentation"].values()], "values")
        close(out.state.candidate_docs.mask[k], np.ones(c["docs"]), "every document present")
        close(out.next_state.candidate_docs.mask[k], np.ones(c["docs"]), "every document present next")
        close(out.action[k, :S], o["a"], "slate")
        resp = x["response"]
        clicks = [0] * S if resp is None else [v["click"] for v in resp]
        close(out.reward[k], ([0.0] * S if resp is None else [v["watch_time"] for v in resp]) + [0.0], "reward by position")
        close(out.reward_mask[k].float(), clicks + [0 if any(clicks) else 1], "observed rewards")
        if not o["t"]:
            nx = obs[k + 1]["obs"]
            close(out.next_state.float_features[k], nx["user"], "next user")
            close(out.next_state.candidate_docs.float_features[k], np.stack(list(nx["doc"].values())), "next documents")
            close(out.next_state.candidate_docs.value[k], [v["value"] for v in nx["augmentation"].values()], "next values")
            close(out.next_action[k, :S], obs[k + 1]["a"], "next slate")
    rec.nt(n >= 4 and S > 1)


@facet(slate_cases(), quick=80, shards=1)
def actor_batches_over_documents(case, rec):
    """Actor-critic batches over documents: the user's and every document's features, now and next, as one state"""
    import gym

    from reagent.gym.preprocessors.replay_buffer_inserters import RecSimReplayBufferInserter
    from reagent.gym.types import Transition
    from reagent.replay_memory.circular_replay_buffer import ReplayBuffer

    c = dict(case, plain=True)
    env = slate_env(c, True)
    env.action_space = gym.spaces.Box(low=np.array([-2.0, 0.0], dtype=np.float32), high=np.array([2.0, 3.0], dtype=np.float32))
    put = RecSimReplayBufferInserter.create_for_env(env)
    rb = ReplayBuffer(replay_capacity=64, batch_size=4)
    obs = observations(c)
    rng = np.random.RandomState(c["seed"])
    acts = np.stack([rng.uniform(-2, 2, len(obs)), rng.uniform(0, 3, len(obs))], 1).astype(np.float32)
    for o, a in zip(obs, acts):
        put(rb, Transition(mdp_id=o["e"], sequence_number=o["s"], observation=o["obs"], action=a, reward=o["r"], terminal=o["t"], log_prob=o["lp"]))
    out = maker("PolicyNetworkInput", env, c["aug"])(rb.sample_all_valid_transitions())

    def state(x):
        return np.concatenate([x["user"]] + list(x["doc"].values()))

    def moved(a):
        return [a[0] / 2, a[1] / 1.5 - 1]

    for k, o in enumerate(obs):
        close(out.state.float_features[k], state(o["obs"]), "user and documents")
        close(out.action.float_features[k], moved(acts[k]), "action in the training range", atol=1e-3)
        close(out.reward[k], [o["r"]], "reward")
        equal(out.next_state.float_features.shape, out.state.float_features.shape, "next states look like states")
        if not o["t"]:
            close(out.next_state.float_features[k], state(obs[k + 1]["obs"]), "next user and documents")
            close(out.next_action.float_features[k], moved(acts[k + 1]), "next action", atol=1e-3)
    close(out.not_terminal.float().reshape(-1), [0.0 if o["t"] else 1.0 for o in obs], "not_terminal")
    rec.nt(len(obs) >= 4 and len(c["lens"]) > 1)


@facet(slate_cases(), quick=80, shards=1)
def slate_trajectories(case, rec):
    """Policy-gradient batches over documents: user and documents of every step"""
    from reagent.gym.types import Trajectory, Transition

    c = dict(case, plain=True)
    env = slate_env(c, True)
    tr = Trajectory()
    obs = [o for o in observations(c) if o["e"] == 0]
    for o in obs:
        tr.add_transition(Transition(mdp_id=0, sequence_number=o["s"], observation=o["obs"], action=o["a"], reward=o["r"], terminal=o["t"], log_prob=o["lp"]))
    out = maker("PolicyGradientInput", env, c["aug"], online=True)(tr)
    close(out.state.float_features, [o["obs"]["user"] for o in obs], "users")
    close(out.state.candidate_docs.float_features, [np.stack(list(o["obs"]["doc"].values())) for o in obs], "documents")
    close(out.action, [o["a"] for o in obs], "slates")
    close(out.reward, [o["r"] for o in obs], "rewards")
    close(out.log_prob, [o["lp"] for o in obs], "log-probabilities")
    rec.nt(len(obs) > 1 and c["docs"] > 2)
