"""Running episodes: what happened is what is recorded, stored and trained on."""
import numpy as np
import torch
from hypothesis import strategies as st

from models.nets import T, rng_of
from vlib.core import Inconclusive, close, equal, facet, raises, require, same

RULE = "a case is a scripted environment and how it is run; non-trivial = two or more episodes of which one is cut short or differs in length, or a run of four or more steps"
COUNT = [0]


def scripted(c):
    """A registered environment playing the case's episodes, in a Gym wrapper"""
    import gym
    from gym.envs.registration import register
    from reagent.gym.envs import Gym

    class Env(gym.Env):
        def __init__(self):
            if c["space"] == "discrete":
                self.action_space = gym.spaces.Discrete(c["acts"])
            elif c["space"] == "multi":
                self.action_space = gym.spaces.MultiDiscrete([c["acts"]] * 2)
            else:
                self.action_space = gym.spaces.Box(low=np.array(c["low"], dtype=np.float32), high=np.array(c["high"], dtype=np.float32))
            self.observation_space = gym.spaces.Box(low=np.full(c["dim"], -60, dtype=np.float32), high=np.full(c["dim"], 60, dtype=np.float32))
            self.ep, self.at = -1, 0
            if c.get("said"):
                self.max_steps = c["said"]
            self.actions, self.resets = [], 0

        def look(self):
            ep = c["eps"][self.ep % len(c["eps"])]
            if c["masks"]:
                self.possible_actions_mask = np.array(ep["masks"][self.at], dtype=np.int64)
            return np.array(ep["obs"][self.at], dtype=np.float32)

        def reset(self):
            self.ep += 1
            self.at = 0
            self.resets += 1
            return self.look()

        def step(self, action):
            ep = c["eps"][self.ep % len(c["eps"])]
            assert self.at < len(ep["r"]), "stepped past the end"
            self.actions.append((self.ep, self.at, np.asarray(action).tolist()))
            r = ep["r"][self.at]
            self.at += 1
            return self.look(), r, self.at == len(ep["r"]), {}

    COUNT[0] += 1
    name = "Scripted%d-v0" % COUNT[0]
    inner = []
    register(id=name, entry_point=lambda **kw: inner.append(Env()) or inner[-1], max_episode_steps=c["limit"])
    env = Gym(env_name=name)
    return env, inner[0]


def pick(c, key):
    """The scripted policy's action for the k-th call"""
    return c["script"][key % len(c["script"])]


class Scripted:
    def __init__(self, c):
        self.c, self.calls = c, []

    def act(self, obs, mask=None):
        import reagent.types as rlt

        k = len(self.calls)
        self.calls.append((obs.float_features.clone(), None if mask is None else np.array(mask).copy()))
        a = pick(self.c, k)
        if self.c["space"] == "discrete":
            t = torch.eye(self.c["acts"])[a["d"]].unsqueeze(0)
        elif self.c["space"] == "multi":
            t = torch.tensor([a["m"]])
        else:
            t = torch.tensor([a["b"]], dtype=torch.float32)
        return rlt.ActorOutput(action=t, log_prob=torch.tensor([a["lp"]]) if self.c["logged"] else None)


@st.composite
def runs(draw, space=None):
    rng = rng_of(draw)
    acts, dim = draw(st.integers(2, 4)), draw(st.integers(1, 3))
    lens = draw(st.lists(st.integers(1, 6), min_size=1, max_size=3))
    eps, wide = [], draw(st.sampled_from([1, 1, 15]))
    for L in lens:
        eps.append(dict(obs=np.round(rng.uniform(-3, 3, (L + 1, dim)) * wide, 2).tolist(), r=np.round(rng.uniform(-2, 2, L), 2).tolist(), masks=rng.randint(0, 2, (L + 1, acts)).tolist()))
    script = [dict(d=int(rng.randint(acts)), m=rng.randint(0, acts, 2).tolist(), b=np.round(rng.uniform(-0.99, 0.99, 2), 3).tolist(), lp=round(float(rng.choice([-3, -3, 2, 0]) * rng.rand()), 3) + 0.0) for _ in range(7)]
    return dict(eps=eps, acts=acts, dim=dim, space=space or draw(st.sampled_from(["discrete", "multi", "box"])), low=np.round(rng.uniform(-4, -1, 2) * wide, 2).tolist(), high=np.round(rng.uniform(0, 5, 2) * wide, 2).tolist(),
                masks=draw(st.booleans()), said=draw(st.sampled_from([None, None, 1, 3])), limit=draw(st.sampled_from([None, None, 2, 4])), max_steps=draw(st.sampled_from([None, None, 1, 2, 3, 5, 9])), script=script, logged=draw(st.booleans()), n=draw(st.integers(1, 5)),
                freq=draw(st.integers(1, 4)), batch=draw(st.integers(1, 4)), gammas=draw(st.lists(st.sampled_from([0.0, 0.5, 0.9, 1.0]), min_size=1, max_size=3)), mdp=draw(st.integers(0, 9)), size=draw(st.integers(1, 20)))


def play(c, episodes, max_steps):
    """What running that many episodes must give: per episode, per step (obs, mask, reward, terminal, script key)"""
    out, k = [], 0
    for e in range(episodes):
        ep = c["eps"][e % len(c["eps"])]
        L = min([len(ep["r"])] + [x for x in (c["limit"], max_steps) if x is not None])
        rows = []
        for s in range(L):
            rows.append(dict(obs=ep["obs"][s], mask=ep["masks"][s] if c["masks"] else None, r=ep["r"][s], t=s == L - 1, k=k, s=s))
            k += 1
        out.append(rows)
    return out


def env_action(c, k):
    a = pick(c, k)
    if c["space"] == "discrete":
        return a["d"]
    if c["space"] == "multi":
        return a["m"]
    low, high = np.array(c["low"]), np.array(c["high"])
    return low + (np.array(a["b"]) + 1) / 2 * (high - low)


def check_transition(t, row, c, mdp):
    equal((t.mdp_id, t.sequence_number, t.terminal), (mdp, row["s"], row["t"]), "episode, step and end")
    close(t.observation, row["obs"], "observation", atol=1e-5)
    close(t.action, env_action(c, row["k"]), "action", atol=2e-3)
    close(t.reward, row["r"], "reward")
    if c["logged"]:
        close(t.log_prob, pick(c, row["k"])["lp"], "log-probability", atol=1e-4)
    else:
        require(t.log_prob is None, "no log-probability")
    if row["mask"] is None:
        require(t.possible_actions_mask is None, "no mask")
    else:
        close(t.possible_actions_mask, row["mask"], "mask of the state acted in")


@facet(runs(), quick=200, shards=2)
def episodes_are_recorded(case, rec):
    """The trajectory is what the environment and the policy did, cut at max_steps; callbacks see the same, in order"""
    from reagent.gym.agents.agent import Agent
    from reagent.gym.runners.gymrunner import run_episode
    from reagent.tensorboardX import SummaryWriterContext

    c = case
    env, inner = scripted(c)
    pol, log = Scripted(c), []
    agent = Agent.create_for_env(env, policy=pol, post_transition_callback=lambda t: log.append(("step", t)), post_episode_callback=lambda t: log.append(("episode", t)))
    want = play(c, c["n"], c["max_steps"])
    SummaryWriterContext._reset_globals()
    for e in range(c["n"]):
        del log[:]
        tr = run_episode(env=env, agent=agent, mdp_id=c["mdp"] + e, max_steps=c["max_steps"])
        rows = want[e]
        equal(len(tr), len(rows), "steps of the episode")
        for t, row in zip(tr.transitions, rows):
            check_transition(t, row, c, c["mdp"] + e)
        equal([k for k, _ in log], ["step"] * len(rows) + ["episode"], "callbacks")
        for (_, t), row in zip(log, rows):
            check_transition(t, row, c, c["mdp"] + e)
        require(log[-1][1] is tr, "the callback sees the trajectory")
        for g in c["gammas"]:
            close(tr.calculate_cumulative_reward(g), sum(r["r"] * g ** r["s"] for r in rows), "discounted return", rtol=1e-6)
        close(tr.calculate_cumulative_reward(), sum(r["r"] for r in rows), "return")
    flat = [r for rows in want for r in rows]
    equal(len(inner.actions), len(flat), "steps taken in the environment")
    equal(inner.resets, c["n"], "one reset per episode")
    for (e, s, a), row in zip(inner.actions, flat):
        close(a, env_action(c, row["k"]), "action executed", atol=2e-3)
        equal(s, row["s"], "step in the episode")
    for (obs, mask), row in zip(pol.calls, flat):
        close(obs, [row["obs"]], "observation the policy saw", atol=1e-5)
        if row["mask"] is None:
            require(mask is None, "no mask")
        else:
            close(mask, row["mask"], "mask the policy saw")
    equal(SummaryWriterContext._global_step, len(flat), "global step")
    SummaryWriterContext._reset_globals()
    rec.nt(len(flat) >= 4 and c["n"] > 1)
    rec.label(c["space"], "masks" if c["masks"] else "no masks")


@facet(runs(), quick=100, shards=2)
def served_episodes(case, rec):
    """Episodes of a served policy: raw features with presence in, the environment's own actions out, in the environment's ranges"""
    import reagent.types as rlt
    from reagent.gym.agents.agent import Agent
    from reagent.gym.runners.gymrunner import run_episode

    c = case
    env, inner = scripted(c)
    calls = []

    class Served:
        def act(self, obs, mask=None):
            k = len(calls)
            calls.append((obs, None if mask is None else np.array(mask).copy()))
            a = pick(c, k)
            if c["space"] == "discrete":
                t = torch.eye(c["acts"])[a["d"]].unsqueeze(0)
            elif c["space"] == "multi":
                t = torch.tensor([a["m"]])
            else:
                t = torch.tensor(env_action(c, k), dtype=torch.float32).unsqueeze(0)
            return rlt.ActorOutput(action=t, log_prob=torch.tensor([a["lp"]]) if c["logged"] else None)

    ends = []
    agent = Agent.create_for_env_with_serving_policy(env, Served(), post_episode_callback=ends.append)
    want = play(c, c["n"], c["max_steps"])
    for e in range(c["n"]):
        tr = run_episode(env=env, agent=agent, mdp_id=c["mdp"] + e, max_steps=c["max_steps"])
        equal(len(tr), len(want[e]), "steps of the episode")
        for t, row in zip(tr.transitions, want[e]):
            check_transition(t, row, c, c["mdp"] + e)
    flat = [r for rows in want for r in rows]
    for (e, s, a), row in zip(inner.actions, flat):
        close(a, env_action(c, row["k"]), "action executed", rtol=1e-5, atol=2e-3)
    for ((v, p), mask), row in zip(calls, flat):
        close(v, [row["obs"]], "features the policy saw", atol=1e-5)
        close(p, np.ones((1, c["dim"])), "all present")
        if row["mask"] is None:
            require(mask is None, "no mask")
        else:
            close(mask, row["mask"], "mask the policy saw")
    equal(len(ends), c["n"], "calls after episodes")
    rec.nt(len(flat) >= 4 and c["n"] > 1)
    rec.label(c["space"])


@facet(runs(), quick=120, shards=2)
def evaluation_returns(case, rec):
    """Row i, column j: the i-th episode's return discounted by the j-th gamma"""
    from reagent.gym.agents.agent import Agent
    from reagent.gym.runners.gymrunner import evaluate_for_n_episodes

    c = case
    env, inner = scripted(c)
    seen = []
    agent = Agent.create_for_env(env, policy=Scripted(c), post_episode_callback=lambda t: seen.append(t.mdp_id[0]))
    out = evaluate_for_n_episodes(n=c["n"], env=env, agent=agent, max_steps=c["max_steps"], gammas=c["gammas"], num_processes=1)
    want = play(c, c["n"], c["max_steps"])
    close(out, [[sum(r["r"] * g ** r["s"] for r in rows) for g in c["gammas"]] for rows in want], "returns", rtol=1e-5)
    equal(seen, list(range(c["n"])), "episodes numbered in order")
    rec.nt(c["n"] > 1 and len(c["gammas"]) > 1)


@facet(runs(), quick=120, shards=2)
def buffers_are_filled(case, rec):
    """A random policy fills the buffer to exactly the size asked for with what happened in the environment"""
    from reagent.gym.utils import fill_replay_buffer
    from reagent.replay_memory.circular_replay_buffer import ReplayBuffer

    c = dict(case, limit=case["limit"], masks=False)
    if c["space"] == "multi":
        c["space"] = "discrete"
    env, inner = scripted(c)
    cap = 32
    rb = ReplayBuffer(replay_capacity=cap, batch_size=2)
    fill_replay_buffer(env, rb, c["size"])
    equal(rb.size, c["size"], "transitions in the buffer")
    more = c["size"] + c["n"]
    fill_replay_buffer(env, rb, more)
    equal(rb.size, more, "transitions after filling further")
    equal(len(inner.actions), more, "steps taken")
    b = rb.sample_all_valid_transitions()
    for k, (e, s, a) in enumerate(inner.actions):
        ep = c["eps"][e % len(c["eps"])]
        close(b.state[k], ep["obs"][s], "state", atol=1e-5)
        close(b.reward[k], [ep["r"][s]], "reward", atol=1e-5)
        close(b.action[k].reshape(-1), np.reshape(a, -1), "action", atol=1e-4)
        equal(int(b.sequence_number[k]), s, "step")
        last = k + 1 == len(inner.actions) or inner.actions[k + 1][0] != e
        equal(bool(b.terminal[k]), last, "end of the episode")
        if not last:
            close(b.next_state[k], ep["obs"][s + 1], "next state", atol=1e-5)
    for bad in (0, -1, cap + 1, more):
        raises(AssertionError, lambda: fill_replay_buffer(env, rb, bad), "size %d" % bad)
    equal(rb.size, more, "nothing added by refused calls")
    rec.nt(len(c["eps"]) > 1 and more > 4)


@facet(runs(), quick=160, shards=2)
def training_data_streams(case, rec):
    """A batch every so many steps once the buffer is large enough, drawn from everything seen so far"""
    from reagent.gym.agents.agent import Agent
    from reagent.gym.datasets.replay_buffer_dataset import ReplayBufferDataset
    from reagent.replay_memory.circular_replay_buffer import ReplayBuffer

    import reagent.types as rlt

    c = dict(case, logged=True)
    if c["space"] == "multi":
        c["space"] = "discrete"
    env, inner = scripted(c)
    rb = ReplayBuffer(replay_capacity=64, batch_size=c["batch"])
    agent = Agent.create_for_env(env, policy=Scripted(c))

    class Trainer:
        if c["space"] == "discrete":

            def train(self, training_batch: rlt.DiscreteDqnInput):
                pass

        else:

            def train(self, training_batch: rlt.PolicyNetworkInput):
                pass

    own = c["mdp"] % 2
    kw = dict(trainer_preprocessor=lambda b: ("mine", b)) if own else {}
    put = []
    if c["mdp"] % 3 == 0:
        kw["replay_buffer_inserter"] = lambda b, t: (put.append(t), b.add(**t.asdict()))
    data = ReplayBufferDataset.create_for_trainer(Trainer(), env, agent, rb, c["batch"], training_frequency=c["freq"], num_episodes=c["n"], max_steps=c["max_steps"], **kw)
    want = play(c, c["n"], c["max_steps"])
    flat = [(e, r) for e, rows in enumerate(want) for r in rows]
    due = []
    for k, (e, r) in enumerate(flat):
        size = k + 1 if r["t"] else k
        if k % c["freq"] == 0 and size >= c["batch"] and size > 0:
            due.append(k)
    it = iter(data)
    for k in due:
        out = next(it)
        equal(len(inner.actions), k + 1, "steps taken when the batch comes")
        if own:
            equal(out[0], "mine", "the given preprocessor is used")
            state, reward = out[1].state, out[1].reward
        else:
            equal(type(out).__name__, "DiscreteDqnInput" if c["space"] == "discrete" else "PolicyNetworkInput", "batch for the trainer")
            state, reward = out.state.float_features, out.reward
        equal(list(state.shape), [c["batch"], c["dim"]], "batch size")
        seen = [r for _, r in flat[:k + 1]]
        for i in range(c["batch"]):
            require(any(np.allclose(state[i], r["obs"], atol=1e-5) and abs(float(reward[i]) - r["r"]) < 1e-5 for r in seen), "only what was seen so far")
    rest = list(it)
    equal(len(rest), 0, "no further batches")
    if "replay_buffer_inserter" in kw:
        equal(len(put), len(flat), "transitions through the given inserter")
    equal(len(inner.actions), len(flat), "all steps of all episodes taken")
    b = rb.sample_all_valid_transitions()
    close(b.reward.reshape(-1), [r["r"] for _, r in flat], "rewards stored", atol=1e-5)
    close(b.mdp_id.reshape(-1), [e for e, _ in flat], "episodes stored")
    close(b.sequence_number.reshape(-1), [r["s"] for _, r in flat], "steps stored")
    close(b.terminal.reshape(-1).float(), [float(r["t"]) for _, r in flat], "ends stored")
    close(b.log_prob.reshape(-1), [pick(c, r["k"])["lp"] for _, r in flat], "log-probabilities stored", atol=1e-4)
    if c["masks"]:
        close(b.possible_actions_mask, [r["mask"] for _, r in flat], "masks stored")
    rec.nt(len(due) > 1 and c["n"] > 1)
    rec.label("batches" if due else "no batch")


@facet(runs(), quick=120, shards=2)
def training_callbacks(case, rec):
    """Online training: every freq-th step starting with the first, on batches for the trainer; per-episode training on whole trajectories"""
    from reagent.gym.agents.agent import Agent
    from reagent.gym.agents.post_episode import train_post_episode
    from reagent.gym.agents.post_step import add_replay_buffer_post_step, train_with_replay_buffer_post_step
    from reagent.gym.runners.gymrunner import run_episode
    from reagent.replay_memory.circular_replay_buffer import ReplayBuffer

    import reagent.types as rlt

    c = dict(case, space="discrete", logged=True, masks=False)
    env, inner = scripted(c)
    rb = ReplayBuffer(replay_capacity=128, batch_size=1)
    pol = Scripted(c)
    # a filled buffer first, so that training can start
    filler = Agent.create_for_env(env, policy=pol, post_transition_callback=add_replay_buffer_post_step(rb, env=env))
    before = 0
    while before < c["batch"] + 1:
        before += len(run_episode(env, filler, 0, c["max_steps"]))
    equal(rb.size, before, "one transition per step")
    got, whole = [], []

    class Trainer:
        def train(self, training_batch: rlt.DiscreteDqnInput):
            got.append((len(inner.actions), training_batch))

    class Online:
        def train(self, training_batch: rlt.PolicyGradientInput):
            whole.append(training_batch)

    post = train_with_replay_buffer_post_step(rb, env, Trainer(), training_freq=c["freq"], batch_size=c["batch"])
    agent = Agent.create_for_env(env, policy=pol, post_transition_callback=post, post_episode_callback=train_post_episode(env, Online(), False))
    total = []
    for e in range(c["n"]):
        tr = run_episode(env, agent, e, c["max_steps"])
        total.append(tr)
    steps = sum(len(t) for t in total)
    equal([k - before for k, _ in got], [k + 1 for k in range(0, steps, c["freq"])], "steps at which training happened")
    for _, b in got:
        equal(list(b.action.shape), [c["batch"], c["acts"]], "batch for the trainer")
    equal(rb.size, before + steps, "every transition stored")
    equal(len(whole), c["n"], "one batch per episode")
    for b, t in zip(whole, total):
        close(b.reward, t.reward, "rewards of the episode")
        close(b.log_prob, t.log_prob, "log-probabilities")
        close(b.action, np.eye(c["acts"])[np.array([int(a) for a in t.action])], "actions")
    empty = ReplayBuffer(replay_capacity=128, batch_size=1)
    post = train_with_replay_buffer_post_step(empty, env, Trainer(), training_freq=1, batch_size=before + 2)
    raises(AssertionError, lambda: post(total[0].transitions[0]), "not enough to train on")
    rec.nt(steps >= 4 and c["freq"] > 1)


@facet(runs(), quick=120, shards=2)
def trajectories_are_consistent(case, rec):
    """Optional fields are given for all steps or none; columns are lists in order"""
    from reagent.gym.types import Trajectory, Transition

    c = case
    rows = [r for r in play(c, 2, None) for r in r]
    tr = Trajectory()
    raises(AssertionError, lambda: tr.calculate_cumulative_reward(), "empty trajectory")
    kept = 0
    for i, r in enumerate(rows):
        lp = pick(c, i)["lp"] if c["logged"] else None
        t = Transition(mdp_id=1, sequence_number=i, observation=r["obs"], action=i, reward=r["r"], terminal=r["t"], log_prob=lp, possible_actions_mask=r["mask"])
        d = t.asdict()
        equal(sorted(d), sorted(["mdp_id", "sequence_number", "observation", "action", "reward", "terminal"] + (["log_prob"] if c["logged"] else []) + (["possible_actions_mask"] if c["masks"] else [])), "fields given")
        tr.add_transition(t)
        kept += 1
        other = Transition(mdp_id=1, sequence_number=i, observation=r["obs"], action=i, reward=r["r"], terminal=r["t"], log_prob=None if c["logged"] else 0.0, possible_actions_mask=r["mask"])
        raises(ValueError, lambda: tr.add_transition(other), "log-probability given for some steps only")
        other = Transition(mdp_id=1, sequence_number=i, observation=r["obs"], action=i, reward=r["r"], terminal=r["t"], log_prob=lp, possible_actions_mask=None if c["masks"] else [1])
        raises(ValueError, lambda: tr.add_transition(other), "mask given for some steps only")
        equal(len(tr), kept, "refused transitions are not kept")
    equal(tr.reward, [r["r"] for r in rows], "rewards")
    equal(tr.sequence_number, list(range(len(rows))), "steps")
    equal(tr.terminal, [r["t"] for r in rows], "ends")
    rec.nt(len(rows) >= 4)


@facet(runs(), quick=160, shards=2)
def wrappers_translate(case, rec):
    """Observations become one-row batches; the model's action becomes the environment's"""
    import gym
    import reagent.types as rlt

    c = case
    env, inner = scripted(c)
    obs = env.reset()
    f = env.get_obs_preprocessor(device=torch.device("cpu"))(obs)
    close(f.float_features, [c["eps"][0]["obs"][0]], "features", atol=1e-5)
    value, presence = env.get_serving_obs_preprocessor()(obs)
    close(value, [c["eps"][0]["obs"][0]], "serving features", atol=1e-5)
    close(presence, np.ones((1, c["dim"])), "all present")
    ex, sx = env.get_action_extractor(), env.get_serving_action_extractor()
    for k, a in enumerate(c["script"][:3]):
        if c["space"] == "discrete":
            t = torch.eye(c["acts"])[a["d"]].unsqueeze(0)
            served = a["d"]
        elif c["space"] == "multi":
            t, served = torch.tensor([a["m"]]), a["m"]
        else:
            t = torch.tensor([a["b"]], dtype=torch.float32)
            served = a["b"]
        close(ex(rlt.ActorOutput(action=t)), env_action(c, k), "action for the environment", atol=2e-3)
        close(sx(rlt.ActorOutput(action=t)), served, "served action is the environment's already", atol=1e-5)
        require(isinstance(ex(rlt.ActorOutput(action=t)), (np.ndarray, np.generic)), "numpy action")
        if c["space"] != "box":
            require(env.action_space.contains(ex(rlt.ActorOutput(action=t)) if c["space"] == "multi" else int(ex(rlt.ActorOutput(action=t)))), "an action of the environment")
        for bad in (torch.cat([t, t]), t.squeeze(0)):
            raises(AssertionError, lambda: ex(rlt.ActorOutput(action=bad)), "not a single action")
            raises(AssertionError, lambda: sx(rlt.ActorOutput(action=bad)), "not a single served action")
    equal(env.max_steps, c["limit"] or c.get("said"), "step limit of the environment")
    if c["masks"]:
        close(env.possible_actions_mask, c["eps"][0]["masks"][0], "mask")
    else:
        require(env.possible_actions_mask is None, "no mask")
    rec.nt(c["space"] == "box" or c["acts"] > 2)
    rec.label(c["space"])


def combine(*args, **kw):
    return [list(args), sorted(kw.items())]


@facet(st.fixed_dictionaries(dict(a=st.lists(st.integers(), max_size=3), k=st.dictionaries(st.sampled_from("xyz"), st.floats(-3, 3), max_size=3), more=st.lists(st.integers(), max_size=3), kmore=st.dictionaries(st.sampled_from("uvw"), st.text(max_size=3), max_size=2))), quick=100, shards=1)
def functions_travel(case, rec):
    """A wrapped function, called with more arguments, gives what the function gives"""
    import pickle

    from reagent.core.multiprocess_utils import unwrap_function_outputs, wrap_function_arguments

    c = case
    f = wrap_function_arguments(combine, *c["a"], **c["k"])
    f = pickle.loads(pickle.dumps(f))
    out = unwrap_function_outputs([f(x, **c["kmore"]) for x in c["more"]])
    equal(out, [combine(*c["a"], x, **c["k"], **c["kmore"]) for x in c["more"]], "results in order")
    rec.nt(len(c["a"]) > 1 and len(c["more"]) > 1)
