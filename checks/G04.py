"""Bundled environments follow their written rules, over every action sequence."""
import collections
import math

import numpy as np
import torch
from hypothesis import strategies as st

from models.nets import T, arr, rng_of
from vlib.core import Inconclusive, close, equal, facet, raises, require, same

RULE = "a case is a sequence of actions (episodes apart) with a seed; non-trivial = four or more steps, or a second episode"


@st.composite
def plays(draw, n=(2, 2), longest=24):
    acts = draw(st.integers(*n))
    return dict(seed=draw(st.integers(0, 10**6)), a=draw(st.lists(st.integers(0, acts - 1), min_size=1, max_size=longest)), limit=draw(st.integers(1, 8)), x=draw(st.integers(0, 3)))


def done_check(env, act, what):
    raises(AssertionError, lambda: env.step(act), what)


@facet(plays(), quick=120, shards=2)
def string_game(case, rec):
    """Reward after each action from the last three: ABB +5, BBB -5; the state is the last action"""
    import gym
    import reagent.gym.envs  # noqa: F401
    from reagent.gym.envs.pomdp.string_game import StringGameEnv

    c = case
    env = gym.make("StringGame-v0") if c["x"] == 0 else StringGameEnv(max_steps=c["limit"])
    limit = 6 if c["x"] == 0 else c["limit"]
    equal(env.max_steps, limit, "step limit")
    hist, episodes = None, 0
    for a in c["a"]:
        if hist is None:
            close(env.reset(), np.zeros(2), "nothing seen at first")
            hist, episodes = [], episodes + 1
        ob, r, done, info = env.step(a)
        hist.append(a)
        s = "".join("AB"[k] for k in hist[-3:])
        equal(r, {"ABB": 5, "BBB": -5}.get(s, 0), "reward after %s" % s)
        close(ob, np.eye(2)[a], "the last action is observed")
        require(env.observation_space.contains(ob.astype(np.float32)), "observation in the space")
        equal(done, len(hist) == limit, "end after %d steps" % len(hist))
        if done:
            done_check(env, a, "stepped past the end")
            hist = None
    raises(AssertionError, lambda: (env.reset(), env.step(2)), "no such action")
    rec.nt(len(c["a"]) >= 4 and episodes > 1)
    if episodes > 2:
        rec.label("three episodes")


@facet(plays(longest=12), quick=120, shards=2)
def string_game_with_early_ends(case, rec):
    """Only the end is rewarded (AAA 5, BA 4); A ends the episode half of the time, B one time in ten, step three always"""
    import gym
    import reagent.gym.envs  # noqa: F401

    c = case
    env = gym.make("StringGame-v1")
    env.seed(c["seed"])
    hist, episodes = None, 0
    for a in c["a"]:
        if hist is None:
            close(env.reset(), np.zeros(2), "nothing seen at first")
            hist, episodes = [], episodes + 1
        ob, r, done, _ = env.step(a)
        hist.append(a)
        s = "".join("AB"[k] for k in hist)
        equal(float(r), {"AAA": 5.0, "BA": 4.0}.get(s, 0.0) if done else 0.0, "reward at %s" % s)
        close(ob, np.eye(2)[a], "the last action is observed")
        if len(hist) == 3:
            require(done, "at most three steps")
        if done:
            done_check(env, a, "stepped past the end")
            hist = None
    a, n, first = c["a"][0], 1500, 0
    for _ in range(n):
        env.reset()
        first += env.step(a)[2]
    p = [0.5, 0.1][a]
    require(abs(first / n - p) <= 7 * math.sqrt(p * (1 - p) / n), "%s ended the episode %g of the time", "AB"[a], first / n)
    rec.nt(episodes > 1)


@st.composite
def linear(draw):
    rng = rng_of(draw)
    return dict(seed=draw(st.integers(0, 10**6)), a=np.round(rng.uniform(-5, 5, (draw(st.integers(1, 9)), 2)), 3).tolist())


@facet(linear(), quick=150, shards=2)
def linear_dynamics(case, rec):
    """x' = Ax + Bu with u clipped to the action space; the reward is minus x'Qx + u'Ru; four steps"""
    import gym
    import reagent.gym.envs  # noqa: F401

    c = case
    env = gym.make("LinearDynamics-v0")
    A, B, Q, R = (np.array(m) for m in (env.A, env.B, env.Q, env.R))
    np.random.seed(c["seed"])
    x, k = None, 0
    clipped = False
    for u in c["a"]:
        if x is None:
            x, k = np.array(env.reset(), dtype=float), 0
            require(set(x.tolist()) <= {-1.0, 0.0, 1.0} and x.shape == (3,), "first states on the grid")
        s, r, done, _ = env.step(np.array(u))
        v = np.clip(u, -3, 3)
        clipped = clipped or bool((np.abs(u) > 3).any())
        close(r, -(x @ Q @ x + v @ R @ v), "reward", rtol=1e-6)
        x = A @ x + B @ v
        close(s, x, "next state", rtol=1e-6)
        k += 1
        equal(bool(done), k == 4, "four steps")
        if done:
            x = None
    rec.nt(len(c["a"]) > 4)
    rec.label("clipped" if clipped else "within the space")


@facet(plays(n=(4, 4), longest=50), quick=120, shards=2)
def mask_tester(case, rec):
    """One legal action per step, shown by the mask; ten for taking it; twenty one-hot steps"""
    from reagent.gym.envs import Gym

    c = case
    env = Gym(env_name="PossibleActionsMaskTester-v0")
    np.random.seed(c["seed"])
    k, held, right = None, [], 0
    for i, a in enumerate(c["a"]):
        if k is None:
            ob = env.reset()
            k = 0
            close(ob, np.eye(20)[0], "first step")
        mask = env.possible_actions_mask
        keep = np.array(mask).copy()
        held.append((mask, keep))
        require(keep.shape == (4,) and keep.sum() == 1, "exactly one legal action")
        act = int(keep.argmax()) if (i + c["x"]) % 2 else a
        ob, r, done, _ = env.step(act)
        right += bool(keep[act])
        equal(float(r), 10.0 if keep[act] else 0.0, "reward")
        k += 1
        close(ob, np.eye(20)[k] if k < 20 else np.zeros(20), "one-hot step")
        equal(bool(done), k == 20, "twenty steps")
        if done:
            k = None
    for mask, keep in held:
        same(np.array(mask), keep, "earlier masks stay what they were")
    rec.nt(len(c["a"]) >= 4)
    if len(c["a"]) > 20:
        rec.label("second episode")


def arm_env(seed):
    from reagent.gym.envs import ChangingArms

    env = ChangingArms()
    env.seed(seed)
    return env


@facet(plays(n=(6, 6), longest=70), quick=120, shards=2)
def changing_arms(case, rec):
    """A legal arm pays ten and loses ten; idling costs 500; an illegal arm ends the game at -1000; exhausted arms stay illegal"""
    c = case
    env = arm_env(c["seed"])
    mus, k, total = None, 0, 0
    drained = episodes = 0
    for i, a in enumerate(c["a"] if c["x"] < 2 else (c["a"] * 60)[:60]):
        if mus is None:
            ob = env.reset()
            mus, k, total = np.full(5, 100.0), 0, 0.0
            episodes += 1
        close(ob[0], mus, "arms")
        close(ob[2], np.full(5, -10.0), "what picking an arm changes")
        legal = ob[1] > 0
        require(set(ob[1].tolist()) <= {0.0, 1.0} and not (legal & (mus <= 0)).any(), "exhausted arms are illegal")
        if c["x"] and legal.any():  # favour long games; drain one arm first
            ok = np.flatnonzero(legal)
            a = int(ok[a % len(ok)]) if c["x"] == 1 else int(ok[0])
        if c["x"] == 3 and k >= 49:
            a = 5
        before = mus.copy()
        ob, r, done, _ = env.step(np.array(a) if i % 2 else a)
        k += 1
        if a == 5:
            equal(float(r), -500.0, "idling")
        elif not legal[a]:
            equal((float(r), bool(done)), (-1000.0, True), "illegal arm")
        else:
            mus[a] -= 10.0
            close(r, before[a] - mus[a], "reward")
            total += float(r)
            drained += mus[a] <= 0
        close(ob[0], mus, "arms afterwards")
        if a == 5 or legal[a]:
            equal(bool(done), k > 49, "fifty steps")
        if done:
            mus = None
    if drained:
        again = [env.reset() for _ in range(60)]
        require(all(any(o[1][j] > 0 for o in again) for j in range(5)), "exhausted arms are legal again in a new game")
    for bad in (-1, 6):
        env.reset()
        raises(AssertionError, lambda: env.step(bad), "no such arm")
    rec.nt(len(c["a"]) >= 4)
    if drained:
        rec.label("arm exhausted")
    if episodes > 1:
        rec.label("second episode")


@st.composite
def arm_states(draw):
    rng = rng_of(draw)
    b = draw(st.integers(1, 5))
    o = np.stack([np.stack([np.round(rng.uniform(0, 100, 5), 1), (rng.rand(5) < draw(st.sampled_from([0.2, 0.5, 0.9]))) * 1.0, np.round(rng.uniform(-9, 9, 5), 1)]) for _ in range(b)])
    for i in draw(st.lists(st.integers(0, b - 1), max_size=2)):
        o[i, 1] = 0
    return dict(o=o.tolist())


@facet(arm_states(), quick=200, shards=2)
def changing_arms_features(case, rec):
    """Acting, serving, data generation and training see the same features of a state, whatever the batch"""
    env = arm_env(0)
    o = np.array(case["o"], dtype=np.float32)
    b = len(o)
    batch = env.trainer_preprocessor(torch.tensor(o))
    close(batch.float_features, o[:, 0], "arms")
    offs, vals = batch.id_list_features["legal"]
    equal(list(offs.shape), [b], "one offset per state")
    ends = offs.tolist()[1:] + [len(vals)]
    soffs, skeys, svals = batch.id_score_list_features["mu_changes"]
    equal(soffs.tolist(), [5 * i for i in range(b)], "score offsets")
    empty = 0
    for i in range(b):
        legal = np.flatnonzero(o[i, 1]).tolist()
        empty += not legal
        equal(vals[offs[i]:ends[i]].tolist(), legal, "legal arms of state %d" % i)
        equal(skeys[5 * i:5 * i + 5].tolist(), list(range(5)), "score keys")
        close(svals[5 * i:5 * i + 5], o[i, 2], "scores")
        f = env.get_obs_preprocessor(device=torch.device("cpu"))(o[i])
        close(f.float_features, o[i:i + 1, 0], "acting: arms")
        equal((f.id_list_features["legal"][0].tolist(), f.id_list_features["legal"][1].tolist()), ([0], legal), "acting: legal arms")
        q = f.id_score_list_features["mu_changes"]
        equal((q[0].tolist(), q[1].tolist()), ([0], list(range(5))), "acting: score keys")
        close(q[2], o[i, 2], "acting: scores")
        s = env.get_serving_obs_preprocessor()(o[i])
        close(s.float_features_with_presence[0], o[i:i + 1, 0], "serving: arms")
        require(bool(s.float_features_with_presence[1].all()), "serving: all present")
        (lid, lv), = s.id_list_features.items()
        (sid, sv), = s.id_score_list_features.items()
        base = lv[1].tolist()[0] - legal[0] if legal else None
        dense, ids, scores = env.split_state_transform(torch.tensor(o[i]))
        close([dense[k] for k in range(5)], o[i, 0], "data: arms")
        equal(list(ids), [lid], "data: feature id")
        equal(list(ids[lid]), lv[1].tolist(), "data: legal arms as served")
        if legal:
            equal([v - base for v in ids[lid]], legal, "data: legal arms")
        equal(list(scores), [sid], "data: score feature id")
        equal(list(scores[sid]), sv[1].tolist(), "data: keys as served")
        close(list(scores[sid].values()), o[i, 2], "data: scores")
        close(sv[2], o[i, 2], "serving: scores")
        equal([k - sv[1].tolist()[0] for k in sv[1].tolist()], list(range(5)), "serving: score keys")
    raises(AssertionError, lambda: env.trainer_preprocessor(torch.tensor(o[:, :2])), "not a batch of states")
    rec.nt(b > 2)
    if empty:
        rec.label("no legal arm")
    if not o[-1, 1].any():
        rec.label("last state without legal arms")


# ------------------------------------------------------------------- Pocman
STEP = {0: (-1, 0), 1: (0, 1), 2: (1, 0), 3: (0, -1)}


def pocman_view(maze, me, ghosts, hear, smell):
    """The observation written down from the rules"""
    H, W = maze.shape

    def free(p):
        return 0 <= p[0] < H and 0 <= p[1] < W and maze[p] != 0

    ob = np.zeros(10)
    for i, (dx, dy) in STEP.items():
        seen = any(g == me for g in ghosts)
        p = (me[0] + dx, me[1] + dy)
        ob[4 + i] = 0 if free(p) else 1
        while free(p) and not seen:
            seen = p in ghosts
            p = (p[0] + dx, p[1] + dy)
        ob[i] = 1 if seen else -1
    ob[8] = any(math.hypot(g[0] - me[0], g[1] - me[1]) <= hear for g in ghosts)
    ob[9] = any(0 <= me[0] + a < H and 0 <= me[1] + b < W and maze[me[0] + a, me[1] + b] == 3 for a in range(-smell, smell + 1) for b in range(-smell, smell + 1))
    return ob


def towards(maze, me, goals):
    """First action of a shortest way to a goal, or None"""
    first, queue = {me: None}, collections.deque([me])
    while queue:
        p = queue.popleft()
        if p in goals and first[p] is not None:
            return first[p]
        for a, (dx, dy) in STEP.items():
            q = (p[0] + dx, p[1] + dy)
            if 0 <= q[0] < maze.shape[0] and 0 <= q[1] < maze.shape[1] and maze[q] != 0 and q not in first:
                first[q] = a if first[p] is None else first[p]
                queue.append(q)
    return None


FIRST = {}


def ghost_ways(maze, g, me, power, face):
    """Near the player (under three cells) ghosts chase, or flee from power; else they wander without turning back unless they must"""
    near = {a: (g[0] + dx, g[1] + dy) for a, (dx, dy) in STEP.items()}
    near = {a: q for a, q in near.items() if 0 <= q[0] < maze.shape[0] and 0 <= q[1] < maze.shape[1] and maze[q] != 0}
    far = {a: math.hypot(q[0] - me[0], q[1] - me[1]) for a, q in near.items()}
    if math.hypot(g[0] - me[0], g[1] - me[1]) < 3:
        best = (max if power else min)(far.values())
        return {q for a, q in near.items() if abs(far[a] - best) < 1e-9}
    back = (face + 2) % 4
    return {q for a, q in near.items() if a != back or len(near) == 1}


@facet(plays(n=(4, 4), longest=40), quick=40, shards=2)
def pocman_alone(case, rec):
    """Without ghosts the game ends with the last of the food, or when the steps run out"""
    import gym
    import reagent.gym.envs  # noqa: F401

    c = case
    env = gym.make("Pocman-v0")
    env.seed(c["seed"])
    env.reset()
    env.unwrapped.internal_state.ghosts = []
    maze, me, total, k, done = env.maze.copy(), (0, 0), 0, 0, False
    food = int((maze == 3).sum())
    left = food
    idle = c["x"] == 3
    while not done and k < 260:
        a = c["a"][k] if k < len(c["a"]) else None
        if a is None:
            a = towards(maze, me, {tuple(p) for p in np.argwhere(maze == 3).tolist()}) if not idle or left > 2 else k % 4
        dx, dy = STEP[a]
        q = (me[0] + dx, me[1] + dy)
        if 0 <= q[0] < maze.shape[0] and 0 <= q[1] < maze.shape[1] and maze[q] != 0 and not (idle and left == 1 and maze[q] == 3):
            me = q
        elif idle and left == 1:
            a = next(b for b, (x, y) in STEP.items() if not (0 <= me[0] + x < maze.shape[0] and 0 <= me[1] + y < maze.shape[1] and maze[me[0] + x, me[1] + y] == 3))
            q = (me[0] + STEP[a][0], me[1] + STEP[a][1])
            me = q if 0 <= q[0] < maze.shape[0] and 0 <= q[1] < maze.shape[1] and maze[q] != 0 else me
        ob, r, done, _ = env.step(a)
        k += 1
        want = -1 + 10 * (maze[me] in (2, 3))
        left -= maze[me] == 3
        maze[me] = 1
        equal(float(r), float(want), "reward")
        close(ob, pocman_view(maze, me, [], 2, 1), "observation")
        if left == 0:
            require(done, "the food is gone")
        elif k < 200:
            require(not done, "food is left")
    require(done, "the game ends")
    require(left == 0 or k in (200, 201), "%d steps with %d pellets left", k, left)
    rec.nt(True)
    rec.label("all eaten" if left == 0 else "out of steps")


@facet(plays(n=(4, 4), longest=60), quick=150, shards=2)
def pocman(case, rec):
    """Walls stop, food and power pay ten once, ghosts kill or are eaten under power, and the ten observations say what is around"""
    import gym
    import reagent.gym.envs  # noqa: F401

    c = case
    env = gym.make("Pocman-v0")
    env.seed(c["seed"])
    fresh = True
    eaten = deaths = episodes = powered = 0

    def pos(p):
        return (p.x, p.y)

    for a in c["a"] if c["x"] < 2 else (c["a"] * 60)[:60]:
        if fresh:
            ob = env.reset()
            maze, me, power, k = env.maze.copy(), (0, 0), 0, 0
            same(maze, FIRST.setdefault("maze", maze.copy()), "every game starts with the same maze")
            require((maze == 3).sum() > 10 and (maze == 2).any(), "food and power in the maze")
            ghosts = [pos(g.pos) for g in env.internal_state.ghosts]
            equal(pos(env.internal_state.agent_pos), me, "starts at home")
            home = ghosts[0]
            close(ob, pocman_view(maze, me, ghosts, 2, 1), "first observation")
            fresh, episodes = False, episodes + 1
        if c["x"] >= 2:  # fetch power, then hunt
            goals = set(ghosts) if power > 1 else {tuple(p) for p in np.argwhere(maze == 2).tolist()} or {tuple(p) for p in np.argwhere(maze == 3).tolist()}
            go = towards(maze, me, goals)
            a = a if go is None else go
            near = (me[0] + STEP[a][0], me[1] + STEP[a][1])
            if c["x"] == 3 and power > 1 and k % 2 and pocman_view(maze, me, [], 0, 0)[4 + a] == 0:
                # a ghost happens to stand in the way
                from reagent.gym.envs.pomdp.pocman import Position

                for g in [0, 1] if k % 8 > 4 else [k % 4 // 2]:
                    env.unwrapped.internal_state.ghosts[g].pos = Position(*near)
                    ghosts[g] = near
        dx, dy = STEP[a]
        ahead = (me[0] + dx, me[1] + dy)
        if 0 <= ahead[0] < maze.shape[0] and 0 <= ahead[1] < maze.shape[1] and maze[ahead] != 0:
            me = ahead
        old = ghosts
        facing = [g.direction for g in env.unwrapped.internal_state.ghosts]
        ob, r, done, info = env.step(a)
        k += 1
        ghosts = [pos(g.pos) for g in info["state"].ghosts]
        equal(pos(info["state"].agent_pos), me, "where a move leads")
        power = max(power - 1, 0)
        want, dead = -1, False
        for g0, g1, face in zip(old, ghosts, facing):
            require(maze[g1] != 0, "ghost in a wall")
            if g0 != me and g1 != home:
                ways = ghost_ways(maze, g0, me, power > 0, face)
                require(g1 in ways, "ghost at %s (player at %s, power %d) went to %s, expected one of %s", g0, me, power, g1, sorted(ways))
            if dead:
                break
            if power:
                # eaten ghosts are back home; one that merely walked moved one cell at most
                walked = abs(g0[0] - g1[0]) + abs(g0[1] - g1[1]) <= 1
                if g1 == home and (g0 == me or not walked):
                    want += 25
                    eaten += 1
                elif g1 == home and me == home:
                    want = None  # cannot tell eaten at home from standing there
                    break
                elif g1 == home and abs(g0[0] - me[0]) + abs(g0[1] - me[1]) <= 1:
                    want = None  # next to both: walked home or was eaten
                    break
                else:
                    require(walked, "ghosts move one cell")
                    require(g1 != me, "a ghost hit under power is sent home")
            else:
                require(abs(g0[0] - g1[0]) + abs(g0[1] - g1[1]) <= 1, "ghosts move one cell")
                if g1 == me or g0 == me:
                    want -= 100
                    dead = True
        if want is None:
            fresh = True  # not judged any further; start over
            rec.label("ambiguous")
            continue
        if maze[me] in (2, 3):
            want += 10
        finished = False
        if maze[me] == 3:
            maze[me] = 1
            finished = not (maze == 3).any()
        elif maze[me] == 2:
            maze[me] = 1
            power = 15
            powered += 1
        same(env.maze, maze, "what is left in the maze")
        equal(float(r), float(want), "reward")
        equal(info["state"].power_duration, power, "power left")
        if not dead and not finished and k < 200:
            require(not done, "the game goes on")
        if dead or finished:
            require(done, "the game is over")
        close(ob, pocman_view(maze, me, ghosts, 2, 1), "observation")
        if done:
            deaths += dead
            done_check(env, a, "stepped past the end")
            fresh = True
    rec.nt(len(c["a"]) >= 4)
    rec.label(*(["ghost eaten"] if eaten else []), *(["died"] if deaths else []), *(["power"] if powered else []))


@st.composite
def embeds(draw):
    rng = rng_of(draw)
    return dict(seed=draw(st.integers(0, 10**6)), h=draw(st.integers(1, 4)), layers=draw(st.integers(1, 2)), window=draw(st.integers(1, 4)), kind=draw(st.sampled_from(["discrete", "box"])),
                a=rng.randint(0, 2, draw(st.integers(1, 8))).tolist(), u=np.round(rng.uniform(-1, 1, (9, 2)), 2).tolist(), train=draw(st.booleans()), bounds=draw(st.booleans()))


@facet(embeds(), quick=100, shards=2)
def embedded_states(case, rec):
    """State = hidden state of the world model over the last steps, then the observation; nothing of the step to come or of an earlier episode"""
    from reagent.gym.envs import Gym
    from reagent.gym.envs.pomdp.state_embed_env import StateEmbedEnvironment
    from reagent.models.world_model import MemoryNetwork
    import reagent.types as rlt

    c = case
    raw = Gym(env_name="StringGame-v0" if c["kind"] == "discrete" else "LinearDynamics-v0")
    D, A = raw.observation_space.shape[0], 2
    torch.manual_seed(c["seed"])
    net = MemoryNetwork(state_dim=D, action_dim=A, num_hiddens=c["h"], num_hidden_layers=c["layers"], num_gaussians=2)
    net.mdnrnn.train(c["train"])
    kw = dict(state_min_value=-7.0, state_max_value=8.0) if c["bounds"] else {}
    env = StateEmbedEnvironment(raw, net, c["window"], **kw)
    equal(list(env.observation_space.shape), [c["h"] + D], "embedding and observation")
    if c["bounds"]:
        require((env.observation_space.low == -7).all() and (env.observation_space.high == 8).all(), "given bounds")
    require(env.action_space is raw.action_space or env.action_space == raw.action_space, "same actions")
    equal(env.max_steps, raw.max_steps, "everything else comes from the environment")

    def hidden(rows):
        s = np.array([r[0] for r in rows]) if rows else np.zeros((1, D))
        u = np.array([r[1] for r in rows]) if rows else np.zeros((1, A))
        was = net.mdnrnn.training
        net.mdnrnn.eval()
        with torch.no_grad():
            out = net(rlt.FeatureData(T(s[:, None])), rlt.FeatureData(T(u[:, None]))).all_steps_lstm_hidden[-1].reshape(-1)
        net.mdnrnn.train(was)
        return out.numpy()

    np.random.seed(c["seed"] % 1000)
    obs, rows, episodes = None, [], 0
    for i, a in enumerate(c["a"]):
        if obs is None:
            np.random.seed(i)
            obs = env.reset()
            rows, episodes = [], episodes + 1
            close(obs[:c["h"]], hidden([]), "embedding at the start", rtol=1e-4)
        act = a if c["kind"] == "discrete" else np.array(c["u"][i])
        rows.append((obs[c["h"]:].copy(), np.eye(2)[a] if c["kind"] == "discrete" else np.array(c["u"][i])))
        obs, r, done, info = env.step(act)
        equal(list(obs.shape), [c["h"] + D], "state")
        close(obs[:c["h"]], hidden(rows[-c["window"]:]), "embedding of the last steps", rtol=1e-4)
        if c["kind"] == "discrete":
            close(obs[c["h"]:], np.eye(2)[a], "observation")
        equal(net.mdnrnn.training, c["train"], "the world model's mode is put back")
        if done:
            obs = None
    rec.nt(len(c["a"]) >= 4 and len(c["a"]) > c["window"])
    rec.label(c["kind"])
    if episodes > 1:
        rec.label("second episode")


@facet(plays(n=(3, 3), longest=20), quick=60, shards=2)
def minigrid(case, rec):
    """Minigrid states are one-hot over position and direction"""
    from reagent.gym.envs import Gym

    c = case
    name = ["MiniGrid-Empty-5x5-v0", "MiniGrid-Empty-6x6-v0"][c["x"] % 2]
    try:
        env = Gym(env_name=name)
    except Exception as e:
        raise Inconclusive(str(e))
    seen = {}
    ob = env.reset()
    for a in [None] + c["a"]:
        if a is not None:
            ob, r, done, _ = env.step(a)
        u = env.unwrapped
        require(env.observation_space.contains(ob) and ob.shape == (u.width * u.height * 4,), "observation in the space")
        require(ob.sum() == 1 and ob.max() == 1, "one-hot")
        where = (int(u.agent_pos[0]), int(u.agent_pos[1]), int(u.agent_dir))
        k = int(ob.argmax())
        require(seen.setdefault(k, where) == where, "one index for two places")
        require(sum(v == where for v in seen.values()) == 1, "two indices for one place")
        if a is not None and done:
            break
    equal(env.max_steps, env.unwrapped.max_steps, "step limit")
    require(torch.is_tensor(env.get_obs_preprocessor(device=torch.device("cpu"))(ob).float_features), "usable by policies")
    rec.nt(len(seen) > 2)


@st.composite
def value_cases(draw):
    rng = rng_of(draw)
    return dict(docs=draw(st.integers(1, 4)), has=draw(st.booleans()), dim=draw(st.integers(1, 3)), seed=int(rng.randint(10**6)), w=round(float(rng.uniform(-2, 2)), 2))


@facet(value_cases(), quick=80, shards=1)
def value_wrapper(case, rec):
    """Each document gets its value for the user; other augmentations stay"""
    import gym
    from gym import spaces as S
    from reagent.gym.envs.wrappers.recsim import ValueWrapper

    c = case
    rng = np.random.RandomState(c["seed"])

    def box(n):
        return S.Box(low=-np.ones(n, dtype=np.float32), high=np.ones(n, dtype=np.float32))

    class Env(gym.Env):
        action_space = S.MultiDiscrete([c["docs"]])

        def __init__(self):
            d = dict(user=box(c["dim"]), doc=S.Dict({str(k): box(c["dim"]) for k in range(c["docs"])}), response=S.Tuple([]))
            if c["has"]:
                d["augmentation"] = S.Dict({str(k): S.Dict(other=S.Box(low=-1.0, high=1.0, shape=())) for k in range(c["docs"])})
            self.observation_space = S.Dict(d)

        def look(self):
            o = dict(user=rng.rand(c["dim"]), doc={str(k): rng.rand(c["dim"]) for k in range(c["docs"])}, response=None)
            if c["has"]:
                o["augmentation"] = {str(k): dict(other=0.25 * k) for k in range(c["docs"])}
            self.last = o
            return o

        def reset(self):
            return self.look()

        def step(self, a):
            return self.look(), 1.5, False, {}

    env = ValueWrapper(Env(), lambda u, d: float(u @ d) + c["w"])
    for k in range(3):
        o = env.reset() if k == 0 else env.step([0])[0]
        equal(sorted(o), ["augmentation", "doc", "response", "user"], "observation")
        for d in range(c["docs"]):
            close(o["augmentation"][str(d)]["value"], float(o["user"] @ o["doc"][str(d)]) + c["w"], "value of the document", rtol=1e-6)
            if c["has"]:
                equal(o["augmentation"][str(d)]["other"], 0.25 * d, "other augmentation")
        sp = env.observation_space
        for d in range(c["docs"]):
            equal(sorted(sp["augmentation"][str(d)].spaces), sorted(["value"] + (["other"] if c["has"] else [])), "augmentation space")
        equal(sorted(sp.spaces), sorted(["user", "doc", "response", "augmentation"]), "space")
    rec.nt(c["docs"] > 1)
    rec.label("augmented before" if c["has"] else "first augmentation")


@facet(plays(n=(2, 4), longest=3), quick=60, shards=1)
def normalizers(case, rec):
    """Normalisation built for an environment: its features in order, actions to the training range, its own data if it has some"""
    from reagent.gym.envs import ChangingArms, Gym
    from reagent.gym.utils import build_normalizer
    from reagent.parameters import CONTINUOUS_TRAINING_ACTION_RANGE, NormalizationKey
    from reagent.preprocessing.preprocessor import Preprocessor

    c = case
    name = ["StringGame-v0", "LinearDynamics-v0", "Pocman-v0", "arms"][c["x"]]
    env = ChangingArms() if name == "arms" else Gym(env_name=name)
    out = build_normalizer(env)
    p = out[NormalizationKey.STATE].dense_normalization_parameters
    n = env.num_arms if name == "arms" else env.observation_space.shape[0]
    equal(sorted(p), list(range(n)), "features of the state")
    pre = Preprocessor(p, use_gpu=False)
    rng = np.random.RandomState(c["seed"] % (2**31))
    x = rng.uniform(0.1, 0.9, (3, n)).astype(np.float32)
    close(pre(T(x), torch.ones(3, n, dtype=torch.bool)), x, "state features pass unchanged", rtol=1e-3, atol=1e-3)
    if name != "arms":
        q = out[NormalizationKey.ACTION].dense_normalization_parameters
        if name == "LinearDynamics-v0":
            equal(sorted(q), [0, 1], "action dimensions")
            lo, hi = CONTINUOUS_TRAINING_ACTION_RANGE
            pa = Preprocessor(q, use_gpu=False)
            u = rng.uniform(-2.9, 2.9, (4, 2)).astype(np.float32)
            close(pa(T(u), torch.ones(4, 2, dtype=torch.bool)), lo + (u + 3) / 6 * (hi - lo), "actions to the training range", atol=1e-3)
        else:
            equal(sorted(q), list(range(env.action_space.n)), "actions")
    from types import SimpleNamespace

    import gym
    from reagent.gym.utils import build_action_normalizer

    low, high = np.array([-4.0, -1.0, 0.5], dtype=np.float32), np.array([0.5, 5.0, 2.0], dtype=np.float32)
    pa = Preprocessor(build_action_normalizer(SimpleNamespace(action_space=gym.spaces.Box(low=low, high=high))), use_gpu=False)
    u = (low + (high - low) * rng.uniform(0.05, 0.95, (4, 3))).astype(np.float32)
    lo, hi = CONTINUOUS_TRAINING_ACTION_RANGE
    close(pa(T(u), torch.ones(4, 3, dtype=torch.bool)), lo + (u - low) / (high - low) * (hi - lo), "each action dimension to the training range", atol=1e-3)
    rec.nt(n > 2)
    rec.label(name)
