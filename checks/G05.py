"""Slate environments: RecSim's wrapped (over a stand-in for recsim), the toy value-model environment, the oracle's tuning."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from models import recsim_stub
from models.nets import rng_of
from vlib.core import close, equal, facet, raises, require, same

recsim_stub.install()

RULE = ("a case is a configuration of a slate environment with slates shown in turn; non-trivial = several slates of two or more "
        "documents out of more")


@st.composite
def recsim_cases(draw):
    rng = rng_of(draw)
    slate = draw(st.integers(1, 4))
    cands = slate + draw(st.integers(0, 4))
    n = draw(st.integers(1, 7))
    return dict(kind=draw(st.sampled_from(["single", "multi", "explore"])), slate=slate, cands=cands, resample=draw(st.booleans()),
                seed=draw(st.integers(0, 1000)), th=round(float(rng.uniform(0.2, 0.8)), 3),
                slates=[rng.permutation(cands)[:slate].tolist() for _ in range(n)])


def value_of(kind, user, doc):
    return {"explore": 0.0, "single": float(np.dot(user, doc)), "multi": (float(np.dot(user, doc)) + 1) / 2}[kind]


@facet(recsim_cases(), quick=200, shards=3)
def recsim(case, rec):
    """The environment asked for, each document valued for the user, responses to the documents shown, observations that stay"""
    from reagent.gym.envs import Env__Union, Gym, RecSim
    from reagent.gym.preprocessors.replay_buffer_inserters import make_replay_buffer_inserter
    from reagent.gym.types import Transition
    from reagent.replay_memory.circular_replay_buffer import ReplayBuffer

    c = case
    recsim_stub.MADE.clear()
    recsim_stub.THRESHOLD[0] = c["th"]
    kw = dict(num_candidates=c["cands"], slate_size=c["slate"], resample_documents=c["resample"], single_selection=c["kind"] == "single",
              is_interest_exploration=False, initial_seed=c["seed"])
    if c["kind"] == "explore":
        kw.update(single_selection=True, is_interest_exploration=True)
        raises(NotImplementedError, lambda: RecSim(**dict(kw, single_selection=False)), "several clicks while exploring")
        recsim_stub.MADE.clear()
    env = RecSim(**kw)
    inner = env.unwrapped
    require(isinstance(inner, recsim_stub.RecSimGymEnv), "a RecSim environment inside")
    equal(Env__Union(RecSim=env).value is env, True, "member of the union")
    e = inner.environment
    equal((e.num_candidates, e.slate_size, e.resample_documents, e.user_model.seed, e.sampler.seed), (c["cands"], c["slate"], c["resample"], c["seed"], c["seed"]),
          "candidates, slate, resampling and seeds")
    if c["kind"] == "multi":
        equal(recsim_stub.MADE, [], "made from its parts")
        cm = e.user_model.choice_model
        equal(cm.slate_size, c["slate"], "slate of the choice model")
        close(cm.next_probs, [0.8 ** (i + 1) for i in range(c["slate"])], "chance of looking further")
        require(inner.reward_aggregator is recsim_stub.reward, "reward: time watched of what was clicked")
    else:
        equal([m[0] for m in recsim_stub.MADE], ["exploration" if c["kind"] == "explore" else "evolution"], "kind of environment")
        conf = recsim_stub.MADE[0][1]
        equal({k: conf[k] for k in ("slate_size", "seed", "num_candidates", "resample_documents")},
              dict(slate_size=c["slate"], seed=c["seed"], num_candidates=c["cands"], resample_documents=c["resample"]), "its configuration")
    equal(env.action_space.nvec.tolist(), [c["cands"]] * c["slate"], "actions")
    put = make_replay_buffer_inserter(env)
    rb = ReplayBuffer(replay_capacity=32, batch_size=2)
    obs = env.reset()
    kept = []
    clicks = 0
    for k, slate in enumerate(c["slates"]):
        user, docs = inner.user.copy(), list(e.docs)
        kept.append((obs, user, [d.features.copy() for d in docs]))
        for i, d in enumerate(docs):
            close(obs["augmentation"][str(i)]["value"], value_of(c["kind"], user, d.features), "value of document %d" % i, rtol=1e-6)
        x = env.obs_preprocessor(obs)
        close(x.float_features, [user], "user given to policies")
        close(x.candidate_docs.float_features, [[d.features for d in docs]], "documents given to policies")
        close(x.candidate_docs.value, [[value_of(c["kind"], user, d.features) for d in docs]], "values given to policies")
        y = env.serving_obs_preprocessor(obs)
        close(y.float_features, [user], "user given to predictors")
        close(y.candidate_docs.float_features, [[d.features for d in docs]], "documents given to predictors")
        class Out:
            action = torch.tensor([slate])
        act = env.get_action_extractor()(Out)
        equal(act.tolist(), slate, "slate shown")
        equal(env.get_serving_action_extractor()(Out).tolist(), slate, "slate served")
        nxt, r, done, info = env.step(act)
        shown = inner.shown[-1]
        equal([d.k for d in shown[1]], [docs[i].k for i in slate], "documents shown")
        resp = nxt["response"]
        equal(len(resp), c["slate"], "responses")
        if c["kind"] == "multi":
            want = [value_of("multi", user, docs[i].features) for i in slate]
            picked = [w > c["th"] for w in want]
        else:
            s = [float(np.dot(user, docs[i].features)) for i in slate]
            picked = [j == int(np.argmax(s)) for j in range(c["slate"])]
        for j, i in enumerate(slate):
            o = resp[j]
            close(float(o["quality"]), docs[i].quality, "quality of the document at %d" % j)
            equal(int(o["cluster_id"]), docs[i].cluster_id, "cluster of the document at %d" % j)
            equal(bool(o["click"]), bool(picked[j]), "click at %d" % j)
            close(float(o["watch_time"]), 1.0 + docs[i].k if picked[j] else 0.0, "time watched at %d" % j)
        clicks += sum(picked)
        close(r, float(sum(picked)) if c["kind"] == "explore" else sum(1.0 + docs[i].k for j, i in enumerate(slate) if picked[j]), "reward")
        equal((bool(done), info["steps"]), ((k + 1) % 5 == 0, k + 1), "end and information")
        put(rb, Transition(mdp_id=0, sequence_number=k, observation=obs, action=np.array(slate), reward=float(r), terminal=bool(k == len(c["slates"]) - 1), log_prob=-1.0))
        obs = nxt
    for o, user, docs in kept:
        close(o["user"], user, "user in an observation kept while the episode went on")
    b = rb.sample_all_valid_transitions()
    for k, (o, user, docs) in enumerate(kept):
        close(b.state[k], user, "user stored")
        close(b.doc[k], docs, "documents stored")
        close(b.augmentation_value[k], [value_of(c["kind"], user, d) for d in docs], "values stored")
        close(b.action[k], c["slates"][k], "slate stored")
    plain = Gym(env_name="StringGame-v0")
    rb2 = ReplayBuffer(replay_capacity=4, batch_size=1)
    make_replay_buffer_inserter(plain)(rb2, Transition(mdp_id=0, sequence_number=0, observation=plain.reset(), action=1, reward=0.5, terminal=True, log_prob=-1.0))
    close(rb2.sample_all_valid_transitions().reward, [[0.5]], "other environments are stored as they are")
    rec.nt(len(c["slates"]) > 2 and c["cands"] > c["slate"] > 1)
    rec.label(c["kind"])
    if c["kind"] == "multi" and clicks:
        rec.label("clicks")


class Rolls:
    def __init__(self, v):
        self.v = list(v)

    def rand(self, *a):
        return self.v.pop(0) if self.v else 0.5

    uniform = random_sample = random = rand


@st.composite
def scripts(draw):
    n = draw(st.integers(0, 5))
    p = st.floats(0.01, 0.99).map(lambda v: round(v, 3))
    return dict(docs=[[draw(p), draw(p), draw(p)] for _ in range(n)], rolls=[draw(p) for _ in range(n + 1)])


@facet(scripts(), quick=400, shards=2)
def toy_rewards(case, rec):
    """A slate is tapped if the roll is within the first document's tap rate; then each document's quality counts until one is abandoned"""
    from reagent.gym.envs.toy_vm import Document, simulate_reward

    c = case
    docs = [Document(tap=t, quality=q, abandon=a) for t, q, a in c["docs"]]
    if docs and any(abs(x - y) < 1e-9 for x in c["rolls"] for y in [docs[0].tap] + [1 - d.abandon for d in docs]):
        return
    want, seen = 0.0, 0
    if docs and c["rolls"][0] < docs[0].tap:
        for k, d in enumerate(docs):
            want += d.quality
            seen += 1
            if c["rolls"][k + 1] > 1 - d.abandon:
                break
    close(simulate_reward(docs, Rolls(c["rolls"])), want, "reward", rtol=1e-9, atol=1e-9)
    rec.nt(seen > 1)
    rec.label("tapped" if seen else "not tapped")


@st.composite
def toys(draw):
    rng = rng_of(draw)
    n = draw(st.integers(1, 5))
    return dict(n=n, seed=draw(st.integers(0, 10**6)), wrapper=draw(st.integers(0, 10**5)), limit=draw(st.integers(1, 6)),
                acts=[rng.permutation(n).tolist() for _ in range(draw(st.integers(1, 9)))])


@facet(toys(), quick=150, shards=2)
def toy_environment(case, rec):
    """Fresh documents every step, the reward one the slate shown can give, the same again for the same seed, an end at the limit"""
    from reagent.gym.envs import ToyVM

    c = case

    def play():
        env = ToyVM(slate_size=c["n"], max_episode_steps=c["limit"], initial_seed=c["wrapper"])
        log, obs, k = [], env.reset(), 0
        for a in c["acts"]:
            equal(sorted(obs), ["augmentation", "doc", "user"], "observation")
            equal(list(obs["doc"]), [str(i) for i in range(c["n"])], "documents")
            close(obs["user"], [0.0], "no user")
            docs = np.array([obs["doc"][str(i)] for i in range(c["n"])], dtype=float)
            require(docs.shape == (c["n"], 3) and (docs >= 0).all() and (docs <= 1).all(), "tap rate, quality and abandonment are in [0, 1]")
            for i in range(c["n"]):
                require(env.observation_space["doc"][str(i)].contains(obs["doc"][str(i)]), "document %d in its space", i)
            x = env.obs_preprocessor(obs)
            close(x.candidate_docs.float_features, [docs], "documents given to policies")
            close(x.candidate_docs.value, np.zeros((1, c["n"])), "no value is known")
            close(env.serving_obs_preprocessor(obs).candidate_docs.float_features, [docs], "documents given to predictors")
            class Out:
                action = torch.tensor([a])
            act = env.get_action_extractor()(Out)
            equal(np.atleast_1d(act).tolist(), a, "slate shown")
            nxt, r, done, info = env.step(act)
            q = np.cumsum(docs[a, 1])
            require(any(abs(r - v) < 1e-5 for v in [0.0] + q.tolist()), "reward %g is no sum of the first qualities %s", r, q)
            k += 1
            equal(bool(done), k == c["limit"], "end after the limit")
            close([list(d) for d in info["documents"]], np.array([nxt["doc"][str(i)] for i in range(c["n"])], dtype=float), "documents in the information")
            require(c["n"] == 0 or not np.allclose(docs, [nxt["doc"][str(i)] for i in range(c["n"])]), "fresh documents")
            log.append((docs.tolist(), r))
            obs = nxt
            if done:
                obs, k = env.reset(), 0
        return env, log

    env, one = play()
    if len(c["acts"]) > 1:
        require(one[0][0] != one[1][0], "other documents each time")
    _, two = play()
    equal(two, one, "the same again with the same seed")
    rec.nt(len(c["acts"]) > 2 and c["n"] > 1)


@facet(st.fixed_dictionaries(dict(seed=st.integers(0, 10**6))), quick=8, shards=2)
def toy_documents(case, rec):
    """Tap rates come from a uniform draw shifted by +1 in log-odds, abandonment by -2, qualities uniform; rewards average as they should"""
    from reagent.gym.envs.toy_vm import ToyVMEnv
    from scipy import stats

    n, S = 1500, 3
    env = ToyVMEnv(S)
    seeds = env.seed(case["seed"])
    equal(len(seeds), 2, "one seed for documents, one for rewards")
    docs, gap, var = [], 0.0, 0.0
    obs = env.reset()
    for _ in range(n):
        d = np.array([obs["doc"][str(i)] for i in range(S)], dtype=float)
        docs.append(d)
        order = [2, 0, 1]
        obs, r, _, _ = env.step(order)
        p, pay = d[order[0], 0], 0.0
        outcomes = [(1 - p, 0.0)]
        for j, i in enumerate(order):
            pay += d[i, 1]
            stop = d[i, 2] if j < S - 1 else 1.0
            outcomes.append((p * stop, pay))
            p *= 1 - stop
        mean = sum(q * v for q, v in outcomes)
        gap += r - mean
        var += sum(q * (v - mean) ** 2 for q, v in outcomes)
    require(abs(gap) <= 7 * math.sqrt(var), "rewards are off their expectation by %g (s.d. %g)", gap, math.sqrt(var))
    docs = np.concatenate(docs)

    def back(p, shift):
        return 1 / (1 + np.exp(-(np.log(p) - np.log1p(-p) - shift)))

    for name, u in (("tap", back(docs[:, 0], 1)), ("quality", docs[:, 1]), ("abandon", back(docs[:, 2], -2))):
        pv = stats.kstest(u, "uniform").pvalue
        require(pv > 1e-9, "%s is not distributed as written (p = %g)", name, pv)
    r = abs(np.corrcoef(np.stack([docs[:, 0], docs[:, 1], docs[:, 2]])) - np.eye(3)).max()
    require(r < 7 / math.sqrt(len(docs)), "tap rate, quality and abandonment depend on each other (%g)", r)
    rec.nt()


@st.composite
def oracles(draw):
    rng = rng_of(draw)
    n, w = draw(st.integers(1, 5)), draw(st.integers(1, 3))
    acts = np.round(rng.uniform(-1, 1, (draw(st.integers(1, 4)), w)), 3)
    acts[acts == 0] = 0.5
    if draw(st.booleans()):
        acts[0] = 0.25
    return dict(n=n, w=w, dim=w + draw(st.integers(0, 2)), user=draw(st.integers(1, 3)), seed=draw(st.integers(0, 10**6)), acts=acts.tolist())


@facet(oracles(), quick=250, shards=2)
def oracle(case, rec):
    """Three for the oracle's own ranking, else Kendall's tau between the two rankings; one step per episode"""
    import reagent.gym.envs  # noqa: F401
    from reagent.gym.envs.oracle_pvm import OraclePVM

    c = case
    raises(AssertionError, lambda: OraclePVM(num_candidates=c["n"] + 1, slate_size=c["n"]), "more candidates than places")
    env = OraclePVM(num_candidates=c["n"], slate_size=c["n"], user_feat_dim=c["user"], candidate_feat_dim=c["dim"], num_weights=c["w"])
    sp = env.action_space
    close(sp.low, -np.ones(c["w"]), "lowest weights")
    close(sp.high, np.ones(c["w"]), "highest weights")
    np.random.seed(c["seed"])
    matches = 0
    for a in c["acts"]:
        obs = env.reset()
        docs = np.array(list(obs["doc"].values()))
        require(docs.shape == (c["n"], c["dim"]) and np.shape(obs["user"]) == (c["user"],), "sizes of the features: %s, %s", docs.shape, np.shape(obs["user"]))
        require((docs >= 0).all() and (docs <= 1).all(), "features within [0, 1]")
        truth = np.argsort(-docs[:, :c["w"]].sum(1))
        mine = np.argsort(-(docs[:, :c["w"]] * np.array(a)).sum(1))
        ob2, r, done, info = env.step(np.array(a))
        same(ob2["user"], obs["user"], "same user after the step")
        equal(bool(done), True, "one step")
        if (truth == mine).all():
            matches += 1
            close(r, 3.0, "reward of the oracle's ranking")
        else:
            n = c["n"]
            tau = sum(np.sign((truth[i] - truth[j]) * (mine[i] - mine[j])) for i in range(n) for j in range(i)) / (n * (n - 1) / 2)
            close(r, tau, "Kendall's tau", rtol=1e-6)
        equal(bool(env.is_match(r)), bool((truth == mine).all()), "is it a match")
        x = env.obs_preprocessor(obs).float_features
        want = np.concatenate([np.repeat(obs["user"][None], c["n"], 0), docs], 1)
        close(x, [np.concatenate([obs["user"], docs.reshape(-1)])], "user, then every document, for policies")
        v, p = env.serving_obs_preprocessor(obs)
        close(v, want, "user and document side by side, for predictors")
        close(p.float(), np.ones_like(want), "every feature is there")
    rec.nt(c["n"] > 2 and len(c["acts"]) > 1)
    if matches:
        rec.label("match")
    if matches < len(c["acts"]):
        rec.label("no match")
