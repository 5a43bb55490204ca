"""A stand-in for the recsim package (not installed here): the classes ReAgent's wrappers build on, with documents and
users from a seed, clicks by a threshold on the score the wrapper gives, and a record of how everything was made."""
import collections
import sys
import types

import gym
import numpy as np

MADE = []
THRESHOLD = [0.5]
DIM = 3


class Doc:
    def __init__(self, rng, k):
        self.k = k
        self.features = rng.uniform(-1, 1, DIM)
        self.quality = float(rng.uniform(-3, 3))
        self.cluster_id = int(rng.randint(DIM))

    def create_observation(self):
        return self.features


class Response:
    def __init__(self):
        self.clicked, self.watch_time, self.quality, self.cluster_id = False, 0.0, 0.0, 0.0

    def create_observation(self):
        return dict(click=int(self.clicked), watch_time=np.array(self.watch_time), quality=np.array(self.quality), cluster_id=int(self.cluster_id))


class UserState:
    def __init__(self, interests):
        self.user_interests = interests

    def score_document(self, doc_obs):
        return np.inner(self.user_interests, doc_obs)


class UserModel:
    def __init__(self, slate_size, choice_model_ctor=None, response_model_ctor=None, user_state_ctor=UserState, no_click_mass=1.0, seed=0):
        self.slate_size, self.seed = slate_size, seed
        self._response_model_ctor = response_model_ctor
        self._rng = np.random.RandomState(seed)
        self._user_state = user_state_ctor(self._rng.uniform(-0.5, 0.5, DIM))
        self.choice_model = choice_model_ctor(dict(no_click_mass=no_click_mass))

    def _generate_click_response(self, doc, response):
        response.clicked = True
        response.watch_time = 1.0 + doc.k

    def simulate_response(self, documents):
        out = [self._response_model_ctor() for _ in documents]
        scores = [self._user_state.score_document(d.create_observation()) for d in documents]
        self._generate_click_response(documents[int(np.argmax(scores))], out[int(np.argmax(scores))])
        for r, d in zip(out, documents):
            r.quality, r.cluster_id = d.quality, d.cluster_id
        return out


class ClickModel:
    def __init__(self, next_probs, slate_size=1, score_scaling=1.0):
        self.next_probs, self.slate_size, self.score_scaling = list(next_probs), slate_size, score_scaling

    def score_documents(self, user_state, doc_obs):
        self.scores = np.array([user_state.score_document(d) for d in doc_obs]) * self.score_scaling

    def choose_items(self):
        return [i for i, s in enumerate(self.scores) if s > THRESHOLD[0]]


class Sampler:
    def __init__(self, doc_ctor=Doc, seed=0):
        self.doc_ctor, self.seed = doc_ctor, seed
        self.rng = np.random.RandomState(seed + 1)

    def sample(self, n):
        return [self.doc_ctor(self.rng, k) for k in range(n)]


class Environment:
    def __init__(self, user_model, document_sampler, num_candidates, slate_size, resample_documents=True):
        self.user_model, self.sampler = user_model, document_sampler
        self.num_candidates, self.slate_size, self.resample_documents = num_candidates, slate_size, resample_documents
        self.docs = document_sampler.sample(num_candidates)


class RecSimGymEnv(gym.Env):
    def __init__(self, environment, reward_aggregator, metrics_aggregator=None, metrics_writer=None):
        self.environment, self.reward_aggregator = environment, reward_aggregator
        self.metrics = (metrics_aggregator, metrics_writer)
        self.shown = []
        e = environment
        box = gym.spaces.Box(low=-np.ones(DIM, dtype=np.float32), high=np.ones(DIM, dtype=np.float32))
        resp = gym.spaces.Dict(dict(click=gym.spaces.Discrete(2), watch_time=gym.spaces.Box(low=0.0, high=100.0, shape=(), dtype=np.float32),
                                    quality=gym.spaces.Box(low=-3.0, high=3.0, shape=(), dtype=np.float32), cluster_id=gym.spaces.Discrete(DIM)))
        self.observation_space = gym.spaces.Dict(collections.OrderedDict(
            user=box, doc=gym.spaces.Dict(collections.OrderedDict((str(k), box) for k in range(e.num_candidates))),
            response=gym.spaces.Tuple([resp] * e.slate_size)))
        self.action_space = gym.spaces.MultiDiscrete([e.num_candidates] * e.slate_size)
        self.user = e.user_model._user_state.user_interests

    def _look(self, response):
        return dict(user=self.user, doc=collections.OrderedDict((str(k), d.create_observation()) for k, d in enumerate(self.environment.docs)), response=response)

    def reset(self):
        self.environment.docs = self.environment.sampler.sample(self.environment.num_candidates)
        return self._look(None)

    def step(self, slate):
        docs = [self.environment.docs[i] for i in slate]
        responses = self.environment.user_model.simulate_response(docs)
        self.shown.append((self.user.copy(), docs, responses))
        reward = self.reward_aggregator(responses)
        # the user drifts, in place
        self.user += 0.05 * docs[0].features
        if self.environment.resample_documents:
            self.environment.docs = self.environment.sampler.sample(self.environment.num_candidates)
        return self._look(tuple(r.create_observation() for r in responses)), reward, len(self.shown) % 5 == 0, dict(steps=len(self.shown))


def reward(responses):
    return sum(r.watch_time for r in responses if r.clicked)


def exploration_reward(responses):
    return float(sum(r.clicked for r in responses))


def maker(kind, aggregator):
    def create_environment(env_config):
        MADE.append((kind, dict(env_config)))
        user = UserModel(env_config["slate_size"], choice_model_ctor=lambda *a: ClickModel([1.0]), response_model_ctor=Response, seed=env_config["seed"])
        env = Environment(user, Sampler(seed=env_config["seed"]), env_config["num_candidates"], env_config["slate_size"], env_config["resample_documents"])
        return RecSimGymEnv(env, aggregator, metrics_aggregator, metrics_writer)

    return create_environment


def metrics_aggregator(responses, metrics, info=None):
    return metrics


def metrics_writer(metrics, add):
    pass


def install():
    def module(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        sys.modules[name] = m
        parent, _, last = name.rpartition(".")
        if parent:
            setattr(sys.modules[parent], last, m)
        return m

    module("recsim").__path__ = []
    module("recsim.choice_model", DependentClickModel=ClickModel, softmax=lambda v: np.exp(v) / np.exp(v).sum())
    module("recsim.utils", aggregate_video_cluster_metrics=metrics_aggregator, write_video_cluster_metrics=metrics_writer)
    module("recsim.environments").__path__ = []
    module("recsim.environments.interest_evolution", IEvUserModel=UserModel, IEvUserState=UserState, IEvResponse=Response, IEvVideo=Doc,
           UtilityModelVideoSampler=Sampler, clicked_watchtime_reward=reward, create_environment=maker("evolution", reward))
    module("recsim.environments.interest_exploration", create_environment=maker("exploration", exploration_reward))
    module("recsim.simulator").__path__ = []
    module("recsim.simulator.environment", Environment=Environment)
    module("recsim.simulator.recsim_gym", RecSimGymEnv=RecSimGymEnv)
