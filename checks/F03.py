"""Model managers: from a configuration and normalisation data to trainers, serving modules and policies."""
import copy
import random

import numpy as np
import torch
from hypothesis import strategies as st

from checks.S01 import TOL, data, dense, features, fill, missing, raw, reload
from models import fakespark, norm
from models.nets import T, arr, rng_of
from vlib.core import Inconclusive, close, equal, facet, raises, require, same

RULE = ("a case is a manager's configuration with normalisation data and raw states; non-trivial = two or more rows with an absent "
        "feature (or, for refusals and identification, two or more features)")

fakespark.install()
DISCRETE = ["DiscreteDQN", "DiscreteQRDQN", "DiscreteC51DQN", "DiscreteCRR"]
CONT = ["SAC", "TD3", "ParametricDQN", "SlateQ"]


def manager(name, cfg):
    from reagent.workflow.model_managers.union import ModelManager__Union

    m = ModelManager__Union(**{name: copy.deepcopy(cfg)})
    equal(type(m.value).__name__, name, "the manager built")
    return m.value


def reward_options(metrics):
    from reagent.workflow.types import RewardOptions

    return RewardOptions(metric_reward_values={m: float(i) for i, m in enumerate(metrics)} if metrics is not None else None)


@st.composite
def discrete_cases(draw):
    f = draw(features())
    kind = draw(st.sampled_from(DISCRETE))
    a = draw(st.integers(2, 4))
    rl = dict(gamma=draw(st.sampled_from([0.0, 0.7, 0.99])), target_update_rate=draw(st.sampled_from([0.001, 0.3])), maxq_learning=draw(st.booleans()),
              softmax_policy=draw(st.booleans()), temperature=draw(st.sampled_from([0.35, 1.0])), multi_steps=draw(st.sampled_from([None, 3])))
    cpe = draw(st.booleans())
    net = dict(sizes=[draw(st.sampled_from([2, 4, 6]))], activations=[draw(st.sampled_from(["relu", "tanh"]))])
    tp = dict(actions=[f"a{'zyxw'[i]}" for i in range(a)], rl=rl, double_q_learning=draw(st.booleans()))
    if kind in ("DiscreteQRDQN", "DiscreteC51DQN"):
        tp.update(num_atoms=draw(st.integers(2, 5)), minibatch_size=16)
    if kind == "DiscreteC51DQN":
        tp.update(qmin=draw(st.sampled_from([-10, -3])), qmax=draw(st.sampled_from([2, 20])))
        tp.pop("double_q_learning") if draw(st.booleans()) else None
    builder = {"DiscreteDQN": ["FullyConnected", "Dueling"], "DiscreteQRDQN": ["Quantile", "DuelingQuantile"], "DiscreteC51DQN": ["Categorical"],
               "DiscreteCRR": ["FullyConnected", "Dueling"]}[kind]
    cfg = dict(trainer_param=tp, eval_parameters=dict(calc_cpe_in_training=cpe))
    cfg["critic_net_builder" if kind == "DiscreteCRR" else "net_builder"] = {draw(st.sampled_from(builder)): net}
    if kind == "DiscreteCRR":
        cfg["actor_net_builder"] = {"FullyConnected": dict(sizes=[3], activations=["tanh"], action_activation="tanh")}
        cfg["trainer_param"]["delayed_policy_update"] = draw(st.integers(1, 3))
        cfg["trainer_param"]["use_target_actor"] = draw(st.booleans())
    if kind != "DiscreteC51DQN":
        cfg["cpe_net_builder"] = {"FullyConnected": dict(sizes=[3], activations=["tanh"])}
    rng = rng_of(draw)
    return dict(kind=kind, cfg=cfg, f=f, a=a, seed=draw(st.integers(0, 10**6)), metrics=draw(st.sampled_from([None, [], ["m2", "click"], ["z", "b", "k"]])),
                mask=[bool(x) for x in (rng.rand(a) < 0.7)], use=draw(st.booleans()), reinit=draw(st.booleans()), drop=draw(st.booleans()))


def dims(f):
    return sum(norm.width(x) for _, x in f["spec"])


def out(net, x, *more):
    import reagent.types as rlt

    m = copy.deepcopy(net).eval()
    with torch.no_grad():
        return m(rlt.FeatureData(x), *[rlt.FeatureData(y) for y in more])


def begin(c, norms, keys):
    """initialise the trainer, with what must be refused before and after -> (manager, trainer)"""
    m = manager(c["kind"], c["cfg"])
    text = repr(m)
    equal(text, repr(manager(c["kind"], c["cfg"])), "the text of two managers of one configuration")
    raises(AssertionError, lambda: m.trainer, "the trainer of a manager that has none")
    raises(AssertionError, lambda: m.use_gpu, "use_gpu before there is a trainer")
    raises(AssertionError, lambda: m.state_normalization_data, "normalisation before there is any")
    equal(sorted(m.required_normalization_keys), sorted(keys), "the normalisation needed")
    ro = reward_options(c["metrics"])
    if c["drop"]:
        for k in keys:
            less = {x: v for x, v in norms.items() if x != k}
            other = manager(c["kind"], c["cfg"])
            raises(AssertionError, lambda: other.initialize_trainer(False, ro, less), f"no {k} normalisation")
    tr = m.initialize_trainer(False, ro, norms)
    require(tr is m.trainer, "the trainer made is the manager's")
    equal(m.use_gpu, False, "use_gpu")
    require(m.reward_options is ro, "the reward options kept")
    for k in keys:
        require(getattr(m, f"{k}_normalization_data") is norms[k], "the %s normalisation kept", k)
    raises(AttributeError, lambda: m.nonsense_normalization_data, "normalisation of an unknown key")
    raises(AttributeError, lambda: m.nonsense, "an unknown attribute")
    equal(repr(m), text, "the manager's text, by which it is published, after initialising")
    if c["reinit"]:
        raises(AssertionError, lambda: m.initialize_trainer(False, ro, norms), "initialising twice")
    return m, tr


def twin(net, target, what):
    """a target starts as a copy of its own"""
    a, b = dict(net.named_parameters()), dict(target.named_parameters())
    equal(sorted(a), sorted(b), what + " parameters")
    for k in a:
        same(b[k], a[k].detach().numpy(), f"{what} {k}")
        require(a[k].data_ptr() != b[k].data_ptr(), "%s shares %s with its source", what, k)


def alone(*nets):
    """networks with separate parameters and separate initial values"""
    nets = [n for n in nets if n is not None]
    seen = {}
    for n in nets:
        for p in n.parameters():
            require(id(p) not in seen, "two networks share a parameter")
            seen[id(p)] = p


def hyper(tr, cfg):
    rl = cfg["trainer_param"]["rl"]
    close(tr.gamma, rl["gamma"], "gamma")
    close(tr.tau, rl["target_update_rate"], "target update rate")
    for k in ("maxq_learning", "multi_steps"):
        if k in rl and hasattr(tr, k):
            equal(getattr(tr, k), rl[k], k)
    for k in ("double_q_learning", "num_atoms", "qmin", "qmax", "delayed_policy_update", "use_target_actor", "single_selection", "entropy_temperature",
              "noise_variance", "minibatch_size"):
        if k in cfg["trainer_param"] and hasattr(tr, k):
            v = getattr(tr, k)
            require(v == cfg["trainer_param"][k], "%s: %s, configured %s", k, v, cfg["trainer_param"][k])


def values_of(kind, net, x):
    q = out(net, x)
    return q.mean(2) if q.dim() == 3 else q


@facet(discrete_cases(), quick=150, shards=6)
def discrete_managers(c, rec):
    """networks of the configured shape; metrics; serving modules and policies speak for the trained network"""
    from reagent.prediction.predictor_wrapper import ActorPredictorUnwrapper

    kind, tp = c["kind"], c["cfg"]["trainer_param"]
    x, A = dense(c["f"]), c["a"]
    norms = dict(state=data(c["f"]["spec"]))
    m, tr = begin(c, norms, ["state"])
    equal(m.metrics_to_score, sorted(c["metrics"] or []), "metrics to score")
    hyper(tr, c["cfg"])
    cpe = c["cfg"]["eval_parameters"]["calc_cpe_in_training"]
    dm = m.get_data_module(reward_options=m.reward_options)
    equal(dm.should_generate_eval_dataset, cpe, "evaluation data is wanted")
    equal(list(dm.required_normalization_keys), ["state"], "normalisation the data module needs")
    if kind == "DiscreteCRR":
        q, q2, actor = tr.q1_network, tr.q2_network, tr.actor_network
        equal(q2 is not None, tp["double_q_learning"], "a second critic")
        twin(q, tr.q1_network_target, "target critic")
        twin(actor, tr.actor_network_target, "target actor")
        if q2 is not None:
            twin(q2, tr.q2_network_target, "second target critic")
        equal(tuple(out(actor, x).action.shape), (len(x), A), "the actor's output")
        alone(q, q2, actor)
    else:
        q, q2, actor = tr.q_network, None, None
        twin(q, tr.q_network_target, "target network")
        require(all(a is b for a, b in zip(m.trainer.q_network.parameters(), q.parameters())), "the network trained")
    y = out(q, x)
    want = {"DiscreteQRDQN": (len(x), A, tp.get("num_atoms"))}.get(kind, (len(x), A))
    equal(tuple(y.shape), want, "the network's output")
    if kind == "DiscreteC51DQN":
        close(tr.support if hasattr(tr, "support") else q.support, np.linspace(tp["qmin"], tp["qmax"], tp["num_atoms"]), "the support")
        close(q.support, np.linspace(tp["qmin"], tp["qmax"], tp["num_atoms"]), "the network's support")
    elif cpe:
        n = (len(c["metrics"] or []) + 1) * A
        equal(tuple(out(tr.reward_network, x).shape), (len(x), n), "the reward network's output")
        equal(tuple(out(tr.q_network_cpe, x).shape), (len(x), n), "the evaluation network's output")
        twin(tr.q_network_cpe, tr.q_network_cpe_target, "target evaluation network")
        alone(q, tr.reward_network, tr.q_network_cpe, tr.q_network_cpe_target, actor, q2)
        equal(list(tr.metrics_to_score), sorted(c["metrics"] or []) + ["reward"], "the trainer's metrics")
    else:
        require(tr.reward_network is None, "a reward network without evaluation in training")
    # as if trained
    for i, net in enumerate([q] + ([actor, q2] if actor is not None else [])):
        if net is not None:
            fill(net, c["seed"] + i)
    text = repr(m)
    names = m.serving_module_names()
    mods = m.build_serving_modules()
    equal(sorted(mods), sorted(names), "serving modules, by name")
    equal(repr(m), text, "the manager's text after building serving modules")
    vals = values_of(kind, q, x)
    dqn = {"dqn": vals, "actor_dqn": out(actor, x).action} if actor is not None else {"default_model": vals}
    for name, v in dqn.items():
        for mod in (mods[name], reload(mods[name])):
            got = mod(serving(c["f"]))
            equal(list(got[0]), tp["actions"], f"action names of {name}")
            close(got[1], v, f"values of {name}", **TOL)
    if actor is not None:
        close(ActorPredictorUnwrapper(mods["default_model"])(raw(c["f"])), out(actor, x).action, "actions of default_model", **TOL)
    else:
        close(m.build_serving_module()(serving(c["f"]))[1], vals, "values of the serving module", **TOL)
    # policies, one state at a time
    with torch.no_grad():
        for serve in (False, True):
            p = m.create_policy(serving=serve)
            for i in range(len(x)):
                one = dict(c["f"], rows=c["f"]["rows"][i: i + 1], pres=c["f"]["pres"][i: i + 1])
                import reagent.types as rlt

                obs = raw(one) if serve else rlt.FeatureData(x[i: i + 1])
                if actor is not None:
                    close(p.act(obs).action, out(actor, x[i: i + 1]).action, "the policy's action", **TOL)
                    continue
                mask = c["mask"] if c["use"] and any(c["mask"]) else None
                acted = p.act(obs, None if mask is None else np.array(mask))
                act = acted.action.reshape(-1)
                equal(len(act), A, "one-hot length")
                pick = int(act.argmax())
                v = vals[i].numpy().copy()
                if mask is not None:
                    require(mask[pick], "the policy (serving: %s) chose action %s, masked by %s", serve, pick, mask)
                    v = np.where(mask, v, -np.inf)
                if not (serve and c["cfg"]["trainer_param"]["rl"]["softmax_policy"]):
                    require(v[pick] >= v.max() - 5e-3, "the policy (serving: %s) chose %s of values %s", serve, pick, v)
                else:
                    t = torch.tensor(v).double() / tp["rl"]["temperature"]
                    close(acted.log_prob.reshape(-1), torch.log_softmax(t, 0)[pick].reshape(-1), "the serving policy's log probability", rtol=2e-2, atol=2e-2)
    # reports name the configured actions
    from reagent.tensorboardX import SummaryWriterContext

    SummaryWriterContext._reset_globals()
    try:
        rep = m.get_reporter()
    finally:
        SummaryWriterContext._reset_globals()
    mv = torch.arange(2 * A).reshape(2, A).float()
    rep.log(model_values=mv, model_action_idxs=torch.tensor([[A - 1], [0], [A - 1]]))
    rep.flush(0)
    equal(dict(rep.model_values.values["mean"]), {n: [i + A / 2] for i, n in enumerate(tp["actions"])}, "values reported per action")
    equal(dict(rep.model_action.values), {n: [(2 if i == A - 1 else 0) + (i == 0)] for i, n in enumerate(tp["actions"])}, "actions reported")
    rec.nt(missing(c["f"]))
    rec.label(kind, "cpe" if cpe else "no cpe")


def serving(f):
    import reagent.types as rlt

    return rlt.ServingFeatureData(float_features_with_presence=raw(f), id_list_features={}, id_score_list_features={})


@st.composite
def continuous_cases(draw):
    kind = draw(st.sampled_from(CONT))
    f = draw(features())
    rl = dict(gamma=draw(st.sampled_from([0.0, 0.7, 0.99])), target_update_rate=draw(st.sampled_from([0.001, 0.3])), maxq_learning=draw(st.booleans()),
              temperature=0.35)
    tp = dict(rl=rl)
    net = {"FullyConnected": dict(sizes=[draw(st.integers(2, 5))], activations=["tanh"])}
    c = dict(kind=kind, f=f, seed=draw(st.integers(0, 10**6)), metrics=draw(st.sampled_from([None, ["m2", "click"]])), reinit=draw(st.booleans()), drop=draw(st.booleans()))
    rng = rng_of(draw)
    a = draw(st.integers(1, 3))
    ids = draw(st.lists(st.integers(1, 99), min_size=a, max_size=a, unique=True))
    lo = np.round(rng.uniform(-5, 5, a), 2)
    hi = lo + np.round(rng.uniform(0.5, 9, a), 2)
    c["cfg"] = dict(trainer_param=tp)
    if kind in ("SAC", "TD3"):
        c.update(g=[[i, dict(feature_type="CONTINUOUS_ACTION", min_value=round(float(x), 2), max_value=round(float(y), 2))] for i, x, y in zip(ids, lo, hi)])
        c["cfg"].update(use_2_q_functions=draw(st.booleans()), critic_net_builder=net, eval_parameters=dict(calc_cpe_in_training=draw(st.booleans())),
                        action_float_features=[[i, str(i)] for i in ids])
        if kind == "SAC":
            tp["entropy_temperature"] = draw(st.sampled_from([0.01, 0.5]))
            c["cfg"].update(value_net_builder=draw(st.sampled_from([net, None])), serve_mean_policy=draw(st.booleans()),
                            actor_net_builder={"GaussianFullyConnected": dict(sizes=[3], activations=["tanh"])})
        else:
            tp["delayed_policy_update"] = draw(st.integers(1, 3))
            c["cfg"].update(actor_net_builder=net)
    else:
        c["g"] = draw(norm.spec(("CONTINUOUS", "BINARY", "PROBABILITY"), max_size=3)) if kind == "SlateQ" or draw(st.booleans()) else \
            [[i, dict(feature_type="DISCRETE_ACTION")] for i in range(a)]
        c["cfg"].update(net_builder=net)
        if kind == "SlateQ":
            c["slate"], c["cands"] = 1, draw(st.integers(1, 4))
            c["slate"] = draw(st.integers(1, c["cands"]))
            c["cfg"].update(slate_feature_id=7, slate_score_id=[8, 9], slate_size=c["slate"], num_candidates=c["cands"])
            tp["single_selection"] = draw(st.booleans())
            c["docs"] = arr(rng, (len(f["rows"]), c["cands"], len(c["g"])))
            c["scores"] = arr(rng, (len(f["rows"]), c["cands"]))
        else:
            c["cfg"].update(eval_parameters=dict(calc_cpe_in_training=draw(st.booleans())))
            tp["double_q_learning"] = draw(st.booleans())
    v, p = draw(norm.batch(c["g"], min_rows=len(f["rows"]), max_rows=len(f["rows"])))
    c["gr"] = dict(spec=c["g"], rows=v, pres=p)
    return c


@facet(continuous_cases(), quick=150, shards=6)
def other_managers(c, rec):
    import reagent.types as rlt
    from reagent.prediction.predictor_wrapper import ActorPredictorUnwrapper

    kind = c["kind"]
    x, g = dense(c["f"]), dense(c["gr"])
    keys = ["state", "item"] if kind == "SlateQ" else ["state", "action"]
    norms = dict(zip(keys, (data(c["f"]["spec"]), data(c["g"]))))
    m, tr = begin(c, norms, keys)
    hyper(tr, c["cfg"])
    if kind != "SlateQ":
        equal(m.metrics_to_score, sorted(c["metrics"] or []), "metrics to score")
    if kind in ("SAC", "TD3"):
        equal(m.should_generate_eval_dataset, c["cfg"]["eval_parameters"]["calc_cpe_in_training"], "evaluation data is wanted")
        q, q2, actor = tr.q1_network, tr.q2_network, tr.actor_network
        equal(q2 is not None, c["cfg"]["use_2_q_functions"], "a second critic")
        equal(tuple(out(q, x, g).shape), (len(x), 1), "the critic's output")
        val = getattr(tr, "value_network", None)
        if kind == "SAC":
            equal(val is not None, c["cfg"]["value_net_builder"] is not None, "a value network")
        if val is not None:
            equal(tuple(val(x).shape), (len(x), 1), "the value network's output")
            twin(val, tr.value_network_target, "target value network")
        else:
            twin(q, tr.q1_network_target, "target critic")
        if q2 is not None:
            require(any(not torch.equal(a, b) for a, b in zip(q.parameters(), q2.parameters())), "both critics start the same")
        alone(q, q2, actor, val)
        fill(actor, c["seed"])
        mod = m.build_serving_module()
        lo = np.array([s["min_value"] for _, s in sorted(c["g"], key=lambda z: z[0])])
        hi = np.array([s["max_value"] for _, s in sorted(c["g"], key=lambda z: z[0])])
        with torch.no_grad():
            ref = copy.deepcopy(actor).eval()
            o = ref(rlt.FeatureData(x))
            sure = kind == "TD3" or c["cfg"]["serve_mean_policy"]
            mean = o.squashed_mean if kind == "SAC" else o.action
            want = (np.clip(mean.numpy(), -1, 1) + 1) / 2 * (hi - lo) + lo
            for pol in (lambda: ActorPredictorUnwrapper(mod)(raw(c["f"])), lambda: reload(mod)(raw(c["f"])), lambda: m.create_policy(serving=True).act(raw(c["f"])).action):
                got = pol()
                got = got if isinstance(got, torch.Tensor) else got[0]
                require(((got.numpy() >= lo - 1e-4) & (got.numpy() <= hi + 1e-4)).all(), "actions outside their range: %s", got)
                if sure:
                    close(got, want, "served actions", rtol=5e-3, atol=5e-3)
            if not sure:
                # a policy that samples keeps sampling when served
                spread = lambda xs: float(torch.stack(xs).std(0).max())  # noqa: E731
                own = spread([ref(rlt.FeatureData(x)).action for _ in range(8)])
                if own > 0.05:
                    many = [ActorPredictorUnwrapper(mod)(raw(c["f"])) for _ in range(8)]
                    many = [t if isinstance(t, torch.Tensor) else t[0] for t in many]
                    require(spread([t / T(hi - lo) for t in many]) > 1e-3, "the served policy, which should sample, always gives %s; the actor's actions spread by %s", many[0], own)
            o = m.create_policy(serving=False).act(rlt.FeatureData(x))
            equal(tuple(o.action.shape), tuple(g.shape), "the training policy's actions")
            require((o.action.abs() <= 1 + 1e-5).all(), "the training policy's actions leave the training range")
            if kind == "TD3":
                close(o.action, mean, "the training policy's actions", **TOL)
        require(actor.training, "acting left the actor in evaluation mode")
        rec.label(kind + (" mean" if sure else " sampled"))
    else:
        q = tr.q_network
        twin(q, tr.q_network_target, "target network")
        equal(tuple(out(q, x, g).shape), (len(x), 1), "the critic's output")
        if kind == "ParametricDQN":
            equal(tuple(out(tr.reward_network, x, g).shape), (len(x), len(c["metrics"] or []) + 1), "the reward network's output")
            alone(q, tr.reward_network)
            equal(m.should_generate_eval_dataset, c["cfg"]["eval_parameters"]["calc_cpe_in_training"], "evaluation data is wanted")
        fill(q, c["seed"])
        mod = m.build_serving_module()
        v = out(q, x, g)
        for mm in (mod, reload(mod)):
            got = mm(raw(c["f"]), raw(c["gr"]))
            equal(list(got[0]), ["Q"], "value name")
            close(got[1], v, "served values", **TOL)
        if kind == "SlateQ":
            docs, sc = T(c["docs"]), T(c["scores"])
            n, k = c["cands"], c["slate"]
            full = lambda s, d: rlt.FeatureData(float_features=s, candidate_docs=rlt.DocList(float_features=d, value=sc))  # noqa: E731
            pr = torch.softmax(sc, 1).numpy()
            rows, docrows = np.array(c["f"]["rows"]), np.array(c["docs"])
            sx = T(np.array(norm.expected(c["f"]["spec"], rows, np.ones(rows.shape, bool))))
            di = np.array(norm.expected(c["g"], docrows.reshape(-1, docrows.shape[-1]), np.ones((docrows.shape[0] * n, docrows.shape[-1]), bool)))
            tile = np.repeat(np.arange(len(rows)), n)
            served = out(q, sx[tile], T(di)).reshape(-1, n).numpy() * pr
            with torch.no_grad():
                a = m.create_policy(serving=True).act(full(T(rows), docs)).action
            ordered(a, served, k, "serving")
            if dims(c["gr"]) == docs.shape[-1]:
                trained = out(q, x[tile], docs.reshape(-1, docs.shape[-1])).reshape(-1, n).numpy() * pr
                with torch.no_grad():
                    a = m.create_policy(serving=False).act(full(x, docs)).action
                ordered(a, trained, k, "training")
        elif all(s["feature_type"] == "DISCRETE_ACTION" for _, s in c["g"]):
            n = len(c["g"])
            eye = torch.eye(n)
            rows = np.array(c["f"]["rows"])
            sx = T(np.array(norm.expected(c["f"]["spec"], rows, np.ones(rows.shape, bool))))
            tile = np.repeat(np.arange(len(rows)), n)
            v = out(q, sx[tile], eye.repeat(len(rows), 1)).reshape(-1, n).numpy()
            with torch.no_grad():
                for i in range(len(rows)):
                    act = m.create_policy(serving=True).act((T(rows[i: i + 1]), torch.ones(1, rows.shape[1]))).action
                    pick = int(act.argmax())
                    require(v[i, pick] >= v[i].max() - 5e-3, "the served policy chose %s of values %s", pick, v[i])
                    acted = m.create_policy(serving=False).act(rlt.FeatureData(x[i: i + 1]))
                    tact = acted.action
                    tv = out(q, x[i: i + 1].repeat(n, 1), eye).reshape(-1).double() / c["cfg"]["trainer_param"]["rl"]["temperature"]
                    close(acted.log_prob.reshape(-1), torch.log_softmax(tv, 0)[int(tact.argmax())].reshape(-1), "the training policy's log probability", rtol=2e-2, atol=2e-2)
                    require(tuple(tact.shape) == (1, n) and float(tact.sum()) == 1.0, "the training policy's action %s", tact)
            rec.label("policy")
        rec.label(kind)
    rec.nt(missing(c["f"], c["gr"]))


def ordered(action, scores, k, what):
    equal(tuple(action.shape), (len(scores), k), f"{what} slates")
    for i, row in enumerate(action.tolist()):
        require(len(set(row)) == k, "%s slate %s repeats an item", what, row)
        v = scores[i][row]
        best = np.sort(scores[i])[::-1][:k]
        close(v, best, f"{what} slate's scores", rtol=5e-3, atol=5e-3)


# ------------------------------------------------------------------ model based
@st.composite
def world_cases(draw):
    f = draw(features())
    kind = draw(st.sampled_from(["WorldModel", "Seq2RewardModel", "CrossEntropyMethod", "CrossEntropyMethod"]))
    rng = rng_of(draw)
    a = draw(st.integers(2, 3))
    cont = draw(st.booleans())
    ids = draw(st.lists(st.integers(1, 99), min_size=a, max_size=a, unique=True))
    lo = np.round(rng.uniform(-5, 5, a), 2)
    g = [[i, dict(feature_type="CONTINUOUS_ACTION", min_value=round(float(x), 2), max_value=round(float(x + 0.5 + rng.rand() * 5), 2))] for i, x in zip(ids, lo)] \
        if cont else [[i, dict(feature_type="DISCRETE_ACTION")] for i in range(a)]
    md = dict(hidden_size=draw(st.integers(2, 4)), num_hidden_layers=draw(st.integers(1, 2)), num_gaussians=draw(st.integers(1, 3)), action_dim=a,
              not_terminal_loss_weight=draw(st.sampled_from([0.0, 0.25, 1.0])), reward_loss_weight=draw(st.sampled_from([0.5, 1.0])))
    if kind == "WorldModel":
        cfg = dict(trainer_param=md)
    elif kind == "Seq2RewardModel":
        cfg = dict(trainer_param=dict(multi_steps=draw(st.integers(1, 3)), action_names=[str(i) for i in range(a)], gamma=0.9, batch_size=8, step_predict_net_size=4),
                   net_builder={"Seq2RewardNetBuilder": dict(action_dim=a, num_hiddens=draw(st.integers(2, 4)), num_hidden_layers=draw(st.integers(1, 2)))})
    else:
        cfg = dict(trainer_param=dict(plan_horizon_length=draw(st.integers(1, 2)), num_world_models=draw(st.integers(1, 3)), cem_population_size=draw(st.integers(7, 10)),
                                      cem_num_iterations=draw(st.integers(1, 2)), ensemble_population_size=draw(st.integers(1, 3)), num_elites=draw(st.sampled_from([2, 3, 7])), mdnrnn=md,
                                      rl=dict(gamma=draw(st.sampled_from([0.3, 0.9]))), alpha=draw(st.sampled_from([0.0, 0.25])), epsilon=draw(st.sampled_from([0.001, 0.5]))))
    return dict(kind=kind, cfg=cfg, f=f, g=g, a=a, cont=cont, metrics=None, reinit=draw(st.booleans()), drop=draw(st.booleans()), seed=draw(st.integers(0, 10**6)))


@facet(world_cases(), quick=90, shards=4)
def model_based_managers(c, rec):
    import reagent.training  # noqa: F401
    import reagent.types as rlt

    D, A, kind, tp = dims(c["f"]), c["a"], c["kind"], c["cfg"]["trainer_param"]
    norms = dict(state=data(c["f"]["spec"]), action=data(c["g"]))
    m, tr = begin(c, norms, ["state", "action"])
    equal(m.should_generate_eval_dataset, False, "evaluation data is not wanted")
    x = dense(c["f"])
    B, S = len(x), 2
    states, acts = torch.stack([x] * S), torch.zeros(S, B, A)

    def world(net, md):
        with torch.no_grad():
            o = net(rlt.FeatureData(acts), rlt.FeatureData(states))
        equal(tuple(o.mus.shape), (S, B, md["num_gaussians"], D), "the world model's means")
        equal(len(list(net.mdnrnn.rnn.named_parameters())) if hasattr(net.mdnrnn, "rnn") else 4 * md["num_hidden_layers"], 4 * md["num_hidden_layers"], "recurrent layers")
        equal(net.mdnrnn.num_hiddens if hasattr(net.mdnrnn, "num_hiddens") else md["hidden_size"], md["hidden_size"], "hidden size")

    if kind == "WorldModel":
        world(tr.memory_network, tp)
    elif kind == "Seq2RewardModel":
        with torch.no_grad():
            o = tr.seq2reward_network(rlt.FeatureData(states), rlt.FeatureData(acts))
        equal(tuple(o.acc_reward.shape), (B, 1), "the sequence model's output")
        equal(tuple(tr.all_permut.shape), (tp["multi_steps"], A ** tp["multi_steps"], A), "action sequences considered")
    else:
        equal(len(tr.world_model_trainers), tp["num_world_models"], "world models")
        for t in tr.world_model_trainers:
            world(t.memory_network, tp["mdnrnn"])
        alone(*[t.memory_network for t in tr.world_model_trainers])
        p = m.create_policy()
        torch.manual_seed(c["seed"])
        np.random.seed(c["seed"] % 2**31)
        for i, t in enumerate(tr.world_model_trainers):
            fill(t.memory_network, c["seed"] + i)
        with torch.no_grad():
            act = p.act(rlt.FeatureData(x[:1])).action
        # the same planner, put together here from the same parts
        from reagent.models.cem_planner import CEMPlannerNetwork

        by_id = [s for _, s in sorted(c["g"], key=lambda z: z[0])]
        ref = CEMPlannerNetwork(
            mem_net_list=[t.memory_network for t in tr.world_model_trainers], cem_num_iterations=tp["cem_num_iterations"],
            cem_population_size=tp["cem_population_size"], ensemble_population_size=tp["ensemble_population_size"], num_elites=tp["num_elites"],
            plan_horizon_length=tp["plan_horizon_length"], state_dim=D, action_dim=A, discrete_action=not c["cont"],
            terminal_effective=tp["mdnrnn"]["not_terminal_loss_weight"] > 0, gamma=tp["rl"]["gamma"], alpha=tp["alpha"], epsilon=tp["epsilon"],
            **(dict(action_upper_bounds=np.array([s["max_value"] for s in by_id]), action_lower_bounds=np.array([s["min_value"] for s in by_id])) if c["cont"] else {}))
        for k in range(3):
            row = rlt.FeatureData(x[k % B:k % B + 1])
            res = []
            for what in (lambda: ref(row), lambda: p.act(row).action):
                torch.manual_seed(c["seed"] + k)
                np.random.seed((c["seed"] + k) % 2**31)
                random.seed(c["seed"] + k)
                with torch.no_grad():
                    res.append(what())
            want = res[0] if c["cont"] else res[0][1]
            close(res[1].reshape(-1), want.reshape(-1), "the action planned with the configured parameters", **TOL)
        equal(tuple(act.shape), (1, A), "the planned action")
        equal(p.discrete_action, not c["cont"], "actions are discrete")
        if c["cont"]:
            o = np.argsort([i for i, _ in c["g"]])
            lo = np.array([s["min_value"] for _, s in c["g"]])[o]
            hi = np.array([s["max_value"] for _, s in c["g"]])[o]
            net = m.cem_planner_network
            n = tp["plan_horizon_length"]
            close(np.asarray(net.action_lower_bounds).reshape(-1), np.tile(lo, n), "lower bounds in the order of the action features")
            close(np.asarray(net.action_upper_bounds).reshape(-1), np.tile(hi, n), "upper bounds in the order of the action features")
            v = act.numpy().reshape(-1).astype(float)
            require((abs(v) <= 1 + 1e-4).all(), "planned action %s outside the training range", v)
            rec.label("unsorted" if list(o) != list(range(A)) else "sorted")
        else:
            require(sorted(act.reshape(-1).tolist()) == [0.0] * (A - 1) + [1.0], "planned action %s", act)
    rec.nt(missing(c["f"]))
    rec.label(kind)


# ------------------------------------------------------------------ feature identification
@st.composite
def ident_cases(draw):
    kind = draw(st.sampled_from(["DiscreteDQN", "DiscreteCRR", "SAC", "TD3", "ParametricDQN"]))
    rng = rng_of(draw)
    n = draw(st.integers(22, 30))
    table = lambda base, k: {str(base + int(i)): [round(float(v), 2) for v in rng.uniform(-3, 3, n)] for i in rng.permutation(30)[:k]}  # noqa: E731
    s, a = table(0, draw(st.integers(1, 4))), table(100, draw(st.integers(1, 3)))
    pick = lambda d: [k for k in d if draw(st.booleans())]  # noqa: E731
    return dict(kind=kind, n=n, state=s, action=a, ws=pick(s), wa=pick(a) or list(a)[:1], over=draw(st.sampled_from([None, None, "CONTINUOUS", "DO_NOT_PREPROCESS"])),
                opts=draw(st.sampled_from([None, dict(skip_box_cox=True, max_unique_enum_values=3, num_samples=22)])), missing=draw(st.booleans()), given=draw(st.booleans()))


@facet(ident_cases(), quick=120, shards=4)
def feature_identification(c, rec):
    """whitelists and action types given by the configuration decide what is identified"""
    from reagent.preprocessing.normalization import get_feature_norm_metadata
    from reagent.workflow.types import TableSpec

    kind = c["kind"]
    rows = [dict(state_features={int(k): v[i] for k, v in c["state"].items()}, action={int(k): v[i] for k, v in c["action"].items()}) for i in range(c["n"])]
    fakespark.SESSION.tables.clear()
    fakespark.SESSION.tables["logs"] = fakespark.Frame(["state_features", "action"], rows)
    opts = dict(c["opts"] or {}, num_samples=c["n"])
    ff = lambda ids: [[int(i), f"f{i}"] for i in ids]  # noqa: E731
    ws = c["ws"] + (["999"] if c["missing"] else [])
    if kind in ("DiscreteDQN", "DiscreteCRR"):
        cfg = dict(trainer_param=dict(actions=["a", "b"]),
                   # the configured features take the place of the options' whitelist
                   preprocessing_options=dict(opts, whitelist_features=[int(list(c["state"])[0])]) if c["given"] else opts,
                   state_feature_config_provider=dict(raw=dict(float_feature_infos=[dict(name=f"f{i}", feature_id=int(i)) for i in ws])))
    else:
        cfg = dict(state_preprocessing_options=opts, action_preprocessing_options=opts, state_float_features=ff(ws), action_float_features=ff(c["wa"]))
        if kind in ("SAC", "TD3"):
            cfg["action_feature_override"] = c["over"]
    m = manager(kind, cfg)
    who = m.get_data_module(input_table_spec=TableSpec(table_name="logs")) if kind.startswith("Discrete") else m
    run = lambda: who.run_feature_identification(TableSpec(table_name="logs"))  # noqa: E731
    rec.nt(len(c["state"]) > 1)
    rec.label(kind)
    if c["missing"]:
        return raises(AssertionError, run, "a wanted feature the table does not have")
    got = run()
    equal(sorted(got), ["state"] if kind.startswith("Discrete") else ["action", "state"], "what is identified")

    def want(cols, white, over):
        p = dict(max_unique_enum_values=m_opts("max_unique_enum_values"), quantile_size=m_opts("quantile_size"), quantile_k2_threshold=m_opts("quantile_k2_threshold"),
                 skip_box_cox=m_opts("skip_box_cox"), skip_quantiles=m_opts("skip_quantiles"), feature_overrides={int(k): over for k in cols} if over else None)
        return {int(k): get_feature_norm_metadata(int(k), v, p) for k, v in cols.items() if not white or k in white}

    from reagent.workflow.types import PreprocessingOptions

    m_opts = lambda k: opts.get(k, getattr(PreprocessingOptions(), k))  # noqa: E731
    for key, cols, white, over in (("state", c["state"], c["ws"], None), ("action", c["action"], c["wa"], None)):
        if key == "action":
            if kind.startswith("Discrete"):
                continue
            over = c["over"] or "CONTINUOUS_ACTION" if kind in ("SAC", "TD3") else None
        w = want(cols, white, over)
        have = got[key].dense_normalization_parameters
        equal(sorted(have), sorted(w), f"{key} features")
        for k in w:
            equal(have[k], w[k], f"{key} feature {k}")
    equal(m.state_feature_config.float_feature_infos[:] and [i.feature_id for i in m.state_feature_config.float_feature_infos], [int(i) for i in ws], "state features configured")


# ------------------------------------------------------------------ refusals
@facet(st.tuples(st.sampled_from(["DiscreteDQN", "DiscreteQRDQN", "DiscreteC51DQN", "DiscreteCRR", "SAC", "TD3", "ParametricDQN", "SlateQ"]), st.integers(0, 10**6)), quick=60, shards=2)
def refused_configurations(c, rec):
    kind, seed = c
    rng = np.random.RandomState(seed)
    rec.nt(True)
    rec.label(kind)
    if kind.startswith("Discrete"):
        for acts in ([], ["only"]):
            raises((AssertionError, ValueError), lambda: manager(kind, dict(trainer_param=dict(actions=acts, minibatch_size=16))), f"{acts} as actions")
        good = dict(actions=["x", "y"], minibatch_size=16)
        manager(kind, dict(trainer_param=good))
        if kind in ("DiscreteQRDQN", "DiscreteC51DQN"):
            bad = 8 * int(rng.randint(1, 50)) + int(rng.randint(1, 8))
            raises((AssertionError, ValueError), lambda: manager(kind, dict(trainer_param=dict(good, minibatch_size=bad))), f"batches of {bad}")
    elif kind == "SlateQ":
        ok = dict(slate_feature_id=1, slate_score_id=[2, 3], slate_size=2, num_candidates=3)
        manager(kind, ok)
        for k in ("slate_size", "num_candidates"):
            for v in (0, -1):
                raises((AssertionError, ValueError), lambda: manager(kind, dict(ok, **{k: v})), f"{k} {v}")
            raises((AssertionError, ValueError), lambda: manager(kind, {x: y for x, y in ok.items() if x != k}), f"no {k}")
        raises((AssertionError, ValueError), lambda: manager(kind, dict(ok, state_preprocessing_options=dict(whitelist_features=[1]))), "a state whitelist in the options")
    else:
        for k in ("state_preprocessing_options", "action_preprocessing_options"):
            wl = [int(v) for v in rng.randint(0, 9, rng.randint(1, 3))]
            manager(kind, {k: dict(num_samples=5)})
            raises((AssertionError, ValueError), lambda: manager(kind, {k: dict(whitelist_features=wl)}), f"a whitelist in {k}")
        if kind != "ParametricDQN":
            raises((AssertionError, ValueError), lambda: manager(kind, {}).action_feature_config, "no action features")
