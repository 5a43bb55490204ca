"""Targets and losses of the actor-critic trainers: SAC (with CRR), TD3, discrete CRR."""
import numpy as np
import torch
from hypothesis import strategies as st

from models import nets
from models.nets import T, arr, rng_of
from vlib.core import Inconclusive, close, equal, facet, raises, require

RULE = ("a case is a batch, explicit network weights (a differentiable deterministic actor whose action and "
        "log-probability are functions of the state) and a trainer configuration; non-trivial = a "
        "non-terminal row with gamma > 0, and for delayed updates a batch on either side of the period")


class Actor(torch.nn.Module):
    def __init__(self, wa, wl):
        super().__init__()
        self.wa, self.wl = torch.nn.Parameter(T(wa)), torch.nn.Parameter(T(wl))

    def forward(self, state):
        import reagent.types as rlt

        pre = state.float_features @ self.wa
        return rlt.ActorOutput(action=torch.tanh(pre), log_prob=state.float_features @ self.wl,
                               squashed_mean=torch.tanh(pre * 0.5))

    def get_log_prob(self, state, action):
        return state.float_features @ self.wl + action.sum(1, keepdim=True)


@st.composite
def base(draw, min_b=1):
    rng = rng_of(draw)
    b, s, d = draw(st.integers(min_b, 4)), draw(st.integers(1, 3)), draw(st.integers(1, 3))
    return rng, dict(
        b=b, s=s, d=d, state=arr(rng, (b, s)), next_state=arr(rng, (b, s)), action=arr(rng, (b, d), -1, 1),
        reward=arr(rng, (b, 1)), not_terminal=draw(st.lists(st.integers(0, 1), min_size=b, max_size=b)),
        q1=arr(rng, (s, d)), q2=arr(rng, (s, d)) if draw(st.booleans()) else None,
        q1t=arr(rng, (s, d)), q2t=arr(rng, (s, d)), wa=arr(rng, (s, d), -1, 1), wat=arr(rng, (s, d), -1, 1),
        wl=arr(rng, (s, 1)), gamma=draw(st.sampled_from([0.0, 0.5, 0.9, 1.0])), batch_idx=draw(st.integers(0, 7)),
    )


@st.composite
def sac_cases(draw):
    rng, c = draw(base())
    value = draw(st.booleans())
    if not value:
        c["q2"] = c["q2"] or arr(rng, (c["s"], c["d"]))  # without a value net both Q networks are required
    c.update(
        value=arr(rng, (c["s"], 1)) if value else None, valuet=arr(rng, (c["s"], 1)),
        temp=draw(st.sampled_from([0.01, 0.1, 1.0, 2.5])), alpha=draw(st.booleans()),
        te=draw(st.sampled_from([-3.0, -1.0, 0.5])), uniform=draw(st.booleans()), backprop=draw(st.booleans()),
        crr=draw(st.sampled_from([None, {"exponent_beta": 1.0}, {"exponent_beta": 0.5, "exponent_clamp": 2.0},
                                  {"indicator_fn_threshold": 0.25}])) if value else None,
        kld=draw(st.sampled_from([None, 0.5, 2.0])) if c["b"] > 1 else None, kld_mean=draw(st.booleans()),
        em=arr(rng, c["d"], -1, 1), ev=arr(rng, c["d"], 0.2, 2), alpha_step=round(float(rng.uniform(-0.5, 0.5)), 2),
    )
    if c["crr"]:
        c["backprop"] = True  # otherwise nothing is left to train the actor with
    return c


def _batch(c):
    import reagent.types as rlt

    return rlt.PolicyNetworkInput(
        state=rlt.FeatureData(T(c["state"])), next_state=rlt.FeatureData(T(c["next_state"])), reward=T(c["reward"]),
        time_diff=torch.ones(c["b"], 1), step=None, not_terminal=T(c["not_terminal"]).reshape(-1, 1),
        action=rlt.FeatureData(T(c["action"])), next_action=rlt.FeatureData(torch.zeros(c["b"], c["d"])),
        extras=rlt.ExtraData())


def sac_trainer(c):
    from reagent.optimizer import Optimizer__Union
    from reagent.parameters import RLParameters
    from reagent.training.sac_trainer import CRRWeightFn, SACTrainer

    tr = SACTrainer(
        Actor(c["wa"], c["wl"]), nets.Bil(c["q1"]), nets.Bil(c["q2"]) if c["q2"] else None,
        nets.Lin(c["value"], raw=True) if c["value"] else None, rl=RLParameters(gamma=c["gamma"]),
        alpha_optimizer=Optimizer__Union.default() if c["alpha"] else None, entropy_temperature=c["temp"],
        logged_action_uniform_prior=c["uniform"], target_entropy=c["te"], action_embedding_kld_weight=c["kld"],
        apply_kld_on_mean=c["kld_mean"], action_embedding_mean=c["em"], action_embedding_variance=c["ev"],
        crr_config=CRRWeightFn(**c["crr"]) if c["crr"] else None, backprop_through_log_prob=c["backprop"])
    with torch.no_grad():
        if c["value"]:
            tr.value_network_target.w.copy_(T(c["valuet"]))
        else:
            tr.q1_network_target.w.copy_(T(c["q1t"]))
            tr.q2_network_target.w.copy_(T(c["q2t"]))
    return tr, nets.instrument(tr)


@facet(sac_cases(), quick=700, shards=4)
def sac(case, rec):
    c = case
    tr, cap = sac_trainer(c)
    batch = _batch(c)
    before = nets.snapshot(batch)
    gen = tr.train_step_gen(batch, c["batch_idx"])
    D = lambda k: torch.tensor(c[k], dtype=torch.float64)  # noqa: E731
    s, ns, a, r = D("state"), D("next_state"), D("action"), D("reward")
    nt = D("not_terminal").reshape(-1, 1)
    q = lambda k, x, y: ((x @ D(k)) * y).sum(1, keepdim=True)  # noqa: E731
    if c["value"]:
        nv = ns @ D("valuet")
    else:
        na = torch.tanh(ns @ D("wa"))
        nv = torch.min(q("q1t", ns, na), q("q2t", ns, na))
        nv = nv - c["temp"] * (ns @ D("wl") + na.sum(1, keepdim=True)).clamp(-20, 20)
    target = r + c["gamma"] * nv * nt
    for k in ("q1", "q2") if c["q2"] else ("q1",):
        loss = next(gen)
        qv = q(k, s, a)
        close(loss, float(((qv - target) ** 2).mean()), f"{k} loss", rtol=2e-3, atol=2e-3)
        net = tr.q1_network if k == "q1" else tr.q2_network
        g = torch.autograd.grad(loss, net.w, retain_graph=True)[0]
        close(g, s.t() @ ((2 * (qv - target) / c["b"]) * a), f"gradient of the {k} loss", rtol=3e-3, atol=3e-3)
    # actor
    wa, wl = D("wa").requires_grad_(), D("wl").requires_grad_()
    act, lp = torch.tanh(s @ wa), s @ wl
    q1v = q("q1", s, act)
    mq = torch.min(q1v, q("q2", s, act)) if c["q2"] else q1v
    if c["q2"] and bool(((q1v - q("q2", s, act)).abs() < 1e-4).any()):
        raise Inconclusive("Q tie")
    lpa = lp if c["backprop"] else lp.detach()
    if c["crr"]:
        adv = (mq - s @ D("value")).detach()
        if "exponent_beta" in c["crr"]:
            wgt = (adv / c["crr"]["exponent_beta"]).exp()
            if "exponent_clamp" in c["crr"]:
                wgt = wgt.clamp(0, c["crr"]["exponent_clamp"])
        else:
            if bool(((adv - 0.25).abs() < 1e-4).any()):
                raise Inconclusive("threshold")
            wgt = (adv >= 0.25).double()
        al = -(lpa * wgt).mean()
    else:
        al = (c["temp"] * lpa - mq).mean()
    if c["kld"]:
        y = torch.tanh(0.5 * (s @ wa)) if c["kld_mean"] else act
        m, v = y.mean(0), y.var(0)
        if bool((v < 1e-4).any()):
            raise Inconclusive("no variance")
        al = al + c["kld"] * 0.5 * ((v + (m - D("em")) ** 2) / D("ev") - 1 + (D("ev") / v).log()).sum()
    loss = next(gen)
    close(loss, float(al.detach()), "actor loss", rtol=3e-3, atol=3e-3)
    eg = torch.autograd.grad(al, [wa, wl], allow_unused=True)
    ag = torch.autograd.grad(loss, [tr.actor_network.wa, tr.actor_network.wl], retain_graph=True, allow_unused=True)
    for n, x, y in zip(("action", "log-probability"), ag, eg):
        close(torch.zeros(1) if x is None else x, torch.zeros(1) if y is None else y,
              f"actor gradient through the {n}", rtol=1e-2, atol=1e-2)
    temp = c["temp"]
    if c["alpha"]:
        loss = next(gen)
        lpm = (lp.detach() + c["te"]).mean()
        close(loss, -np.log(c["temp"]) * float(lpm), "alpha loss", rtol=2e-3, atol=2e-3)
        g = torch.autograd.grad(loss, tr.log_alpha)[0]
        close(g, [-float(lpm)], "alpha gradient", rtol=2e-3, atol=2e-3)
        with torch.no_grad():
            tr.log_alpha += c["alpha_step"]
        temp = c["temp"] * float(np.exp(c["alpha_step"]))
    if c["value"]:
        loss = next(gen)
        tv = mq.detach()
        if not c["uniform"]:
            tv = tv - temp * lp.detach().clamp(-20, 20)
        v = s @ D("value")
        close(loss, float(((v - tv) ** 2).mean()), "value loss", rtol=3e-3, atol=3e-3)
        g = torch.autograd.grad(loss, [tr.value_network.w, tr.actor_network.wa], allow_unused=True, retain_graph=True)
        close(g[0], s.t() @ (2 * (v - tv) / c["b"]), "gradient of the value loss", rtol=3e-3, atol=3e-3)
        require(g[1] is None, "the value loss trains the actor")
    rest = list(gen)
    equal(len(rest), 1, "losses left for the soft update")
    if c["alpha"]:
        close(tr.entropy_temperature, [temp], "entropy temperature for the next batch", rtol=1e-3)
    equal(nets.snapshot(batch), before, "training batch changed by a training step")
    rec.nt(any(c["not_terminal"]) and c["gamma"] > 0)
    rec.label("value" if c["value"] else "no-value", "q2" if c["q2"] else "q1", "crr" if c["crr"] else "sac",
              "alpha" if c["alpha"] else "fixed")


@st.composite
def td3_cases(draw):
    _, c = draw(base())
    c.update(noise=draw(st.sampled_from([0.0, 0.2, 3.0])), clip=draw(st.sampled_from([0.0, 0.1, 0.5, 3.0])),
             delay=draw(st.integers(1, 4)), scale=draw(st.sampled_from([1.0, 5.0])))
    return c


class Spy(torch.nn.Module):
    def __init__(self, net):
        super().__init__()
        self.net, self.seen = net, []

    def forward(self, state, action):
        self.seen.append((state.float_features.detach().clone(), action.float_features.detach().clone()))
        return self.net(state, action)


@facet(td3_cases(), quick=600, shards=3)
def td3(case, rec):
    from reagent.parameters import RLParameters
    from reagent.training.td3_trainer import TD3Trainer

    c = case
    tr = TD3Trainer(Actor(c["wa"], c["wl"]), nets.Bil(c["q1"]), nets.Bil(c["q2"]) if c["q2"] else None,
                    rl=RLParameters(gamma=c["gamma"]), noise_variance=c["noise"], noise_clip=c["clip"],
                    delayed_policy_update=c["delay"])
    D = lambda k: np.array(c[k], float)  # noqa: E731
    wat = D("wat") * c["scale"]
    with torch.no_grad():
        tr.actor_network_target.wa.copy_(T(wat))
        tr.q1_network_target.w.copy_(T(c["q1t"]))
        if c["q2"]:
            tr.q2_network_target.w.copy_(T(c["q2t"]))
    spies = [Spy(tr.q1_network_target)]
    tr.q1_network_target = spies[0]
    if c["q2"]:
        spies.append(Spy(tr.q2_network_target))
        tr.q2_network_target = spies[1]
    nets.instrument(tr)
    batch = _batch(c)
    before = nets.snapshot(batch)
    gen = tr.train_step_gen(batch, c["batch_idx"])
    l1 = next(gen)
    mean = np.tanh(D("next_state") @ wat)
    require(all(x.seen for x in spies), "a target critic is not consulted")
    na = spies[0].seen[-1][1].double().numpy()
    close(spies[0].seen[-1][0], D("next_state"), "state given to the target critic")
    if c["q2"]:
        close(spies[1].seen[-1][1], na, "both target critics judge the same action", rtol=0, atol=0)
    require((np.abs(na) <= 1).all(), f"target action {na.tolist()} outside the action range")
    require((np.abs(na - mean) <= c["clip"] + 1e-5).all(), "target smoothing noise larger than its clip")
    if c["noise"] == 0 or c["clip"] == 0:
        close(na, mean, "target action without noise")
    elif (np.abs(mean) < 0.9).any():
        require((np.abs(na - mean)[np.abs(mean) < 0.9] > 1e-6).any(), "no target smoothing noise")
    q = lambda k, x, y: ((x @ D(k)) * y).sum(1, keepdims=True)  # noqa: E731
    nv = q("q1t", D("next_state"), na)
    if c["q2"]:
        nv = np.minimum(nv, q("q2t", D("next_state"), na))
    target = D("reward") + c["gamma"] * nv * D("not_terminal").reshape(-1, 1)
    s, a = D("state"), D("action")
    losses = [l1] + ([next(gen)] if c["q2"] else [])
    for k, loss, net in zip(("q1", "q2"), losses, (tr.q1_network, tr.q2_network)):
        qv = q(k, s, a)
        close(loss, nets.mse(qv, target), f"{k} loss", rtol=2e-3, atol=2e-3)
        close(torch.autograd.grad(loss, net.w)[0], s.T @ (2 * (qv - target) / c["b"] * a), f"{k} gradient",
              rtol=3e-3, atol=3e-3)
    al = next(gen)
    su = next(gen)
    require(next(gen, "end") == "end", "too many losses")
    if c["batch_idx"] % c["delay"]:
        require(al is None and su is None, "actor or targets updated between delayed updates")
    else:
        require(al is not None and su is not None, "actor or targets not updated when due")
        wa = torch.tensor(c["wa"], dtype=torch.float64, requires_grad=True)
        ts = torch.tensor(s)
        exp = -((ts @ torch.tensor(D("q1"))) * torch.tanh(ts @ wa)).sum(1).mean()
        close(al, float(exp.detach()), "actor loss", rtol=2e-3, atol=2e-3)
        close(torch.autograd.grad(al, tr.actor_network.wa)[0], torch.autograd.grad(exp, wa)[0], "actor gradient",
              rtol=3e-3, atol=3e-3)
    equal(nets.snapshot(batch), before, "training batch changed by a training step")
    rec.nt(any(c["not_terminal"]) and c["gamma"] > 0)
    rec.label("update" if c["batch_idx"] % c["delay"] == 0 else "skip", "noise" if c["noise"] * c["clip"] else "none")


@st.composite
def noise_cases(draw):
    return dict(sd=draw(st.sampled_from([0.05, 0.1, 0.2])), clip=draw(st.sampled_from([1.0, 5.0])),
                dim=draw(st.integers(1, 2)), seed=draw(st.integers(0, 10 ** 6)), twin=draw(st.booleans()))


@facet(noise_cases(), quick=60, shards=1)
def td3_noise_is_normal_with_the_given_spread(case, rec):
    import reagent.types as rlt
    from reagent.parameters import RLParameters
    from reagent.training.td3_trainer import TD3Trainer

    c, n = case, 1500
    torch.manual_seed(c["seed"])
    z = np.zeros((1, c["dim"])).tolist()
    tr = TD3Trainer(Actor(z, z), nets.Bil(z), nets.Bil(z) if c["twin"] else None, rl=RLParameters(gamma=0.9),
                    noise_variance=c["sd"], noise_clip=c["clip"], delayed_policy_update=1)
    spy = Spy(tr.q1_network_target)
    tr.q1_network_target = spy
    nets.instrument(tr)
    fd = rlt.FeatureData(torch.ones(n, 1))
    one = torch.ones(n, 1)
    next(tr.train_step_gen(rlt.PolicyNetworkInput(
        state=fd, next_state=fd, reward=one, time_diff=one, step=None, not_terminal=one,
        action=rlt.FeatureData(torch.zeros(n, c["dim"])), next_action=rlt.FeatureData(torch.zeros(n, c["dim"])),
        extras=rlt.ExtraData()), 0))
    x = spy.seen[-1][1].double().numpy()
    for d in range(c["dim"]):
        v = x[:, d]
        require(abs(v.mean()) < 7 * c["sd"] / np.sqrt(n), f"mean of the target noise: {v.mean()}")
        require(abs(v.std() / c["sd"] - 1) < 7 / np.sqrt(2 * n), f"spread of the target noise {v.std()}, not {c['sd']}")
        require(abs((np.abs(v) < c["sd"]).mean() - 0.6827) < 7 * np.sqrt(0.6827 * 0.3173 / n),
                "target noise is not normally distributed")
    if c["dim"] == 2:
        require(abs(np.corrcoef(x.T)[0, 1]) < 7 / np.sqrt(n), "target noise shared between action dimensions")
    rec.nt()


@st.composite
def crr_cases(draw):
    c = draw(nets.discrete_batch(metrics=draw(st.integers(0, 1))))
    rng = rng_of(draw)
    m = lambda lo=-2, hi=2: arr(rng, (c["s"], c["a"]), lo, hi)  # noqa: E731
    n = (1 + (len(c["metrics"][0]) if c["metrics"] else 0)) * c["a"]
    c.update(rl=draw(nets.rl_params(actions=c["a"])), q1=m(), q2=m() if draw(st.booleans()) else None, q1t=m(),
             q2t=m(), wa=m(-1, 1), wat=m(-1, 1), target_actor=draw(st.booleans()), delay=draw(st.integers(1, 3)),
             batch_idx=draw(st.integers(0, 6)), cpe=draw(st.booleans()), wr=arr(rng, (c["s"], n)),
             wc=arr(rng, (c["s"], n)), wct=arr(rng, (c["s"], n)), nm=n // c["a"] - 1)
    c["rl"].pop("use_seq_num_diff_as_time_diff", None)
    c["rl"].pop("multi_steps", None)  # this trainer always discounts by gamma
    return c


class Logits(torch.nn.Module):
    def __init__(self, w):
        super().__init__()
        self.w = torch.nn.Parameter(T(w))

    def forward(self, state):
        import reagent.types as rlt

        return rlt.ActorOutput(action=state.float_features @ self.w)


def crr_trainer(c):
    from reagent.parameters import EvaluationParameters, RLParameters
    from reagent.training.discrete_crr_trainer import DiscreteCRRTrainer

    tr = DiscreteCRRTrainer(
        Logits(c["wa"]), nets.Lin(c["q1"]), nets.Lin(c["wr"]) if c["cpe"] else None,
        q2_network=nets.Lin(c["q2"]) if c["q2"] else None,
        q_network_cpe=nets.Lin(c["wc"]) if c["cpe"] else None,
        q_network_cpe_target=nets.Lin(c["wct"]) if c["cpe"] else None,
        metrics_to_score=[f"m{i}" for i in range(c["nm"])],
        evaluation=EvaluationParameters(calc_cpe_in_training=c["cpe"]), rl=RLParameters(**c["rl"]),
        use_target_actor=c["target_actor"], actions=[f"a{i}" for i in range(c["a"])],
        delayed_policy_update=c["delay"])
    with torch.no_grad():
        tr.actor_network_target.w.copy_(T(c["wat"]))
        tr.q1_network_target.w.copy_(T(c["q1t"]))
        if c["q2"]:
            tr.q2_network_target.w.copy_(T(c["q2t"]))
    return tr, nets.instrument(tr)


@facet(crr_cases(), quick=600, shards=3)
def discrete_crr(case, rec):
    c, rl = case, case["rl"]
    tr, cap = crr_trainer(c)
    batch = nets.build_discrete(c)
    before = nets.snapshot(batch)
    losses = list(tr.train_step_gen(batch, c["batch_idx"]))
    equal(len(losses), len(tr.configure_optimizers()), "one loss per optimizer")
    equal(nets.snapshot(batch), before, "training batch changed by a training step")
    D = lambda k: np.array(c[k], float)  # noqa: E731
    x, nx, ri = D("state"), D("next_state"), np.arange(c["b"])
    one = np.ones((c["b"], c["a"]))
    pi = nets.softmax_masked(nx @ D("wat" if c["target_actor"] else "wa"), one, 1.0)
    nv = ((nx @ D("q1t")) * pi).sum(1, keepdims=True)
    if c["q2"]:
        nv = np.minimum(nv, ((nx @ D("q2t")) * pi).sum(1, keepdims=True))
    target = nets.boosted(rl, c) + rl["gamma"] * nv * D("not_terminal").reshape(-1, 1)
    it = iter(losses)
    for k in ("q1", "q2") if c["q2"] else ("q1",):
        qv = (x @ D(k))[ri, c["action"]].reshape(-1, 1)
        close(next(it), nets.mse(qv, target), f"{k} loss", rtol=2e-3, atol=2e-3)
    al = next(it)
    update = c["batch_idx"] % c["delay"] == 0
    if update:
        q = x @ D("q1")
        p = nets.softmax_masked(x @ D("wa"), one, 1.0)
        adv = (q - (q * p).sum(1, keepdims=True))[ri, c["action"]]
        w = np.minimum(np.exp(adv), 20.0)
        require(al is not None, "actor not updated when due")
        close(al, (-np.log(p[ri, c["action"]]) * w).mean(), "actor loss", rtol=3e-3, atol=3e-3)
        g = torch.autograd.grad(al, [tr.actor_network.w, tr.q1_network.w], allow_unused=True, retain_graph=True)
        close(g[0], x.T @ ((p - nets.onehot(c["action"], c["a"])) * w.reshape(-1, 1)) / c["b"], "actor gradient",
              rtol=5e-3, atol=5e-3)
        require(g[1] is None or not bool(g[1].abs().sum()), "the actor loss trains the critic")
    else:
        require(al is None, "actor updated between delayed updates")
    if c["cpe"]:
        real = D("reward")
        if c["metrics"] is not None:
            real = np.concatenate([real, D("metrics")], 1)
        k = real.shape[1]
        pred = (x @ D("wr")).reshape(c["b"], k, c["a"])[ri, :, c["action"]]
        close(next(it), nets.mse(pred, real), "reward network loss", rtol=2e-3, atol=2e-3)
        require(next(it) is not None, "no metric network loss")
    su = next(it)
    require((su is not None) == update, "target networks updated exactly when the policy is")
    close(cap.values["td_loss"], float(losses[0].detach()), "reported td loss")
    rec.nt(any(c["not_terminal"]) and rl["gamma"] > 0)
    rec.label("update" if update else "skip", "cpe" if c["cpe"] else "no-cpe", "q2" if c["q2"] else "q1")


@facet(st.builds(lambda i, b, k: dict(i=i, b=b, k=k), st.sampled_from([None, 0.5]),
                 st.sampled_from([None, 1.0, 1e-9]), st.sampled_from([None, 2.0, 1e-9])), quick=60, shards=1)
def crr_weight_configuration(case, rec):
    from reagent.training.sac_trainer import CRRWeightFn

    mk = lambda: CRRWeightFn(indicator_fn_threshold=case["i"], exponent_beta=case["b"], exponent_clamp=case["k"])  # noqa
    if (case["i"] is None) == (case["b"] is None) or case["b"] == 1e-9 or case["k"] == 1e-9:
        raises(AssertionError, mk, "CRR weight configuration that is ambiguous, empty or degenerate")
        rec.nt()
    else:
        mk()
