"""Actors: actions stay in range and log-probabilities are those of the actions."""
import math

import numpy as np
import torch
from hypothesis import strategies as st
from torch import nn

from models import mlp, norm
from models.nets import T, arr, rng_of
from vlib.core import close, equal, facet, require, same

RULE = "a case is an actor with explicit weights and a batch of states; non-trivial = two or more rows and two or more action dimensions"
TOL = dict(rtol=3e-3, atol=3e-3)
LIM = 1 - 1e-6


def FD(x):
    from reagent import types as rlt

    return rlt.FeatureData(T(x))


@st.composite
def cases(draw, bn=True):
    rng = rng_of(draw)
    n = draw(st.integers(0, 2))
    i, a, b = draw(st.integers(1, 4)), draw(st.integers(1, 4)), draw(st.integers(1, 5))
    at = np.round(rng.uniform(-0.999, 0.999, (b, a)), 3)
    at = np.where(rng.rand(b, a) < 0.15, np.sign(at) * rng.choice([0.998, 0.999, 0.9995], (b, a)), at)
    return dict(sizes=draw(st.lists(st.integers(1, 5), min_size=n, max_size=n)), acts=draw(st.lists(st.sampled_from(mlp.ACTS), min_size=n, max_size=n)), i=i, a=a,
                x=arr(rng, (b, i)), bn=draw(st.booleans()) and bn, ln=draw(st.booleans()), l2=draw(st.integers(0, 3)) == 0, seed=draw(st.integers(0, 10**6)),
                gain=draw(st.sampled_from([1.0, 1.0, 4.0, 30.0])), via=draw(st.booleans()), var=draw(st.sampled_from([None, 0.1, 0.7, 2.0])),
                out=draw(st.sampled_from(["tanh", "linear", "sigmoid"])), train=draw(st.booleans()), at=at.tolist(), scales=np.round(rng.choice([-40.0, -21.0, -19.0, -12.0, -8.0, -4.0, 0.0, 1.5, 2.5, 9.0], a) + rng.uniform(-0.4, 0.4, a), 2).tolist(),
                p=np.round(rng.dirichlet([2.0] * a, b), 4).tolist(), ts=draw(st.integers(0, 10**6)))


def wide(c):
    return len(c["x"]) > 1 and c["a"] > 1


def data(n, types="DO_NOT_PREPROCESS"):
    from reagent.parameters import NormalizationData

    return NormalizationData(dense_normalization_parameters=norm.params([[k, dict(feature_type=types)] for k in range(n)]))


def gaussian(c):
    from reagent.models.actor import GaussianFullyConnectedActor
    from reagent.net_builder.continuous_actor.gaussian_fully_connected import GaussianFullyConnected

    kw = dict(sizes=list(c["sizes"]), activations=list(c["acts"]), use_batch_norm=c["bn"], use_layer_norm=c["ln"], use_l2_normalization=c["l2"])
    if c["via"]:
        b = GaussianFullyConnected(**kw)
        equal(b.default_action_preprocessing, "CONTINUOUS_ACTION", "actions are rescaled")
        net = b.build_actor(data(c["i"]), data(c["a"]))
    else:
        net = GaussianFullyConnectedActor(state_dim=c["i"], action_dim=c["a"], **kw)
    mlp.fill(net, c["seed"])
    last = mlp.leaves(net, nn.Linear)[-1]
    with torch.no_grad():
        last.weight.mul_(c["gain"])
    return net.eval()


def loc_scale(net, c):
    acts = c["acts"] + ["linear"]
    lns = mlp.leaves(net, nn.LayerNorm)
    equal(len(lns), len(c["sizes"]) + 2 if c["ln"] else 0, "layer norms")
    y = mlp.forward(net, c["x"], acts, bn=c["bn"], ln=c["ln"])
    loc, ls = y[:, :c["a"]], y[:, c["a"]:]
    if c["ln"]:
        mods = dict(net.named_modules())
        a, b = mods.get("loc_layer_norm", lns[-2]), mods.get("scale_layer_norm", lns[-1])
        loc, ls = mlp.norm_layer(a, loc), mlp.norm_layer(b, ls)
    return loc, np.clip(ls, -20, 2)


def squash(x, l2):
    y = np.clip(np.tanh(x), -LIM, LIM)
    return y / np.sqrt((y**2).sum(1, keepdims=True)) if l2 else y


def log_density(a, loc, ls):
    raw = np.arctanh(np.asarray(a, dtype=np.float64))
    r = (raw - loc) / np.exp(ls)
    return (-r**2 / 2 - ls - 0.5 * math.log(2 * math.pi) - np.log(1 - np.asarray(a, dtype=np.float64)**2 + 1e-6)).sum(1, keepdims=True)


def well(c, net, loc, ls):
    """Rows where float32 leaves the log-density meaningful"""
    return (np.exp(ls) > 0.02).all(1)


@facet(cases(), quick=250, shards=4)
def gaussian_actor(case, rec):
    """Squashed Gaussian: mean and deviation from the network, actions in (-1, 1), log-density of any action, and of the sampled one"""
    c = case
    net = gaussian(c)
    loc, ls = loc_scale(net, c)
    torch.manual_seed(c["ts"])
    out = net(FD(c["x"]))
    a = mlp.n64(out.action)
    equal(list(out.action.shape), [len(c["x"]), c["a"]], "an action per row")
    equal(list(out.log_prob.shape), [len(c["x"]), 1], "a log probability per row")
    mean = squash(loc, c["l2"])
    close(out.squashed_mean, mean, "squashed mean", rtol=1e-2, atol=1e-2)
    if c["l2"]:
        close((a**2).sum(1), np.ones(len(a)), "actions of unit length", **TOL)
        rec.label("l2")
        return
    require((np.abs(a) < 1).all(), "actions stay inside (-1, 1)")
    ok = well(c, net, loc, ls)
    got = net.get_log_prob(FD(c["x"]), T(c["at"]))
    want = log_density(c["at"], loc, ls)
    for i in range(len(a)):
        if ok[i]:
            close(got[i], want[i], "log-density of an action", rtol=2e-2, atol=2e-2)
    again = net.get_log_prob(FD(c["x"]), out.action)
    for i in range(len(a)):
        if ok[i] and np.abs(a[i]).max() < 0.999:
            close(again[i], out.log_prob[i], "log-probability of the sampled action", rtol=2e-2, atol=2e-2)
    require(bool(torch.isfinite(out.log_prob).all()), "log-probabilities are finite")
    torch.manual_seed(c["ts"])
    same(net(FD(c["x"])).action, out.action, "same random numbers, same action")
    rec.nt(wide(c))
    rec.label("saturated" if np.abs(a).max() > 0.99999 else "inside")


@facet(cases(), quick=60, shards=1)
def gaussian_scales(case, rec):
    """Deviations from exp(-20) to exp(2) and no others: the density at the mean is as high as the deviation is small"""
    c = dict(case, ln=False, l2=False)
    net = gaussian(c)
    last = mlp.leaves(net, nn.Linear)[-1]
    with torch.no_grad():
        last.weight.zero_()
        last.bias.copy_(T([0.0] * c["a"] + c["scales"]))
    got = net.get_log_prob(FD(c["x"]), torch.zeros(len(c["x"]), c["a"]))
    ls = np.clip(c["scales"], -20, 2)
    close(got, [[-(ls + 0.5 * math.log(2 * math.pi)).sum()]] * len(c["x"]), "log-density at the mean", **TOL)
    torch.manual_seed(c["ts"])
    many = mlp.n64(net(FD([c["x"][0]] * 500)).action)
    for d, s in enumerate(ls):
        if s < -1:
            sd = math.exp(s)
            require(0.7 < np.sqrt((many[:, d] ** 2).mean()) / sd < 1.4, "deviation of the samples %g, expected %g", many[:, d].std(), sd)
    rec.nt(wide(c))


@facet(cases(), quick=40, shards=4)
def gaussian_samples(case, rec):
    """Sampled actions have the distribution the log-density claims; gradients reach mean and deviation through the sample"""
    c = dict(case, l2=False, gain=1.0, x=case["x"][:1])
    net = gaussian(c)
    loc, ls = loc_scale(net, c)
    n = 4000
    torch.manual_seed(c["ts"])
    out = net(FD([c["x"][0]] * n))
    a = mlp.n64(out.action)
    use = np.abs(a) < 0.9999
    r = (np.arctanh(np.where(use, a, 0)) - loc) / np.exp(ls)
    for d in range(c["a"]):
        if (~use[:, d]).mean() > 0.001 or np.exp(ls[0, d]) < 0.02:
            rec.label("skipped dimension")
            continue
        z = r[use[:, d], d]
        require(abs(z.mean()) < 7 / math.sqrt(n), "mean %g", z.mean())
        require(abs(z.std() - 1) < 7 / math.sqrt(2 * n) + 0.02, "deviation %g", z.std())
        require(abs((z < 0.5).mean() - 0.6914625) < 7 * math.sqrt(0.2134 / n), "quantile")
        rec.nt()
    net.zero_grad()
    net(FD(c["x"])).action.sum().backward()
    last = mlp.leaves(net, nn.Linear)[-1]
    if not c["ln"]:
        g = mlp.n64(last.bias.grad)
        x1 = mlp.n64(net(FD(c["x"])).action)
        live = (np.exp(ls[0]) > 0.02) & (ls[0] < 2) & (np.abs(np.tanh(loc[0])) < 0.9)
        require((g[:c["a"]][live] != 0).all() and (g[c["a"]:][live & (ls[0] > -3)] != 0).all() or np.abs(x1).max() > 0.999, "gradients through the sample")


@facet(cases(), quick=250, shards=3)
def plain_actor(case, rec):
    """Deterministic actors with optional clamped Gaussian exploration, and the log-probability of that noise"""
    from reagent.models.actor import FullyConnectedActor
    from reagent.net_builder.continuous_actor.fully_connected import FullyConnected
    from reagent.net_builder.discrete_actor.fully_connected import FullyConnected as Discrete

    c = case
    kw = dict(sizes=list(c["sizes"]), activations=list(c["acts"]), use_batch_norm=c["bn"], action_activation=c["out"], exploration_variance=c["var"])
    ln = c["ln"] and c["via"]
    if c["via"] and c["l2"]:
        net = Discrete(use_layer_norm=ln, **kw).build_actor(data(c["i"]), c["a"])
    elif c["via"]:
        b = FullyConnected(use_layer_norm=ln, **kw)
        equal(b.default_action_preprocessing, "CONTINUOUS_ACTION", "actions are rescaled")
        net = b.build_actor(data(c["i"]), data(c["a"]))
    else:
        net = FullyConnectedActor(c["i"], c["a"], **kw)
    mlp.fill(net, c["seed"]).eval()
    equal(mlp.shape(net)["ln"], list(c["sizes"]) if ln else [], "layer norms")
    want = mlp.forward(net, c["x"], c["acts"] + [c["out"]], bn=c["bn"], ln=ln)
    torch.manual_seed(c["ts"])
    out = net(FD(c["x"]))
    equal(list(out.log_prob.shape), [len(c["x"]), 1], "a log probability per row")
    equal([list(net.input_prototype().float_features.shape)], [[1, c["i"]]], "prototype")
    if c["var"] is None:
        close(out.action, want, "action", **TOL)
        same(out.log_prob, torch.zeros(len(c["x"]), 1), "nothing is random")
    else:
        a = mlp.n64(out.action)
        require((np.abs(a) <= 1).all(), "explored actions stay within the training range")
        noise = a - want
        inside = np.abs(a) < 0.99999
        if inside.all():
            sd = c["var"]
            lp = (-(noise / sd)**2 / 2 - math.log(sd) - 0.5 * math.log(2 * math.pi)).sum(1, keepdims=True)
            close(out.log_prob, lp, "log-probability of the noise", rtol=5e-2, atol=5e-2)
            rec.label("noise inside")
        n = 3000
        torch.manual_seed(c["ts"])
        many = mlp.n64(net(FD([c["x"][0]] * n)).action)
        for d in range(c["a"]):
            m = want[0, d]
            k = (many[:, d] > m).mean()
            if abs(m) < 0.97:
                require(abs(k - 0.5) < 7 * 0.5 / math.sqrt(n), "noise is centred")
                lo, hi = m - c["var"], m + c["var"]
                if hi < 0.99:
                    require(abs((many[:, d] > hi).mean() - 0.158655) < 7 * math.sqrt(0.1335 / n), "noise deviation above")
                if lo > -0.99:
                    require(abs((many[:, d] < lo).mean() - 0.158655) < 7 * math.sqrt(0.1335 / n), "noise deviation below")
        if c["a"] > 1:
            z = [many[:, d] - many[:, d].mean() for d in range(2)]
            if z[0].std() > 1e-3 and z[1].std() > 1e-3:
                require(abs((z[0] * z[1]).mean() / z[0].std() / z[1].std()) < 7 / math.sqrt(n), "dimensions are explored independently")
    rec.nt(wide(c))
    rec.label("noise" if c["var"] else "plain")


@facet(cases(), quick=200, shards=3)
def dirichlet_actor(case, rec):
    """Dirichlet actors: actions on the simplex, with the concentration the network gives and its log-density"""
    from scipy.special import gammaln

    from reagent.models.actor import DirichletFullyConnectedActor
    from reagent.net_builder.continuous_actor.dirichlet_fully_connected import DirichletFullyConnected

    c = case
    kw = dict(sizes=list(c["sizes"]), activations=list(c["acts"]), use_batch_norm=c["bn"])
    if c["via"]:
        b = DirichletFullyConnected(**kw)
        equal(b.default_action_preprocessing, "DO_NOT_PREPROCESS", "actions are not rescaled")
        net = b.build_actor(data(c["i"]), data(c["a"]))
    else:
        net = DirichletFullyConnectedActor(c["i"], c["a"], **kw)
    mlp.fill(net, c["seed"])
    net.train(c["train"])
    if c["train"] and c["bn"]:
        net.eval()
    alpha = np.exp(mlp.forward(net, c["x"], c["acts"] + ["linear"], bn=c["bn"])) + 1e-6
    torch.manual_seed(c["ts"])
    out = net(FD(c["x"]))
    a = mlp.n64(out.action)
    close(a.sum(1), np.ones(len(a)), "actions sum to one", **TOL)
    require((a >= 0).all(), "actions are not negative")

    def density(p, al):
        return (gammaln(al.sum(1)) - gammaln(al).sum(1) + ((al - 1) * np.log(p)).sum(1))[:, None]

    p = np.array(c["p"]) + 1e-3
    p = p / p.sum(1, keepdims=True)
    got = net.get_log_prob(FD(c["x"]), T(p))
    require(not got.requires_grad, "log-densities of given actions carry no gradient")
    close(got, density(p, alpha), "log-density of an action", rtol=1e-2, atol=1e-2)
    if net.training:
        ok = (a > 1e-4).all(1)
        want = density(np.maximum(a, 1e-30), alpha)
        for i in np.nonzero(ok)[0]:
            close(out.log_prob[i], want[i], "log-density of the sampled action", rtol=2e-2, atol=5e-2)
        require(out.action.requires_grad, "samples carry gradients in training")
        equal(list(out.log_prob.shape), [len(a), 1], "shape")
    else:
        require(out.log_prob is None, "no log-probability in serving")
    n = 2000
    torch.manual_seed(c["ts"])
    many = mlp.n64(net(FD([c["x"][0]] * n)).action)
    al = (np.exp(mlp.forward(net, c["x"][:1], c["acts"] + ["linear"], bn=c["bn"])) + 1e-6)[0]
    m = al / al.sum()
    sd = np.sqrt(m * (1 - m) / (al.sum() + 1))
    require((np.abs(many.mean(0) - m) < 8 * sd / math.sqrt(n) + 1e-3).all(), "mean of the samples %s, expected %s", many.mean(0), m)
    if c["a"] > 1:
        require((np.abs(many.std(0) - sd) < 0.25 * sd + 5e-3).all(), "deviation of the samples %s, expected %s", many.std(0), sd)
    rec.nt(wide(c))
    rec.label("training" if net.training else "serving")


@facet(cases(), quick=80, shards=1)
def stochastic_actor(case, rec):
    """A scorer and a sampler together: what is sampled is sampled from the scores"""
    from reagent import types as rlt
    from reagent.models.actor import StochasticActor
    from reagent.models.dqn import FullyConnectedDQN

    c = case
    net = FullyConnectedDQN(c["i"], c["a"], list(c["sizes"]), list(c["acts"]))
    mlp.fill(net, c["seed"])
    seen = []

    class Sampler:
        def sample_action(self, scores, possible_actions_mask=None):
            require(possible_actions_mask is None, "no mask")
            seen.append(scores)
            return rlt.ActorOutput(action=scores * 2, log_prob=scores.sum(1, keepdim=True))

    actor = StochasticActor(net, Sampler())
    out = actor(FD(c["x"]))
    want = mlp.forward(net, c["x"], c["acts"] + ["linear"])
    close(out.action, want * 2, "sampled", **TOL)
    equal(len(seen), 1, "sampled once")
    net.zero_grad()
    out.log_prob.sum().backward()
    require(all(p.grad is not None for p in net.parameters()), "the log-probability's gradient reaches the scorer")
    last = mlp.leaves(net, nn.Linear)[-1]
    close(last.bias.grad, [float(len(c["x"]))] * c["a"], "gradient of the last biases", **TOL)
    equal(list(actor.input_prototype().float_features.shape), [1, c["i"]], "prototype")
    equal(sum(p.numel() for p in actor.parameters()), sum(p.numel() for p in net.parameters()), "the scorer's parameters are the actor's")
    rec.nt(wide(c))
