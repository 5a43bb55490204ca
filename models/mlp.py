"""Feed-forward networks, recomputed in float64 from explicit parameters."""
import math

import numpy as np
import torch
from torch import nn

ACT = {"tanh": np.tanh, "relu": lambda x: np.maximum(x, 0), "leaky_relu": lambda x: np.where(x > 0, x, 0.01 * x), "linear": lambda x: x,
       "sigmoid": lambda x: 1 / (1 + np.exp(-x)), "Softplus": lambda x: np.log1p(np.exp(x)), "ELU": lambda x: np.where(x > 0, x, np.exp(x) - 1)}
ACTS = list(ACT)


def n64(t):
    return t.detach().cpu().double().numpy()


def fill(net, seed, lo=0.6):
    """Every parameter and running statistic becomes an explicit draw"""
    rng = np.random.RandomState(seed)
    with torch.no_grad():
        for m in net.modules():
            for k, p in m.named_parameters(recurse=False):
                if k == "bias":
                    v = rng.uniform(-0.5, 0.5, tuple(p.shape))
                elif isinstance(m, (nn.LayerNorm, nn.BatchNorm1d)):
                    v = rng.uniform(0.5, 1.5, tuple(p.shape)) * np.where(rng.rand(*p.shape) < 0.2, -1, 1)
                else:
                    v = rng.uniform(-1, 1, tuple(p.shape)) / math.sqrt(max(p[0].numel(), 1)) * 1.5
                p.copy_(torch.tensor(v))
            if isinstance(m, nn.BatchNorm1d):
                m.running_mean.copy_(torch.tensor(rng.uniform(-1, 1, m.running_mean.shape)))
                m.running_var.copy_(torch.tensor(rng.uniform(lo, 2, m.running_var.shape)))
    return net


def leaves(net, kind):
    return [m for m in net.modules() if isinstance(m, kind)]


def norm_layer(m, x):
    mu, var = x.mean(-1, keepdims=True), x.var(-1, keepdims=True)
    return (x - mu) / np.sqrt(var + m.eps) * n64(m.weight) + n64(m.bias)


def batch_norm(m, x, train, running):
    mu, var = (x.mean(0), x.var(0)) if train else running
    return (x - mu) / np.sqrt(var + m.eps) * n64(m.weight) + n64(m.bias)


def running(net):
    return [(n64(m.running_mean), n64(m.running_var)) for m in leaves(net, nn.BatchNorm1d)]


def forward(net, x, acts, bn=False, ln=False, out_ln=False, train=False, run=None):
    """batch norm, linear, layer norm, activation: layer by layer"""
    x = np.asarray(x, dtype=np.float64)
    lin, bns, lns = leaves(net, nn.Linear), leaves(net, nn.BatchNorm1d), leaves(net, nn.LayerNorm)
    run = run if run is not None else running(net)
    assert len(lin) == len(acts), "layers"
    for i, m in enumerate(lin):
        if bn:
            x = batch_norm(bns[i], x, train, run[i])
        x = x @ n64(m.weight).T + n64(m.bias)
        if ln and (out_ln or i < len(lin) - 1):
            x = norm_layer(lns[i], x)
        x = ACT[acts[i]](x)
    return x


def shape(net):
    """What a network is made of"""
    return dict(linear=[tuple(m.weight.shape) for m in leaves(net, nn.Linear)], bn=len(leaves(net, nn.BatchNorm1d)),
                ln=[m.weight.shape[0] for m in leaves(net, nn.LayerNorm)], drop=[m.p for m in leaves(net, nn.Dropout)])
