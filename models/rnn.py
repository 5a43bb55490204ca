"""LSTM re-implemented in numpy from its parameters, and seeded weights."""
import numpy as np
import torch


def sigm(x):
    return 1 / (1 + np.exp(-x))


def randomise(module, rng, scale=0.8):
    with torch.no_grad():
        for p in module.parameters():
            p.copy_(torch.tensor(np.round(rng.uniform(-scale, scale, tuple(p.shape)), 3), dtype=torch.float32))
    return module


def _w(t):
    return t.detach().double().numpy()


def lstm(m, x, h0, c0):
    """x: T,B,D ; h0,c0: L,B,H -> outputs T,B,H, final h, final c (L,B,H)"""
    hs, cs = [], []
    inp = np.asarray(x, float)
    for layer in range(m.num_layers):
        wi, wh = _w(getattr(m, f"weight_ih_l{layer}")), _w(getattr(m, f"weight_hh_l{layer}"))
        b = _w(getattr(m, f"bias_ih_l{layer}")) + _w(getattr(m, f"bias_hh_l{layer}"))
        h, c, out = np.asarray(h0[layer], float), np.asarray(c0[layer], float), []
        n = h.shape[1]
        for t in range(len(inp)):
            z = inp[t] @ wi.T + h @ wh.T + b
            i, f, g, o = sigm(z[:, :n]), sigm(z[:, n:2 * n]), np.tanh(z[:, 2 * n:3 * n]), sigm(z[:, 3 * n:])
            c = f * c + i * g
            h = o * np.tanh(c)
            out.append(h)
        inp = np.stack(out)
        hs.append(h)
        cs.append(c)
    return inp, np.stack(hs), np.stack(cs)


def linear(m, x):
    return np.asarray(x, float) @ _w(m.weight).T + _w(m.bias)
