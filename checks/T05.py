"""Values of impossible actions never matter."""
import numpy as np
import torch
from hypothesis import strategies as st

from checks import T01, T02
from models import nets
from models.nets import arr, rng_of
from vlib.core import Inconclusive, close, facet, require

RULE = ("a case is a batch with at least one impossible next action in a non-terminal row, per-row Q tables, "
        "and a second table in which only the values of impossible actions differ (up to one million higher "
        "or lower); non-trivial = the impossible action would have been chosen without the mask")


@st.composite
def cases(draw, kind):
    c = draw(nets.discrete_batch(max_b=3, max_a=4, metrics=0))
    rng = rng_of(draw)
    n = draw(st.integers(2, 4)) if kind in ("qr", "c51") else 1
    b, a = c["b"], c["a"]
    c["s"] = 2 * b  # rows 0..b-1 are the states, b..2b-1 the next states
    eye = np.eye(2 * b)
    c.update(state=eye[:b].tolist(), next_state=eye[b:].tolist(), n=n, rl=draw(nets.rl_params(actions=a)),
             double=draw(st.booleans()), bcq=None, bcq_kind="torch", wi=arr(rng, (2 * b, a)), nm=0,
             qmin=-10.0, qmax=10.0)
    c["rl"]["maxq_learning"] = True
    c["rl"]["gamma"] = draw(st.sampled_from([0.5, 0.9, 1.0]))
    big = draw(st.sampled_from([10.0, 1e3, 1e6])) if kind != "c51" else 10.0
    for k in ("w", "wt", "wr", "wc", "wct"):
        t = np.array(arr(rng, (2 * b, a, n)))
        c[k] = t.reshape(2 * b, a * n).tolist()
        if k in ("w", "wt"):
            imp = np.array(c["mask"] + c["nmask"])[:, :, None] == 0
            c[k + "_x"] = np.where(imp, np.round(rng.uniform(-big, big, t.shape), 2), t).reshape(2 * b, a * n).tolist()
    return c


def _run(c, make, x):
    cc = dict(c, w=c["w_x"], wt=c["wt_x"]) if x else c
    tr, cap = make(cc)
    losses = list(tr.train_step_gen(nets.build_discrete(cc), 0))
    return tr, cap, losses


def _check(c, rec, make, n):
    _, cap1, l1 = _run(c, make, False)
    tr, cap2, l2 = _run(c, make, True)
    q, qt = (np.array(c[k]).reshape(-1, c["a"], c["n"]).mean(2)[c["b"]:] for k in ("w_x", "wt_x"))
    live = np.array(c["not_terminal"]) > 0
    m = np.array(c["nmask"])
    for k in ("w", "wt"):
        t = np.array(c[k]).reshape(-1, c["a"], c["n"]).mean(2)
        if nets.near_tie(t[c["b"]:][live], m[live]):
            raise Inconclusive("tie")
    for i in range(n):
        close(l2[i], float(l1[i].detach()), f"loss {i} after changing the values of impossible actions only",
              rtol=1e-3, atol=1e-3)
    sel = q if c["double"] else qt
    rec.nt(any(live[i] and not m[i][sel[i].argmax()] for i in range(c["b"])))
    pm = np.array(c["mask"])
    g = cap2.values["model_action_idxs"].reshape(-1).tolist()
    require(all(pm[i][g[i]] for i in range(c["b"])), f"reported greedy action {g} is impossible")
    return l1, l2, cap1, cap2


@facet(cases("dqn"), quick=500, shards=2)
def dqn(case, rec):
    l1, l2, c1, c2 = _check(case, rec, lambda c: T01._trainer(c, True), 3)
    p = c2.values["model_propensities"].numpy()
    require((p[np.array(case["mask"]) == 0] == 0).all(), "impossible action with a positive propensity")
    close(p.sum(1), np.ones(case["b"]), "propensities")


@facet(cases("qr"), quick=350, shards=2)
def qrdqn(case, rec):
    # the logged action is always possible, so the current estimate does not change either
    _check(case, rec, T02.qr_trainer, 1)


@facet(cases("c51"), quick=350, shards=2)
def c51(case, rec):
    # selection by expected value, as opposed to the mean used above
    sup = np.linspace(case["qmin"], case["qmax"], case["n"])
    live = np.array(case["not_terminal"]) > 0
    for k in ("w", "wt"):
        z = np.array(case[k]).reshape(-1, case["a"], case["n"])[case["b"]:]
        ev = (np.exp(T02._ls(z)) * sup).sum(2)
        if nets.near_tie(ev[live], np.array(case["nmask"])[live]):
            raise Inconclusive("tie")
    _check(case, rec, T02.c51_trainer, 1)


@st.composite
def pcases(draw):
    c = draw(T01.param_cases())
    c["rl"]["maxq_learning"] = True
    c["x"] = draw(st.sampled_from([-1e3, -7.0, 5.0, 1e3]))
    return c


@facet(pcases(), quick=350, shards=2)
def parametric(case, rec):
    c = case
    pna = np.array(c["pna"]).reshape(c["b"], c["n"], c["d"])
    m = np.array(c["nmask"])
    live = np.array(c["not_terminal"]) > 0
    q, qt = (np.einsum("bs,sd,bnd->bn", c["next_state"], c[k], pna) for k in ("w", "wt"))
    if nets.near_tie((q if c["double"] else qt)[live], m[live]):
        raise Inconclusive("tie")
    out = []
    for x in (None, c["x"]):
        tr, _ = T01.parametric_trainer(c)
        out.append(float(next(tr.train_step_gen(T01.parametric_batch(c, x), 0)).detach()))
    close(out[1], out[0], "TD loss after changing impossible actions only", rtol=1e-3, atol=1e-3)
    rec.nt(bool((m[live] == 0).any()))


@facet(cases("dqn"), quick=400, shards=2)
def max_q_values(case, rec):
    """The shared helper: value and index come from the same possible action."""
    from reagent.training.dqn_trainer_base import DQNTrainerMixin

    c = case
    t = DQNTrainerMixin()
    t.double_q_learning = c["double"]
    q, qt = (nets.T(c[k])[c["b"]:] for k in ("w_x", "wt_x"))
    m = np.array(c["nmask"])
    m[m.sum(1) == 0, 0] = 1
    sel = (q if c["double"] else qt).double().numpy()
    if nets.near_tie(sel, m, 1e-2):
        raise Inconclusive("tie")
    v, i = t.get_max_q_values_with_target(q.clone(), qt.clone(), nets.T(m))
    e = nets.best(sel, m)
    close(i.reshape(-1), e, "index of the best possible action", atol=0)
    close(v, qt.numpy()[np.arange(c["b"]), e].reshape(-1, 1), "value of the best possible action", rtol=1e-5)
    v, i = t.get_max_q_values(q.clone(), nets.T(m))
    if not nets.near_tie(q.numpy(), m, 1e-2):
        e = nets.best(q.numpy(), m)
        close(i.reshape(-1), e, "greedy action", atol=0)
        close(v, q.numpy()[np.arange(c["b"]), e].reshape(-1, 1), "greedy value", rtol=1e-5)
    rec.nt((m == 0).any())
