"""Feature containers."""
import numpy as np
import torch
from hypothesis import strategies as st

from vlib.core import close, equal, facet, raises, require, same

RULE = ("a case is a batch of dense state features with candidate documents, sparse features and "
        "slates; non-trivial = at least two rows and two candidates")


@st.composite
def cases(draw):
    B, N, D, C = (draw(st.integers(1, 4)) for _ in range(4))
    K = draw(st.integers(1, N))
    z = lambda n: [draw(st.integers(-40, 40)) / 4 for _ in range(n)]
    return dict(B=B, N=N, D=D, C=C, K=K, state=z(B * D), docs=z(B * N * C), value=z(B * N),
                mask=[draw(st.integers(0, 4)) > 0 for _ in range(B * N)],
                slates=[draw(st.permutations(range(N)))[:K] for _ in range(B)],
                tiles=draw(st.integers(1, 4)))


@facet(cases(), quick=2000, shards=6)
def containers_rearrange_without_mixing(case, rec):
    import reagent.types as rlt

    B, N, D, C, K = (case[k] for k in "BNDCK")
    s = torch.tensor(case["state"]).reshape(B, D)
    docs = torch.tensor(case["docs"]).reshape(B, N, C)
    val = torch.tensor(case["value"]).reshape(B, N)
    mask = torch.tensor(case["mask"]).reshape(B, N)
    fd = rlt.FeatureData(float_features=s)
    require(fd.has_float_features_only, "dense features only")
    t = fd.get_tiled_batch(case["tiles"]).float_features
    same(t, np.repeat(s.numpy(), case["tiles"], axis=0), "tiled batch")
    dl = rlt.DocList(float_features=docs)
    same(dl.mask, np.ones((B, N), bool), "default mask")
    same(dl.value, np.ones((B, N)), "default value")
    dl = rlt.DocList(float_features=docs, mask=mask, value=val)
    same(dl.as_feature_data().float_features, docs.reshape(B * N, C).numpy(), "documents as rows")
    full = rlt.FeatureData(float_features=s, candidate_docs=dl)
    require(not full.has_float_features_only, "has documents")
    want = np.stack([[np.concatenate([s[i].numpy(), docs[i, j].numpy()]) for j in range(N)]
                     for i in range(B)])
    close(full.concat_user_doc(), want, "state with each document", rtol=0, atol=0)
    if hasattr(rlt, "_embed_states"):
        close(rlt._embed_states(full).float_features, np.concatenate([s.numpy(), docs.reshape(B, -1).numpy()], axis=1),
              "state with all documents", rtol=0, atol=0)
    act = torch.tensor(case["slates"])
    rows = np.arange(B)[:, None]
    if bool(mask.numpy()[rows, act.numpy()].all()):
        sl = dl.select_slate(act)
        same(sl.float_features, docs.numpy()[rows, act.numpy()], "selected documents")
        same(sl.value, val.numpy()[rows, act.numpy()], "selected values")
        rec.label("slate")
    else:
        raises(AssertionError, lambda: dl.select_slate(act), "slate with an absent document")
        rec.label("slate refused")
    raises(ValueError, lambda: rlt.FeatureData(float_features=s[0]), "one-dimensional features")
    raises(AssertionError, lambda: rlt.DocList(float_features=s), "two-dimensional documents")
    raises(AssertionError, lambda: full.get_tiled_batch(2), "tiling features with documents")
    rec.nt(B > 1 and N > 1)


@facet(cases(), quick=800, shards=4)
def tensor_operations_apply_to_every_part(case, rec):
    """A tensor method called on a container is applied to every tensor in it, nested
    containers, dictionaries and tuples included; everything else is kept."""
    import reagent.types as rlt

    B, N, D, C, K = (case[k] for k in "BNDCK")
    s = torch.tensor(case["state"]).reshape(B, D)
    docs = torch.tensor(case["docs"]).reshape(B, N, C)
    ids = {"a": (torch.arange(B), torch.arange(B + 2))}
    fd = rlt.FeatureData(float_features=s, id_list_features=ids,
                         candidate_docs=rlt.DocList(float_features=docs))
    inp = rlt.DiscreteDqnInput(
        state=fd, next_state=rlt.FeatureData(float_features=s + 1), reward=s[:, :1],
        time_diff=s[:, :1] * 0 + 1, step=None, not_terminal=s[:, :1] * 0, action=s, next_action=s,
        possible_actions_mask=s > 0, possible_next_actions_mask=s < 0,
        extras=rlt.ExtraData(mdp_id=torch.arange(B), max_num_actions=5))
    equal(len(inp), B, "batch length")
    equal(inp.batch_size(), B, "batch size")
    for name, fn in (("double", lambda t: t.double()), ("clone", lambda t: t.clone())):
        out = getattr(inp, name)()
        require(type(out) is type(inp) and out is not inp, "new container of the same type")
        for a, b in ((out.state.float_features, s), (out.next_state.float_features, s + 1),
                     (out.state.candidate_docs.float_features, docs),
                     (out.state.candidate_docs.mask, torch.ones(B, N, dtype=torch.bool)),
                     (out.state.id_list_features["a"][0], ids["a"][0]),
                     (out.state.id_list_features["a"][1], ids["a"][1]),
                     (out.reward, s[:, :1]), (out.possible_actions_mask, s > 0),
                     (out.extras.mdp_id, torch.arange(B))):
            want = fn(b)
            equal(a.dtype, want.dtype, f"dtype after {name}")
            same(a, want.numpy(), f"value after {name}")
        require(out.step is None and out.extras.max_num_actions == 5, "other values kept")
    out = inp.to(torch.float64)
    equal(out.state.candidate_docs.value.dtype, torch.float64, "dtype after to()")
    raises(AttributeError, lambda: inp.not_a_tensor_method, "unknown attribute")
    rec.nt(B > 1)
