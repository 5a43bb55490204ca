"""Batch preprocessors and batch transforms."""
import numpy as np
import torch
from hypothesis import strategies as st

from models import norm
from vlib.core import Violation, close, equal, facet, raises, require, same

RULE = ("a case is a normalisation map for states (and actions) with a batch of raw columns, or the "
        "input of one transform; non-trivial = at least two rows with different contents")


@st.composite
def rows(draw, sp, n):
    o = norm.order(sp)
    return ([[draw(norm.value(f)) for _, f in o] for _ in range(n)],
            [[draw(st.integers(0, 4)) > 0 for _ in o] for _ in range(n)])


@st.composite
def batches(draw):
    n = draw(st.integers(1, 5))
    A = draw(st.integers(1, 4))
    types = tuple(t for t in norm.TYPES if t not in ("DISCRETE_ACTION", "CLIP_LOG"))
    ss, sa = draw(norm.spec(types, max_size=3)), draw(norm.spec(types, max_size=3))
    num = lambda lo, hi: [draw(st.integers(lo, hi)) for _ in range(n)]
    return dict(n=n, A=A, ss=ss, sa=sa, state=draw(rows(ss, n)), nstate=draw(rows(ss, n)),
                act=draw(rows(sa, n)), nact=draw(rows(sa, n)),
                action=num(0, A - 1), next_action=num(0, A),
                reward=[x / 4 for x in num(-20, 20)], time_diff=num(1, 9), step=num(1, 5),
                nt=num(0, 1), mdp=num(0, 50), seq=num(0, 50), prob=[x / 8 for x in num(1, 8)],
                pam=[num(0, 1) for _ in range(A)], pnam=[num(0, 1) for _ in range(A)],
                kind=draw(st.sampled_from(["discrete", "parametric", "policy"])))


@facet(batches(), quick=1100, shards=8)
def batch_preprocessors(case, rec):
    from reagent.preprocessing import batch_preprocessor as bp
    from reagent.preprocessing.preprocessor import Preprocessor

    n, A = case["n"], case["A"]
    f = lambda x: torch.tensor(x, dtype=torch.float32)
    S = Preprocessor(norm.params(case["ss"]), use_gpu=False)
    Ap = Preprocessor(norm.params(case["sa"]), use_gpu=False)
    pam, pnam = f(case["pam"]).t().contiguous(), f(case["pnam"]).t().contiguous()
    b = dict(
        state_features=f(case["state"][0]), state_features_presence=torch.tensor(case["state"][1]),
        next_state_features=f(case["nstate"][0]),
        next_state_features_presence=torch.tensor(case["nstate"][1]),
        reward=f(case["reward"]), time_diff=f(case["time_diff"]), step=f(case["step"]),
        mdp_id=torch.tensor(case["mdp"]), sequence_number=torch.tensor(case["seq"]),
        action_probability=f(case["prob"]), possible_actions_mask=pam,
        possible_next_actions_mask=pnam)
    if case["kind"] == "discrete":
        b["action"], b["next_action"] = torch.tensor(case["action"]), torch.tensor(case["next_action"])
        out = bp.DiscreteDqnBatchPreprocessor(A, S, use_gpu=False)(b)
        same(out.action, [[int(a == j) for j in range(A)] for a in case["action"]], "one-hot action")
        same(out.next_action, [[int(a == j) for j in range(A)] for a in case["next_action"]],
             "one-hot next action (none when unavailable)")
        same(out.not_terminal, [[float(any(m[i] for m in case["pnam"]))] for i in range(n)],
             "not terminal iff a next action is possible")
    else:
        b.update(action=f(case["act"][0]), action_presence=torch.tensor(case["act"][1]),
                 next_action=f(case["nact"][0]), next_action_presence=torch.tensor(case["nact"][1]),
                 not_terminal=f(case["nt"]), possible_actions=f(case["act"][0]),
                 possible_next_actions=f(case["nact"][0]))
        cls = (bp.ParametricDqnBatchPreprocessor if case["kind"] == "parametric"
               else bp.PolicyNetworkBatchPreprocessor)
        out = cls(S, Ap, use_gpu=False)(b)
        close(out.action.float_features, np.array(norm.expected(case["sa"], *case["act"])),
              "action", rtol=2e-4, atol=2e-4)
        close(out.next_action.float_features, np.array(norm.expected(case["sa"], *case["nact"])),
              "next action", rtol=2e-4, atol=2e-4)
        same(out.not_terminal, [[float(x)] for x in case["nt"]], "not terminal")
        if case["kind"] == "parametric":
            close(out.possible_actions, b["possible_actions"].numpy(), "possible actions")
            close(out.possible_next_actions, b["possible_next_actions"].numpy(), "possible next actions")
    if case["kind"] != "policy":
        same(out.possible_actions_mask, pam.numpy(), "possible actions mask")
        same(out.possible_next_actions_mask, pnam.numpy(), "possible next actions mask")
    close(out.state.float_features, np.array(norm.expected(case["ss"], *case["state"])), "state",
          rtol=2e-4, atol=2e-4)
    close(out.next_state.float_features, np.array(norm.expected(case["ss"], *case["nstate"])),
          "next state", rtol=2e-4, atol=2e-4)
    for k in ("reward", "time_diff", "step"):
        same(getattr(out, k), [[float(x)] for x in case[k]], k)
    same(out.extras.mdp_id, [[x] for x in case["mdp"]], "mdp id")
    same(out.extras.sequence_number, [[x] for x in case["seq"]], "sequence number")
    close(out.extras.action_probability, [[x] for x in case["prob"]], "action probability")
    rec.nt(n > 1)
    rec.label(case["kind"])


@st.composite
def transforms(draw):
    B, S, D = draw(st.integers(1, 4)), draw(st.integers(1, 4)), draw(st.integers(1, 3))
    types = tuple(t for t in norm.TYPES if t not in ("DISCRETE_ACTION", "CLIP_LOG"))
    sp = draw(norm.spec(types, max_size=3))
    A = draw(st.integers(1, 5))
    n = B * S * D
    return dict(B=B, S=S, D=D, spec=sp, seq=draw(rows(sp, B * S)), A=A,
                flat=[draw(st.integers(-40, 40)) / 4 for _ in range(n)],
                pres=[draw(st.booleans()) for _ in range(n)],
                acts=[draw(st.integers(0, A)) for _ in range(B * S)],
                length=draw(st.booleans()), sid=draw(st.integers(0, 9)), rename=draw(st.booleans()))


@facet(transforms(), quick=1100, shards=8)
def batch_transforms(case, rec):
    import reagent.preprocessing.transforms as T
    from reagent.parameters import NormalizationData

    B, S, D = case["B"], case["S"], case["D"]
    v = torch.tensor(case["flat"], dtype=torch.float32).reshape(B * S, D)
    p = torch.tensor(case["pres"]).reshape(B * S, D)
    vn, pn = v.numpy(), p.numpy()

    d = T.ValuePresence()({"x": v, "x_presence": p, "y": v})
    equal(set(d), {"x", "y"}, "keys after pairing values with presence")
    require(isinstance(d["x"], tuple), "value and presence not paired")
    same(d["x"][0], vn, "paired value")
    same(d["x"][1], pn, "paired presence")
    d = T.MaskByPresence(["x"])(d)
    same(d["x"], vn * pn, "masked by presence")
    same(d["y"], vn, "unrelated key")
    raises(AssertionError, lambda: T.MaskByPresence(["x"])({"x": v}), "masking without presence")
    d = T.Compose(T.Lambda(["x"], lambda t: t * 2), T.Lambda(["x", "y"], lambda t: t + 1))(
        {"x": v, "y": v, "z": v})
    same(d["x"], vn * 2 + 1, "composed transforms in order")
    same(d["y"], vn + 1, "composed transforms, second key")
    same(d["z"], vn, "composed transforms, other key")

    a = torch.tensor(case["acts"])
    for arr in (a, a.reshape(B, S)):
        d = T.OneHotActions(["a"], case["A"])({"a": arr})
        same(d["a"], (arr.unsqueeze(-1) == torch.arange(case["A"])).long().numpy(), "one-hot actions")

    for src in (v[:, 0], v[:, :1], (v[:, 0], p[:, 0]), [float(x) for x in v[:, 0]]):
        d = T.ColumnVector(["c"])({"c": src})
        same(np.asarray(d["c"]), vn[:, :1], "column vector")
    if D > 1:
        raises(AssertionError, lambda: T.ColumnVector(["c"])({"c": v}), "column vector of a matrix")

    d = T.StackDenseFixedSizeArray(["k"], size=D)({"k": [(v[i:i + 1], p[i:i + 1]) for i in range(B * S)]})
    same(d["k"], vn, "stacked arrays")
    d = T.StackDenseFixedSizeArray(["k"], size=D)({"k": v.double()})
    same(d["k"], vn, "tensor of the right size")
    equal(str(d["k"].dtype), "torch.float32", "stacked dtype")
    raises(ValueError, lambda: T.StackDenseFixedSizeArray(["k"], size=D + 1)({"k": v}), "wrong size")

    d = T.SlateView(["s"], slate_size=S)({"s": v})
    same(d["s"], vn.reshape(B, S, D), "slate view")

    # fixed-length sequences
    off = torch.arange(0, B * S, S)
    length = S if case["length"] else None
    to = ["out"] if case["rename"] else None
    tr = T.FixedLengthSequences(["q"], case["sid"], expected_length=length, to_keys=to)
    for _ in range(2):
        d = tr({"q": {case["sid"]: (off, (v, p)), case["sid"] + 1: (off, (p, v))}})
        got = d["out" if to else "q"]
        same(got[0], vn, "sequence values")
        same(got[1], pn, "sequence presence")
    if B > 1:
        bad = off.clone()
        bad[-1] += 1
        tr = T.FixedLengthSequences(["q"], case["sid"], expected_length=S)
        raises(AssertionError, lambda: tr({"q": {case["sid"]: (bad, (v, p))}}),
               "sequences of unequal length")
    # normalisation of plain and of sequence features
    nd = NormalizationData(dense_normalization_parameters=norm.params(case["spec"]))
    sv = torch.tensor(case["seq"][0], dtype=torch.float32)
    sp = torch.tensor(case["seq"][1])
    want = np.array(norm.expected(case["spec"], *case["seq"]))
    d = T.DenseNormalization(["f"], nd)({"f": (sv, sp), "g": (sv, sp)})
    close(d["f"], want, "normalised features", rtol=2e-4, atol=2e-4)
    require(isinstance(d["g"], tuple), "unrelated key normalised")
    tr = T.FixedLengthSequenceDenseNormalization(["f"], case["sid"], nd, expected_length=length)
    d = tr({"f": {case["sid"]: (off, (sv, sp))}})
    close(d[f"f:{case['sid']}"], want.reshape(B, S, -1), "normalised sequences", rtol=2e-4, atol=2e-4)
    rec.nt(B * S > 1 and len(set(case["flat"])) > 1)
