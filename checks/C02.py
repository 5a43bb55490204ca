"""Registries, tagged unions, publishers and validators."""
import abc
import dataclasses
import os
import shutil
import tempfile
from typing import List

from hypothesis import strategies as st

from vlib.core import equal, facet, raises, require

RULE = ("a case is a generated hierarchy of registered classes with a selection, or a history of publications; non-trivial = three "
        "or more registered classes, or a module published again or by a reopened publisher")


@st.composite
def hierarchies(draw):
    """Every class: parent (-1 = the base), whether it is abstract, its registered name, and a default"""
    n = draw(st.integers(1, 7))
    cls = []
    for i in range(n):
        kind = draw(st.sampled_from(["abstract", "plain", "plain", "named", "implements", "child"]))
        parent = -1
        if kind in ("implements", "child"):
            cand = [j for j, c in enumerate(cls) if (c["kind"] == "abstract") == (kind == "implements") and c["kind"] != "named"]
            if cand:
                parent = draw(st.sampled_from(cand))
            else:
                kind = "plain"
        cls.append(dict(kind=kind, parent=parent, default=draw(st.integers(0, 9))))
    return dict(cls=cls, sel=draw(st.integers(0, 9)), value=draw(st.integers(-3, 3)), other=draw(st.integers(0, 9)), concrete=draw(st.integers(0, 3)) == 0)


def build(c, tag=""):
    from reagent.core.dataclasses import dataclass, field
    from reagent.core.registry_meta import RegistryMeta
    from reagent.core.tagged_union import TaggedUnion

    def run(self):
        pass

    # the base may be complete itself: it is a base still, and no member
    Base = RegistryMeta("Base", (), {"run": run if c["concrete"] else abc.abstractmethod(run)})

    made, reg = [], {}
    for i, d in enumerate(c["cls"]):
        parent = Base if d["parent"] < 0 else made[d["parent"]]
        name = f"K{i}"
        body = {"__annotations__": {f"x{i}": int}, f"x{i}": d["default"]}
        if d["kind"] != "abstract":
            body["run"] = lambda self, i=i: (i, getattr(self, f"x{i}"))
        else:
            body["extra"] = abc.abstractmethod(lambda self: None)
        if d["kind"] == "implements":
            body["extra"] = lambda self: None
        if d["kind"] == "named":
            body["__registry_name__"] = f"registered_{i}"
        k = dataclass(type(Base)(name, (parent,), body))
        made.append(k)
        if d["kind"] != "abstract":
            reg[f"registered_{i}" if d["kind"] == "named" else name] = k
    return Base, made, reg


@facet(hierarchies(), quick=300)
def registries_and_unions(c, rec):
    from reagent.core.dataclasses import dataclass, field
    from reagent.core.tagged_union import TaggedUnion

    Base, made, reg = build(c)
    equal(list(Base.REGISTRY), list(reg), "registered names")
    for n, k in reg.items():
        require(Base.REGISTRY[n].__name__ == k.__name__, "%s registered as %s", n, Base.REGISTRY[n])
    if reg:
        n0 = next(iter(reg))
        if n0.startswith("K"):
            raises(AssertionError, lambda: type(Base)(n0, (Base,), {"run": lambda self: 0}), "the same name twice")

    @Base.fill_union()
    class U(TaggedUnion):
        pass

    equal({f.name for f in dataclasses.fields(U)}, set(reg), "choices of the union")
    raises(AssertionError, lambda: type(Base)("Late", (Base,), {"run": lambda self: 0}), "classes registered after the union was made")
    rec.nt(len(reg) >= 3)
    raises(AssertionError, lambda: U().value, "nothing selected")
    raises(TypeError, lambda: U(Nope=None), "unknown choice")
    if not reg:
        return
    names = list(reg)
    n = names[c["sel"] % len(names)]
    i = int(n.split("_")[-1].lstrip("K"))
    field_name = f"x{i}"
    inst = reg[n](**{field_name: c["value"]})
    for u, what in [(U(**{n: inst}), "by object"), (U(**{n: {field_name: c["value"]}}), "by dictionary"), (U.make_union_instance(inst), "from instance"),
                    (U.make_union_instance(inst, reg[n]), "from instance and class")]:
        v = u.value
        require(type(v).__name__ == reg[n].__name__, "%s: selected %s, got %s", what, n, type(v))
        equal(v.run(), (i, c["value"]), what)
        for m in names:
            require((getattr(u, m) is None) == (m != n), "%s: field %s is %s", what, m, getattr(u, m))
    equal(U(**{n: {}}).value.run(), (i, c["cls"][i]["default"]), "default")
    p = c["cls"][i]["parent"]
    if c["cls"][i]["kind"] == "child" and p >= 0:
        # what was promised decides, not what was made: a promised parent is filled by its child
        rec.label("by the promised class")
        up = next(a for a, k in reg.items() if k.__name__ == f"K{p}")
        u = U.make_union_instance(inst, reg[up])
        equal([m for m in names if getattr(u, m) is not None], [up], "choice by the promised class")
        equal(u.value.run(), (i, c["value"]), "by the promised class")
    raises(dataclasses.FrozenInstanceError, lambda: setattr(U(**{n: inst}), n, None), "unions are frozen")
    raises(Exception, lambda: U(**{n: {field_name: "not a number"}}), "wrong values are refused")
    if len(names) > 1:
        m = names[(names.index(n) + 1 + c["other"] % (len(names) - 1)) % len(names)]
        j = int(m.split("_")[-1].lstrip("K"))
        raises(AssertionError, lambda: U(**{n: inst, m: {f"x{j}": 0}}).value, "two selected")

    @dataclass
    class Cfg:
        u: U = field(default_factory=lambda: U(**{n: inst}))
        us: List[U] = field(default_factory=list)

    equal(Cfg().u.value.run(), (i, c["value"]), "default union")
    k = Cfg(u={names[0]: {}}, us=[{x: {}} for x in names])
    equal(type(k.u.value).__name__, reg[names[0]].__name__, "parsed union")
    equal([type(x.value).__name__ for x in k.us], [reg[x].__name__ for x in names], "parsed list of unions")


@st.composite
def publications(draw):
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        k = draw(st.sampled_from(["publish", "publish", "publish", "get", "reopen", "missing", "run"]))
        mods = draw(st.lists(st.tuples(st.sampled_from(["default_model", "dqn", "m.x", "default"]), st.integers(0, 4)), min_size=1, max_size=3, unique_by=lambda x: x[0]))
        ops.append(dict(op=k, manager=draw(st.sampled_from(["A(x=1)", "A(x=2)", "model_A", "_m", "B"])), mods=mods, publisher=draw(st.integers(0, 1))))
    return ops


class Manager:
    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return self.text


@facet(publications(), quick=120, shards=6)
def published_models(c, rec):
    from reagent.publishers.union import FileSystemPublisher, ModelPublisher__Union
    from reagent.validators.union import ModelValidator__Union, NoValidation
    from reagent.workflow.types import RLTrainingOutput

    d = tempfile.mkdtemp(prefix="verif_c02_")
    try:
        files = []
        for i in range(5):
            p = os.path.join(d, f"model_{i}.torchscript")
            open(p, "w").close()
            files.append(p)
        db = os.path.join(d, "published")
        other = os.path.join(d, "other")
        pubs = [FileSystemPublisher(publishing_file=db), FileSystemPublisher(publishing_file=other)]
        truth, seen = [{}, {}], set()
        for o in c:
            w = o["publisher"]
            m = Manager(o["manager"])
            if o["op"] == "reopen":
                pubs[w] = FileSystemPublisher(publishing_file=[db, other][w])
                rec.nt(truth[w])
                rec.label("reopened")
                continue
            if o["op"] in ("publish", "missing", "run"):
                out = {n: files[i] for n, i in o["mods"]}
                if o["op"] == "missing":
                    n0 = o["mods"][0][0]
                    raises(AssertionError, lambda: pubs[w].publish(m, RLTrainingOutput(output_paths={n0: os.path.join(d, "nothing")}), {}, 0, None),
                           "a model that was never written")
                else:
                    r = pubs[w].publish(m, RLTrainingOutput(output_paths=out), {n: 1 for n in out}, 7, None)
                    equal(r.value.success, True, "success")
                    require(type(r.value).__name__ == "NoPublishingResults", "kind of result: %s", type(r.value))
                    for n, p in out.items():
                        rec.nt((n, str(m)) in truth[w])
                        truth[w][n, str(m)] = p
            for n in ["default_model", "dqn", "m.x", "default", "never"]:
                for t in [o["manager"], "B"]:
                    key = (n, t)
                    collide = [k for k in truth[w] if k != key and f"{k[0]}_{k[1]}" == f"{n}_{t}"]
                    if collide:
                        continue  # the key is written as one text; different pairs may spell the same
                    get = lambda: pubs[w].get_latest_published_model(Manager(t), n)
                    if key in truth[w]:
                        equal(get(), truth[w][key], f"latest {key}")
                    else:
                        raises(ValueError, get, f"{key} was never published")
        # the publisher can be chosen through its union, and publishing nothing publishes nothing
        u = ModelPublisher__Union(FileSystemPublisher={"publishing_file": db}).value
        for (n, t), p in truth[0].items():
            if sum(f"{a}_{b}" == f"{n}_{t}" for a, b in truth[0]) == 1:
                equal(u.get_latest_published_model(Manager(t), n), p, "through the union")
        before = sorted(os.listdir(d))
        r = ModelPublisher__Union(NoPublishing={}).value.publish(Manager("A"), RLTrainingOutput(output_paths={"default_model": "/nonexistent"}), {}, 0, None)
        equal(r.value.success, True, "no publishing")
        equal(sorted(os.listdir(d)), before, "files")
        v = ModelValidator__Union(NoValidation={}).value.validate(RLTrainingOutput())
        equal(v.value.should_publish, True, "no validation")
    finally:
        shutil.rmtree(d)
