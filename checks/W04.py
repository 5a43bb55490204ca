"""Gradient-free evolution: children, gradient estimate, distributed workers."""
import os
import shutil
import tempfile

import numpy as np
import torch
from hypothesis import strategies as st

from models.nets import T, arr, rng_of
from vlib.core import Inconclusive, close, equal, facet, raises, require, same

RULE = ("a case is a population configuration and a history of rewards (workers: a number of nodes); non-trivial = two "
        "or more individuals with different rewards over two or more iterations")


@st.composite
def cases(draw, workers=False):
    rng = rng_of(draw)
    sizes = {f"t{i}": draw(st.lists(st.integers(1, 3), min_size=1, max_size=2)) for i in range(draw(st.integers(1, 3)))}
    n, it = draw(st.integers(2, 6)), draw(st.integers(1, 4))
    rewards = []
    for _ in range(it):
        rewards.append([1.5] * n if draw(st.integers(0, 4)) == 0 else arr(rng, (n,)))
    c = dict(sizes=sizes, n=n, power=draw(st.sampled_from([0.01, 0.1, 1.0])), lr=draw(st.sampled_from([0.01, 0.1])),
             seed=draw(st.one_of(st.integers(0, 99999), st.just(99999))), rewards=rewards)
    if workers:
        if draw(st.booleans()):  # a larger population
            c["n"] = n + draw(st.integers(4, 8))
        c.update(nodes=draw(st.integers(1, 3)), iters=draw(st.integers(1, 3)), target=arr(rng, (3,)))
    return c


def _params(c):
    from reagent.parameters import EvolutionParameters

    return EvolutionParameters(population_size=c["n"], mutation_power=c["power"], learning_rate=c["lr"])


class Ref:
    """Evolution strategies in numpy: Adam on the reward-weighted mean perturbation."""

    def __init__(self, c, parent):
        self.c, self.p, self.t = c, {k: v.astype(float) for k, v in parent.items()}, 0
        self.m = {k: np.zeros_like(v) for k, v in self.p.items()}
        self.v = {k: np.zeros_like(v) for k, v in self.p.items()}

    def step(self, children, rewards):
        r = np.asarray(rewards, float)
        sd = r.std(ddof=1)
        if not sd > 1e-6:
            return True
        z = (r - r.mean()) / sd
        self.t += 1
        ok = True
        for k in self.p:
            g = -sum(z[i] * (children[i][k] - self.p[k]) for i in range(len(r))) / (len(r) * self.c["power"])
            ok = ok and not ((np.abs(g) < 1e-4)).any()
            self.m[k] = 0.9 * self.m[k] + 0.1 * g
            self.v[k] = 0.999 * self.v[k] + 0.001 * g * g
            mh, vh = self.m[k] / (1 - 0.9 ** self.t), self.v[k] / (1 - 0.999 ** self.t)
            self.p[k] = self.p[k] - self.c["lr"] * mh / (np.sqrt(vh) + 1e-8)
        return ok


def _np(d):
    return {k: v.detach().clone().double().numpy() for k, v in d.items()}


@facet(cases(), quick=300, shards=3)
def pool(case, rec):
    from reagent.training.gradient_free.evolution_pool import EvolutionPool

    c = case
    a, b = EvolutionPool(c["seed"], _params(c), c["sizes"]), EvolutionPool(c["seed"], _params(c), c["sizes"])
    ref = Ref(c, _np(a.parent_tensors))
    for it, rw in enumerate(c["rewards"] + [None]):
        equal(len(a.population_tensors), c["n"], "population size")
        kids = [_np(x) for x in a.population_tensors]
        par = _np(a.parent_tensors)
        for k, size in c["sizes"].items():
            equal(list(par[k].shape), list(size), "parent shape")
            close(b.parent_tensors[k], par[k], "pools with the same seed agree on the parent", rtol=1e-6)
            for i in range(c["n"]):
                equal(list(kids[i][k].shape), list(size), "child shape")
                close(b.population_tensors[i][k], kids[i][k], "pools with the same seed agree on the children", rtol=1e-6)
                require((np.abs(kids[i][k] - par[k]) < 8 * c["power"]).all(), "a child is too far from its parent")
        if c["n"] > 1:
            require(any(np.abs(kids[0][k] - kids[1][k]).max() > 0 for k in par), "children differ from each other")
        if it:
            require(any(np.abs(kids[0][k] - prev[k]).max() > 0 for k in par), "children are drawn anew")
            for k in par:
                close(par[k], ref.p[k], f"parent after {it} iterations", rtol=1e-3, atol=1e-4)
        if rw is None:
            break
        prev = kids[0]
        for q in (a, b):
            q.apply_global_reward(T(rw), it + 1)
        if not ref.step(kids, rw):
            raise Inconclusive
    flat = [r for r in c["rewards"] if len(set(r)) == 1]
    rec.nt(len(c["rewards"]) > 1 and len(flat) < len(c["rewards"]))
    rec.label("equal rewards" if flat else "distinct rewards")


@facet(cases(), quick=60, shards=2)
def spread(case, rec):
    """Children are the parent plus independent normal noise of the configured power."""
    from reagent.training.gradient_free.evolution_pool import EvolutionPool

    c = dict(case, n=20, sizes={"x": [20, 5], "y": [50]})
    p = EvolutionPool(c["seed"], _params(c), c["sizes"])
    if len(c["rewards"]) > 1:
        p.populate_children(len(c["rewards"]))
    for k in c["sizes"]:
        par = p.parent_tensors[k].double().numpy()
        d = np.stack([x[k].double().numpy() - par for x in p.population_tensors]) / c["power"]
        n = d.size
        require(abs(d.mean()) < 6 / np.sqrt(n), "mean of the mutation is %s deviations", d.mean())
        require(abs(d.std() - 1) < 6 / np.sqrt(2 * n), "mutation spread is %s of the configured power", d.std())
    raises(AssertionError, lambda: EvolutionPool(100000, _params(c), c["sizes"]), "seed out of range")
    rec.nt()


@st.composite
def noises(draw):
    s = draw(st.integers(0, 99990))
    return dict(draw(cases()), seed=s, near=sorted({s + draw(st.integers(1, 4)) for _ in range(2)}),
                iters=sorted(set(draw(st.lists(st.integers(0, 12), min_size=2, max_size=6)))))


@facet(noises(), quick=150, shards=2)
def fresh(case, rec):
    """Every seed and iteration has mutations of its own, whatever happened before"""
    from reagent.training.gradient_free.evolution_pool import EvolutionPool

    c = case
    seen = {}
    for s in [c["seed"]] + c["near"]:
        p = EvolutionPool(s, _params(c), c["sizes"])
        for it in c["iters"]:
            p.populate_children(it)
            par = p.parent_tensors
            noise = np.concatenate([(x[k].double() - par[k].detach().double()).numpy().ravel() for x in p.population_tensors for k in sorted(par)]) / c["power"]
            for k, v in seen.items():
                require(np.abs(v - noise).max() > 1e-3, "seed %s iteration %s has the mutations of seed %s iteration %s", s, it, *k)
            seen[s, it] = noise
    q = EvolutionPool(c["seed"], _params(c), c["sizes"])
    q.populate_children(c["iters"][-1])
    p = EvolutionPool(c["seed"], _params(c), c["sizes"])
    for it in c["iters"]:
        p.populate_children(it)
    for a, b in zip(p.population_tensors, q.population_tensors):
        for k in a:
            close(a[k], b[k].numpy(), "children of an iteration, with and without the ones before", rtol=1e-6)
    rec.nt(len(c["iters"]) > 2)


@facet(st.fixed_dictionaries(dict(v=st.lists(st.floats(-5, 5), min_size=1, max_size=7), seed=st.integers(0, 9999),
                                  n=st.integers(2, 4))), quick=150, shards=1)
def one_max(case, rec):
    """The example pool rewards even entries for growing and odd ones for shrinking."""
    from reagent.training.gradient_free.evolution_pool import OneMaxEvolutionPool
    from reagent.parameters import EvolutionParameters

    p = OneMaxEvolutionPool(case["seed"], EvolutionParameters(population_size=case["n"]), {"data": [len(case["v"])]})

    def want(v):
        s = 1 / (1 + np.exp(-np.asarray(v, float)))
        return (s[0::2].sum() + (1 - s[1::2]).sum()) / len(s)

    close(p.compute_local_reward({"data": T(case["v"])}), want(case["v"]), "reward")
    close(p.compute_all_local_rewards(), [want(x["data"].numpy()) for x in p.population_tensors],
          "reward of every individual, in order")
    rec.nt(len(case["v"]) > 1)


def _pool(c, rank):
    """Each node scores individuals with its own noise: node rank weights the target differently."""
    from reagent.training.gradient_free.evolution_pool import EvolutionPool

    class P(EvolutionPool):
        def compute_local_reward(self, individual):
            return sum(-((x - c["target"][i % 3]) ** 2).sum() * (1 + rank) + rank
                       for i, x in enumerate(individual.values()))

    return P(c["seed"], _params(c), c["sizes"])


def _node(c, rank, path, out):
    import torch.distributed as dist
    from reagent.training.gradient_free.es_worker import EsWorker

    store = dist.FileStore(path, c["nodes"])
    dist.init_process_group("gloo", store=store, rank=rank, world_size=c["nodes"])
    try:
        pool = _pool(c, rank)
        w = EsWorker(pool, _params(c), dist.group.WORLD, c["nodes"])
        hist = []
        for _ in range(c["iters"]):
            kids = [_np(x) for x in pool.population_tensors]
            r = float(w.run_epoch())
            hist.append(dict(kids=kids, ret=r, parent=_np(pool.parent_tensors)))
        torch.save(hist, out)
        dist.barrier()
    finally:
        dist.destroy_process_group()


@facet(cases(workers=True), quick=14, thorough=150, shards=2)
def workers(case, rec):
    """Nodes average their rewards and move the same parent; each returns its own reward of the new parent."""
    c = case
    d = tempfile.mkdtemp(prefix="w04-")
    os.environ.setdefault("GLOO_SOCKET_IFNAME", "lo")
    try:
        pids = []
        for r in range(c["nodes"]):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    _node(c, r, os.path.join(d, "store"), os.path.join(d, f"out{r}"))
                    code = 0
                except BaseException:  # reported through the missing result
                    import traceback

                    with open(os.path.join(d, f"err{r}"), "w") as f:
                        traceback.print_exc(file=f)
                finally:
                    os._exit(code)
            pids.append(pid)
        import time

        end, alive = time.time() + 60, set(pids)
        while alive and time.time() < end:
            for p in list(alive):
                if os.waitpid(p, os.WNOHANG)[0]:
                    alive.discard(p)
            time.sleep(0.01)
        for p in alive:
            os.kill(p, 9)
            os.waitpid(p, 0)
        errs = [open(os.path.join(d, f)).read() for f in sorted(os.listdir(d)) if f.startswith("err")]
        if any("Gloo" in e or "gloo" in e or "Connection" in e for e in errs) or (alive and not errs):
            raise Inconclusive
        require(not errs, "a worker failed: %s", errs and errs[0][-300:])
        hist = [torch.load(os.path.join(d, f"out{r}")) for r in range(c["nodes"])]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    def local(ind, r):
        return sum(-((x - c["target"][i % 3]) ** 2).sum() * (1 + r) + r for i, x in enumerate(ind.values()))

    ref = Ref(c, _np(_pool(c, 0).parent_tensors))
    noises = []
    for it in range(c["iters"]):
        kids = hist[0][it]["kids"]
        noises.append(np.concatenate([(x[k] - ref.p[k]).ravel() for x in kids for k in sorted(ref.p)]) / c["power"])
        for j in range(it):
            require(np.abs(noises[j] - noises[it]).max() > 0.2, "iterations %s and %s have the same mutations", j, it)
        for r in range(1, c["nodes"]):
            for i in range(c["n"]):
                for k in c["sizes"]:
                    close(hist[r][it]["kids"][i][k], kids[i][k], "nodes evaluate the same individuals", rtol=1e-5)
        avg = [np.mean([local(x, r) for r in range(c["nodes"])]) for x in kids]
        if np.std(avg) < 1e-5 or not ref.step(kids, avg):
            raise Inconclusive
        for r in range(c["nodes"]):
            for k in c["sizes"]:
                close(hist[r][it]["parent"][k], ref.p[k], "parent after averaging rewards", rtol=1e-2, atol=2e-3)
            close(hist[r][it]["ret"], local(hist[r][it]["parent"], r), "reward of the new parent", rtol=1e-3, atol=1e-3)
    rec.nt(c["nodes"] > 1)
    rec.label(f"nodes={c['nodes']}")
