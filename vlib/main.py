"""Runner: run.sh <ID> quick|thorough|replay."""
import faulthandler
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection  # noqa: F401
import os
import sys
import time
import traceback

from vlib.boot import boot, silence

HOME = os.environ.get("VERIF_HOME", "/verif")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HOME, "evidence"))
HARD = float(os.environ.get("VERIF_HARD_S", "850"))
NPROC = int(os.environ.get("VERIF_NPROC", "8"))


def load_known():
    with open(os.path.join(HOME, "known_findings.json")) as f:
        return json.load(f)["findings"]


class _Stop(Exception):
    pass


def run_case(facet, case_json):
    """Run one case. Returns (rec, None) or (rec, failure text)."""
    from vlib import core

    rec = core.Rec()
    core.seed_all(case_json)
    case = json.loads(case_json)
    try:
        facet.fn(case, rec)
    except core.Inconclusive:
        rec.label("inconclusive")
        rec.nontrivial = False
    except core.Violation as e:
        return rec, str(e)
    except (ImportError, MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        # The case is one the code is documented or observed to accept, so an
        # exception (or a result the comparison cannot even read) is a failure.
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.relpath(f.filename, '/repo')}:{f.lineno}" for f in tb
                 if f.filename.startswith("/repo/")]
        return rec, (f"{type(e).__name__}: {e} "
                     f"[{'in ' + where[-1] if where else 'result not usable, ' + tb[-1].name + ':' + str(tb[-1].lineno)}]")
    return rec, None


def shard_task(args):
    mod_name, facet_idx, shard, n, seed, deadline, tier = args
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    from vlib import core

    mod = importlib.import_module(mod_name)
    facet = mod.FACETS[facet_idx]
    if shard % 4 != 3:
        # Hypothesis mutates each example several times by duplicating parts of it, which
        # leaves about one distinct seed in four; only every fourth shard keeps that on
        try:
            from hypothesis.internal.conjecture import engine

            engine.ConjectureRunner.generate_mutations_from  # noqa: B018
            engine.ConjectureRunner.generate_mutations_from = lambda self, data: None
        except Exception:
            pass
    out = dict(facet=facet.name, shard=shard, evals=0, nontrivial=[], distinct=0,
               labels={}, samples=[], failure=None, error=None, truncated=False,
               wall=0.0)
    seen = set()
    nts = set()
    t0 = time.time()
    best = {}
    history = []  # every case up to the first that failed, in order
    state = {"first_fail": None}

    def body(case):
        if state["first_fail"] is None and time.time() > deadline:
            out["truncated"] = True
            return
        cj = core.canon(case)
        if state["first_fail"] is None:
            history.append(cj)
        if state["first_fail"] is not None and time.time() > state["first_fail"] + 45:
            if cj != best.get("case"):
                return  # shrink budget spent: only the best case so far still fails
        rec, fail = run_case(facet, cj)
        if fail is None:
            if state["first_fail"] is None:
                out["evals"] += 1
                d = core.digest(cj)
                if d not in seen:
                    seen.add(d)
                    if rec.nontrivial:
                        nts.add(d)
                        if len(out["samples"]) < 2 and len(cj) < 3000 and out["evals"] > 5:
                            out["samples"].append(json.loads(cj))
                for l in set(rec.labels):
                    out["labels"][l] = out["labels"].get(l, 0) + 1
        else:
            if state["first_fail"] is None:
                state["first_fail"] = time.time()
            if not best or (len(cj), cj) <= (len(best["case"]), best["case"]):
                best.update(case=cj, msg=fail)
            raise core.Violation(fail)

    test = settings(
        max_examples=max(1, n), database=None, deadline=None, derandomize=False,
        report_multiple_bugs=False, print_blob=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
    )(given(facet.strategy)(body))
    test = hypothesis.seed(seed)(test)
    with silence():
        try:
            test()
        except BaseException as e:  # noqa
            if best:
                # confirm outside the generator; what runs may draw at random, so a few times
                for _ in range(8):
                    rec, fail = run_case(facet, best["case"])
                    if fail is not None:
                        break
                out["history"] = history
                if fail is not None:
                    out["failure"] = dict(case=json.loads(best["case"]), msg=fail)
                else:
                    out["error"] = ("failure did not reproduce outside the generator: "
                                    + best["msg"] + " case=" + best["case"][:2000])
            else:
                out["error"] = "".join(traceback.format_exception(e))[-4000:]
    out["distinct"] = len(seen)
    out["nontrivial"] = list(nts)
    out["wall"] = time.time() - t0
    return out


def fresh(facet, cases):
    """Run the cases one after another in a process of their own: what the last one says if all before it pass."""
    ctx = mp.get_context("fork")
    r, w = ctx.Pipe(False)

    def go():
        out = None
        try:
            with silence():
                for i, cj in enumerate(cases):
                    _, fail = run_case(facet, cj)
                    if fail is not None:
                        out = fail if i == len(cases) - 1 else None
                        break
            w.send(out)
        except BaseException:
            w.send(None)
        finally:
            w.close()
            os._exit(0)

    p = ctx.Process(target=go)
    p.start()
    w.close()
    try:
        return r.recv()
    except EOFError:
        return None
    finally:
        p.join()
        r.close()


def reproduce(facet, res, limit):
    """A failure that a new process shows: of one case if possible, else of cases in a row. None if there is none."""
    from vlib import core

    f = res.get("failure")
    if f and fresh(facet, [core.canon(f["case"])]) is not None:
        return f
    hist = res.get("history") or []
    if not hist:
        return f
    msg = fresh(facet, hist)
    if msg is None:
        return f
    end = time.time() + limit
    # two cases in a row are easiest to read; else as short a tail as still fails
    for h in reversed(hist[:-1]):
        if time.time() > end:
            break
        m = fresh(facet, [h, hist[-1]])
        if m is not None:
            return dict(case=json.loads(hist[-1]), msg=m, history=[json.loads(h)])
    while len(hist) > 2 and time.time() < end:
        m = fresh(facet, hist[len(hist) // 2:])
        if m is None:
            break
        hist, msg = hist[len(hist) // 2:], m
    return dict(case=json.loads(hist[-1]), msg=msg, history=[json.loads(h) for h in hist[:-1]])


def main():
    pid, mode = sys.argv[1], sys.argv[2]
    faulthandler.enable()
    boot()
    modname = f"checks.{pid}"
    t0 = time.time()
    try:
        with silence():
            mod = importlib.import_module(modname)
    except Exception:
        traceback.print_exc()
        print(f"HARNESS-ERROR property={pid}: cannot load the check")
        return 3

    if mode == "replay":
        with open(sys.argv[3]) as f:
            r = json.load(f)
        from vlib import core

        facet = {f.name: f for f in mod.FACETS}[r["facet"]]
        with silence():
            for h in r.get("history", []):
                run_case(facet, core.canon(h))
            rec, fail = run_case(facet, core.canon(r["case"]))
        if fail is None:
            print(f"replay of {sys.argv[3]}: property holds on this case")
            return 0
        print(f"{r['facet']}: {fail}")
        print(f"VIOLATION property={pid} replay={os.path.abspath(sys.argv[3])}")
        return 1

    tier = mode
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    only = os.environ.get("VERIF_FACET")
    if hasattr(mod, "setup"):
        try:
            mod.setup()
        except Exception:
            traceback.print_exc()
            print(f"HARNESS-ERROR property={pid}: set-up failed")
            return 3
    import hashlib

    soft = float(os.environ.get("VERIF_SOFT_S", "300" if tier == "quick" else "700"))
    deadline = t0 + soft
    tasks = []
    for i, f in enumerate(mod.FACETS):
        if only and f.name != only:
            continue
        total = f.quick if tier == "quick" else f.thorough
        sh = max(1, min(f.shards, total))
        if tier == "thorough":
            sh = max(sh, 8)
        for s in range(sh):
            h = hashlib.sha256(f"{seed}:{pid}:{f.name}:{s}".encode()).hexdigest()
            tasks.append((modname, i, s, -(-total // sh), int(h[:12], 16), deadline, tier))
    # interleave facets so that a deadline cuts every facet rather than the last ones
    tasks.sort(key=lambda t: (t[2], t[1]))

    results, crashed = [], []
    ctx = mp.get_context("fork")
    running = {}
    queue = list(tasks)
    stop = False
    while queue or running:
        while queue and len(running) < NPROC and not stop:
            t = queue.pop(0)
            r, w = ctx.Pipe(False)

            def go(t=t, w=w):
                try:
                    w.send(shard_task(t))
                except BaseException:
                    w.send(dict(facet=mod.FACETS[t[1]].name, crash=traceback.format_exc()))
                finally:
                    w.close()
                    sys.stdout.flush()
                    os._exit(0)

            p = ctx.Process(target=go)
            p.start()
            w.close()
            running[p.pid] = (p, r, t)
        if stop:
            queue = []
        if time.time() - t0 > HARD:
            for p, r, t in running.values():
                p.kill()
                crashed.append(f"{mod.FACETS[t[1]].name}: time limit")
            break
        ready = mp.connection.wait([v[1] for v in running.values()], timeout=1.0)
        for pid_, (p, r, t) in list(running.items()):
            if r in ready:
                try:
                    res = r.recv()
                    results.append(res)
                    if res.get("failure") or res.get("history"):
                        stop = True
                except EOFError:
                    p.join()
                    crashed.append(f"{mod.FACETS[t[1]].name}: worker died (exit {p.exitcode})")
                p.join()
                r.close()
                del running[pid_]

    by_name = {f.name: f for f in mod.FACETS}
    shown = set()
    for r in results:
        if r.get("history") and r["facet"] not in shown:
            got = reproduce(by_name[r["facet"]], r, min(60.0, max(5.0, HARD - 60 - (time.time() - t0))))
            if got is not None:
                r["failure"], r["error"] = got, None
                shown.add(r["facet"])

    # -------------------------------------------------------------- aggregate
    per = {}
    for r in results:
        if "crash" in r:
            crashed.append(r["facet"] + ": " + r["crash"])
            continue
        a = per.setdefault(r["facet"], dict(evaluations=0, nontrivial=set(), labels={},
                                            samples=[], truncated=False, wall_s=0.0))
        a["evaluations"] += r["evals"]
        a["nontrivial"].update(r["nontrivial"])
        a["truncated"] |= r["truncated"]
        a["wall_s"] += r["wall"]
        for k, v in r["labels"].items():
            a["labels"][k] = a["labels"].get(k, 0) + v
        if len(a["samples"]) < 2:
            a["samples"].extend(r["samples"][: 2 - len(a["samples"])])
        if r["error"]:
            crashed.append(f"{r['facet']}: {r['error']}")
    failures = [r for r in results if r.get("failure")]
    code = 0
    lines = []
    known = [k for k in load_known() if k["property"] == pid and k["status"] == "known"]
    for k in known:
        fn = getattr(mod, "FINDINGS", {}).get(k["id"])
        try:
            with silence():
                there = fn()
        except Exception:
            there = None
            crashed.append(f"finding {k['id']}: {traceback.format_exc()}")
        if there:
            lines.append(f"KNOWN-FINDING: property={pid} {k['id']}: {k['what']}")
    seen_f = set()
    if failures:
        rd = os.path.join(EVID, "replays")
        os.makedirs(rd, exist_ok=True)
        from vlib import core

        for r in sorted(failures, key=lambda r: len(core.canon(r["failure"]["case"]))):
            if r["facet"] in seen_f:
                continue
            seen_f.add(r["facet"])
            cj = core.canon(r["failure"]["case"])
            path = os.path.join(rd, f"{pid}-{r['facet']}-{core.digest(cj)}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, facet=r["facet"], message=r["failure"]["msg"],
                               **({"history": r["failure"]["history"]} if r["failure"].get("history") else {}),
                               case=r["failure"]["case"]), f, indent=1)
            lines.append(f"{pid}/{r['facet']}: {r['failure']['msg']}")
            lines.append(f"VIOLATION property={pid} replay={path}")
        code = 1
    elif crashed:
        code = 3
    evals = sum(a["evaluations"] for a in per.values())
    nt = sum(len(a["nontrivial"]) for a in per.values())
    samples = []
    for name, a in per.items():
        for s in a["samples"][:1]:
            samples.append(dict(facet=name, case=s))
    ev = dict(
        property=pid, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=evals, distinct_nontrivial=nt, rule=mod.RULE,
            samples=samples,
            facets={n: dict(evaluations=a["evaluations"],
                            distinct_nontrivial=len(a["nontrivial"]),
                            labels=dict(sorted(a["labels"].items())),
                            cut_by_time_budget=a["truncated"],
                            cpu_s=round(a["wall_s"], 1)) for n, a in sorted(per.items())},
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2), violations=len(seen_f),
    )
    if not only:
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    for c in crashed:
        print("HARNESS-ERROR " + c)
    for l in lines:
        print(l)
    if os.environ.get("VERIF_VERBOSE"):
        for n, a in sorted(per.items()):
            print(f"  {n}: {a['evaluations']} cases, {len(a['nontrivial'])} non-trivial, "
                  f"{a['wall_s']:.1f} cpu-s {'TRUNCATED ' if a['truncated'] else ''}"
                  f"{dict(sorted(a['labels'].items()))}")
    print(f"{pid} {tier} seed={seed}: {evals} cases, {nt} distinct non-trivial, "
          f"{len(seen_f)} violation(s), {time.time()-t0:.1f}s")
    sys.stdout.flush()
    return code


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
