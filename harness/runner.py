"""Campaign runner: generates cases (Hypothesis or enumeration), shards them over processes, shrinks and
stores failures as replay files, writes evidence, honours known findings.

A property module defines
    PROPERTY = "Cxx"; LEVEL; RULE (str); ASSUMPTIONS (list)
    CAMPAIGNS = [Campaign(...), ...]
"""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback
from collections import Counter

import boot
import sim
from world import Violation
from wire import ProtocolError

VERIF = boot.VERIF
SCALE = float(os.environ.get("VERIF_SCALE", "1"))  # share of the cases to run (used for mutation campaigns only)
NPROC = int(os.environ.get("VERIF_JOBS", "8"))


class Campaign:
    """One generated-input search.

    strategy: callable -> hypothesis strategy of JSON-able cases, or None
    enum:     callable(tier) -> iterable of JSON-able cases (bounded exhaustive / deterministic sampling)
    run:      run(case, ctx) ; raises Violation/ProtocolError ; ctx.nontrivial(), ctx.tag()
    quick / thorough: number of generated cases (strategy campaigns)
    """

    def __init__(self, name, run, strategy=None, enum=None, quick=200, thorough=4000, cpu=15, weight=1.0,
                 tiers=("quick", "thorough"), shards=None, exhaustive=False, protocol_errors=True):
        self.name, self.run, self.strategy, self.enum = name, run, strategy, enum
        self.quick, self.thorough, self.cpu, self.weight = quick, thorough, cpu, weight
        self.tiers, self.shards, self.exhaustive = tiers, shards, exhaustive
        self.protocol_errors = protocol_errors


class Ctx:
    def __init__(self):
        self.tags = []
        self.nt = False

    def nontrivial(self, flag=True):
        if flag:
            self.nt = True

    def tag(self, *t):
        self.tags.extend(t)


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def digest(case):
    return hashlib.blake2b(canon(case).encode(), digest_size=8).digest()


def load_known(prop):
    path = os.path.join(VERIF, "KNOWN_FINDINGS")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("known:"):
                    e = json.loads(line[len("known:"):])
                    if e["property"] == prop:
                        e["id"] = e.get("id") or e["key"]
                        out.append(e)
    return out


class Known:
    def __init__(self, prop):
        self.entries = load_known(prop)
        self.hits = Counter()

    def match(self, v, campaign):
        for e in self.entries:
            if e.get("campaign") not in (None, campaign):
                continue
            if v.key is not None and v.key == e.get("key"):
                self.hits[e["id"]] += 1
                return True
        return False


def execute(camp, case, ctx, cpu=None):
    """Run one case; normalises failures to Violation."""
    try:
        with sim.cpu_guard(cpu or camp.cpu):
            camp.run(case, ctx)
    except Violation:
        raise
    except ProtocolError as e:
        if not camp.protocol_errors:
            raise
        tb = e.__traceback__
        raise Violation(f"{type(e).__name__}: {e}", key=None) from e
    except sim.CpuTimeout as e:
        raise Violation(f"the case did not finish within its CPU budget: {e}", key="cpu") from e
    except (ImportError, MemoryError):
        raise
    except Exception as e:
        # behaviour that the harness doesn't know how to interpret; never seen where the property holds
        where = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation(f"unexpected {type(e).__name__}: {e} (at {os.path.basename(where.filename)}:{where.lineno})",
                        key=f"unexpected-{type(e).__name__}") from e


class _Stop(Exception):
    pass


def run_shard(modname, cname, tier, seed, shard, nshards, deadline, count):
    mod = importlib.import_module(modname)
    camp = next(c for c in mod.CAMPAIGNS if c.name == cname)
    known = Known(mod.PROPERTY)
    st = {
        "evaluations": 0, "nontrivial": set(), "tags": Counter(), "samples": [], "failure": None,
        "inconclusive": False, "known": Counter(), "errors": None, "cut": False,
    }
    last_fail = {}

    def one(case):
        ctx = Ctx()
        st["evaluations"] += 1
        try:
            execute(camp, case, ctx)
        except Violation as v:
            if known.match(v, cname):
                st["known"].update(known.hits)
                known.hits.clear()
                return
            last_fail["case"], last_fail["msg"], last_fail["key"] = case, v.msg, v.key
            raise
        finally:
            if ctx.nt:
                st["nontrivial"].add(digest(case))
            for t in ctx.tags:
                st["tags"][t] += 1
        if ctx.nt and len(st["samples"]) < 2:
            st["samples"].append(case)

    try:
        if camp.enum is not None:
            step = max(1, round(1 / SCALE))
            for i, case in enumerate(camp.enum(tier)):
                if i // step % nshards != shard or i % step:
                    continue
                if time.time() > deadline:
                    st["cut"] = True
                    break
                try:
                    one(case)
                except Violation:
                    st["failure"] = dict(last_fail)
                    break
        else:
            import hypothesis
            from hypothesis import HealthCheck, Phase, given, settings, Verbosity

            hseed = int.from_bytes(
                hashlib.blake2b(f"{seed}/{mod.PROPERTY}/{cname}/{shard}".encode(), digest_size=6).digest(), "big")
            fail_at = [None]

            @hypothesis.seed(hseed)
            @settings(max_examples=count, database=None, deadline=None, derandomize=False,
                      phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False, print_blob=False,
                      verbosity=Verbosity.quiet, suppress_health_check=list(HealthCheck))
            @given(camp.strategy())
            def t(case):
                if fail_at[0] is None and time.time() > deadline:
                    st["cut"] = True
                    return
                if fail_at[0] is not None and time.time() > fail_at[0] + 25:
                    # stop shrinking: only the best reproduction so far still counts
                    if canon(case) == canon(last_fail["case"]):
                        raise Violation(last_fail["msg"])
                    return
                try:
                    one(case)
                except Violation:
                    if fail_at[0] is None:
                        fail_at[0] = time.time()
                    raise

            try:
                t()
            except Violation:
                st["failure"] = dict(last_fail)
            except hypothesis.errors.Flaky as e:
                if last_fail:
                    st["failure"] = dict(last_fail)
                    st["failure"]["msg"] += " [not every re-execution of this case failed]"
                else:
                    raise
    except BaseException as e:  # harness error
        if isinstance(e, KeyboardInterrupt) and not isinstance(e, sim.CpuTimeout):
            raise
        st["errors"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]
    st["name"] = cname
    st["shard"] = shard
    return st


def run_forked(tasks, jobs, grace, hard_deadline):
    """One forked process per task (isolation), at most `jobs` at a time; results by pickle over a pipe.

    `grace` seconds after the first violation, and at `hard_deadline`, whatever still runs is ended.
    """
    import pickle
    import select as _select
    import signal

    results = [None] * len(tasks)
    running = {}  # fd -> (pid, index, buffer)
    nxt = 0
    stop_at, why = hard_deadline, "had not finished in time"

    def blank(idx, error):
        t = tasks[idx]
        return {
            "evaluations": 0, "nontrivial": set(), "tags": Counter(), "samples": [], "failure": None,
            "inconclusive": False, "known": Counter(), "cut": True, "name": t[1], "shard": t[4],
            "errors": f"worker for {t[1]} shard {t[4]} {error}" if error else None,
        }

    sys.stdout.flush()
    sys.stderr.flush()
    while nxt < len(tasks) or running:
        if time.time() > stop_at:
            error = why if stop_at == hard_deadline else None
            for pid, idx, _ in running.values():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                results[idx] = blank(idx, error)
            for fd in running:
                os.close(fd)
            for idx in range(nxt, len(tasks)):
                results[idx] = blank(idx, error)
            break
        while nxt < len(tasks) and len(running) < jobs:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    try:
                        import resource
                        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    except Exception:
                        pass
                    data = pickle.dumps(run_shard(*tasks[nxt]))
                    with os.fdopen(w, "wb") as fh:
                        fh.write(data)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            running[r] = (pid, nxt, bytearray())
            nxt += 1
        ready, _, _ = _select.select(list(running), [], [], max(0.0, min(5.0, stop_at - time.time() + 0.05)))
        for fd in ready:
            pid, idx, buf = running[fd]
            chunk = os.read(fd, 1 << 20)
            if chunk:
                buf += chunk
                continue
            os.close(fd)
            del running[fd]
            _, status = os.waitpid(pid, 0)
            try:
                results[idx] = pickle.loads(bytes(buf))
            except Exception:
                results[idx] = blank(idx, f"died with status {status}")
            if results[idx]["failure"]:
                stop_at = min(stop_at, time.time() + grace)
    return results


def run_property(prop, tier, seed, only=None, jobs=None, budget=None):
    t0 = time.time()
    modname = f"props.{prop.lower()}"
    mod = importlib.import_module(modname)
    jobs = jobs or NPROC
    budget = budget or (getattr(mod, "BUDGET", {}).get(tier) or (420 if tier == "quick" else 3000))
    deadline = t0 + budget
    tasks = []
    for c in mod.CAMPAIGNS:
        if tier not in c.tiers or (only and c.name not in only):
            continue
        total = max(8, int(SCALE * (c.quick if tier == "quick" else c.thorough)))
        n = c.shards or jobs
        if c.enum is None:
            n = max(1, min(n, total // 5 or 1))
        per = max(1, -(-total // n))
        for s in range(n):
            tasks.append((modname, c.name, tier, seed, s, n, deadline, per))
    if jobs == 1:
        results = [run_shard(*t) for t in tasks]
    else:
        quick = tier == "quick"
        results = run_forked(tasks, jobs, grace=40 if quick else 300, hard_deadline=t0 + (800 if quick else budget * 2))
    known = {e["id"]: e for e in load_known(prop)}
    per_c = {}
    viol, errs = [], []
    hits = Counter()
    allnt = 0
    samples = []
    for c in mod.CAMPAIGNS:
        rs = [r for r in results if r["name"] == c.name]
        if not rs:
            continue
        nt = set().union(*(r["nontrivial"] for r in rs))
        tags = Counter()
        for r in rs:
            tags.update(r["tags"])
            hits.update(r["known"])
            if r["failure"]:
                viol.append((c.name, r["failure"]))
            if r["errors"]:
                errs.append((c.name, r["errors"]))
        per_c[c.name] = {
            "evaluations": sum(r["evaluations"] for r in rs), "distinct_nontrivial": len(nt),
            "classes": dict(sorted(tags.items())), "cut_by_time_budget": any(r["cut"] for r in rs),
            "bounded_exhaustive": bool(c.exhaustive),
        }
        allnt += len(nt)
        for r in rs[:1]:
            for s in r["samples"][:1]:
                j = canon(s)
                samples.append({"campaign": c.name, "case": s if len(j) < 1500 else j[:1500] + "..."})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": sum(p["evaluations"] for p in per_c.values()),
            "distinct_nontrivial": allnt, "rule": mod.RULE, "samples": samples or ["none"],
            "campaigns": per_c,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replays = []
    seen = set()
    for cname, f in viol:
        sig = (cname, f.get("key") or f["msg"][:40])
        if sig in seen:
            continue
        seen.add(sig)
        d = hashlib.blake2b((cname + canon(f["case"])).encode(), digest_size=5).hexdigest()
        path = os.path.join(VERIF, "evidence", f"replay-{prop}-{cname}-{d}.json")
        with open(path, "w") as fh:
            json.dump({"property": prop, "campaign": cname, "case": f["case"], "message": f["msg"],
                       "key": f.get("key")}, fh, indent=1)
        replays.append((cname, path, f))
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for kid, e in known.items():
        print(f"KNOWN-FINDING: property={prop} {e['what']}")
    for cname, p in per_c.items():
        print(f"{prop} {cname}: {p['evaluations']} cases, {p['distinct_nontrivial']} distinct non-trivial"
              + (" (cut by time budget)" if p["cut_by_time_budget"] else ""))
    for cname, path, f in replays:
        print(f"{prop} {cname}: {f['msg'][:1500]}")
        print(f"  case: {canon(f['case'])[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
    for cname, e in errs:
        print(f"HARNESS ERROR in {prop}/{cname}:\n{e}", file=sys.stderr)
    print(f"{prop}: {ev['coverage']['evaluations']} cases, {ev['wall_s']} s")
    if viol:
        return 1
    if errs:
        return 3
    return 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    mod = importlib.import_module(f"props.{d['property'].lower()}")
    camp = next(c for c in mod.CAMPAIGNS if c.name == d["campaign"])
    for i in range(5):
        try:
            execute(camp, d["case"], Ctx())
        except Violation as v:
            print(v.msg)
            print(f"VIOLATION property={d['property']} replay={path}")
            return 1
    print(f"{d['property']}: the replayed case passes")
    return 0


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", action="append")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--budget", type=float)
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.replay)
    return run_property(a.property, a.tier, a.seed, a.only, a.jobs, a.budget)
