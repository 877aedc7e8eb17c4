"""Facets, the sharded Hypothesis runner, evidence, replays and known findings."""
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = max(1, min(8, os.cpu_count() or 1))
MEM = 4 << 30


class Violation(Exception):
    """The property does not hold on this case.  `key` names a possible known finding."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Skip(Exception):
    """The case turned out to lie outside the property's domain (counted)."""


class TooSlow(BaseException):
    """Raised by the timer of lib.limit, not to be caught by the code under test."""


class HarnessError(Exception):
    """The harness itself is wrong: never reported as a violation."""


def fail(msg, key=None):
    raise Violation(msg, key)


def require(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


class Ctx:
    """Per-case context: labels, triviality, scratch directory."""

    def __init__(self, tmp):
        self._tmp = tmp
        self.labels = []
        self.is_nontrivial = False

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    _n = 0

    def path(self, name="f"):
        Ctx._n += 1
        return os.path.join(self._tmp, "%s%d.json" % (name, Ctx._n))


class Facet:
    def __init__(
        self,
        name,
        check,
        rule,
        strategy=None,
        cases=None,
        quick=200,
        thorough=None,
        shard=50,
        exhaustive=False,
    ):
        self.name, self.check, self.rule = name, check, rule
        self.strategy, self.cases = strategy, cases
        self.quick = quick
        self.thorough = quick * 20 if thorough is None else thorough
        self.shard = shard
        self.exhaustive = exhaustive


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def digest(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()[:16]


def seed_of(*parts):
    h = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:6], "big")


def describe_exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ""
    for fr in reversed(tb):
        if "/orquestra/quantum/" in fr.filename:
            where = " at %s:%s" % (fr.filename.split("/src/")[-1], fr.lineno)
            break
    return "%s: %s%s" % (type(e).__name__, str(e)[:300], where)


def run_case(facet, case, ctx):
    """Run one case.  Returns None, or a Violation instance."""
    import numpy as np

    s = seed_of("case", canon(case))
    np.random.seed(s % (2**32))
    random.seed(s)
    try:
        facet.check(case, ctx)
        return None
    except Violation as v:
        return v
    except TooSlow:  # fired while the timer was being stopped
        raise Skip()
    except (Skip, HarnessError, MemoryError, KeyboardInterrupt):
        raise
    except RecursionError:
        raise
    except Exception as e:  # a valid input that cannot be processed
        v = Violation("unexpected exception on a valid input: " + describe_exc(e))
        v.trace = traceback.format_exc()
        return v


# --------------------------------------------------------------------- shard worker


class Acc:
    def __init__(self):
        self.evals = 0
        self.skipped = 0
        self.nontrivial = set()
        self.labels = Counter()
        self.samples = []
        self.known = Counter()
        self.known_msg = {}
        self.failure = None
        self.error = None
        self.after_deadline = 0
        self.oom = 0

    def dump(self):
        return dict(self.__dict__)


def worker(mod, facet, job, known_keys, deadline, tmp):
    acc = Acc()
    fail_cases = {}
    state = {"first_fail": None}

    class Failed(Exception):
        pass

    def one(case):
        if state["first_fail"] is not None:
            # Shrinking: bounded.  Only already-known failing cases may fail late.
            d = digest(case)
            if time.monotonic() - state["first_fail"] > 60 and d not in fail_cases:
                return
        elif time.monotonic() > deadline:
            acc.after_deadline += 1
            return
        ctx = Ctx(tmp)
        acc.evals += 1
        try:
            v = run_case(facet, case, ctx)
        except Skip:
            acc.skipped += 1
            return
        except MemoryError:
            acc.oom += 1
            return
        for lb in ctx.labels:
            acc.labels[lb] += 1
        if ctx.is_nontrivial:
            d = digest(case)
            if d not in acc.nontrivial:
                acc.nontrivial.add(d)
                c = canon(case)
                if len(acc.samples) < 3 and len(c) < 3000:
                    acc.samples.append(json.loads(c))
        if v is None:
            return
        if v.key is not None and v.key in known_keys:
            acc.known[v.key] += 1
            acc.known_msg.setdefault(v.key, str(v))
            return
        if state["first_fail"] is None:
            state["first_fail"] = time.monotonic()
        fail_cases[digest(case)] = True
        acc.failure = {
            "case": json.loads(canon(case)),
            "msg": str(v),
            "trace": getattr(v, "trace", None),
        }
        raise Failed(str(v))

    try:
        if facet.cases is not None:
            for case in job["cases"]:
                one(case)
        else:
            import hypothesis
            from hypothesis import HealthCheck, Phase, Verbosity, given, seed, settings

            @seed(job["seed"])
            @settings(
                max_examples=job["n"],
                database=None,
                deadline=None,
                phases=[Phase.generate, Phase.shrink],
                suppress_health_check=list(HealthCheck),
                print_blob=False,
                report_multiple_bugs=False,
                verbosity=Verbosity.quiet,
            )
            @given(facet.strategy)
            def test(case):
                one(case)

            test()
    except Failed:
        pass
    except Exception as e:
        if acc.failure is None:
            acc.error = traceback.format_exc()
        else:
            # e.g. Hypothesis' Flaky: the recorded failing case is re-run by the parent
            acc.failure["note"] = "%s" % type(e).__name__
    if acc.failure is not None:
        # confirm in isolation; otherwise the shard itself is the reproduction
        fresh = rerun_isolated(facet, acc.failure["case"], tmp)
        acc.failure["isolated"] = fresh is not None
    return acc.dump()


def rerun_isolated(facet, case, tmp):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            v = run_case(facet, case, Ctx(tmp))
            code = 1 if v is not None else 0
        except BaseException:
            code = 0
        os._exit(code)
    os.close(r)
    os.close(w)
    _, st = os.waitpid(pid, 0)
    return True if os.waitstatus_to_exitcode(st) == 1 else None


class Pool:
    """Fork one process per job, at most WORKERS at once, kill at the deadline."""

    def __init__(self, fn, jobs, hard_deadline, stop_on):
        self.fn, self.jobs, self.hard, self.stop_on = fn, list(jobs), hard_deadline, stop_on
        self.results, self.killed = [], []

    def _spawn(self, job):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                os.setsid()
                resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
                sys.stdout.flush()
                tmp = tempfile.mkdtemp(prefix="pbt-case-", dir=job["tmp"])
                os.chdir(tmp)
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                out = self.fn(job, tmp)
                data = pickle.dumps(out)
            except BaseException:
                data = pickle.dumps({"error": traceback.format_exc()})
            try:
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            except BaseException:
                code = 3
            os._exit(code)
        os.close(w)
        return pid, r, job

    def run(self):
        live, stop = {}, False
        try:
            while live or (self.jobs and not stop):
                while self.jobs and len(live) < WORKERS and not stop:
                    if time.monotonic() > self.hard:
                        self.killed += self.jobs
                        self.jobs = []
                        break
                    pid, r, job = self._spawn(self.jobs.pop(0))
                    live[r] = [pid, job, b"", time.monotonic()]
                if not live:
                    break
                rs, _, _ = select.select(list(live), [], [], 1.0)
                for r in rs:
                    d = os.read(r, 1 << 20)
                    if d:
                        live[r][2] += d
                        continue
                    pid, job, buf, _t = live.pop(r)
                    os.close(r)
                    os.waitpid(pid, 0)
                    try:
                        res = pickle.loads(buf)
                    except Exception:
                        res = {"died": True}
                    self.results.append((job, res))
                    if self.stop_on(res):
                        stop = True
                        grace = time.monotonic() + 1.0
                        self.hard = min(self.hard, grace)
                if time.monotonic() > self.hard:
                    for r, (pid, job, _b, _t) in list(live.items()):
                        self._kill(pid)
                        os.close(r)
                        self.killed.append(job)
                        del live[r]
        finally:
            for r, (pid, job, _b, _t) in live.items():
                self._kill(pid)
        if stop:
            self.jobs = []
        return self.results

    @staticmethod
    def _kill(pid):
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass


# ------------------------------------------------------------------- known findings


def load_known(prop):
    """Lines `known: property=Cxx key=<key> witness=<file> :: text`, `fixed: ...`."""
    out = []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            head, _, text = line.partition("::")
            kv = dict(p.split("=", 1) for p in head.split()[1:])
            if kv.get("property") == prop:
                out.append((kv["key"], kv.get("witness"), text.strip()))
    return out


# ------------------------------------------------------------------------------ main


def load_json(p):
    with open(p) as f:
        return json.load(f)


def main(argv):
    if not argv:
        print("usage: check.py PROPERTY [--replay FILE] [--facet NAME]")
        return 2
    prop = argv[0].upper()
    if prop == "SELFTEST":
        return selftest()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = seed_of(os.environ["VERIF_SEED"])
    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix="pbt-%s-" % prop)
    try:
        mod = importlib.import_module("pbt.props." + prop.lower())
        facets = {f.name: f for f in mod.FACETS}
        if "--replay" in argv:
            return replay(prop, facets, argv[argv.index("--replay") + 1], scratch)
        only = argv[argv.index("--facet") + 1].split(",") if "--facet" in argv else None
        return explore(prop, mod, facets, tier, seed, t0, scratch, only)
    except Exception:
        traceback.print_exc()
        print("HARNESS-ERROR property=%s" % prop)
        return 2
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def selftest():
    """Imports, the oracle's own sanity, and every property module."""
    import numpy as np

    from . import oracle

    for name, (k, n, f) in oracle.GATES.items():
        u = np.asarray(f(*[0.3, -1.1, 2.0][:k]), dtype=complex)
        assert u.shape == (2**n, 2**n) and np.allclose(u @ u.conj().T, np.eye(2**n)), name
    rng = np.random.RandomState(0)
    a, b = rng.normal(size=(4, 4)), rng.normal(size=(2, 2))
    assert np.allclose(
        oracle.embed(a, [2, 0], 3)[:, 1],
        oracle.apply_op(np.eye(8)[:, 1], a, [2, 0], 3),
    )
    assert np.allclose(oracle.embed(b, [1], 3), oracle.kron(np.eye(2), b, np.eye(2)))
    for p in sorted(os.listdir(os.path.join(ROOT, "pbt", "props"))):
        if p.startswith("c") and p.endswith(".py"):
            importlib.import_module("pbt.props." + p[:-3])
    print("selftest ok")
    return 0


def replay(prop, facets, path, scratch):
    rec = load_json(path)
    facet = facets[rec["facet"]]
    os.chdir(scratch)
    if rec.get("shard"):
        job = rec["shard"]
        res = worker(None, facet, job, set(), time.monotonic() + 1e6, scratch)
        v = res["failure"] and res["failure"]["msg"]
    else:
        try:
            v = run_case(facet, rec["case"], Ctx(scratch))
        except Skip:
            print("replay: no valid case of property %s" % prop)
            return 0
        if v is not None and getattr(v, "trace", None):
            print(v.trace)
    if v is None:
        print("replay: property %s holds on this case" % prop)
        return 0
    print("replay: %s" % v)
    if not isinstance(v, str) and v.key in {k for k, _, _ in load_known(prop)}:
        print("KNOWN-FINDING: property=%s %s" % (prop, v))
        return 0
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def make_jobs(prop, facets, tier, seed, scratch, scale):
    jobs = []
    for f in facets:
        if f.cases is not None:
            cases = [json.loads(canon(c)) for c in f.cases(tier)]
            for i in range(0, len(cases), f.shard):
                jobs.append({"facet": f.name, "cases": cases[i : i + f.shard], "i": i})
        else:
            n = f.quick if tier == "quick" else f.thorough
            n = max(1, int(n * scale))
            k = max(1, -(-n // f.shard))
            for i in range(k):
                m = n // k + (1 if i < n % k else 0)
                jobs.append(
                    {
                        "facet": f.name,
                        "n": m,
                        "seed": seed_of(prop, f.name, seed, i),
                        "i": i,
                    }
                )
    # interleave facets so that every facet progresses before the budget ends
    by = {}
    for j in jobs:
        by.setdefault(j["facet"], []).append(j)
    total = {k: len(v) for k, v in by.items()}
    order = sorted(jobs, key=lambda j: (by[j["facet"]].index(j) + 0.5) / total[j["facet"]])
    for j in order:
        j["tmp"] = scratch
    return order


def explore(prop, mod, facets, tier, seed, t0, scratch, only):
    soft = float(os.environ.get("PBT_SOFT", 240 if tier == "quick" else 3600 * 3))
    soft = getattr(mod, "SOFT", {}).get(tier, soft) if "PBT_SOFT" not in os.environ else soft
    scale = float(os.environ.get("PBT_SCALE", "1"))
    deadline = t0 + soft
    hard = deadline + 120
    known = load_known(prop)
    known_keys = {k for k, _, _ in known}
    sel = [f for n, f in facets.items() if not only or n in only]

    # 1. replay tier: known findings' witnesses and saved regression cases
    corpus_jobs = []
    cdir = os.path.join(ROOT, "corpus", prop)
    if os.path.isdir(cdir) and not only:
        for name in sorted(os.listdir(cdir)):
            rec = load_json(os.path.join(cdir, name))
            corpus_jobs.append(
                {
                    "facet": rec["facet"],
                    "cases": [rec["case"]],
                    "i": 0,
                    "tmp": scratch,
                    "corpus": name,
                }
            )
    jobs = make_jobs(prop, sel, tier, seed, scratch, scale)

    def fn(job, tmp):
        f = facets[job["facet"]]
        if "corpus" in job:
            f = Facet(f.name, f.check, f.rule, cases=True)
        return worker(mod, f, job, known_keys, deadline, tmp)

    pool = Pool(fn, corpus_jobs + jobs, hard, lambda r: bool(r.get("failure")))
    results = pool.run()

    ev, per = Acc(), {}
    nontriv = set()
    errors, failures, died = [], [], 0
    for job, res in results:
        if res.get("died"):
            died += 1
            continue
        if res.get("error"):
            errors.append((job, res["error"]))
            if "evals" not in res:
                continue
        p = per.setdefault(
            job["facet"], {"evaluations": 0, "nontrivial": set(), "skipped": 0, "labels": Counter()}
        )
        p["evaluations"] += res["evals"]
        p["skipped"] += res["skipped"]
        p["nontrivial"] |= res["nontrivial"]
        p["labels"] += res["labels"]
        p.setdefault("samples", []).extend(res["samples"][: max(0, 2 - len(p.get("samples", [])))])
        ev.evals += res["evals"]
        ev.known += res["known"]
        ev.oom += res["oom"]
        ev.after_deadline += res["after_deadline"]
        for k, m in res["known_msg"].items():
            ev.known_msg.setdefault(k, m)
        nontriv |= {job["facet"] + ":" + d for d in res["nontrivial"]}
        if res["failure"]:
            failures.append((job, res["failure"]))

    inconclusive = died + len(pool.killed)
    rc = 0
    for key, wit, text in known:
        # the witness lives in corpus/<prop>/; report only if it (or another case) still fails
        if ev.known.get(key):
            print("KNOWN-FINDING: property=%s key=%s %s" % (prop, key, text))
    lines = []
    if failures:
        failures.sort(key=lambda x: (not x[1]["isolated"], len(canon(x[1]["case"]))))
        job, fl = failures[0]
        rec = {"property": prop, "facet": job["facet"], "msg": fl["msg"], "case": fl["case"]}
        if fl.get("trace"):
            rec["trace"] = fl["trace"]
        if not fl["isolated"]:
            rec["shard"] = {k: v for k, v in job.items() if k != "tmp"}
        rdir = os.path.join(ROOT, "replays")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%s-%s.json" % (prop, job["facet"], digest(fl["case"])))
        with open(rp, "w") as f:
            json.dump(rec, f, indent=1)
        print("facet %s: %s" % (job["facet"], fl["msg"][:2000]))
        print("case: %s" % canon(fl["case"])[:1500])
        lines.append("VIOLATION property=%s replay=%s" % (prop, rp))
        rc = 1
    elif errors:
        for job, e in errors[:3]:
            print("facet %s:\n%s" % (job["facet"], e))
        print("HARNESS-ERROR property=%s (%d)" % (prop, len(errors)))
        rc = 2

    samples = []
    for n, p in per.items():
        for s in p.get("samples", [])[:2]:
            samples.append({"facet": n, "case": s})
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(failures),
        "coverage": {
            "evaluations": ev.evals,
            "distinct_nontrivial": len(nontriv),
            "rule": "; ".join("%s: %s" % (f.name, f.rule) for f in sel),
            "samples": samples,
            "facets": {
                n: {
                    "evaluations": p["evaluations"],
                    "distinct_nontrivial": len(p["nontrivial"]),
                    "skipped": p["skipped"],
                    "enumerated": facets[n].cases is not None,
                    "complete_enumeration": bool(facets[n].exhaustive),
                    "labels": dict(sorted(p["labels"].items(), key=lambda kv: -kv[1])[:40]),
                }
                for n, p in per.items()
            },
            "known_finding_hits": dict(ev.known),
            "cases_not_run_after_time_budget": ev.after_deadline,
            "jobs_cut_by_time_budget": len(pool.killed),
            "jobs_died": died,
            "cases_out_of_memory": ev.oom,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
    }
    if not only:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
    print(
        "%s %s seed=%d: %d evaluations, %d distinct non-trivial, %.1f s%s"
        % (
            prop,
            tier,
            seed,
            ev.evals,
            len(nontriv),
            time.monotonic() - t0,
            ", %d jobs inconclusive" % inconclusive if inconclusive else "",
        )
    )
    for n, p in per.items():
        print(
            "  %-28s evals=%d nontrivial=%d skipped=%d %s"
            % (
                n,
                p["evaluations"],
                len(p["nontrivial"]),
                p["skipped"],
                dict(p["labels"].most_common(8)),
            )
        )
    for ln in lines:
        print(ln)
    sys.stdout.flush()
    return rc
