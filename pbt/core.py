"""Runner of generated-input checks.

A check module registers sub-checks: a generator of JSON-able cases (a Hypothesis strategy or a finite enumeration) and a
function that decides one case, raising Violation (or anything else) if the property is broken for this case. The runner counts
what was generated, shrinks failures (Hypothesis), writes a replay file and the evidence file.
"""
import contextlib
import hashlib
import importlib
import io
import json
import os
import select
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

from . import boot


class Violation(AssertionError):
    """The property is broken for the case."""


class Discard(Exception):
    """The case lies outside the domain of the property (counted, not evaluated)."""


def require(condition, message="", *details):
    if not condition:
        raise Violation(message + "".join(f" | {d!r}" for d in details))


_notes = {}
TIER = ["quick"]  # tier of the run, for generators which are wider in the thorough one


def note(label):
    """Classify the current case."""
    _notes[label] = _notes.get(label, 0) + 1


class Sub:
    def __init__(self, name, fn, strategy=None, enumeration=None, quick=200, nontrivial=None, share=1.0, batch=None, max_shrink=40.0,
                 isolated=False):
        self.name = name; self.fn = fn; self.strategy = strategy; self.enumeration = enumeration
        self.quick = quick; self.nontrivial = nontrivial or (lambda case: True)
        self.share = share; self.batch = batch or quick; self.max_shrink = max_shrink; self.isolated = isolated


class Check:
    def __init__(self, pid, rule, assumptions=(), quick_workers=6, scale=1):
        self.pid = pid; self.rule = rule; self.assumptions = list(assumptions); self.subs = []; self.quick_workers = quick_workers; self.scale = scale

    def gen(self, name, strategy, quick=200, nontrivial=None, share=1.0, batch=None, max_shrink=40.0):
        """Decorator: decide cases drawn from the Hypothesis strategy (or callable returning it)."""
        def deco(fn):
            self.subs.append(Sub(name, fn, strategy=strategy, quick=quick, nontrivial=nontrivial, share=share, batch=batch,
                                 max_shrink=max_shrink))
            return fn
        return deco

    def enum(self, name, enumeration, nontrivial=None):
        """Decorator: decide all cases of a finite enumeration, enumeration(tier) -> iterable."""
        def deco(fn):
            self.subs.append(Sub(name, fn, enumeration=enumeration, nontrivial=nontrivial))
            return fn
        return deco


class Failure(Exception):
    def __init__(self, sub, case, error):
        self.sub = sub; self.case = case; self.error = error


def isolated(fn, timeout=60.0):
    """Decide fn() in a forked child with its own session; everything it leaves behind is ended. Hanging is a violation."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            with contextlib.suppress(OSError):
                os.setsid()
            _notes.clear()
            try:
                fn(); out = {"ok": True}
            except Discard:
                out = {"discard": True}
            except BaseException as e:
                out = {"error": "".join(traceback.format_exception(e))[-2500:]}
            out["notes"] = _notes
            os.write(w, json.dumps(out).encode()[:60000])
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    data = b""; limit = time.monotonic() + timeout; timed_out = False
    try:
        while True:
            left = limit - time.monotonic()
            ready = left > 0 and select.select([r], [], [], left)[0]
            if not ready:
                timed_out = True; break
            chunk = os.read(r, 65536)
            data += chunk
            if not chunk or data.endswith(b"}"):
                with contextlib.suppress(ValueError):
                    json.loads(data); break
                if not chunk:
                    break
    finally:
        os.close(r)
        with contextlib.suppress(OSError):
            os.killpg(pid, signal.SIGKILL)
        with contextlib.suppress(OSError):
            os.kill(pid, signal.SIGKILL)
        with contextlib.suppress(OSError):
            os.waitpid(pid, 0)
    if timed_out:
        raise Violation(f"not finished within {timeout} s")
    if not data:
        raise Violation("the process ended without a result")
    out = json.loads(data)
    for k, v in out.get("notes", {}).items():
        _notes[k] = _notes.get(k, 0) + v
    if "discard" in out:
        raise Discard()
    if "error" in out:
        raise Violation(out["error"])


def canonical(case):
    return json.loads(json.dumps(case))


class Stats:
    def __init__(self):
        self.evaluations = 0; self.discarded = 0; self.keys = set(); self.samples = {}; self.per_sub = {}; self.exhaustive = []
        self.incomplete = set()  # enumerations which were stopped by the time limit

    def key(self, sub, case_text):
        return hashlib.blake2b((sub + case_text).encode(), digest_size=8).hexdigest()

    def count(self, sub, case, case_text, nontrivial):
        self.evaluations += 1
        d = self.per_sub.setdefault(sub.name, {"evaluations": 0, "distinct_nontrivial": 0})
        d["evaluations"] += 1
        if nontrivial:
            k = self.key(sub.name, case_text)
            if k not in self.keys:
                self.keys.add(k); d["distinct_nontrivial"] += 1
                s = self.samples.setdefault(sub.name, [])
                if len(s) < 2 and len(case_text) < 1500:
                    s.append(case)

    def to_json(self):
        return {"evaluations": self.evaluations, "discarded": self.discarded, "keys": sorted(self.keys), "samples": self.samples,
                "per_sub": self.per_sub, "exhaustive": self.exhaustive, "incomplete": sorted(self.incomplete), "notes": _notes}

    def merge(self, d):
        self.evaluations += d["evaluations"]; self.discarded += d["discarded"]
        self.keys |= set(d["keys"])
        for k, v in d["samples"].items():
            s = self.samples.setdefault(k, [])
            s.extend(v[:max(0, 2 - len(s))])
        for k, v in d["per_sub"].items():
            t = self.per_sub.setdefault(k, {"evaluations": 0, "distinct_nontrivial": 0})
            for f in t:
                t[f] += v[f]
        self.incomplete |= set(d["incomplete"])
        self.exhaustive = sorted((set(self.exhaustive) | set(d["exhaustive"])) - self.incomplete)
        for k, v in d["notes"].items():
            _notes[k] = _notes.get(k, 0) + v


class _Sink(io.TextIOBase):
    def write(self, s):
        return len(s)


_sink = _Sink()


CASE_LIMIT = 240.0  # seconds for one case: far above the slowest one (tens of seconds), below the limit of a check


class Hang(Violation):
    """The case isn't finished within the limit."""


def _on_alarm(signum, frame):
    raise Hang(f"not finished within {CASE_LIMIT} s")


def call(fn, case):
    """Decide one case with a silent library, default warning state and limited time."""
    previous = signal.signal(signal.SIGALRM, _on_alarm); signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(_sink), contextlib.redirect_stderr(_sink):
            warnings.simplefilter("ignore")
            fn(case)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, previous)


def run_case(sub, case, stats):
    text = json.dumps(case, sort_keys=True)
    case = json.loads(text)
    try:
        call(sub.fn, case)
    except Discard:
        stats.discarded += 1
        return
    stats.count(sub, case, text, bool(sub.nontrivial(case)))


def sub_seed(seed, name, round_):
    return int.from_bytes(hashlib.blake2b(f"{seed}/{name}/{round_}".encode(), digest_size=7).digest(), "big")


def run_enum(sub, tier, stats, deadline, part=(0, 1)):
    """Decide the share of the enumerated cases of this process."""
    complete = True
    for i, case in enumerate(sub.enumeration(tier)):
        if i % part[1] != part[0]:
            continue
        case = canonical(case)
        try:
            run_case(sub, case, stats)
        except KeyboardInterrupt:
            raise
        except BaseException as e:
            raise Failure(sub, case, "".join(traceback.format_exception(e))[-3000:])
        if time.monotonic() > deadline:
            complete = False; break
    if not complete:
        stats.incomplete.add(sub.name)
    stats.exhaustive = sorted((set(stats.exhaustive) | {sub.name}) - stats.incomplete)


def run_gen(sub, seed, examples, stats, deadline):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    strategy = sub.strategy() if callable(sub.strategy) and not hasattr(sub.strategy, "example") else sub.strategy
    state = {"best": None, "error": None, "t_fail": None, "failing": {}}

    def test(case):
        case = canonical(case)
        text = json.dumps(case, sort_keys=True)
        if state["t_fail"] is None and time.monotonic() > deadline:
            return  # budget of the run is over: remaining cases are not evaluated (and not counted)
        if state["t_fail"] is not None and time.monotonic() - state["t_fail"] > sub.max_shrink:
            if text in state["failing"]:
                raise Violation(state["failing"][text])
            return
        try:
            run_case(sub, case, stats)
        except (KeyboardInterrupt, hypothesis.errors.HypothesisException):
            raise
        except Exception as e:
            message = "".join(traceback.format_exception(e))[-3000:]
            if state["t_fail"] is None:
                state["t_fail"] = time.monotonic(); state["best"] = case; state["error"] = message; state["size"] = len(text)
            elif len(text) <= state["size"]:
                state["best"] = case; state["error"] = message; state["size"] = len(text)
            state["failing"][text] = message
            if isinstance(e, Hang):
                state["t_fail"] = -1e9  # no shrinking of cases which hang
            raise Violation(message) from None

    runner = hypothesis.seed(seed)(settings(max_examples=examples, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                                            phases=(Phase.generate, Phase.shrink), print_blob=False,
                                            suppress_health_check=list(HealthCheck))(given(strategy)(test)))
    try:
        with contextlib.redirect_stdout(_sink), contextlib.redirect_stderr(_sink):
            runner()
    except BaseException as e:
        if state["best"] is not None:
            raise Failure(sub, state["best"], state["error"]) from None
        raise


def load(pid) -> Check:
    return importlib.import_module(f"pbt.checks.{pid.lower()}").CHECK


# ---------------------------------------------------------------- known findings
def known_findings():
    """Lines '<property> <sub-check> <json of the case>' in known_findings.txt marked as 'finding:'."""
    path = os.path.join(boot.VERIF, "known_findings.txt"); out = []
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            if line.startswith("finding:"):
                out.append(json.loads(line[len("finding:"):]))
    return out


# ---------------------------------------------------------------- main
def write_replay(pid, failure, seed):
    folder = os.path.join(boot.EVIDENCE, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{pid}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump({"property": pid, "sub": failure.sub.name, "case": failure.case, "seed": seed, "error": failure.error}, f, indent=1)
    return path


def write_evidence(check, tier, seed, stats, wall, violations):
    samples = []
    for name, cases in stats.samples.items():
        for c in cases:
            samples.append({"sub_check": name, "case": c})
    if not samples:
        samples = ["none"]
    per = {k: dict(v) for k, v in stats.per_sub.items()}
    ev = {"property": check.pid, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2), "violations": violations,
          "coverage": {"evaluations": stats.evaluations, "distinct_nontrivial": len(stats.keys), "rule": check.rule, "samples": samples,
                       "per_sub_check": per, "discarded_out_of_domain": stats.discarded,
                       "completely_enumerated_sub_checks": stats.exhaustive, "classes": dict(sorted(_notes.items()))},
          "assumptions": check.assumptions}
    path = os.path.join(boot.EVIDENCE, f"{check.pid}.json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, path)


def explore(check, tier, seed, budget, stats, only=None, part=(0, 1)):
    """One process: quick - every sub-check once; thorough - rounds of generation until the budget is over.

    part - number of this process and number of all processes: enumerated cases are shared, generated ones have own seeds.
    """
    start = time.monotonic(); deadline = start + budget
    subs = [s for s in check.subs if only is None or s.name == only]
    verbose = os.environ.get("PBT_VERBOSE")
    for sub in subs:
        t = time.monotonic()
        if sub.enumeration is not None:
            run_enum(sub, tier, stats, deadline, part)
        elif tier == "quick":
            run_gen(sub, sub_seed(seed, sub.name, part[0]), sub.quick * check.scale, stats, deadline)
        if verbose:
            sys.__stderr__.write(f"  {sub.name}: {time.monotonic() - t:.2f} s {stats.per_sub.get(sub.name)}\n")
    if tier != "quick":
        gens = [s for s in subs if s.strategy is not None]
        round_ = part[0]; spent = {s.name: 0.0 for s in gens}
        while gens and time.monotonic() < deadline:
            sub = min(gens, key=lambda s: spent[s.name] / s.share)
            t = time.monotonic()
            run_gen(sub, sub_seed(seed, sub.name, round_), sub.batch, stats, deadline)
            spent[sub.name] += time.monotonic() - t + 1e-3; round_ += part[1]


def adopt_descendants():
    """Processes left by ended children become children of this one (instead of process 1), so they can be found and ended."""
    with contextlib.suppress(Exception):
        import ctypes
        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)  # PR_SET_CHILD_SUBREAPER


def end_children():
    """End all children of this process, and theirs as soon as they are adopted."""
    limit = time.monotonic() + 10.0
    while time.monotonic() < limit:
        found = set()
        for task in os.listdir("/proc/self/task"):
            with contextlib.suppress(OSError), open(f"/proc/self/task/{task}/children") as f:
                found |= {int(p) for p in f.read().split()}
        if not found:
            return
        for p in found:
            with contextlib.suppress(OSError):
                os.kill(p, signal.SIGKILL)
            with contextlib.suppress(OSError):
                os.waitpid(p, 0)


def worker_main(pid, tier, seed, budget, out, part, only):
    TIER[0] = tier; boot.prepare()
    check = load(pid); stats = Stats(); result = {}
    try:
        explore(check, tier, seed, budget, stats, only, part)
    except Failure as f:
        result["failure"] = {"sub": f.sub.name, "case": f.case, "error": f.error}
    except BaseException as e:
        result["crash"] = "".join(traceback.format_exception(e))[-4000:]
    result["stats"] = stats.to_json()
    with open(out + ".tmp", "w") as fh:
        json.dump(result, fh)
    os.replace(out + ".tmp", out)


def report(check, tier, seed, stats, start, failure, all_failures=None):
    wall = time.monotonic() - start
    if failure is not None:
        for k in known_findings():
            if k["property"] == check.pid and k["sub"] == failure.sub.name and k["case"] == failure.case:
                print(f"KNOWN-FINDING: property={check.pid} {k['what']}")
                failure = None; break
    write_evidence(check, tier, seed, stats, wall, 0 if failure is None else 1)
    if failure is not None:
        path = write_replay(check.pid, failure, seed)
        print(f"{check.pid}: sub-check '{failure.sub.name}' failed for case {json.dumps(failure.case)[:600]}")
        print(failure.error.strip()[-1500:])
        print(f"VIOLATION property={check.pid} replay={path}")
        return 1
    print(f"{check.pid}: held on {stats.evaluations} cases ({len(stats.keys)} distinct non-trivial), {wall:.1f} s, tier {tier}, seed {seed}")
    return 0


def main(argv=None):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?", default=""); ap.add_argument("--self-test", action="store_true")
    ap.add_argument("--tier", default=None, choices=["quick", "thorough"])
    ap.add_argument("--replay"); ap.add_argument("--only"); ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--workers", type=int, default=None); ap.add_argument("--worker-out"); ap.add_argument("--part", default="0/1")
    a = ap.parse_args(argv)
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if a.worker_out:
        worker_main(a.property, tier, seed, a.budget, a.worker_out, tuple(int(k) for k in a.part.split("/")), a.only)
        return 0
    TIER[0] = tier; boot.prepare()
    if a.self_test:
        folder = os.path.join(boot.HERE, "checks")
        pids = sorted(f[:-3].upper() for f in os.listdir(folder) if f[0] == "p" and f[1:-3].isdigit())
        for pid in pids:
            assert load(pid).pid == pid and load(pid).subs
        print(f"{len(pids)} checks are ready")
        return 0
    check = load(a.property)
    if a.replay:
        data = json.load(open(a.replay)); sub = next(s for s in check.subs if s.name == data["sub"])
        try:
            call(sub.fn, canonical(data["case"]))
        except Discard:
            print("case is out of the domain"); return 0
        except Exception:
            traceback.print_exc()
            print(f"VIOLATION property={check.pid} replay={a.replay}")
            return 1
        print("replay: property holds for the case")
        return 0
    start = time.monotonic(); stats = Stats()
    cores = os.cpu_count() or 1
    if tier == "quick":
        budget = a.budget or 400.0; n = a.workers or min(check.quick_workers, max(2, cores))
    else:
        budget = a.budget or 500.0; n = a.workers or min(8, cores)
    if n == 1:
        failure = None
        try:
            explore(check, tier, seed, budget, stats, a.only)
        except Failure as f:
            failure = f
        return report(check, tier, seed, stats, start, failure)
    # several processes with different seeds
    failure = None; crash = None; adopt_descendants()
    with tempfile.TemporaryDirectory(prefix="pbt_") as tmp:
        procs = []
        for i in range(n):
            env = boot.environment(); env["VERIF_SEED"] = str(seed); out = os.path.join(tmp, f"{i}.json")
            cmd = [sys.executable, os.path.join(boot.HERE, "run.py"), check.pid, "--tier", tier, "--budget", str(budget),
                   "--worker-out", out, "--part", f"{i}/{n}"] + (["--only", a.only] if a.only else [])
            procs.append((subprocess.Popen(cmd, env=env, cwd=boot.VERIF, start_new_session=True, stdin=subprocess.DEVNULL,
                                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), out))
        pending = list(procs); limit = time.monotonic() + budget + 240.0
        try:
            while pending and failure is None and time.monotonic() < limit:
                time.sleep(0.1)
                for p, out in list(pending):
                    if p.poll() is not None:
                        pending.remove((p, out))
                        if not os.path.exists(out):
                            crash = crash or f"worker ended with {p.returncode}"; continue
                        r = json.load(open(out)); stats.merge(r["stats"])
                        if "failure" in r and failure is None:
                            f = r["failure"]; failure = Failure(next(s for s in check.subs if s.name == f["sub"]), f["case"], f["error"])
                        crash = crash or r.get("crash")
        finally:
            for p, _ in pending:
                with contextlib.suppress(ProcessLookupError):
                    os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            end_children()
    if failure is None and crash:
        print(crash); return 2
    return report(check, tier, seed, stats, start, failure)
