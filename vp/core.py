"""Property-based testing core: generated cases, explicit oracles, shrinking, replay files, evidence.

A property module defines SUBS, a list of Sub.  Each Sub is a Hypothesis strategy producing JSON-able
cases plus a run(case) that judges one case against an oracle: it returns an Outcome, raises Violation
when the code under test breaks the property, or raises Discard when the case is outside the domain.
"""
import contextlib
import hashlib
import io
import json
import multiprocessing
import os
import pickle
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
# Hypothesis (pure Python) comes from the tooling venv; everything else from the project's own venv.
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

warnings.filterwarnings("ignore")

import hypothesis  # noqa: E402
import yaml  # noqa: E402

if getattr(yaml, "__with_libyaml__", False):  # the same parser, in C: the model reads its YAML files for every build
    yaml.safe_load = lambda stream: yaml.load(stream, Loader=yaml.CSafeLoader)
from hypothesis import HealthCheck, Phase, given, seed, settings  # noqa: E402

CASE_SECONDS = 120
SHRINK_SECONDS = float(os.environ.get("VERIF_SHRINK", "15"))
SHRINK_RUNS = 120


class Violation(Exception):
    """The code under test broke the property on this case."""


class Discard(Exception):
    """The case is outside the property's domain."""


class StopShard(BaseException):
    """Ends a shard at once (a failure has been shrunk enough, or another shard found one)."""


class Outcome:
    def __init__(self, nontrivial=True, label=None):
        self.nontrivial = nontrivial
        self.label = label


class Sub:
    def __init__(self, name, strategy, run, quick, thorough, rule, examples=(), isolate=False):
        self.name = name
        self.strategy = strategy  # a Hypothesis strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.examples = list(examples)
        self.isolate = isolate


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=str).encode()).hexdigest()[:16]


@contextlib.contextmanager
def sut(what):
    """Code inside is MIMOSA handling valid input: any exception is a violation."""
    try:
        with quiet():
            yield
    except (Violation, Discard, StopShard):
        raise
    except Exception as exc:
        tb = traceback.extract_tb(exc.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-4:]))
        raise Violation(f"{what}: unexpected {type(exc).__name__}: {str(exc)[:300]} [{where}]") from exc


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def expect(cond, message):
    if not cond:
        raise Violation(message)


class _Alarm(Exception):
    pass


def _on_alarm(_sig, _frame):
    raise _Alarm()


def run_case(sub, case):
    """One judged execution. Returns ('ok', Outcome) / ('violation', msg) / ('discard', None)."""
    case = json.loads(json.dumps(case))  # what runs is exactly what a replay file can hold
    if sub.isolate:
        return _run_isolated(sub, case)
    return _run_plain(sub, case)


def _run_plain(sub, case):
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(CASE_SECONDS)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = sub.run(case)
        return "ok", out if isinstance(out, Outcome) else Outcome(bool(out))
    except Violation as exc:
        return "violation", str(exc)
    except Discard:
        return "discard", None
    except _Alarm:
        return "violation", f"no answer within {CASE_SECONDS} s"
    except (StopShard, MemoryError, OSError, ImportError, RuntimeError, AssertionError):
        raise  # the machinery or the sandbox: not an answer about the property
    except Exception as exc:
        if isinstance(exc, AttributeError) and isinstance(exc.obj, (type(sys), type)):
            raise  # something of the code under test is called differently now
        tb = traceback.extract_tb(exc.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-4:]))
        return "violation", f"a result does not have the form it should have: {type(exc).__name__}: {str(exc)[:300]} [{where}]"
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _run_isolated(sub, case):
    """Run the case in a forked child, so that nothing it leaves in the process is seen by other cases."""
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        code = 0
        try:
            try:
                kind, val = _run_plain(sub, case)
                payload = (kind, (val.nontrivial, val.label) if kind == "ok" else val)
            except BaseException:
                payload = ("error", traceback.format_exc())
            data = pickle.dumps(payload)
            while data:
                n = os.write(wfd, data)
                data = data[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    chunks = []
    while True:
        b = os.read(rfd, 65536)
        if not b:
            break
        chunks.append(b)
    os.close(rfd)
    os.waitpid(pid, 0)
    if not chunks:
        raise RuntimeError("isolated case died without an answer")
    kind, val = pickle.loads(b"".join(chunks))
    if kind == "error":
        raise RuntimeError("isolated case failed:\n" + val)
    if kind == "ok":
        val = Outcome(*val)
    return kind, val


class ShardStats:
    def __init__(self):
        self.evals = {}
        self.discards = {}
        self.nontrivial = {}
        self.labels = {}
        self.samples = {}
        self.failures = []  # (sub, case, message)
        self.errors = []


def _run_shard(subs, counts, shard, nshards, base_seed, stop_event, deadline, conn):
    # silence prints and logging of the code under test
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    import logging

    logging.disable(logging.CRITICAL)
    stats = ShardStats()
    try:
        for i, sub in enumerate(subs):
            _run_sub(sub, counts[sub.name], shard, nshards, base_seed + 7919 * i, stop_event, deadline, stats)
            if stats.failures or stop_event.is_set():
                break
    except StopShard:
        pass
    except BaseException:
        stats.errors.append(traceback.format_exc())
    conn.send(stats)
    conn.close()
    os._exit(0)


def _run_sub(sub, count, shard, nshards, base_seed, stop_event, deadline, stats):
    stats.evals.setdefault(sub.name, 0)
    stats.discards.setdefault(sub.name, 0)
    stats.nontrivial.setdefault(sub.name, set())
    stats.labels.setdefault(sub.name, {})
    stats.samples.setdefault(sub.name, [])
    state = {"best": None, "first": None, "runs": 0}

    def judge(case):
        if state["best"] is None:
            if stop_event.is_set() or time.time() > deadline:
                raise StopShard()
        else:
            state["runs"] += 1
            if state["runs"] > SHRINK_RUNS or time.time() - state["first"] > SHRINK_SECONDS:
                raise StopShard()
        kind, val = run_case(sub, case)
        if state["best"] is None:
            stats.evals[sub.name] += 1
        if kind == "discard":
            if state["best"] is None:
                stats.discards[sub.name] += 1
            return "discard"
        if kind == "violation":
            size = len(json.dumps(case))
            if state["best"] is None:
                state["first"] = time.time()
                stop_event.set()
            if state["best"] is None or size <= state["best"][2]:
                state["best"] = (case, val, size)
            return "violation"
        if state["best"] is None:
            if val.nontrivial:
                stats.nontrivial[sub.name].add(digest(case))
                if len(stats.samples[sub.name]) < 2:
                    stats.samples[sub.name].append(case)
            if val.label is not None:
                for lab in val.label if isinstance(val.label, (list, tuple)) else [val.label]:
                    stats.labels[sub.name][lab] = stats.labels[sub.name].get(lab, 0) + 1
        return "ok"

    try:
        for k, case in enumerate(sub.examples):
            if k % nshards == shard:
                if judge(case) == "violation":
                    return
        n = count // nshards + (1 if shard < count % nshards else 0)
        if n == 0:
            return

        @seed(base_seed * 1000003 + shard)
        @settings(
            max_examples=n,
            database=None,
            deadline=None,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.shrink),
            report_multiple_bugs=False,
            print_blob=False,
            verbosity=hypothesis.Verbosity.quiet,
        )
        @given(sub.strategy)
        def test(case):
            res = judge(case)
            if res == "discard":
                hypothesis.reject()
            if res == "violation":
                raise Violation("violation")

        try:
            test()
        except Violation:
            pass
        except StopShard:
            pass
        except hypothesis.errors.Flaky:
            pass
        except BaseException:
            if state["best"] is None:
                raise
    finally:
        if state["best"] is not None:
            stats.failures.append((sub.name, state["best"][0], state["best"][1]))


def run_property(pid, mod, tier, base_seed, only=None, nshards=None):
    t0 = time.time()
    subs = [s for s in mod.SUBS if only is None or s.name in only]
    nshards = nshards or min(8, os.cpu_count() or 1)
    cap = float(os.environ.get("VERIF_CAP", "420" if tier == "quick" else "820"))
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    counts = {s.name: max(1, int((s.quick if tier == "quick" else s.thorough) * scale)) for s in subs}
    ctx = multiprocessing.get_context("fork")
    stop_event = ctx.Event()
    deadline = t0 + cap
    procs = []
    for shard in range(nshards):
        r, w = ctx.Pipe(False)
        p = ctx.Process(
            target=_run_shard,
            args=(subs, counts, shard, nshards, base_seed, stop_event, deadline, w),
        )
        p.start()
        w.close()
        procs.append((p, r))
    all_stats, errors = [], []
    for p, r in procs:
        try:
            all_stats.append(r.recv())
        except EOFError:
            errors.append("a shard died without an answer")
        p.join()
    evals = {s.name: sum(st.evals.get(s.name, 0) for st in all_stats) for s in subs}
    disc = {s.name: sum(st.discards.get(s.name, 0) for st in all_stats) for s in subs}
    nontriv = {
        s.name: len(set().union(*[st.nontrivial.get(s.name, set()) for st in all_stats] or [set()]))
        for s in subs
    }
    labels = {}
    for s in subs:
        tot = {}
        for st in all_stats:
            for k, v in st.labels.get(s.name, {}).items():
                tot[k] = tot.get(k, 0) + v
        if tot:
            labels[s.name] = dict(sorted(tot.items(), key=lambda kv: -kv[1])[:40])
    samples = []
    for s in subs:
        got = [c for st in all_stats for c in st.samples.get(s.name, [])][:2]
        for c in got:
            text = json.dumps(c)
            samples.append({"sub": s.name, "case": c if len(text) < 3000 else text[:3000] + "..."})
    failures = []
    for st in all_stats:
        failures.extend(st.failures)
        errors.extend(st.errors)
    # keep the smallest failing case of every sub-check
    best = {}
    for name, case, msg in failures:
        if name not in best or len(json.dumps(case)) < len(json.dumps(best[name][0])):
            best[name] = (case, msg)
    coverage = {
        "evaluations": sum(evals.values()),
        "distinct_nontrivial": sum(nontriv.values()),
        "rule": " || ".join(f"{s.name}: {s.rule}" for s in subs),
        "samples": samples,
        "by_sub_check": {
            s.name: {"evaluations": evals[s.name], "distinct_nontrivial": nontriv[s.name], "discarded": disc[s.name]}
            for s in subs
        },
        "labels": labels,
        "shards": nshards,
    }
    return {"coverage": coverage, "violations": best, "errors": errors, "wall_s": time.time() - t0}


def steps(start, end, dt):
    """Number of model years: the first multiple of dt that reaches the end, counted in exact arithmetic."""
    from fractions import Fraction
    from math import ceil

    s, e, d = (Fraction(str(x)) for x in (start, end, dt))
    return int(ceil((e - s) / d)) + 1
