"""Runner shared by all checks: drives Hypothesis over JSON-serialisable cases in worker
processes, classifies what was generated, shrinks a failure to a replay file, writes the
evidence file.

A check is a module vlib/props/<id>.py with a list SUBS of Sub objects.  Every Sub has a
Hypothesis strategy that yields a plain dict (a *case*), and a function `test(case, rec)` that
drives the code under test and raises Violation when the property is broken.  Only Violation
counts as a violation; any other exception is an error of the harness (exit 2).
"""
import contextlib
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The code under test breaks the property."""


class Hang(BaseException):
    pass


class Reject(Exception):
    """The case is outside the domain of the property."""


class Rec:
    """What one evaluation of a case tells about it."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True


class Sub:
    def __init__(self, name, strategy, test, quick, thorough=None, shards=None, rule=""):
        self.name = name
        self.strategy = strategy
        self.test = test
        self.quick = quick
        self.thorough = thorough or quick * 12
        self.shards = shards
        self.rule = rule


# ------------------------------------------------------------------- calls into the code
CALL_CPU_S = float(os.environ.get("VERIF_CALL_CPU_S", "25"))


def _on_timer(signum, frame):
    raise Hang()


def sut(what, fn, *a, **k):
    """Call into the code under test inside the property's domain: an exception, or more than
    CALL_CPU_S seconds of CPU time in one call (normal calls take milliseconds), is a violation."""
    try:
        old = signal.signal(signal.SIGVTALRM, _on_timer)
        signal.setitimer(signal.ITIMER_VIRTUAL, CALL_CPU_S)
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                return fn(*a, **k)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)
    except Hang:
        raise Violation(f"{what}: no result after {CALL_CPU_S:g} s of CPU time") from None
    except Exception as e:
        raise Violation(f"{what}: raised {type(e).__name__}: {str(e)[:300]}") from e


def outcome(fn, *a, **k):
    """('ok', value) or ('raise', exception) without judging."""
    try:
        return "ok", sut("call", fn, *a, **k)
    except Violation as v:
        if v.__cause__ is None:
            raise
        return "raise", v.__cause__


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        yield


# ----------------------------------------------------------------------------- judgments
def fail(msg):
    raise Violation(msg)


def ensure(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def num(x, what="result"):
    """A scalar as float; 0-d and size-1 arrays count as scalars."""
    try:
        a = np.asarray(x, dtype=float)
    except (TypeError, ValueError):
        raise Violation(f"{what}: not a number: {x!r:.200}") from None
    if a.size != 1:
        raise Violation(f"{what}: expected a scalar, got shape {a.shape}: {x!r:.200}")
    return float(a.reshape(-1)[0])


def arr(x, shape=None, what="result"):
    try:
        a = np.asarray(x, dtype=float)
    except (TypeError, ValueError):
        raise Violation(f"{what}: not a numeric array: {x!r:.200}") from None
    if shape is not None and a.shape != tuple(shape):
        raise Violation(f"{what}: expected shape {tuple(shape)}, got {a.shape}")
    return a


def close(got, want, tol, what):
    """|got - want| <= tol, elementwise with broadcasting; NaN equals nothing."""
    try:
        g = np.asarray(got, dtype=float)
    except (TypeError, ValueError):
        raise Violation(f"{what}: not a number: {got!r:.200}") from None
    w = np.asarray(want, dtype=float)
    if g.size == 1 and w.size == 1:
        g, w = g.reshape(-1)[0], w.reshape(-1)[0]
        t = float(np.max(tol))
        if not (abs(g - w) <= t or g == w):
            raise Violation(f"{what}: got {g!r}, expected {w!r} (difference {g - w:.6g}, tolerance {t:.3g})")
        return
    if g.shape != w.shape:
        raise Violation(f"{what}: expected shape {w.shape}, got {g.shape}")
    bad = ~((np.abs(g - w) <= tol) | (g == w))
    if np.any(bad):
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        raise Violation(
            f"{what}: element {i}: got {g[i]!r}, expected {w[i]!r} ({int(bad.sum())} of {bad.size} differ)"
        )


def getkey(d, k, what):
    try:
        return d[k]
    except Exception:
        raise Violation(f"{what}: no entry {k!r} in {type(d).__name__} {d!r:.200}") from None


# -------------------------------------------------------------------------------- running
def canon(case):
    return json.dumps(case, sort_keys=True, default=_enc)


def _enc(o):
    if isinstance(o, np.generic):
        return o.item()
    raise TypeError(type(o))


def load(pid):
    return importlib.import_module(f"vlib.props.{pid.lower()}")


class _Stats:
    def __init__(self):
        self.evals = 0
        self.rejected = 0
        self.arith = 0
        self.keys = set()
        self.labels = {}
        self.samples = []
        self.fail = None


def _seed_for(pid, sub, shard, seed):
    h = hashlib.sha256(f"{pid}/{sub}/{shard}/{seed}".encode()).digest()
    return int.from_bytes(h[:6], "big")


SHRINK_S = 40.0
SHRINK_CALLS = 600


def _run_shard(args):
    pid, sub_name, shard, n, seed = args
    t0 = time.time()
    try:
        # An unreadable import of the code under test must not look like a harness success.
        import hypothesis
        from hypothesis import HealthCheck, Phase, Verbosity, given, settings

        mod = load(pid)
        sub = next(s for s in mod.SUBS if s.name == sub_name)
        st = _Stats()
        failing = {}
        state = {"first": None, "calls": 0}

        def body(case):
            key = canon(case)
            if key in failing:
                raise Violation(failing[key])
            if state["first"] is not None:
                state["calls"] += 1
                if time.time() - state["first"] > SHRINK_S or state["calls"] > SHRINK_CALLS:
                    return
            rec = Rec()
            try:
                sub.test(json.loads(key), rec)
            except Reject:
                st.rejected += 1
                return
            except ArithmeticError:
                # raised by the check's own reference (sut() turns errors of the code under test
                # into violations): out of the range of floats, so there is nothing to compare with
                if state["first"] is not None:
                    return
                st.rejected += 1
                st.arith += 1
                rec.label("reference out of range")
                if st.arith > 5 + 0.02 * n:
                    raise
            except Violation as v:
                failing[key] = str(v)
                if state["first"] is None:
                    state["first"] = time.time()
                st.fail = (json.loads(key), str(v))
                raise
            finally:
                if state["first"] is None:
                    st.evals += 1
                    for l in set(rec.labels):
                        st.labels[l] = st.labels.get(l, 0) + 1
                    if rec.nontrivial:
                        h = hashlib.md5(key.encode()).hexdigest()
                        if h not in st.keys:
                            st.keys.add(h)
                            if len(st.samples) < 2 or (len(st.samples) < 3 and len(st.keys) > n // 2):
                                st.samples.append({"sub": sub_name, "case": json.loads(key), "labels": sorted(set(rec.labels))})

        runner = settings(
            max_examples=n,
            database=None,
            deadline=None,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
            report_multiple_bugs=False,
            print_blob=False,
            verbosity=Verbosity.quiet,
        )(hypothesis.seed(_seed_for(pid, sub_name, shard, seed))(given(sub.strategy)(body)))
        try:
            for case in corpus(pid, sub_name) if shard == 0 else ():
                body(case)
            runner()
        except Violation as v:
            pass  # st.fail holds the last failing case: the minimal one is re-run last
        except BaseException as e:
            if st.fail is None:
                raise
            # e.g. Flaky: the code under test answered the same case differently; it did fail.
            if isinstance(e, KeyboardInterrupt):
                raise
        failure = None
        if st.fail is not None:
            # smallest failing case that was seen
            best = min(failing, key=lambda k: (len(k), k)) if failing else canon(st.fail[0])
            minimal = canon(st.fail[0])
            if minimal in failing and len(minimal) <= len(best) + 40:
                best = minimal
            failure = {"sub": sub_name, "case": json.loads(best), "message": failing.get(best, st.fail[1])}
        return {
            "sub": sub_name, "shard": shard, "evals": st.evals, "rejected": st.rejected,
            "keys": st.keys, "labels": st.labels, "samples": st.samples,
            "failure": failure, "error": None, "s": time.time() - t0,
        }
    except BaseException:
        return {"sub": sub_name, "shard": shard, "error": traceback.format_exc(), "failure": None,
                "evals": 0, "rejected": 0, "keys": set(), "labels": {}, "samples": [], "s": time.time() - t0}


def corpus(pid, sub):
    """Minimal cases of defects that were found and repaired: tried before the search starts."""
    path = os.path.join(VERIF, "vlib", "corpus", f"{pid}.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [c["case"] for c in json.load(f) if c["sub"] == sub]


def _init_worker(path):
    sys.path[:] = path
    # a runaway allocation in one case must not take the machine down
    import resource

    with contextlib.suppress(Exception):
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    with contextlib.suppress(Exception):
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run(pid, tier, seed):
    t0 = time.time()
    mod = load(pid)
    cpus = max(1, min(8, os.cpu_count() or 1))
    jobs = []
    for s in mod.SUBS:
        total = s.quick if tier == "quick" else s.thorough
        total = max(1, int(total * float(os.environ.get("VERIF_SCALE", "1"))))
        shards = s.shards or cpus
        shards = max(1, min(shards if tier == "quick" else shards * 4, total))
        for k in range(shards):
            n = total // shards + (1 if k < total % shards else 0)
            jobs.append((pid, s.name, k, n, seed))
    # interleave shards of different subs so that every sub is reached early
    jobs.sort(key=lambda j: (j[2],))
    results, failure, error = [], None, None
    ctx = mp.get_context("fork")
    with ctx.Pool(cpus, initializer=_init_worker, initargs=(list(sys.path),), maxtasksperchild=None) as pool:
        for r in pool.imap_unordered(_run_shard, jobs):
            results.append(r)
            if r["error"]:
                # no verdict from this shard; a violation found by another one still counts
                error = error or r
            if r["failure"]:
                failure = r["failure"]
                break
        pool.terminate()
    ev = sum(r["evals"] for r in results)
    keys, labels, samples, subs = {}, {}, [], {}
    for r in results:
        keys.setdefault(r["sub"], set()).update(r["keys"])
        d = subs.setdefault(r["sub"], {"evaluations": 0, "out_of_domain": 0, "cpu_s": 0.0})
        d["evaluations"] += r["evals"]
        d["out_of_domain"] += r["rejected"]
        d["cpu_s"] = round(d["cpu_s"] + r["s"], 2)
        for l, c in r["labels"].items():
            key = f"{r['sub']}: {l}"
            labels[key] = labels.get(key, 0) + c
    for s in mod.SUBS:
        got = [x for r in results if r["sub"] == s.name for x in r["samples"]]
        samples += got[:3]
        if s.name in subs:
            subs[s.name]["distinct_nontrivial"] = len(keys.get(s.name, ()))
            subs[s.name]["rule"] = s.rule
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev,
            "distinct_nontrivial": sum(len(k) for k in keys.values()),
            "rule": getattr(mod, "RULE", "") + " Per part: " + " | ".join(f"{s.name}: {s.rule}" for s in mod.SUBS),
            "samples": samples,
            "parts": subs,
            "distribution": dict(sorted(labels.items())),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if failure else 0,
    }
    known = known_findings(pid)
    if known:
        evidence["coverage"]["known_findings"] = [k["what"] for k in known]
    if error is not None:
        evidence["coverage"]["harness_error"] = error["error"][-2000:]
    write_evidence(pid, evidence)
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if failure is not None:
        path = write_replay(pid, failure, seed, tier)
        print(f"{pid} {failure['sub']}: {failure['message']}")
        print(f"case: {canon(failure['case'])}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if error is not None:
        print(f"{pid}: harness error in {error['sub']} shard {error['shard']}\n{error['error']}", file=sys.stderr)
        return 2
    low = [s.name for s in mod.SUBS if s.rule and not keys.get(s.name)]
    print(f"{pid} ok: {ev} cases, {evidence['coverage']['distinct_nontrivial']} distinct non-trivial, {evidence['wall_s']} s")
    if low:
        print(f"{pid}: no non-trivial case in part(s) {low}", file=sys.stderr)
        return 2
    return 0


def write_evidence(pid, ev):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{pid}.json")
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(_clean(ev), f, indent=1, default=_enc)
    os.replace(tmp, path)


def _clean(o):
    """JSON has no NaN/inf."""
    if isinstance(o, dict):
        return {k: _clean(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_clean(v) for v in o]
    if isinstance(o, float) and not math.isfinite(o):
        return repr(o)
    return o


def write_replay(pid, failure, seed, tier):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.md5(canon(failure["case"]).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{pid}-{failure['sub']}-{h}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "seed": seed, "tier": tier, **failure}, f, indent=1, default=_enc)
    return path


def replay(pid, path):
    mod = load(pid)
    with open(path) as f:
        d = json.load(f)
    sub = next(s for s in mod.SUBS if s.name == d["sub"])
    try:
        sub.test(d["case"], Rec())
    except Reject:
        print(f"{pid} {d['sub']}: case outside the domain")
        return 0
    except Violation as v:
        print(f"{pid} {d['sub']}: {v}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(f"{pid} {d['sub']}: case passes")
    return 0


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid and k["status"] == "known"]
