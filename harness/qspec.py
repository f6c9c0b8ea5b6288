"""Bridge between observed behaviour and the Quint specification.

Events recorded from the implementation are packed into a Quint module, the
validation machine of the property (spec/run.qnt.in with spec/<id>.qnt) consumes
them one per step, and its final state names every violated clause.
"""
import collections
import concurrent.futures
import contextlib
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
NAN = 1 << 154
OFFSET = 1 << 159
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


# ---------------------------------------------------------------- encoding
def slot(x):
    """A number as the specification sees it: integers as they are, reals in
    units of 2^-80, everything else (nan, inf, huge, not a number) as NAN."""
    t = type(x)
    if t is float:
        if x != x or x > 1e22 or x < -1e22:
            return NAN
        n, d = x.as_integer_ratio()
        return (n << 80) // d
    if t is int:
        return x if -NAN < x < NAN else NAN
    if t is bool:
        return int(x)
    if hasattr(x, "item"):
        try:
            return slot(x.item())
        except Exception:
            return NAN
    return NAN


def fixed(x):
    """The fixed-point image of a real number."""
    return slot(float(x))


def flatten(v):
    if hasattr(v, "tolist"):
        v = v.tolist()
    if isinstance(v, (list, tuple)):
        out = []
        for x in v:
            if isinstance(x, (list, tuple)) or hasattr(x, "tolist"):
                out += flatten(x)
            else:
                out.append(slot(x))
        return out
    return [slot(v)]


def pack(vecs):
    slots = [len(vecs)]
    for v in vecs:
        slots.append(len(v))
        slots += v
    slots = [len(slots) + 1] + slots
    return "0x" + b"".join((x + OFFSET).to_bytes(20, "little") for x in slots)[::-1].hex()


def quote(s):
    return '"' + re.sub(r"[^ -~]", "?", str(s)).replace("\\", "/").replace('"', "'") + '"'


class Event:
    __slots__ = ("k", "s", "d", "note")

    def __init__(self, k, s, vecs, note):
        self.k, self.s, self.note = k, [str(x) for x in s], note
        self.d = pack([flatten(v) for v in vecs])

    def quint(self):
        return "{ k: %s, s: [%s], d: %s }" % (quote(self.k), ", ".join(map(quote, self.s)), literal(self.d))


def literal(d, digits=50000):
    """Numbers with more digits than the parser reads at once are put together."""
    if len(d) <= digits + 2:
        return d
    parts = [d[2:][max(0, i - digits):i] for i in range(len(d) - 2, 0, -digits)]
    return " + ".join("(0x%s * 2^%d)" % (x, 4 * digits * i) for i, x in enumerate(parts))


class Trace:
    """A sequence of events judged from a fresh specification state."""

    def __init__(self, label):
        self.label, self.events = label, []

    def ev(self, k, s, *vecs, note=""):
        self.events.append(Event(k, s, vecs, note))

    def raised(self, error, where=""):
        self.events.append(
            Event("raised", ["raised: %s %s: %s" % (where, type(error).__name__, str(error)[:150])], [[0]],
                  "".join(traceback.format_exception(error))[-1500:]))


LIMIT = 80.0  # seconds of processor time for one trace


class Endless(BaseException):
    """Raised in code which does not come to an end (not to be caught there)."""


class Hopeless(BaseException):
    """Several traces did not come to an end."""


class Recorder:
    def __init__(self, seed, tier):
        self.seed, self.tier, self.traces = seed, tier, []
        self.thorough = tier == "thorough"
        self.counts = collections.Counter()
        self.endless, self.longest = 0, 0.0
        signal.signal(signal.SIGPROF, self._too_long)

    def _too_long(self, *_):
        raise Endless("does not end")

    def _arm(self):
        """Code under test gets a limited amount of processor time."""
        signal.setitimer(signal.ITIMER_PROF, LIMIT if self.endless == 0 else LIMIT / 8, 5)

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    @contextlib.contextmanager
    def trace(self, label):
        """Record one trace; an exception of the code under test becomes an event."""
        t = Trace(label)
        self.traces.append(t)
        start = time.process_time()
        self._arm()
        try:
            yield t
        except Exception as error:
            t.raised(error, label)
        except Endless as error:
            self.endless += 1
            t.raised(error, label)
            if self.endless >= 3:  # enough is known
                signal.setitimer(signal.ITIMER_PROF, 0)
                raise Hopeless
        except Hopeless:
            if label != "driver":
                raise
        finally:
            self.longest = max(self.longest, time.process_time() - start if label != "driver" else 0)
            if label == "driver" or self.endless >= 3:
                signal.setitimer(signal.ITIMER_PROF, 0)
            else:
                self._arm()


# ------------------------------------------------------------------- running
class MachineryError(Exception):
    pass


def build_dir(check):
    d = tempfile.mkdtemp(prefix="qspec-")
    for f in glob.glob(os.path.join(SPEC, "*.qnt")):
        shutil.copy(f, d)
    with open(os.path.join(SPEC, "run.qnt.in")) as f:
        text = f.read().replace("@P@", check)
    with open(os.path.join(d, "run.qnt"), "w") as f:
        f.write(text)
    return d


def quint(args, cwd, timeout=800):
    env = dict(os.environ, NODE_OPTIONS="--max-old-space-size=3500")
    return subprocess.run(["quint"] + args, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def value(x):
    """An ITF value as a Python value."""
    if isinstance(x, dict):
        if "#bigint" in x:
            return int(x["#bigint"])
        if "#tup" in x:
            return tuple(value(y) for y in x["#tup"])
        if "#set" in x:
            return [value(y) for y in x["#set"]]
        if "#map" in x:
            return {value(k): value(v) for k, v in x["#map"]}
        return {k: value(v) for k, v in x.items() if k != "#meta"}
    if isinstance(x, list):
        return [value(y) for y in x]
    return x


def _validate(args):
    """Run the machine over a list of events: (bad, seen, number of states)."""
    check, lines = args
    d = build_dir(check)
    try:
        with open(os.path.join(d, "data.qnt"), "w") as f:
            f.write('module data {\n  import prelude.* from "./prelude"\n  pure val EVENTS: List[Ev] = [\n')
            f.write(",\n".join(lines))
            f.write("\n  ]\n}\n")
        r = quint(["run", "--main=validation", "--max-steps=%d" % (len(lines) + 1), "--max-samples=1",
                   "--seed=1", "--verbosity=0", "--out-itf=out.json", "run.qnt"], d)
        try:
            with open(os.path.join(d, "out.json")) as f:
                states = json.load(f)["states"]
            last = {k: value(v) for k, v in states[-1].items() if k in ("l", "bad", "seen")}
        except (OSError, ValueError, IndexError, KeyError):
            return None, r.stdout[-2000:] + r.stderr[-2000:], 0
        if last["l"] != len(lines):
            return None, r.stdout[-2000:] + r.stderr[-2000:], 0
        return last["bad"], last["seen"], len(states)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def validate(check, traces, workers=WORKERS):
    """Judge all traces. Returns (violations, seen, states, shards)."""
    shards, current, size = [], [], 0
    total = sum(len(e.d) for t in traces for e in t.events) or 1
    limit = max(20000, min(1500000, total // workers // 2 + 1))
    for t in traces:
        if not t.events:
            continue
        w = sum(len(e.d) for e in t.events)
        if current and (size + w > limit or os.environ.get("QSPEC_SINGLE", "?") in t.label or sum(len(x.events) + 1 for x in current) > 700):
            shards.append(current)
            current, size = [], 0
        current.append(t)
        size += w
    if current:
        shards.append(current)

    def lines(shard):
        out, where = [], []
        for t in shard:
            out.append('{ k: "fresh", s: [], d: 0 }')
            where.append((t, None))
            for i, e in enumerate(t.events):
                out.append(e.quint())
                where.append((t, i))
        return out, where

    violations, seen, states = [], collections.Counter(), 0
    prepared = [lines(s) for s in shards]
    with concurrent.futures.ThreadPoolExecutor(workers) as pool:
        def judged(i):
            start = time.time()
            result = _validate((check, prepared[i][0]))
            if os.environ.get("QSPEC_TIMES"):
                print("%6.1f s %8d characters %4d events %s" % (
                    time.time() - start, sum(map(len, prepared[i][0])), len(prepared[i][0]), shards[i][0].label))
            return result

        # the longest first
        order = sorted(range(len(shards)), key=lambda i: -sum(map(len, prepared[i][0])))
        results = [r for _, r in sorted(zip(order, pool.map(judged, order)), key=lambda x: x[0])]
        located = 0
        # a shard the specification cannot evaluate: find the trace and event
        for (text, where), shard, (bad, s, n) in zip(prepared, shards, results):
            if bad is None:
                message = s
                if _validate((check, ['{ k: "fresh", s: [], d: 0 }']))[0] is None:
                    raise MachineryError("the specification machine does not run: " + message)
                if os.environ.get("QSPEC_DEBUG"):
                    raise MachineryError("shard not evaluated: " + message)
                singles = [lines([t]) for t in shard]
                single_results = list(pool.map(_validate, [(check, p[0]) for p in singles]))
                if all(r[0] is not None for r in single_results):
                    raise MachineryError("shard failed but its traces do not: " + message)
                for (txt, wh), t, (b1, s1, n1) in zip(singles, shard, single_results):
                    if b1 is None:
                        # accepted prefix: halve until the first event that fails
                        lo, hi = 0, len(t.events)
                        while located < 3 and hi - lo > 1:
                            mid = (lo + hi) // 2
                            if _validate((check, txt[: mid + 1]))[0] is None:
                                hi = mid
                            else:
                                lo = mid
                        located += 1
                        violations.append((t, hi - 1, "not a value of the specification: "
                                           + " ".join(s1.split())[-200:]))
                    else:
                        violations += [(wh[i][0], wh[i][1], c) for i, c in b1]
                        seen.update(s1)
                        states += n1
            else:
                violations += [(where[i][0], where[i][1], c) for i, c in bad]
                seen.update(s)
                states += n
    return violations, seen, states, len(shards)


# --------------------------------------------------- the specification alone
def model_run(main, file, invariants, steps, samples, seed):
    """Simulate a model and check its invariants. Returns (ok, states, text)."""
    d = build_dir("prelude")
    try:
        r = quint(["run", file, "--main=" + main, "--max-steps=%d" % steps, "--max-samples=%d" % samples,
                   "--seed=%d" % seed, "--invariants"] + invariants, d)
        m = re.search(r"average=([0-9.]+)", r.stdout)
        states = int(float(m.group(1)) * samples) if m else 0
        ok = "[ok]" in r.stdout
        if not ok and "[violation]" not in r.stdout:
            raise MachineryError("model %s: %s" % (main, (r.stdout + r.stderr)[-1500:]))
        return ok, states, r.stdout[-1500:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def model_verify(main, file, invariants, steps, timeout=600):
    """Bounded symbolic model checking of a model with Apalache."""
    d = build_dir("prelude")
    try:
        r = quint(["verify", file, "--main=" + main, "--max-steps=%d" % steps, "--verbosity=1",
                   "--invariants"] + invariants, d, timeout)
        ok = "[ok]" in r.stdout
        if not ok and "[violation]" not in r.stdout:
            raise MachineryError("verify %s: %s" % (main, (r.stdout + r.stderr)[-1500:]))
        return ok, r.stdout[-1500:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def mbt_traces(main, file, steps, traces, seed, samples=None):
    """Behaviours of a model: lists of states (with mbt metadata)."""
    d = build_dir("prelude")
    try:
        r = quint(["run", "--main=" + main, "--max-steps=%d" % steps, "--max-samples=%d" % (samples or 4 * traces),
                   "--n-traces=%d" % traces, "--seed=%d" % seed, "--mbt", "--out-itf=t_{seq}.json",
                   "--verbosity=0", file], d)
        out = []
        for f in sorted(glob.glob(os.path.join(d, "t_*.json"))):
            with open(f) as h:
                out.append([value(s) for s in json.load(h)["states"]])
        if not out:
            raise MachineryError("no behaviours of %s: %s" % (main, (r.stdout + r.stderr)[-1500:]))
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ reporting
def known_findings():
    path = os.path.join(VERIF, "known-findings.json")
    try:
        with open(path) as f:
            return json.load(f)
    except OSError:
        return []


def finish(prop, level, rec, rule, t0, models=(), assumptions=()):
    """Validate, write evidence and replay files, print and return the exit code."""
    violations, seen, states, shards = validate(prop, rec.traces)
    events = [e for t in rec.traces for e in t.events]
    digests = {hashlib.sha1((e.k + "|" + "|".join(e.s) + e.d).encode()).digest() for e in events}
    model_states = sum(m.get("states", 0) for m in models)
    violated_models = [m for m in models if not m["ok"]]
    kinds = collections.Counter(e.k for e in events)
    samples = []
    for t in rec.traces[:: max(1, len(rec.traces) // 3)][:4]:
        if t.events:
            e = t.events[0]
            samples.append({"trace": t.label, "event": e.k, "arguments": e.s, "payload": e.d[:200]})

    findings = [f for f in known_findings() if f.get("property") == prop and f.get("status") == "known"]
    real, known = [], {}
    for t, i, c in violations:
        f = next((f for f in findings if f["trace"] == t.label and f["clause"] == c), None)
        if f is None:
            real.append((t, i, c))
        else:
            known[f["trace"] + " " + f["clause"]] = f
    for f in known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))

    coverage = {
        "evaluations": int(sum(seen.values())),
        "distinct_nontrivial": len(digests),
        "rule": rule,
        "states": int(states + model_states),
        "transitions": int(len(events) + sum(m.get("transitions", 0) for m in models)),
        "traces_validated_against_impl": sum(1 for t in rec.traces if t.events),
        "samples": samples,
        "events_by_kind": dict(kinds),
        "clauses_evaluated": dict(sorted(seen.items())),
        "model_checks": [{k: v for k, v in m.items() if k != "text"} for m in models],
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": rec.tier, "seed": rec.seed, "level": level,
                   "coverage": coverage, "assumptions": list(assumptions),
                   "wall_s": round(time.time() - t0, 2), "violations": len(real) + len(violated_models)}, f, indent=1)

    for m in violated_models:
        raise MachineryError("the specification violates its own invariant: " + m["text"])
    if not real:
        if os.environ.get("QSPEC_LONGEST"):
            print("longest trace: %.1f s of processor time" % rec.longest)
        print("OK property=%s events=%d clauses=%d traces=%d wall=%.1fs"
              % (prop, len(events), sum(seen.values()), len(rec.traces), time.time() - t0))
        return 0
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", prop + ".json")
    by_clause = {}
    for t, i, c in real:
        by_clause.setdefault(c, []).append((t, i))
    report = []
    for c, places in by_clause.items():
        t, i = places[0]
        report.append({"clause": c, "count": len(places), "trace": t.label, "event_index": i,
                       "events": [{"k": e.k, "s": e.s, "d": e.d, "note": e.note} for e in t.events[: (i or 0) + 1]]})
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": rec.seed, "tier": rec.tier, "violations": report,
                   "rerun": "VERIF_SEED=%d VERIF_TIER=%s python3 harness/check.py %s" % (rec.seed, rec.tier, prop),
                   "replay": "python3 harness/check.py %s --replay %s" % (prop, path)}, f, indent=1)
    for r in report[:12]:
        print("  violated: %s  (%d times, first in '%s' event %s: %s)"
              % (r["clause"], r["count"], r["trace"], r["event_index"], r["events"][-1]["note"][-300:] if r["events"] else ""))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def replay(prop, path):
    """Judge the recorded events of a replay file once more."""
    with open(path) as f:
        data = json.load(f)
    code = 0
    for r in data["violations"]:
        t = Trace(r["trace"])
        for e in r["events"]:
            x = Event(e["k"], e["s"], [], e["note"])
            x.d = e["d"]
            t.events.append(x)
        bad = validate(prop, [t])[0]
        print(r["trace"], "->", sorted({c for _, _, c in bad}) or "accepted")
        code = code or (1 if bad else 0)
    return code
