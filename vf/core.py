"""
The search engine shared by all checks.

A property is decided by one or more *sub-checks*.  A sub-check is a pair of

* a generator of *cases*: a Hypothesis strategy (or a finite list that is enumerated)
  whose values are plain JSON data, and
* an oracle ``check(case, rec)`` that runs the case against the real code and raises
  if the property does not hold.

Because a case is plain data, a failing (shrunk) case is written to a replay file as it
is, and ``run.py <id> --replay FILE`` runs it again without Hypothesis.
"""
import collections
import hashlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

from . import boot, fuzz

HANG_CPU_SECONDS = 120
SHRINK_SECONDS = 45
FUZZ_SECONDS = 600  # coverage-guided search, thorough tier
QUICK_FACTOR = 2.5


class Violation(AssertionError):
    """The property does not hold for the case."""


class Hang(Exception):
    """A single case used an absurd amount of CPU time."""


def require(cond, msg, *args):
    """Raise a Violation unless ``cond``."""
    if not cond:
        raise Violation(msg % args if args else msg)


class Rec:
    """Collects what a case exercised."""

    def __init__(self):
        self.labels = []
        self.is_nontrivial = False

    def label(self, name):
        """Count this case under ``name``."""
        self.labels.append(name)

    def nontrivial(self, cond=True):
        """Declare the case non-trivial (by the sub-check's stated rule)."""
        if cond:
            self.is_nontrivial = True


class Sub:
    """One sub-check."""

    def __init__(
        self, name, check, strategy=None, cases=None, quick=200, thorough=4000, rule="",
        shards=None,
    ):
        self.name = name
        self.check = check
        self.strategy = strategy  # callable returning a strategy
        self.cases = cases  # callable(tier) returning a finite list
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.shards = shards


def canon(case):
    """Canonical JSON text of a case."""
    return json.dumps(case, sort_keys=True, default=str)


def case_hash(case):
    """Short hash of a case."""
    return hashlib.blake2b(canon(case).encode(), digest_size=8).hexdigest()


def _alarm(_sig, _frm):
    raise Hang("case used more than %d s of CPU time" % HANG_CPU_SECONDS)


def run_case(sub, case, rec=None):
    """Run one case. Returns None or the exception that shows the violation."""
    rec = rec if rec is not None else Rec()
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, HANG_CPU_SECONDS)
    try:
        # a deep copy through JSON: what is saved is what is run
        sub.check(json.loads(json.dumps(case)), rec)
        return None
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # pylint: disable=broad-except
        return e
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def describe(exc):
    """One-line description of an exception with the innermost frames."""
    tb = traceback.extract_tb(exc.__traceback__)
    where = " <- ".join(
        "%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:])
    )
    return "%s: %s [%s]" % (type(exc).__name__, str(exc)[:600], where)


class _Stats:
    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.labels = collections.Counter()
        self.samples = []
        self.fail = None  # (case, description)
        self.skipped = 0

    def as_dict(self):
        return dict(self.__dict__)


def _worker(args):
    (sub, seed, n, deadline, case_slice) = args
    st = _Stats()
    rng = random.Random(seed)

    def one(case):
        rec = Rec()
        exc = run_case(sub, case, rec)
        st.evaluations += 1
        for lab in rec.labels:
            st.labels[lab] += 1
        if rec.is_nontrivial:
            h = case_hash(case)
            if h not in st.hashes:
                st.hashes.add(h)
                if len(st.samples) < 3 or rng.random() < 0.01:
                    txt = canon(case)
                    if len(txt) < 3000:
                        st.samples.append(case)
                        st.samples = st.samples[-3:]
        return exc

    if case_slice is not None:
        for case in case_slice:
            if time.time() > deadline:
                st.skipped += 1
                continue
            exc = one(case)
            if exc is not None:
                st.fail = (case, describe(exc))
                break
        return st.as_dict()

    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed

    first_fail = [None]
    best = [None]

    @hseed(seed)
    @settings(
        max_examples=n,
        database=None,
        deadline=None,
        suppress_health_check=list(HealthCheck),
        report_multiple_bugs=False,
        phases=(Phase.generate, Phase.shrink),
        print_blob=False,
    )
    @given(sub.strategy())
    def test(case):
        now = time.time()
        if first_fail[0] is None and now > deadline:
            st.skipped += 1
            return
        if first_fail[0] is not None and now - first_fail[0] > SHRINK_SECONDS:
            return
        exc = one(case)
        if exc is not None:
            if first_fail[0] is None:
                first_fail[0] = now
            size = (len(canon(case)), canon(case))
            if best[0] is None or size < best[0][0]:
                best[0] = (size, case, describe(exc))
            if isinstance(exc, Hang):
                first_fail[0] = now - 2 * SHRINK_SECONDS
            raise exc

    try:
        test()
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:  # pylint: disable=broad-except
        if best[0] is None:
            st.fail = (None, "HARNESS " + describe(e))
    if best[0] is not None:
        st.fail = (best[0][1], best[0][2])
    return st.as_dict()


def _seed(*parts):
    txt = "/".join(str(p) for p in parts)
    return int.from_bytes(hashlib.blake2b(txt.encode(), digest_size=7).digest(), "big")


def _run_args(a):
    try:
        return _worker(a)
    except BaseException as e:  # pylint: disable=broad-except
        return {"crash": describe(e)}


_TASKS = []


def _run_index(i):
    return i, _run_args(_TASKS[i])


def load_corpus(prop):
    """Saved cases: list of (path, sub name, case)."""
    d = os.path.join(boot.VERIF, "corpus", prop)
    res = []
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            if f.endswith(".json"):
                with open(os.path.join(d, f)) as fh:
                    data = json.load(fh)
                res.append((os.path.join(d, f), data["sub"], data["case"]))
    return res


def load_known(prop):
    """
    Unrepaired findings of this property: list of (sub name, case, what).

    A line is ``finding: property=<id> sub=<sub> case=<file in corpus/known> | <what>``.
    """
    path = os.path.join(boot.VERIF, "known_findings.txt")
    res = []
    if not os.path.exists(path):
        return res
    with open(path) as fh:
        for line in fh:
            line = line.strip()
            if not line.startswith("finding: property=%s " % prop):
                continue
            head, what = line.split(" | ", 1)
            fields = dict(p.split("=", 1) for p in head.split()[1:])
            with open(os.path.join(boot.VERIF, fields["case"])) as cf:
                res.append((fields["sub"], json.load(cf)["case"], what))
    return res


def write_replay(prop, sub, case, desc):
    """Write a replay file and return its path."""
    d = os.path.join(boot.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (prop, sub, case_hash(case)))
    with open(path, "w") as fh:
        json.dump(
            {"property": prop, "sub": sub, "case": case, "failure": desc},
            fh, indent=1, sort_keys=True, default=str,
        )
    return path


def replay(prop, subs, path):
    """Run one saved case. Exit status 0/1."""
    with open(path) as fh:
        data = json.load(fh)
    sub = {s.name: s for s in subs}[data["sub"]]
    exc = run_case(sub, data["case"])
    if exc is None:
        print("replay of %s: property holds" % path)
        return 0
    traceback.print_exception(type(exc), exc, exc.__traceback__)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def run_property(prop, subs, tier, seed, assumptions, only=None, scale=1.0, procs=None):
    """Run all sub-checks of a property; returns the exit status."""
    start = time.time()
    by_name = {s.name: s for s in subs}
    if only:
        subs = [s for s in subs if s.name in only]
    procs = procs or min(8, os.cpu_count() or 1)
    deadline = start + (200.0 if tier == "quick" else 2400.0)
    failures = []  # (sub, case, desc)
    total = _Stats()
    per_sub = {}

    # 1. saved cases first (a seconds-long regression tier)
    corpus_n = 0
    for path, name, case in load_corpus(prop):
        if only and name not in only:
            continue
        if name not in by_name:
            raise RuntimeError("corpus case %s names unknown sub-check" % path)
        corpus_n += 1
        exc = run_case(by_name[name], case)
        if exc is not None:
            failures.append((name, case, describe(exc)))
            break

    # 2. known findings
    known = load_known(prop)
    for name, case, what in known:
        exc = run_case(by_name[name], case)
        if exc is not None:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        else:
            print("note: listed finding no longer fails: property=%s %s" % (prop, what))

    # 3. the search
    if not failures:
        tasks = []
        for s in subs:
            if s.cases is not None:
                cases = list(s.cases(tier))
                k = max(1, min(procs, len(cases) // 4 + 1))
                for i in range(k):
                    tasks.append((s, _seed(seed, prop, s.name, i), 0, deadline, cases[i::k]))
            else:
                n = max(1, int((s.quick * QUICK_FACTOR if tier == "quick" else s.thorough) * scale))
                k = s.shards or max(1, min(procs, n // 25))
                for i in range(k):
                    tasks.append(
                        (s, _seed(seed, prop, s.name, i), (n + k - 1) // k, deadline, None)
                    )
        global _TASKS  # pylint: disable=global-statement
        _TASKS = tasks
        # deterministic interleaving so that long sub-checks do not queue up last
        order = sorted(range(len(tasks)), key=lambda i: _seed("order", i))
        results = [None] * len(tasks)
        if procs == 1 or len(tasks) == 1:
            for i in order:
                results[i] = _run_args(tasks[i])
        else:
            ctx = multiprocessing.get_context("fork")
            with ctx.Pool(procs, maxtasksperchild=None) as pool:
                for i, r in pool.imap_unordered(_run_index, order, chunksize=1):
                    results[i] = r
        for t, r in zip(tasks, results):
            s = t[0]
            if r is None or "crash" in r:
                print("ERROR in %s/%s: %s" % (prop, s.name, r and r["crash"]))
                return 2
            ps = per_sub.setdefault(
                s.name,
                {"evaluations": 0, "hashes": set(), "labels": collections.Counter(),
                 "skipped": 0, "rule": s.rule, "enumerated": s.cases is not None},
            )
            ps["evaluations"] += r["evaluations"]
            ps["hashes"] |= r["hashes"]
            ps["labels"].update(r["labels"])
            ps["skipped"] += r["skipped"]
            total.evaluations += r["evaluations"]
            total.samples += [{"sub": s.name, "case": c} for c in r["samples"][:1]]
            if r["fail"] is not None:
                if r["fail"][0] is None:
                    print("ERROR in %s/%s: %s" % (prop, s.name, r["fail"][1]))
                    return 2
                failures.append((s.name, r["fail"][0], r["fail"][1]))

    # 4. coverage-guided search with the same generators and oracles
    guided = 0
    if tier == "thorough" and not failures and FUZZ_SECONDS * scale >= 5:
        for s, r in fuzz.run(prop, subs, seed, procs, FUZZ_SECONDS * scale):
            ps = per_sub[s.name]
            ps["evaluations"] += r["evaluations"]
            ps["hashes"] |= r["hashes"]
            ps["labels"].update(r["labels"])
            total.evaluations += r["evaluations"]
            guided += r["evaluations"]
            if r["fail"] is not None:
                # what counts is the case itself, without the fuzzer
                exc = run_case(s, r["fail"][0])
                if exc is not None:
                    failures.append((s.name, r["fail"][0], describe(exc)))

    # 5. report
    seen = set()
    for name, case, desc in sorted(failures, key=lambda f: (f[0], len(canon(f[1])))):
        if name in seen:
            continue
        seen.add(name)
        path = write_replay(prop, name, case, desc)
        print("  %s/%s: %s" % (prop, name, desc))
        print("  case: %s" % canon(case)[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, path))

    samples, names = [], set()
    for s in total.samples:
        if s["sub"] not in names:
            names.add(s["sub"])
            samples.append(s)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations + corpus_n,
            "distinct_nontrivial": sum(len(p["hashes"]) for p in per_sub.values()),
            "rule": " || ".join("%s: %s" % (s.name, s.rule) for s in subs),
            "samples": samples[:12],
            "saved_cases_replayed": corpus_n,
            "known_findings_replayed": len(known),
            "coverage_guided_evaluations": guided,
            "sub_checks": {
                n: {
                    "evaluations": p["evaluations"],
                    "distinct_nontrivial": len(p["hashes"]),
                    "skipped_after_time_budget": p["skipped"],
                    "enumerated_completely": bool(p["enumerated"] and not p["skipped"]),
                    "labels": dict(sorted(p["labels"].items())),
                }
                for n, p in sorted(per_sub.items())
            },
        },
        "assumptions": assumptions,
        "violations": len(seen),
        "wall_s": round(time.time() - start, 2),
    }
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(boot.VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1, default=str)
        fh.write("\n")
    print(
        "%s %s: %d cases, %d distinct non-trivial, %d violation(s), %.1f s"
        % (prop, tier, evidence["coverage"]["evaluations"],
           evidence["coverage"]["distinct_nontrivial"], len(seen), evidence["wall_s"])
    )
    sys.stdout.flush()
    return 1 if seen else 0
