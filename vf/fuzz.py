"""
Coverage-guided search (atheris/libFuzzer) with the generators and oracles of the checks.

libFuzzer mutates byte strings, guided by the coverage of the code under test; Hypothesis'
``fuzz_one_input`` turns each of them into a case of a sub-check's strategy.  Only the thorough
tier does this.  Each worker is a process of its own, as libFuzzer takes over its process; it
writes what it did to a file.  Without atheris nothing is done (and said so in the evidence).
"""
import glob
import importlib
import json
import os
import pickle
import random
import subprocess
import sys
import tempfile
import time
import zipfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
MODULES = ["core.units", "core.time", "core.parameters", "core.parameterset", "core.regions",
           "core.views", "adapters.dice", "scmdataframe.base", "scmdataframe.filters",
           "scmdataframe.offsets", "scmdataframe.parameter_type", "scmdataframe.pyam_compat",
           "scenarios"]


def run(prop, subs, seed, procs, seconds):
    """Fuzz the sub-checks; yields (sub, result as a worker gives it)."""
    subs = [s for s in subs if s.strategy is not None]
    if not subs or seconds <= 0:
        return
    share = max(1, procs // len(subs))
    with tempfile.TemporaryDirectory(prefix="vf-fuzz-") as scratch:
        waiting = [(s, i) for s in subs for i in range(share)]
        running = []
        rounds = -(-len(waiting) // procs)
        while waiting or running:
            while waiting and len(running) < procs:
                s, i = waiting.pop(0)
                d = os.path.join(scratch, "%s-%d" % (s.name, i))
                os.makedirs(d)
                cmd = [sys.executable, os.path.abspath(__file__), prop, s.name,
                       "%s-%d" % (seed, i), str(seconds / rounds), d]
                running.append((s, d, subprocess.Popen(
                    cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=d)))
            for item in list(running):
                if item[2].poll() is None:
                    continue
                running.remove(item)
                path = os.path.join(item[1], "result")
                if os.path.exists(path):
                    with open(path, "rb") as fh:
                        yield item[0], pickle.load(fh)
            time.sleep(0.2)


def _import_atheris():
    for _ in range(2):
        try:
            return importlib.import_module("atheris")
        except ImportError:
            target = os.path.join(tempfile.gettempdir(), "vf-atheris-%d" % os.getuid())
            if not os.path.isdir(os.path.join(target, "atheris")):
                wheels = glob.glob("/opt/veriftools/wheels/atheris-*-cp%d%d-*.whl"
                                   % sys.version_info[:2])
                if not wheels:
                    break
                own = "%s.%d" % (target, os.getpid())
                with zipfile.ZipFile(wheels[0]) as z:
                    z.extractall(own)
                try:
                    os.rename(own, target)
                except OSError:
                    target = own
            sys.path.append(target)
            importlib.invalidate_caches()
    return None


def worker(prop, name, seed, seconds, scratch):
    """Fuzz one sub-check and write the result; never returns."""
    sys.path.insert(0, VERIF)
    from vf import boot

    boot.ensure_hypothesis()
    atheris = _import_atheris()
    if atheris is None:
        os._exit(3)
    sys.path.insert(0, boot.REPO)
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.WARNING)
    with atheris.instrument_imports(include=["openscm"]):
        boot.import_code_under_test()
        for m in MODULES:
            try:
                importlib.import_module("openscm." + m)
            except ImportError:
                pass
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.database import InMemoryExampleDatabase
    from vf import core

    sub = {s.name: s for s in importlib.import_module("checks." + prop.lower()).SUBS}[name]
    st = core._Stats()  # pylint: disable=protected-access
    end = time.time() + float(seconds)
    best, failed_at = [None], [None]

    @settings(database=InMemoryExampleDatabase(), deadline=None, print_blob=False,
              report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
              phases=(Phase.reuse, Phase.shrink))
    @given(sub.strategy())
    def test(case):
        if failed_at[0] is not None and time.time() - failed_at[0] > core.SHRINK_SECONDS:
            return
        rec = core.Rec()
        exc = core.run_case(sub, case, rec)
        st.evaluations += 1
        if rec.is_nontrivial:
            st.hashes.add(core.case_hash(case))
        if exc is not None:
            size = (len(core.canon(case)), core.canon(case))
            if best[0] is None or size < best[0][0]:
                best[0] = (size, case, core.describe(exc))
            raise exc

    def finish():
        if best[0] is not None:
            failed_at[0] = time.time()
            try:
                test()  # shrinks
            except Exception:  # pylint: disable=broad-except
                pass
            st.fail = (best[0][1], best[0][2])
        st.labels["coverage-guided"] = st.evaluations
        with open(os.path.join(scratch, "result.part"), "wb") as fh:
            pickle.dump(st.as_dict(), fh)
        os.rename(os.path.join(scratch, "result.part"), os.path.join(scratch, "result"))
        os._exit(0)

    def target(data):
        if time.time() > end:
            finish()
        try:
            test.hypothesis.fuzz_one_input(data)
        except Exception:  # pylint: disable=broad-except
            pass
        if best[0] is not None:
            finish()

    rng = random.Random(seed)
    seeds = os.path.join(scratch, "seeds")
    os.makedirs(seeds)
    for i in range(60):
        with open(os.path.join(seeds, "%d" % i), "wb") as fh:
            fh.write(rng.randbytes(rng.choice([200, 800, 3000, 8000])))
    atheris.Setup([sys.argv[0], "-max_len=8000", "-len_control=0", "-rss_limit_mb=3500",
                   "-timeout=600", "-seed=%d" % (rng.getrandbits(30) + 1), seeds], target)
    atheris.Fuzz()


if __name__ == "__main__":
    worker(*sys.argv[1:])
