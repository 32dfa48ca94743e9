"""C33: model adapters are driven in the documented order, whatever the user does."""
import gc
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from vf import boot
from vf.core import Sub, require

from openscm.adapters import Adapter, load_adapter
from openscm.core import OpenSCM
from openscm.core.parameterset import ParameterSet
from openscm.errors import ParameterEmptyError

HOOKS = ["_initialize_model", "_initialize_model_input", "_initialize_run_parameters", "_reset",
         "_run", "_shutdown", "_step"]
LOG = []
FAIL = {}
DELTA = [np.timedelta64(86400, "s")]


class ModelError(Exception):
    """An error of the model."""


def recorder(name):
    """A method which records that it was called, with what the adapter sees."""

    def hook(self):
        LOG.append((name, id(self), id(self._parameters), id(self._output)))
        if FAIL.get(name):
            FAIL[name] -= 1
            raise ModelError(name)
        if name == "_step":
            self._current_time = self._current_time + DELTA[0]

    return hook


Probe = type("Probe", (Adapter,), {h: recorder(h) for h in HOOKS})


class Patched:
    """The bundled model with all its documented methods replaced by recorders."""

    def __enter__(self):
        self.cls = load_adapter("DICE")
        self.old = {h: self.cls.__dict__.get(h) for h in HOOKS}
        for h in HOOKS:
            setattr(self.cls, h, recorder(h))

    def __exit__(self, *exc):
        for h, f in self.old.items():
            if f is None:
                delattr(self.cls, h)
            else:
                setattr(self.cls, h, f)


class Instance:
    """A model in use and what is expected of it."""

    def __init__(self, facade, ps, out):
        self.ps = ps or ParameterSet()
        self.out = out or ParameterSet()
        if facade:
            self.real = OpenSCM("DICE", ps, out)
            require(self.real.model == "DICE", "model is %r", self.real.model)
            for got, given, what in ((self.real.parameters, ps, "input"),
                                     (self.real.output, out, "output")):
                require(isinstance(got, ParameterSet) and (given is None or got is given),
                        "the %s parameters are not the given ones", what)
            self.ps, self.out = self.real.parameters, self.real.output
            require(self.ps is not self.out or ps is out, "inputs and outputs are one set")
        else:
            self.real = Probe(self.ps, self.out)
        self.ident = None
        self.initialized = False
        self.ready = False
        self.time = None

    def expected(self, op):
        """The calls an operation has to make."""
        init = [] if self.initialized else ["_initialize_model"]
        if op == "inputs":
            return init + ["_initialize_model_input"]
        if op == "run_parameters":
            return init + ["_initialize_run_parameters"]
        if op == "reset":
            return ["_reset"]
        if op == "step":
            return ["_step"]
        if op == "run":
            return ["_run"]
        prepare = init + ["_initialize_model_input", "_initialize_run_parameters", "_reset"]
        return prepare + (["_run"] if op == "facade_run" else [])


CALLS = {"inputs": "initialize_model_input", "run_parameters": "initialize_run_parameters",
         "reset": "reset", "step": "step", "run": "run", "facade_run": "run",
         "facade_reset": "reset_stepping"}


def check(case, rec):
    LOG.clear()
    FAIL.clear()
    DELTA[0] = np.timedelta64(86400, "s")
    if case["facade"]:
        with Patched():
            alive = history(case, rec)
            for inst in alive:  # shut down while the recorders are in place
                inst.real = None
    else:
        history(case, rec)
    FAIL.clear()


def orders(want):
    """The input and the run parameters may be initialised in any order."""
    a, b = "_initialize_model_input", "_initialize_run_parameters"
    swap = {a: b, b: a}
    return [want, [swap.get(n, n) for n in want]] if a in want and b in want else [want]


def plan(want, start):
    """The calls that are made and the error that ends them."""
    calls = []
    for name in want:
        if name == "_reset" and start is None:
            return calls, ParameterEmptyError
        calls.append(name)
        if FAIL.get(name):
            return calls, ModelError
    return calls, None


def history(case, rec):
    facade = case["facade"]
    alive = []
    keep = []  # so that the sets' ids stay unique
    starts = {}  # id of the parameter set -> start time
    seen = set()
    for op in case["ops"]:
        kind = op[0]
        if kind == "new":
            share = alive[op[1] % len(alive)] if alive and op[2] else None
            ps = share.ps if share else (ParameterSet() if op[3] else None)
            out = share.out if share and op[4] else (ParameterSet() if op[3] else None)
            del share
            before = len(LOG)
            alive.append(Instance(facade, ps, out))
            keep.append((alive[-1].ps, alive[-1].out))
            require(len(LOG) == before, "creating a model already calls %s", LOG[before:])
            continue
        if not alive:
            continue
        if kind == "fail":
            FAIL[op[1]] = op[2]
            continue
        inst = alive[op[1] % len(alive)]
        if kind == "start":
            t = np.datetime64(op[2], "s")
            inst.ps.generic("Start Time").value = t
            starts[id(inst.ps)] = t
            continue
        if kind == "delta":
            DELTA[0] = np.timedelta64(op[2], "s")
            continue
        before = len(LOG)
        if kind == "delete":
            FAIL.pop("_shutdown", None)
            ident = inst.ident
            alive.remove(inst)
            inst.real = None
            if len(LOG) == before:
                gc.collect()
            calls = LOG[before:]
            require([c[0] for c in calls] == ["_shutdown"] and ident in (None, calls[0][1]),
                    "deleting a model calls %s", calls)
            seen.add("deleted")
            # the address may be used again
            continue
        if kind == "step" and (not inst.ready or inst.time is None):
            continue
        if kind in ("reset", "run") and not inst.initialized:
            continue
        want = inst.expected(kind)
        plans = [plan(w, starts.get(id(inst.ps))) for w in orders(want)]
        try:
            result = getattr(inst.real, CALLS[kind])()
            got = None
        except (ModelError, ParameterEmptyError) as e:
            got = type(e)
        made = LOG[before:]
        names = [c[0] for c in made]
        calls, error = next((x for x in plans if x[0] == names), plans[0])
        require(names == calls, "%s calls %s, not %s", kind, names, calls)
        require(got is error, "%s raises %s, not %s", kind, got, error)
        failed = calls[-1] if error is ModelError else None
        if "_initialize_model" in calls and failed != "_initialize_model":
            inst.initialized = True
        for _, ident, p, o in made:
            if inst.ident is None:
                inst.ident = ident
            require(ident == inst.ident, "%s reaches another model", kind)
            require(p == id(inst.ps) and o == id(inst.out),
                    "the model does not see the given parameter sets")
        if "_reset" in want and error is not ParameterEmptyError and (
                "_reset" in calls):
            inst.time = starts[id(inst.ps)]
            inst.ready = error is None or calls[-1] == "_run"
        elif error is not None and kind != "step":
            inst.ready = False
        if error is None and kind == "step":
            inst.time = inst.time + DELTA[0]
            require(result == inst.time, "step returns %s, not %s", result, inst.time)
        seen.add(kind)
        if error is not None:
            seen.add("error")
            rec.label("error in " + (calls[-1] if calls else "nothing"))
        if len(alive) > 1:
            seen.add("several")
    for s in seen:
        rec.label(s)
    rec.nontrivial(len(seen) >= 3)
    return alive


@st.composite
def s_history(draw, facade):
    kinds = (["facade_run", "facade_reset", "step", "step"] if facade else
             ["inputs", "run_parameters", "reset", "step", "step", "run"])
    ops = [["new", 0, False, draw(st.booleans()), False]]
    i = st.integers(0, 3)
    start = st.integers(-10**9, 10**10)
    if draw(st.integers(0, 9)) > 0:
        ops.append(["start", 0, draw(start)])
    for _ in range(draw(st.integers(1, 25))):
        what = draw(st.integers(0, 19))
        if what < 2:
            ops.append(["new", draw(i), draw(st.booleans()), draw(st.booleans()),
                        draw(st.booleans())])
        elif what < 4:
            ops.append(["start", draw(i), draw(start)])
        elif what == 4:
            ops.append(["fail", draw(st.sampled_from([h for h in HOOKS if h != "_shutdown"])),
                        draw(st.integers(1, 2))])
        elif what == 5:
            ops.append(["delete", draw(i)])
        elif what == 6:
            ops.append(["delta", 0, draw(st.integers(-10**8, 10**8))])
        else:
            ops.append([draw(st.sampled_from(kinds)), draw(i)])
    return {"facade": facade, "ops": ops}


MISSING = """
import sys
sys.path.insert(0, %r)
sys.dont_write_bytecode = True
import openscm.adapters as a
from openscm.errors import AdapterNeedsModuleError
sys.modules["openscm.adapters.dice"] = None
for _ in range(2):
    try:
        a.load_adapter("DICE")
    except AdapterNeedsModuleError as e:
        assert "DICE" in str(e), str(e)
    else:
        raise AssertionError("loading a model whose module is missing is accepted")
from openscm.core import OpenSCM
try:
    OpenSCM("DICE")
except AdapterNeedsModuleError:
    pass
else:
    raise AssertionError("a model whose module is missing is accepted")
del sys.modules["openscm.adapters.dice"]
first = a.load_adapter("DICE")
assert first is a.load_adapter("DICE") and issubclass(first, a.Adapter)
assert OpenSCM("DICE").model == "DICE"
try:
    a.load_adapter("NONE")
except KeyError:
    pass
else:
    raise AssertionError("an unknown model is accepted")
"""


def check_missing(case, rec):
    rec.nontrivial()
    r = subprocess.run([sys.executable, "-W", "ignore", "-c", MISSING % boot.REPO],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       cwd=os.path.dirname(os.path.abspath(__file__)), check=False)
    require(r.returncode == 0, "loading with a missing module: %s", r.stdout[-500:])


SUBS = [
    Sub("adapter", check, lambda: s_history(False), quick=1500, thorough=60000,
        rule="calls of an adapter's methods in any order, with errors of the model; non-trivial "
             "if three kinds of calls or events were made"),
    Sub("facade", check, lambda: s_history(True), quick=1500, thorough=60000,
        rule="run, reset and step of models in any order; non-trivial if three kinds of calls "
             "or events were made"),
    Sub("missing", check_missing, cases=lambda tier: [{}],
        rule="a model whose module cannot be imported; always non-trivial"),
]
ASSUMPTIONS = ["step is called after reset_stepping or run; reset and run of an adapter after an "
               "initialisation",
               "the documented methods of an adapter (docs/development.rst) are the interface"]
