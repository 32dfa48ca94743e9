"""C15: model runs conserve carbon and are reproducible, stepwise or whole."""
import numpy as np
from hypothesis import strategies as st

from vf import cal, dicegen, dicemodel as dm
from vf.core import Sub, require

from openscm.adapters import load_adapter

REL = 1e-9


def same(got, want, s, what, upto=None):
    """Outputs against expected ones."""
    scale = dm.scales(s, want)
    for name in got:
        w, g = want[name][:upto], got[name][:upto]
        require(len(g) == len(w), "%s: %s has %d values, not %d", what, name, len(g), len(w))
        for i, (a, b) in enumerate(zip(g, w)):
            if name == "forc" and i == 0 and s["forcoth_saturation_time"] <= s["start"]:
                continue
            require(abs(a - b) <= REL * scale[name], "%s: %s[%d] is %r, not %r", what, name,
                    i, float(a), float(b))


# ------------------------------------------------------------------ carbon balance


def check_balance(case, rec):
    s = dicegen.all_settings(case)
    model = dm.new_model()
    dicegen.write_inputs(model.parameters, case)
    dm.write_emissions(model.parameters, dm.grid(s, 1), case["E"])
    if case["stepwise"]:
        model.reset_stepping()
        for i in range(len(case["E"]) - 1):
            t = model.step()
            want = s["start"] + (i + 1) * s["period_length"]
            require(t == dm.dt(want), "the time after step %d is %s, not %s", i + 1, t,
                    dm.dt(want))
    else:
        model.run()
    got = dm.read(model, s, ["mat", "ml", "mu"])
    total = got["mat"] + got["ml"] + got["mu"]
    share = 1 / 3.666 if s["original_rounding"] else 12 / 44
    judged = 0
    for i in range(1, len(total)):
        if any(got[k][i] <= s[k + "_lower"] for k in got):
            rec.label("bound active")
            continue
        emitted = case["E"][i - 1] * share * s["period_length"] / dm.YEAR
        judged += 1
        require(abs(total[i] - total[i - 1] - emitted) <= REL * max(abs(total)) + REL * abs(
            emitted), "the pools gain %r in step %d, emitted were %r",
            float(total[i] - total[i - 1]), i, emitted)
    rec.nontrivial(judged > 1 and any(case["E"]))


@st.composite
def s_balance(draw):
    case = draw(dicegen.inputs())
    case["stepwise"] = draw(st.booleans())
    return case


# ------------------------------------------------------------------------ histories


class Inputs:
    """A parameter set and what was written to it."""

    def __init__(self, case):
        self.ps = dm.ParameterSet()
        self.case = case
        base = dicegen.all_settings(case)
        self.edges = dm.grid(base, 1)
        self.period = base["period_length"]
        self.given = dict(case["scalars"], **case["generics"])
        dicegen.write_inputs(self.ps, case)
        self.view = dm.write_emissions(self.ps, self.edges, case["E"])
        self.E = list(case["E"])
        self.users = []

    def settings(self):
        """Current settings."""
        return dm.settings(self.given)

    def emissions(self):
        """Emissions in the run's intervals."""
        s = self.settings()
        first = (s["start"] - self.edges[0]) // self.period
        return self.E[first:first + dm.count(s)]

    def touch(self):
        """Models in the middle of stepping are not judged until they are reset."""
        for u in self.users:
            u.steps = None


class Direct:
    """The adapter without the facade, whose run parameters are initialised only if needed."""

    def __init__(self, ps):
        self.output = dm.ParameterSet()
        self.adapter = load_adapter("DICE")(ps, self.output)
        self.ready = False

    def reset_stepping(self):
        """Prepare a run."""
        if not self.ready:
            self.adapter.initialize_model_input()
            self.adapter.initialize_run_parameters()
            self.ready = True
        self.adapter.reset()

    def run(self):
        """Whole run."""
        self.reset_stepping()
        self.adapter.run()

    def step(self):
        """One step."""
        return self.adapter.step()


class Model:
    """A model and its expected state."""

    def __init__(self, inputs, direct=False):
        self.inputs = inputs
        inputs.users.append(self)
        self.direct = direct
        self.real = Direct(inputs.ps) if direct else dm.new_model(inputs.ps)
        self.done = None  # (settings, outputs, number of valid values)
        self.steps = None
        self.was_reset = False
        self.held = {}

    def reset(self):
        """Reset."""
        s = self.inputs.settings()
        self.real.reset_stepping()
        self.was_reset = True
        self.steps = 0
        self.done = (s, dm.simulate(s, self.inputs.emissions())[0], 1)

    def step(self, k):
        """Some steps."""
        if self.steps is None:
            return False
        s, out, _ = self.done
        for _ in range(k):
            if self.steps >= dm.count(s) - 1:
                break
            t = self.real.step()
            self.steps += 1
            require(t == dm.dt(s["start"] + self.steps * s["period_length"]),
                    "the time after step %d is %s", self.steps, t)
        self.done = (s, out, self.steps + 1)
        return True

    def run(self):
        """Whole run."""
        s = self.inputs.settings()
        self.real.run()
        self.was_reset = True
        self.steps = None
        self.done = (s, dm.simulate(s, self.inputs.emissions())[0], None)

    def read(self, what):
        """Compare the outputs."""
        if self.done is None:
            return
        s, out, valid = self.done
        same(dm.read(self.real, s), out, s, what, valid)
        for n in dm.OUTPUTS:
            if n not in self.held:
                self.held[n] = dm.output_view(self.real, n, s)
        same({n: np.array(v.values, dtype=float) for n, v in self.held.items()}, out, s,
             what + " (held view)", valid)


def check_history(case, rec):
    inputs = [Inputs(c) for c in case["inputs"]]
    direct = case.get("direct") or [False]
    models = [Model(inputs[i % len(inputs)], direct[j % len(direct)])
              for j, i in enumerate(case["models"])]
    runs = 0
    for num, op in enumerate(case["ops"]):
        what = "after operation %d %s" % (num, op)
        kind, m = op[0], models[op[1] % len(models)]
        inp = m.inputs
        if kind == "run":
            m.run()
            runs += 1
        elif kind == "reset":
            if m.steps:
                rec.label("reset in the middle")
            m.reset()
            runs += 1
        elif kind == "step":
            m.step(op[2])
        elif kind == "scalar":
            name, f = op[2], op[3]
            value = inp.given.get(name, dm.DEFAULTS[name][0]) * f
            unit = sorted(dm.DEFAULTS[name][1])[op[4] % len(dm.DEFAULTS[name][1])]
            dm.set_scalar(inp.ps, name, value, unit)
            inp.given[name] = value
            inp.touch()
            rec.label("input changed")
        elif kind == "E":
            e = [op[2][i % len(op[2])] for i in range(len(inp.E))]
            if op[3]:
                inp.view.values = np.array(e)
            else:
                dm.write_emissions(inp.ps, inp.edges, e, "MtC / day")
            inp.E = e
            inp.touch()
            rec.label("input changed")
        elif kind == "E1":
            i = op[2] % len(inp.E)
            inp.view.values[i] = op[3]
            inp.E[i] = op[3]
            inp.touch()
        elif kind == "saturation":
            s = inp.settings()
            value = s["start"] + op[2] * (s["stop"] - s["start"]) // 10
            dm.set_generic(inp.ps, "forcoth_saturation_time", value)
            inp.given["forcoth_saturation_time"] = value
            inp.touch()
        elif kind == "rounding":
            dm.set_generic(inp.ps, "original_rounding", op[2])
            inp.given["original_rounding"] = op[2]
            inp.touch()
            for u in inp.users:
                u.real.ready = False
        elif kind == "window":
            # changing the grid of a model that has output already: see known_findings.txt
            if any(u.was_reset for u in inp.users):
                continue
            n = len(inp.edges) - 1
            a = op[2] % (n - 2)
            b = op[3] % (n - 2 - a)
            lo, hi = inp.edges[a], inp.edges[n - 1 - b]
            for k, v in (("start", lo), ("stop", hi)):
                dm.set_generic(inp.ps, k, v)
                inp.given[k] = v
            for u in inp.users:
                u.real.ready = False
            rec.label("window changed")
        elif kind == "failing":
            # the concentration falls below zero in the course of the run
            s = inp.settings()
            given = {n: inp.given[n] for n in ("mat_lower",) if n in inp.given}
            bad = list(inp.E)
            first = (s["start"] - inp.edges[0]) // inp.period
            at = op[2] % (dm.count(s) - 1)
            bad[first + at] = -1e9 * dm.YEAR / inp.period
            dm.set_scalar(inp.ps, "mat_lower", -1e30)
            inp.view.values = np.array(bad)
            try:
                m.real.run()
            except ValueError:
                rec.label("run failed")
            else:
                require(False, "a run to a negative concentration does not fail")
            m.done, m.was_reset = None, True
            inp.view.values = np.array(inp.E)
            dm.set_scalar(inp.ps, "mat_lower", given.get("mat_lower", dm.DEFAULTS[
                "mat_lower"][0]))
            inp.touch()
        elif kind == "fresh":
            # a new model on the same inputs
            inp.users.remove(m)
            models[op[1] % len(models)] = Model(inp, m.direct)
        for x in models:
            x.read(what)
    rec.nontrivial(runs >= 2)


N = st.integers(0, 3)
OP = st.one_of(
    st.tuples(st.just("run"), N),
    st.tuples(st.just("reset"), N),
    st.tuples(st.just("step"), N, st.integers(1, 6)),
    st.tuples(st.just("step"), N, st.integers(1, 20)),
    st.tuples(st.just("scalar"), N, st.sampled_from(
        [n for n in sorted(dm.DEFAULTS) if "lower" not in n and "upper" not in n]),
        st.sampled_from([0.8, 1.1, 1.25]), st.integers(0, 4)),
    st.tuples(st.just("E"), N, st.lists(st.floats(-50, 100), min_size=1, max_size=5),
              st.booleans()),
    st.tuples(st.just("E1"), N, st.integers(0, 20), st.floats(-50, 100)),
    st.tuples(st.just("saturation"), N, st.integers(1, 15)),
    st.tuples(st.just("rounding"), N, st.booleans()),
    st.tuples(st.just("window"), N, N, N),
    st.tuples(st.just("failing"), N, st.integers(0, 20)),
    st.tuples(st.just("fresh"), N),
).map(list)


@st.composite
def segment(draw):
    """One operation, or stepping that is interrupted."""
    if draw(st.integers(0, 2)):
        return [draw(OP)]
    k = draw(N)
    res = [["reset", k], ["step", k, draw(st.integers(1, 6))]]
    if not draw(st.integers(0, 3)):
        res.append(["failing", k, draw(st.integers(0, 20))])
    if draw(st.booleans()):
        change = draw(OP)
        res.append(change[:1] + [k] + change[2:])
    return res + [[draw(st.sampled_from(["reset", "reset", "run"])), k],
                  ["step", k, draw(st.integers(1, 6))]]


@st.composite
def s_history(draw):
    n = draw(st.sampled_from([1, 1, 2]))
    return {"inputs": [draw(dicegen.inputs(most=8)) for _ in range(n)],
            "models": draw(st.sampled_from([[0], [0, 1], [0, 0]])),
            "direct": draw(st.sampled_from([[False], [True], [False, True]])),
            "ops": [op for seg in draw(st.lists(segment(), min_size=2, max_size=8))
                    for op in seg]}


def check_regrid(case, rec):
    """Changing the run period of a model that has run (not generated, see findings)."""
    inp = Inputs(case["input"])
    m = Model(inp)
    m.run()
    m.read("first run")
    for k, v in case["change"].items():
        dm.set_generic(inp.ps, k, v)
        inp.given[k] = v
    m.held = {}
    m.run()
    m.read("second run")


def cases_regrid(_tier):
    """Changes of the run period that keep the time grid."""
    day = cal.DAY
    res = []
    for year in (1900, 2010, 3000):
        start = cal.seconds(year)
        for n in (3, 5):
            for late in (1, 100 * day, dm.YEAR - 1):
                case = {"scalars": {}, "generics": {"start": start, "stop": start + (
                    n - 1) * dm.YEAR}, "E": [10.0 + i for i in range(n)], "res": "s"}
                res.append({"input": case, "change": {"stop": start + (n - 1) * dm.YEAR + late}})
    return res


SUBS = [
    Sub("balance", check_balance, s_balance, quick=2000, thorough=50000,
        rule="random inputs, run or stepped; non-trivial if there are emissions and two steps "
             "without an active bound"),
    Sub("history", check_history, s_history, quick=1200, thorough=40000,
        rule="one or two models, or bare adapters, on own or shared inputs; run, reset, step, "
             "change inputs, runs that fail, in any "
             "order, all outputs compared after every operation; non-trivial if at least two "
             "runs or resets happen"),
    Sub("regrid", check_regrid, cases=cases_regrid,
        rule="enumerated changes of the run period that keep the time grid"),
]
ASSUMPTIONS = [
    "at least three time steps; tolerance 1e-9 of the numbers involved",
    "values after the current step, while stepping, are unspecified, and so is stepping on "
    "after an input was changed without a reset",
    "changing the time grid of a model that has already run is a known finding and left out",
]
