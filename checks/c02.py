"""C02: different substances never convert into each other without a context."""
import re

from hypothesis import strategies as st

from vf import unitgen, unitmodel as um
from vf.core import Sub, require
from vf.ctxhistory import check_history, s_history

from openscm.core.units import DimensionalityError, UndefinedUnitError, UnitConverter


def outcome(src, dst):
    try:
        return "ok", UnitConverter(src, dst).convert_from(1.0)
    except DimensionalityError:
        return "dim", None
    except UndefinedUnitError:
        return "undef", None


FORMS = {
    "bare": "{}",
    "mass": "kt {}",
    "flux": "Gg {} / yr",
    "joint": "Mt{}",
    "jointflux": "g{}/d",
    "time": "{} / a",
}
JOINTFORMS = {"joint", "jointflux"}


def check_row(case, rec):
    """One species against all others."""
    src, form, targets = case["species"], case["form"], case["targets"]
    f, base = um.SPECIES[src]
    rec.nontrivial()
    for dst in targets:
        if form in JOINTFORMS and dst not in um.JOINT:
            continue
        f2, base2 = um.SPECIES[dst]
        got, val = outcome(FORMS[form].format(src), FORMS[form].format(dst))
        if base == base2:
            require(got == "ok", "%s -> %s is refused (%s)", src, dst, got)
            want = float(f / f2)
            require(abs(val - want) <= 1e-9 * want, "%s -> %s gives %r, not %r",
                    src, dst, val, want)
        else:
            rec.label("refused")
            require(got == "dim", "%s (%s) -> %s (%s) in form %s: %s %r", src, base, dst, base2,
                    form, got, val)


def row_cases(tier):
    res = []
    if tier == "quick":
        for i, s in enumerate(um.SYMBOLS):
            forms = ["bare", list(FORMS)[1 + i % 5]]
            for f in forms:
                res.append({"species": s, "form": f, "targets": um.SYMBOLS})
        for s in sorted(set(um.SPECIES) - set(um.SYMBOLS)):
            res.append({"species": s, "form": "bare", "targets": sorted(um.SPECIES)})
    else:
        for s in sorted(um.SPECIES):
            for f in FORMS:
                if f in JOINTFORMS and s not in um.JOINT:
                    continue
                res.append({"species": s, "form": f, "targets": sorted(um.SPECIES)})
    return res


def check_spellings(case, rec):
    """bare, with mass, joint, upper case: all the same amount."""
    s = case["species"]
    rec.nontrivial()
    spell = [x for x in {s, s.upper()} if x in um.JOINT]
    texts = []
    for x in spell:
        for p, letter in (("M", "t"), ("G", "g"), ("", "t"), ("k", "g")):
            fac = float(um.PREFIX[p] * um.ATOMS[letter][0])
            texts += [(p + letter + x, fac), (p + letter + " " + x, fac),
                      (p + letter + " * " + x, fac), (x + " * " + p + letter, fac)]
    ref = "kg " + s
    for t, fac in texts:
        got, val = outcome(t, ref)
        require(got == "ok", "%s -> %s is refused (%s)", t, ref, got)
        require(abs(val - fac) <= 1e-9 * fac, "1 %s is %r %s, not %r", t, val, ref, fac)
        got, val = outcome(t, "kg")
        require(got == "dim", "%s is treated as a plain mass (%s)", t, got)
    for a, sym in um.ALIASES.items():
        if sym == s:
            got, val = outcome(a, s)
            require(got == "ok" and abs(val - 1) < 1e-12, "%s is not %s (%s %r)", a, s, got, val)


def spelling_cases(_tier):
    return [{"species": s} for s in um.SYMBOLS]


def check_any(case, rec):
    """Conversion is accepted iff dimensions (species included) agree."""
    a, b = case["units"]
    same = um.dims(a) == um.dims(b)
    gases = [k for u in (a, b) for k in um.dims(u) if k.startswith("[")]
    rec.label("same" if same else "different")
    rec.nontrivial(not same or bool(gases))
    got, val = outcome(um.text(a), um.text(b))
    if same:
        require(got == "ok", "%s -> %s refused: %s", um.text(a), um.text(b), got)
    else:
        require(got == "dim", "%s -> %s not refused: %s %r", um.text(a), um.text(b), got, val)


@st.composite
def s_any(draw):
    kind = draw(st.sampled_from(["gas", "gas", "mix", "plain", "same"]))
    if kind == "same":
        return {"units": draw(unitgen.compatible(2))}
    if kind == "gas":
        m, t = draw(st.booleans()), draw(st.booleans())
        return {"units": [draw(unitgen.emission(draw(unitgen.FAMILY), m, t)) for _ in range(2)]}

    def one():
        if kind == "mix" and draw(st.booleans()):
            return draw(unitgen.emission(draw(unitgen.FAMILY)))
        return draw(unitgen.plain(draw(st.sampled_from(unitgen.SIGNATURES))))

    return {"units": [one(), one()]}


def check_unknown(case, rec):
    rec.nontrivial()
    good, bad = case["good"], case["bad"]
    for a, b in ((good, bad), (bad, good), (bad, bad)):
        got, val = outcome(a, b)
        require(got == "undef", "%r -> %r: %s %r, not an undefined unit error", a, b, got, val)


@st.composite
def s_unknown(draw):
    word = draw(
        st.one_of(
            st.sampled_from(["CO3", "CH5", "HFC999", "tHFC999", "N2OX", "GtCO3", "XCO2",
                             "CFC1", "SF7", "unknownium", "tCH5", "HFC23b", "NF4"]),
            st.text("abcdefgmtCOHNF0123456789_", max_size=6).map(lambda t: "zqx" + t),
        )
    )
    form = draw(st.sampled_from(["%s", "kg %s", "Mt %s / yr", "%s / yr", "kg / %s"]))
    good = draw(st.sampled_from(["kg", "CO2", "Mt CH4 / yr", "K", "ppm", "W/m^2", "GtC/a"]))
    return {"good": good, "bad": form % word}


FORMULA = re.compile(r"(C|F|Cl|H|Br|S|N|O)\d*")


def near_miss(draw):
    """A name which looks like one of a species but is none."""
    family = draw(st.sampled_from(
        ["CFC", "HCFC", "HFC", "HFE", "HCFE", "Halon", "HALON", "formula", "formula", "edit"]))
    if family == "formula":
        parts = draw(st.lists(
            st.tuples(st.sampled_from(["C", "F", "Cl", "H", "Br", "S", "N", "O"]),
                      st.sampled_from(["", "2", "3", "4", "6", "8", "10", "12"])),
            min_size=2, max_size=3))
        name = "".join(a + b for a, b in parts)
        if len({a for a, _ in parts}) < 2 or not any(b for _, b in parts):
            name = "C" + name + "F11"
    elif family == "edit":
        halogens = [s for s in um.SPECIES if s.startswith(("HFC", "HFE", "HCFC", "CFC"))]
        name = draw(st.sampled_from(sorted(halogens)))
        head = len(name) - len(name.lstrip("HCFEcfeh"))
        i = draw(st.integers(head, len(name)))
        c = draw(st.sampled_from("0123456789abcdefm"))
        kind = draw(st.sampled_from(["insert", "delete", "replace", "cut"]))
        if kind == "insert":
            name = name[:i] + c + name[i:]
        elif kind == "cut":
            name = name[:max(i, head + 1)]
        else:
            name = name[:i] + (c if kind == "replace" else "") + name[i + 1:]
    else:
        name = family + str(draw(st.one_of(
            st.sampled_from([11, 12, 13, 32, 125, 134, 143, 152, 227, 236, 245, 365, 4310, 1211,
                             1301, 2402, 141, 142, 235]),
            st.integers(10, 4400)))) + draw(st.sampled_from(
                ["", "", "a", "b", "ea", "fa", "ca", "cb", "mee", "mfc", "EA", "FA", "fa1"]))
    return name


def is_unknown(name):
    """Not the name of a species (and nothing else that pint could make sense of)."""
    return name not in um.SPECIES and not name.endswith("s") and len(name) > 2 and (
        name.startswith(("CFC", "HCFC", "HFC", "HFE", "HCFE", "Halon", "HALON"))
        or (FORMULA.sub("", name) == "" and any(c.isdigit() for c in name)))


@st.composite
def s_near_miss(draw):
    word = near_miss(draw)
    if not is_unknown(word):
        word = "HFC999"
    form = draw(st.sampled_from(["%s", "kg %s", "Mt %s / yr", "%s / yr", "kg / %s", "kt%s",
                                 "Mt%s / yr"]))
    good = draw(st.sampled_from(["kg", "CO2", "Mt CH4 / yr", "kg HFC4310mee", "HFC245fa",
                                 "C6F14"]))
    return {"good": good, "bad": form % word}


def near_miss_cases(tier):
    """Every name one small slip away from a halocarbon, and every number in every family."""
    names = set()
    for sp in um.SPECIES:
        if sp.startswith(("HFC", "HFE", "HCFC", "HCFE", "CFC", "Halon", "HALON")):
            head = len(sp) - len(sp.lstrip("HCFEALONalon"))
            digits = "".join(c for c in sp[head:] if c.isdigit())
            names.add(sp[:head] + digits)
            for i in range(head, len(sp)):
                names.add(sp[:i] + sp[i + 1:])
                names.add(sp[:i])
            for i in range(head, len(sp) + 1):
                names.update(sp[:i] + c + sp[i:] for c in "0123abcf")
            for fam in ("HFC", "HFE", "HCFC", "HCFE", "CFC", "Halon", "HALON"):
                names.add(fam + sp[head:])
                names.add(fam + digits)
            names.add(sp.capitalize())
            names.add(sp[:head].lower() + sp[head:])
        elif any(c.isdigit() for c in sp):
            for i, c in enumerate(sp):
                if c.isdigit():
                    names.update(sp[:i] + d + sp[i + 1:] for d in "123456789")
            names.update(sp + d for d in "0123456789")
    names = sorted(n for n in names if is_unknown(n) and any(c.isdigit() for c in n))
    return [{"good": "kg", "bad": n} for n in names]


SUBS = [
    Sub("near_misses", check_unknown, cases=near_miss_cases,
        rule="every name one small slip away from the name of a species"),
    Sub("pairs", check_row, cases=row_cases,
        rule="every ordered pair of species (quick: every pair bare and in one further form, "
             "further spellings bare; thorough: all spellings in all forms); every row is "
             "non-trivial"),
    Sub("spellings", check_spellings, cases=spelling_cases,
        rule="every species in every way of writing a mass of it"),
    Sub("any", check_any, s_any, quick=4000, thorough=150000,
        rule="two random unit expressions; non-trivial if they differ in dimension or name a "
             "species"),
    Sub("unknown", check_unknown, s_unknown, quick=300, thorough=10000,
        rule="an unknown word inside a unit expression"),
    Sub("near_miss", check_unknown, s_near_miss, quick=1500, thorough=40000,
        rule="a name which looks like a species (halocarbon numbers, chemical formulas, edited "
             "names) but is none"),
    Sub("history", check_history, s_history, quick=1200, thorough=40000,
        rule="2 to 10 conversions mixing contexts, refusals and none about the same few pairs; "
             "non-trivial if some have a context and some none"),
]
ASSUMPTIONS = ["the species table in vf/unitmodel.py is the documented one"]
