"""C19: rotations from and to CSV."""
import io
import os
import tempfile
from contextlib import redirect_stdout

from hypothesis import strategies as st

from .. import build as B, gen, model as M
from ..core import Suite, Violation, sut
from ..gen import pct, pick
from ama_xiv_combat_sim.simulator.rotation_import_utils.csv_utils import CSVUtils

NAMES = ("Time", "skill_name", "job_class", "skill_conditional", "targets")


class file:
    """A scratch file with the given text."""

    def __init__(self, text):
        self.text = text

    def __enter__(self):
        fd, self.path = tempfile.mkstemp(suffix=".csv")
        with os.fdopen(fd, "w", newline="") as f:
            f.write(self.text)
        return self.path

    def __exit__(self, *a):
        os.unlink(self.path)


def field(x, style):
    if style == 2 or "," in x or '"' in x or "\n" in x or x != x.strip():
        return '"' + x.replace('"', '""') + '"'
    return x


def text(case):
    """rows: [time text, skill, job, condition, targets]; style: bit 0: space after commas, 2: quotes."""
    cols = [i for i in case["order"] if i < 4 or case["targets"]]
    sep = ", " if case["style"] == 1 else ","
    lines = [sep.join(case["names"][i] for i in cols)]
    for row in case["rows"]:
        # a single empty last field would still be there
        lines.append(sep.join(field(row[i], case["style"]) for i in cols))
    return "\n".join(lines) + ("\n" if case["newline"] else "")


def want_rows(case):
    return [(float(r[0]), r[1], r[2] or None, r[3], (r[4] or None) if case["targets"] else None) for r in case["rows"]]


def run_read(case):
    with file(text(case)) as path:
        with sut("reading a CSV file"):
            got = [(x.t, x.skill_name, x.job_class, x.skill_conditional or "", x.targets)
                   for x in CSVUtils.read_rotation_from_csv(path)]
    want = want_rows(case)
    if got != want:
        i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
        raise Violation(f"{len(got)} rows read of {len(want)}; row {i}: {got[i:i + 1]} instead of {want[i:i + 1]}")
    out = []
    if any(r[2] for r in case["rows"]):
        out.append("jobs")
    if any(r[3] for r in case["rows"]):
        out.append("conditions")
    if case["targets"] and any(r[4] for r in case["rows"]):
        out.append("targets")
    return out


WORDS = ["Fell Cleave", "Storm's Eye", "Auto", "Dragon Sight", "2", "007", "100", "1.50", "nan", "NA", "None", "null", "True",
         "-", "1e5", "Higanbana (dot)", "Six-sided Star", "Form: Opo-opo", "Élan", "#1", "N/A", "inf", "Grade 8 Tincture"]


@st.composite
def read_cases(draw):
    rows = []
    word = st.one_of(st.sampled_from(WORDS), st.integers(0, 3000).map(str),
                     st.text("abAB19.'-:() ", min_size=1, max_size=8).map(str.strip).filter(bool))
    maybe = st.one_of(st.just(""), word)
    for _ in range(draw(st.integers(0, 6))):
        t = draw(st.one_of(st.integers(-20, 600).map(str), st.integers(-20000, 600000).map(lambda k: str(k / 1000)),
                           st.sampled_from(["0.0", "1.50", "007", "0.1", "3600"])))
        conds = draw(st.lists(word, max_size=3))
        targets = draw(st.lists(word, max_size=3))
        rows.append([t, draw(word), draw(st.one_of(st.just(""), st.sampled_from(["SCH", "DRG", "NIN", "WAR"]), maybe)),
                     pick(draw, [",", ", "]).join(conds), pick(draw, [",", ", "]).join(targets)])
    names = [pick(draw, [n, n.lower(), n.upper(), n.capitalize(), n.title()]) for n in NAMES]
    order = list(range(5)) if pct(draw, 60) else list(draw(st.permutations(range(5))))
    return {"rows": rows, "names": names, "order": order, "targets": draw(st.booleans()), "style": draw(st.integers(0, 2)),
            "newline": draw(st.booleans())}


def seconds(t):
    return repr(t)


def rows_of(rot):
    return [[seconds(p["t"]), p["skill"], p.get("job") or "", (p.get("mod") or {}).get("cond", ""), p.get("targets") or ""]
            for p in rot]


def clean(rot):
    """Presses as they can be written to a file."""
    out = []
    for p in rot:
        q = {k: p[k] for k in ("skill", "job", "t", "targets") if p.get(k) is not None}
        c = (p.get("mod") or {}).get("cond")
        if c:
            q["mod"] = {"cond": c}
        if q.get("targets") == "":
            del q["targets"]
        out.append(q)
    return out


def populate(stats, lib, opts, rows, targets=True, style=0):
    txt = text({"rows": rows, "names": NAMES, "order": range(5), "targets": targets, "style": style, "newline": True})
    with file(txt) as path:
        with sut("populating a rotation from CSV"):
            rb = B.RotationBuilder(stats, lib, **B.r_opts(opts))
            rb, _ = CSVUtils.populate_rotation_from_csv(rb, path)
            return rb


def results(rb, stats, lib):
    with sut("building"):
        q = rb.get_skill_timing()
        return ([B.q_key(e) for e in q.get_q()], [B.bp_key(p) for p in rb.get_button_press_timing()],
                [B.inst_key(x) for x in B.DamageBuilder(stats, lib).get_damage_instances(q)])


def compare(a, b, what):
    for x, y, n in zip(a, b, ("events", "presses", "hits")):
        B.diff(f"{n} {what}", x, y)
        if [i[0] for i in x] != [i[0] for i in y]:
            raise Violation(f"{n} {what}: other times or order")


def labels(case):
    out = set()
    for p in case["rot"]:
        if p.get("job"):
            out.add("party members")
        if (p.get("mod") or {}).get("cond"):
            out.add("conditions")
        if p.get("targets"):
            out.add("targets")
    ts = [p["t"] for p in case["rot"] if "t" in p]
    if ts != sorted(ts):
        out.add("rows out of order")
    return sorted(out)


def run_populate(case, real=False):
    case = {**case, "rot": clean(case["rot"])}
    R = B.Run(case, real=real)
    rb = populate(R.stats, R.lib, case["opts"], rows_of(case["rot"]), style=len(case["rot"]) % 3)
    by_csv = results(rb, R.stats, R.lib)
    by_hand = results(R.rb, R.stats, R.lib)
    compare(by_csv, by_hand, "entered by CSV file instead of by hand")
    return labels(case)


def run_populate_real(case):
    return run_populate(case, True)


def printed(rb):
    """Text printed by the simulator."""
    buf = io.StringIO()
    with redirect_stdout(buf):
        rb.print_button_press_timings_as_csv()
    return buf.getvalue()


def run_print(case, real=False):
    rot = clean(case["rot"])
    for p, p0 in zip(rot, case["rot"]):
        p.pop("targets", None)  # are not printed
        if "n" in p0:
            p["n"] = p0["n"]
    case = {**case, "rot": rot}
    R = B.Run(case, real=real)
    if not R.presses:
        return None
    with sut("printing"):
        txt = printed(R.rb)
    with file(txt) as path:
        with sut("reading a printed CSV file"):
            rows = CSVUtils.read_rotation_from_csv(path)
        B.diff("presses printed and read", [(B.r(1000 * x.t), x.skill_name, x.job_class or "",
                                             tuple(sorted(M.parse_conds(x.skill_conditional or "")))) for x in rows],
               [B.press_key(p) for p in R.tl.presses])
        with sut("populating from a printed CSV file"):
            rb, _ = CSVUtils.populate_rotation_from_csv(B.RotationBuilder(R.stats, R.lib, **B.r_opts(case["opts"])), path)
            rb.get_skill_timing()
            again = [B.bp_key(p) for p in rb.get_button_press_timing()]
        if [tuple(p[:3]) for p in again] != [tuple(B.bp_key(p)[:3]) for p in R.presses]:
            if len({(p[0]) for p in again}) < len(again):
                B.diff("presses after a round trip", [p[:3] for p in again], [B.bp_key(p)[:3] for p in R.presses])
            else:
                raise Violation(f"presses after a round trip: {again} instead of {R.presses}")
    return labels(case) + ["sequence" if any("t" not in p for p in rot) else "timed"]


def run_print_real(case):
    return run_print(case, True)


def timed():
    return gen.scenarios(timed=100, multi=30, mods=45, cond=40, buff=20, debuff=10, offclass=20, fu=15, dot=10, presses=(0, 8),
                         skills=(1, 4), autos=15, fight_start=20, downtime=10)


def any_style():
    return gen.scenarios(timed=40, mods=35, cond=40, offclass=15, fu=10, cast=40, presses=(1, 10), skills=(1, 4), combo=15,
                         fight_start=15, haste=10, buff=10)


def real_timed():
    return gen.real_scenarios(timed=100, party=15, multi=15)


def real_any():
    return gen.real_scenarios(party=10)


SUITES = [
    Suite("files", read_cases, run_read, 1500, 120000, "generated files read row by row; non-trivial: has jobs, conditions or "
          "targets"),
    Suite("populate", timed, run_populate, 500, 80000, "the same rotation entered by file and by hand; same rule"),
    Suite("populate-real", real_timed, run_populate_real, 110, 20000, "the same with real skills"),
    Suite("round-trip", any_style, run_print, 500, 80000, "press times printed, read and entered again; non-trivial: all with "
          "presses"),
    Suite("round-trip-real", real_any, run_print_real, 110, 20000, "the same with real skills"),
]
