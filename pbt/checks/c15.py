"""C15: several targets."""
import json
import os

from hypothesis import strategies as st

from .. import build as B, gen, model as M
from ..core import VERIF, Suite, Violation, sut
from ..gamedata import VERSIONS
from ..gen import pct, pick


def listed():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return {c for k in json.load(f)["known"] if k["property"] == "C15" for c in k["cases"]}


def labels(R):
    out = set()
    for e in R.tl.events:
        if len(e.targets) > 1:
            out.add("several targets")
            if len(e.targets) >= 10:
                out.add("ten targets")
            if e.origin == "follow":
                out.add("follow-up on several targets")
            if e.snap != e.app:
                out.add("delayed hits on several targets")
        if e.origin == "follow" and any(len(p["targets"].split(",")) > 1 for p in R.case["rot"] if p.get("targets")):
            out.add("follow-ups")
    if any(h.mod.conds & {f"Target {i}" for i in range(2, 11)} and h.debuffs.names for h in R.hits):
        out.add("debuffed later target")
    return sorted(out)


def potency(sk, mod):
    with sut("damage of a hit"):
        return B.sig(sk.get_damage_spec(mod).potency)


def run(case):
    R = B.Run(case)
    R.check_events("events", n=4)
    R.check_hits((0, 1, 2, 4, 5), "hits on several targets")
    got = [(*B.inst_key(x)[:3], potency(x[1], x[2])) for x in R.inst]
    want = [(*B.hit_key(h)[:3], B.sig(M.pick(h.skill.dmg, h.mod.conds).potency)) for h in R.hits]
    try:
        B.diff("potencies", got, want, ["time", "skill", "target", "potency"])
    except Violation:
        R.skip_if_ambiguous()
        raise
    return labels(R)


def scenarios():
    return gen.scenarios(multi=75, dropoff=50, debuff=35, buff=20, fu=35, dot=15, delay=60, cast=30, presses=(1, 7),
                         skills=(1, 4), timed=70, cond=20, mods=25, downtime=10, combo=10, uses=15, target=15)


def many():
    return gen.scenarios(multi=95, targets=10, dropoff=70, debuff=30, fu=30, delay=60, presses=(1, 4), skills=(1, 3),
                         timed=70, cond=20, mods=20)


def run_single(case):
    """A skill on one named target does what it does on the default target, with nothing else in the rotation."""
    st_ = case["stats"]
    with sut("building"):
        lib = B.r_lib(case["lib"], st_["version"], st_["level"])
        stats = B.r_stats(st_)
    sides = []
    for top, tg in (("Default Target", None), ("X", None), ("Default Target", "X"), ("X", "X")):
        rot = [{k: v for k, v in {**p, "targets": tg}.items() if v is not None} for p in case["rot"]]
        opts = {**case["opts"], "target": top}
        with sut("building"):
            rb = B.r_rotation(stats, lib, opts, rot)
            timing = rb.get_skill_timing()
            inst = B.DamageBuilder(stats, lib).get_damage_instances(timing)
            keys = [(*B.inst_key(x)[:2], *B.inst_key(x)[3:]) for x in inst]
            names = {x[5] for x in inst}
        want = {tg or top}
        if inst and names != want:
            raise Violation(f"hits on {names}, expected {want}")
        sides.append(keys)
    # effects of the player depend on nothing but time; debuffs are on the one target either way
    for s in sides[1:]:
        B.diff("hits on a named target, against those on the default target", s, sides[0])
    return "hits" if sides[0] else None


def singles():
    # hastening debuffs, and debuffs ended by buffs, count on the default target only (unspecified): none here
    return gen.scenarios(debuff=50, buff=40, fu=25, dot=15, delay=50, presses=(1, 8), skills=(1, 4), timed=70, cond=15,
                         mods=20, combo=10, dropoff=30, expires=0)


def run_library(case):
    """Real skills with a dropoff: the first target takes full, all others the reduced potency."""
    v, l, job, name, n = case["version"], case["level"], case["job"], case["skill"], case["n"]
    model = B.real_model(v, l)
    if name not in model.skills.get(job, {}):
        return None
    lib = B.real_lib(v, l)
    targets = [f"t{i}" for i in range(1, n + 1)]
    mod = {"force_combo": True}
    if case["cond"]:
        mod["cond"] = case["cond"]
    s = dict(wd=126, main=2945, det=1620, crit=2377, dh=1048, speed=420, job=job, version=v, level=l, ten=751)
    with sut("building"):
        stats = B.r_stats(s)
        rb = B.r_rotation(stats, lib, {}, [{"skill": name, "t": 0, "targets": ",".join(targets), "mod": mod}])
        inst = B.DamageBuilder(stats, lib).get_damage_instances(rb.get_skill_timing())
        groups = {}
        for x in inst:
            groups.setdefault((x[1].name, x[4]), []).append(
                (x[0], x[5], float(x[1].get_damage_spec(x[2]).potency), x[1]))
    out = set()
    for (hit, _), hits in groups.items():
        if len(hits) == 1:
            continue
        hits.sort(key=lambda h: h[0])
        if [h[1] for h in hits] != targets:
            raise Violation(f"{job}/{name} ({hit}) hits {[h[1] for h in hits]}, expected {targets}")
        if any(abs(b[0] - a[0] - 135) > 1e-6 for a, b in zip(hits, hits[1:])):
            raise Violation(f"{job}/{name} ({hit}) hits at {[h[0] for h in hits]} ms, expected them 135 ms apart")
        drop = hits[0][3].aoe_dropoff
        explicit = any(c.startswith("Target ") for k, _ in model.skills[job][name].dmg for c in k)
        if drop is None and explicit:
            continue
        full = hits[0][2]
        want = full * (1 - (drop or 0))
        bad = [h for h in hits[1:] if abs(h[2] - want) > 1e-6 * max(1, want)]
        if bad:
            if f"{job}/{hit}" in listed() and all(h[2] == full for h in hits):
                out.add("known finding")
                continue
            raise Violation(f"{job}/{name} ({hit}) of {v}/{l} with {case['cond'] or 'no condition'}: potency "
                            f"{bad[0][2]} on {bad[0][1]}, expected {want} ({full} on the first, dropoff {drop})")
        if drop:
            out.add("reduced potency on later targets")
        else:
            out.add("same potency on all targets")
    return sorted(out)


def run_shared(case):
    """Skills made of one and the same table of damage specs, each with its own dropoff (or none)."""
    with sut("making skills"):
        table = {c: B.r_dmg(d) for c, d in case["table"]}
        skills = [B.Skill(name=f"s{i}", damage_spec=table, timing_spec=B.r_timing({}), has_aoe=True, aoe_dropoff=d)
                  for i, d in enumerate(case["drops"])]
    if sorted(table) != sorted(c for c, _ in case["table"]):
        raise Violation(f"the table passed in was changed to {sorted(table)}")
    plain = [(M.parse_conds(c), B.m_dmg(d)) for c, d in case["table"]]
    for sk, drop in zip(skills, case["drops"]):
        for n in case["targets"]:
            cs = M.parse_conds(case["cond"])
            want = M.pick(plain, cs).potency * (1 - drop if drop and n > 1 else 1)
            text = ", ".join(x for x in (case["cond"], f"Target {n}") if x)
            with sut("looking up"):
                got = sk.get_damage_spec(B.SkillModifier(with_condition=text)).potency
            if abs(got - want) > 1e-6:
                raise Violation(f"{sk.name} (dropoff {drop}) of {case['drops']} with '{text}': potency {got}, expected {want}")
    return "shared table" if len(skills) > 1 and any(case["drops"]) else None


@st.composite
def shared(draw):
    d = gen.gen_dmg({**gen.DEFAULT, "cls": 0})
    table = [["", d(draw)]] + [[c, d(draw)] for c in ("cA", "cA, cB") if pct(draw, 50)]
    return {"table": table, "drops": [pick(draw, [None, 0.5, 0.25, 0.6, 0.1]) for _ in range(draw(st.integers(1, 3)))],
            "targets": [draw(st.integers(1, 10)) for _ in range(3)], "cond": pick(draw, ["", "cA", "cA, cB", "cB"])}


_cases = {}


def library_cases(v, l):
    if (v, l) not in _cases:
        try:
            jobs, _ = gen.catalogue(v, l)
            model = B.real_model(v, l)
        except Violation:
            jobs, model = {}, None
        xs = []
        for job, (names, _, conds, _) in jobs.items():
            for n in names:
                if not model.skills[job][n].dmg:
                    continue
                xs.append((job, n, ""))
                xs += [(job, n, c) for c in conds.get(n, ())]
        _cases[v, l] = sorted(xs)
    return _cases[v, l]


@st.composite
def library(draw):
    v, l = pick(draw, VERSIONS)
    cs = library_cases(v, l)
    if not cs:
        return {"version": v, "level": l, "job": "SAM", "skill": "Auto", "cond": "", "n": 2}
    job, n, c = pick(draw, cs)
    return {"version": v, "level": l, "job": job, "skill": n, "cond": c, "n": draw(st.integers(2, 10))}


def all_library(tier):
    out = []
    for v, l in VERSIONS if tier == "thorough" else [("7.1", 100), ("6.55", 90)]:
        last = None
        for job, n, c in library_cases(v, l):
            if tier == "quick" and (job, n) == last:
                continue  # one condition each
            last = (job, n)
            out.append({"version": v, "level": l, "job": job, "skill": n, "cond": c, "n": 3})
    return out


def known_finding_lines(known):
    lines = []
    for k in known:
        job, name = k["cases"][0].split("/")
        r = run_library({"version": "7.1", "level": 100, "job": job, "skill": name, "cond": "", "n": 2})
        if r and "known finding" in r:
            lines.append(f"{k['what']} ({len(k['cases'])} skills, e.g. {k['cases'][0]})")
    return lines


SUITES = [
    Suite("rotations", scenarios, run, 1500, 130000, "non-trivial: labels say what happens on several targets"),
    Suite("many-targets", many, run, 600, 60000, "up to ten targets; same rule"),
    Suite("one-target", singles, run_single, 500, 40000, "one named target against the default one; non-trivial: hits"),
    Suite("shared-tables", shared, run_shared, 400, 30000, "several skills made of one table; non-trivial: more than one, with a "
          "dropoff"),
    Suite("library", library, run_library, 500, 60000, "every damaging real skill x conditions on 2 to 10 targets; "
          "non-trivial: it hits more than one", enumerate_cases=all_library),
]
assert pct
