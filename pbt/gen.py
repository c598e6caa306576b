"""Generators of scenarios (libraries, stats, options, rotations) as JSON.

A profile says how often each feature appears (in percent); 0 = never. Shrinking moves towards
absent features, few skills, few presses and small numbers.
"""
import functools

from hypothesis import strategies as st

from .gamedata import CASTERS, HEALERS, JOBS, VERSIONS

DEFAULT = dict(
    jobs=("SAM", "MNK", "NIN", "PLD", "DNC", "WHM", "BLM"), skills=(2, 6), presses=(1, 12),
    timed=50,  # percent of scenarios with given times; "mix" scenarios have both
    mix=5, gcd=60, cast=40, delay=40, dmg=75, speed_stat=50,
    buff=0, debuff=0, rich=40, haste=0, autoeff=0, uses=20, expires=15, allow=15, deny=10, condeff=0, forced=0,
    flat=0, prio=0, clear=0, extend=30,
    combo=0, brk=0, auto_combo=20, res=0, res_clear=8, dot=0, fu=0, fu_status=30, pto=50,
    multi=0, targets=3, cond=0, positional=0, chan=0, offclass=0, dropoff=0,
    autos=0, downtime=0, overlap=0, server_tick=0, trailing=0, fight_start=0, target=0, mods=0, far=25, cls=15, classes=35,
)


def pct(draw, p):
    """True with p percent; shrinks to False."""
    if p <= 0:
        return False
    if p >= 100:
        return True
    return draw(st.integers(0, 99)) >= 100 - p


def pick(draw, xs):
    return draw(st.sampled_from(xs))


def some(draw, xs, most=3):
    n = draw(st.integers(0, min(most, len(xs))))
    out = []
    for _ in range(n):
        x = pick(draw, xs)
        if x not in out:
            out.append(x)
    return out


def ms(draw, lo=0, hi=6000):
    """A time in ms, often at a round value."""
    k = draw(st.integers(0, 3))
    if k <= 1:
        return min(hi, max(lo, 500 * draw(st.integers(0, 10))))
    if k == 2:
        return min(hi, max(lo, 10 * draw(st.integers(0, 600))))
    return draw(st.integers(lo, hi))


def duration(draw):
    return pick(draw, [5000, 3000, 10000, 15000, 2500, 1000, 20000, 30000, 500, 7321, "inf"])


# names are such that some contain others or differ in case only
SKILLS = ["A", "AB", "B", "a", "C", "B A", "D", "E"]
CONDS = ["cA", "cB", "cAB"]
STRENGTHS = [1.05, 1.1, 1.2, 0.5, 1.03]


def gen_status(draw, P, name, names, debuff=False):
    d = {"duration": duration(draw)}
    if pct(draw, P["rich"]):
        d["mult"] = pick(draw, STRENGTHS)
    if pct(draw, P["rich"] // 2):
        d["crit"] = pick(draw, [0.1, 0.2, 0.02])
    if pct(draw, P["rich"] // 2):
        d["dh"] = pick(draw, [0.1, 0.2, 0.03])
    if pct(draw, P["rich"] // 4):
        d["add"] = pick(draw, [262, 100, 50])
    if pct(draw, P["rich"] // 4):
        d["smult"] = pick(draw, [0.75, 0.5])
    if pct(draw, P["haste"]):
        d["haste"] = pick(draw, [0.13, 0.2, 0.25, 0.15, 0.1])
    if pct(draw, P["autoeff"]):
        d["auto"] = pick(draw, [0.13, 0.2, 0.25, 0.4, 0.1])
    if pct(draw, P["flat"]):
        d["fcast"] = pick(draw, [500, 1000, 2500, 10])
    if pct(draw, P["flat"]):
        d["fgcd"] = pick(draw, [500, 1000, 100])
    if pct(draw, P["extend"]):
        d["max_duration"] = pick(draw, [30000, 60000, 10000, 5000])
        if d["duration"] != "inf" and d["max_duration"] < d["duration"]:
            d["max_duration"] = d["duration"]
    if pct(draw, P["extend"]):
        d["extends"] = False
    if pct(draw, P["extend"] // 4):
        d["extend_only"] = True
    if pct(draw, P["uses"]):
        d["uses"] = pick(draw, [1, 2, 3])
        if pct(draw, 50):
            d["max_uses"] = d["uses"] + pick(draw, [0, 1, 2])
    if pct(draw, P["expires"]):
        d["expires"] = some(draw, names, 2)
    if pct(draw, P["allow"]):
        d["allow"] = some(draw, names + (FU_NAMES[:1] if P["fu"] else []) + (["Auto", "Shot"] if P["autos"] else []), 3)
    if pct(draw, P["condeff"]):
        d["cond"] = True
    if pct(draw, P["forced"]):
        d[pick(draw, ["gcrit", "gdh"])] = pick(draw, ["FORCE_YES", "FORCE_NO"])
    if not debuff and pct(draw, P["clear"]):
        d["clear"] = True
    return d


def conds_for(draw, extra=()):
    pool = CONDS + list(extra)
    xs = some(draw, pool, 3)
    sep = pick(draw, [", ", ",", " , "])
    return sep.join(xs)


def variants(draw, P, make, extra=(), none_ok=False, extra_pct=0):
    """Plain spec, or a dict of condition -> spec with an unconditional one."""
    if not (pct(draw, P["cond"]) or pct(draw, extra_pct)):
        return {"v": make(draw)}
    out = [["", make(draw)]]
    seen = {frozenset()}
    for _ in range(pick(draw, [1, 2, 3, 4, 2, 0])):
        c = conds_for(draw, extra)
        key = frozenset(x.strip() for x in c.split(",")) if c else frozenset()
        if key in seen:
            continue
        seen.add(key)
        out.append([c, None if none_ok and pct(draw, 15) else make(draw)])
    if pct(draw, 50):
        out.reverse()
    # keep only unambiguous tables: no two equally specific ones that can hold together
    keys = [frozenset(x.strip() for x in c.split(",")) if c else frozenset() for c, _ in out]
    keep = []
    for i, k in enumerate(keys):
        if any(len(k) == len(keys[j]) and not exclusive(k, keys[j]) for j in keep):
            continue
        keep.append(i)
    return [out[i] for i in keep]


def exclusive(a, b):
    """Conditions which never hold together: different amounts of one resource."""
    for x in a - b:
        for y in b - a:
            if x[:1].isdigit() and y[:1].isdigit() and x.split(" ", 1)[1] == y.split(" ", 1)[1]:
                return True
    return False


def gen_dmg(P):
    def f(draw):
        return {"potency": pick(draw, [100, 200, 300, 0, 50, 620])} | (
            {"cls": pick(draw, ["DIRECT", "MAGICAL_DOT", "PHYSICAL_DOT", "PET", "AUTO"])} if pct(draw, P["cls"]) else {})
    return f


def gen_timing(P, gcd):
    def f(draw):
        d = {}
        if pct(draw, P["cast"]):
            d["cast"] = pick(draw, [1500, 2000, 2500, 500, 3500, 400, 1000, 5000])
        if gcd and pct(draw, 25):
            d["recast"] = pick(draw, [1500, 2000, 3000, 4000, 1000, 2490])
        if pct(draw, 50):
            d["lock"] = pick(draw, [0, 100, 600, 1000, 1400, 3000])
        if pct(draw, P["delay"]):
            d["delay"] = pick(draw, [500, 620, 1000, 100, 1780, 2000, 450])
        if pct(draw, 20):
            d["spd"] = False
        if pct(draw, 20):
            d["haste"] = False
        return d
    return f


FU_NAMES = ["f1", "f2", "f3"]


def gen_follow_up(P, names, with_dot, extra=()):
    def one(draw):
        name = pick(draw, FU_NAMES)
        sk = {"name": name}
        d = {"skill": sk}
        if with_dot and pct(draw, P["dot"]):
            sk["dmg"] = {"v": {"potency": pick(draw, [50, 60, 70]), "cls": pick(draw, ["MAGICAL_DOT", "PHYSICAL_DOT"])}}
            d["dot"] = pick(draw, [9000, 15000, 3000, 30000, 6000, 8000, 1000])
            sk["name"] = "dot " + name
        else:
            if pct(draw, 70):
                sk["dmg"] = variants(draw, P, lambda draw: {"potency": pick(draw, [100, 120, 50])}, extra,
                                     extra_pct=30 if P["condeff"] else 0)
            if pct(draw, P["fu_status"]) and P["buff"]:
                sk["buff"] = {"v": gen_status(draw, P, name, names)}
            if pct(draw, P["fu_status"]) and P["debuff"]:
                sk["debuff"] = {"v": gen_status(draw, P, name, names, True)}
            d["delay"] = pick(draw, [0, 100, 500, 1000, 2000, 1])
            if sk.get("dmg") is None and sk.get("buff") is None and sk.get("debuff") is None:
                sk["dmg"] = {"v": {"potency": 10}}
        if pct(draw, 30):
            d["sb"] = False
        if pct(draw, 30):
            d["sd"] = False
        if pct(draw, P["pto"]):
            d["pto"] = False
        return d

    def f(draw):
        n = draw(st.integers(1, 3))
        return [one(draw) for _ in range(n)]
    return f


def gen_chan(draw, names):
    d = {"duration": pick(draw, [5000, 10000, 2500, "inf", 1000])}
    if pct(draw, 60):
        d["allow"] = some(draw, names, 2)
        if pct(draw, 50):
            d["uses"] = pick(draw, [1, 2, 3])
    return d


RES = ["Gauge", "Gauge B"]


def gen_res(P):
    def f(draw):
        out = []
        for _ in range(draw(st.integers(1, 2))):
            if pct(draw, P["res_clear"]):
                out.append({"clear": True})
                continue
            d = {"name": pick(draw, RES), "change": pick(draw, [1, 2, -1, 3, -2, 5, -5])}
            if pct(draw, 30):
                d["duration"] = pick(draw, [5000, 10000, 2500])
            if pct(draw, 40):
                d["refresh"] = True
            out.append(d)
        return out
    return f


def gen_combo(P, names):
    def f(draw):
        out = []
        for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
            if pct(draw, P["brk"] // 3):
                out.append({"break_all": True})
                continue
            d = {"group": draw(st.integers(0, 2))}
            if not pct(draw, 35):
                d["actions"] = some(draw, names, 2)
            if pct(draw, P["auto_combo"] // 2):
                d["auto"] = True
            out.append(d)
        return out
    return f


def gen_skill(draw, P, name, names):
    gcd = pct(draw, P["gcd"])
    s = {"name": name, "gcd": gcd}
    extra = []
    if P["combo"]:
        extra.append("No Combo")
    if P["res"]:
        extra += [f"{n} {r}" for r in RES for n in (1, 2, 3)]
    if P["condeff"]:
        extra += names[:2]
    cx = 30 if extra else 0
    s["timing"] = variants(draw, P, gen_timing(P, gcd), extra, extra_pct=cx // 3)
    if pct(draw, P["dmg"]):
        s["dmg"] = variants(draw, P, gen_dmg(P), extra, none_ok=True, extra_pct=cx)
        if P["dropoff"] and pct(draw, P["dropoff"]):
            v = s["dmg"]
            if isinstance(v, dict):
                v = [["", v["v"]]]
            s["dmg"] = [[c, x or {"potency": 100}] for c, x in v]
            s["dropoff"] = pick(draw, [0.5, 0.25, 0.6, 0.1])
    if pct(draw, P["buff"]):
        s["buff"] = variants(draw, P, lambda d: gen_status(d, P, name, names), extra, none_ok=True)
    if pct(draw, P["debuff"]):
        s["debuff"] = variants(draw, P, lambda d: gen_status(d, P, name, names, True), extra, none_ok=True)
    if pct(draw, P["deny"]) and (P["buff"] or P["debuff"]):
        s["deny"] = some(draw, names + FU_NAMES, 2)
    if pct(draw, P["combo"]):
        s["combo"] = variants(draw, P, gen_combo(P, names))
    if pct(draw, P["res"]):
        s["res"] = variants(draw, P, gen_res(P), extra_pct=20, extra=["No Combo"] if P["combo"] else [])
        if pct(draw, 20):
            s["res_snap"] = False
    if pct(draw, P["fu"]) or pct(draw, P["dot"]):
        s["fu"] = variants(draw, P, gen_follow_up(P, names, True, names[:2] if P["condeff"] else ()), extra)
    if pct(draw, P["chan"]):
        s["chan"] = variants(draw, P, lambda d: gen_chan(d, names), extra, none_ok=True)
    if pct(draw, P["offclass"]):
        s["off_class"] = pick(draw, CONDS)
    return s


def gen_job(draw, P, prefix=""):
    n = draw(st.integers(*P["skills"]))
    names = [prefix + x for x in SKILLS[:n]]
    if P["chan"] and pct(draw, 30):
        names[-1] = prefix + "Wait 1.00s"
    j = {"skills": [gen_skill(draw, P, x, names) for x in names]}
    allnames = names + (FU_NAMES if P["fu"] else [])
    if pct(draw, P["prio"]):
        j["prio"] = some(draw, allnames, 4)
    if P["res"]:
        j["res"] = {}
        for rn in RES:
            d = {"cap": pick(draw, [3, 1, 5, 10]), "allow": some(draw, names, 4)}
            if pct(draw, 40):
                d["expiry"] = pick(draw, [10000, 5000, 15000, 2500])
            if pct(draw, 30):
                d["number"] = False
            j["res"][rn] = d
    if P["combo"] and pct(draw, P["brk"]):
        j["brk"] = [[g, some(draw, [0, 1, 2], 2)] for g in some(draw, [0, 1, 2], 3)]
    return j


def gen_stats(draw, P, job=None, version=None, level=None):
    job = job or pick(draw, list(P["jobs"]))
    if level is None:
        version, level = pick(draw, [("7.1", 100), ("6.55", 90), ("7.0", 100), ("7.05", 90)])
    s = dict(wd=126, main=2945, det=1620, crit=2377, dh=1048, speed=400 if level == 90 else 420, job=job,
             version=version, level=level, ten=751, strength=351)
    if pct(draw, P["speed_stat"]):
        s["speed"] = draw(st.integers(s["speed"], 3500))
    if P["autos"]:
        s["weapon_delay"] = pick(draw, [2.64, 3.44, 2.5, 2.01, 3.2, 2.03, 2.222])
    else:
        s["weapon_delay"] = 3.44
    return s


TARGETS = ["t1", "t10", "t2", "T1", "t4", "t5", "t6", "t7", "t8", "t9"]


def gen_targets(draw, P, top):
    if not pct(draw, P["multi"]):
        return None
    n = draw(st.integers(1, P["targets"]))
    pool = ([top] if pct(draw, 60) else []) + TARGETS
    start = draw(st.integers(0, 2))
    xs = []
    for i in range(n):
        x = pool[(start + i) % len(pool)]
        if x not in xs:
            xs.append(x)
    return pick(draw, [", ", ",", " , "]).join(xs)


def gen_mod(draw, P):
    if not pct(draw, P["mods"]):
        return None
    m = {}
    if P["cond"] and pct(draw, 70):
        m["cond"] = conds_for(draw)
    if pct(draw, 15):
        m["no_cast"] = True
    if pct(draw, 15):
        m["no_delay"] = True
    if P["combo"] and pct(draw, 15):
        m["force_combo"] = True
    return m


def gen_gap(draw, P):
    """ms until the next timed press."""
    k = draw(st.integers(0, 9))
    if k <= 3:
        return pick(draw, [2500, 1000, 500, 0, 3000])
    if k <= 6:
        return draw(st.integers(0, 4000))
    if pct(draw, P["far"]):
        return pick(draw, [30000, 29999, 30001, 5000, 10000, 15000, 9999, 10001, 5001, 4999, 20000, 60000])
    return pick(draw, [650, 1500, 600, 2499, 2501])


def window(draw, classes=35):
    a = (draw(st.integers(-4, 120)) if pct(draw, 40) else pick(draw, [0, 4, 10, 1, 2, 8, 20, 16, -4])) / 4
    b = a + draw(st.integers(1, 40)) / 4
    w = [a, b]
    if pct(draw, classes):
        w.append(pick(draw, ["AUTO", "DIRECT", "MAGICAL_DOT", "PHYSICAL_DOT", "PET"]))
    return w


def windows(draw, free=False, classes=35):
    """free: in any order, overlapping or not."""
    if free:
        return [window(draw, classes) for _ in range(draw(st.integers(1, 4)))]
    out = []
    for w in sorted([window(draw, classes) for _ in range(draw(st.integers(1, 3)))]):
        if not out or w[0] >= out[-1][1]:
            out.append(w)
    return out


def gen_opts(draw, P):
    o = {}
    if pct(draw, P["autos"]):
        o["autos"] = True
    if pct(draw, P["server_tick"]):
        o["server_tick"] = pick(draw, [0, 1, 0.5, 2.25, 2.5, -1, 7])
    if pct(draw, P["trailing"]):
        o["trailing"] = True
    if pct(draw, P["fight_start"]):
        o["fight_start"] = pick(draw, [0, 0, 1000, 5000, -2000])
    if pct(draw, P["target"]):
        o["target"] = "Boss"
    if pct(draw, P["downtime"]):
        free = not o.get("autos") and pct(draw, P["overlap"])
        if pct(draw, 50):
            o["downtime"] = windows(draw, free, P["classes"])
        else:
            o["downtime"] = {t: windows(draw, free, P["classes"]) for t in some(draw, ["Default Target", "t1", "t10", "t2", "Boss"], 3)}
    return o


@st.composite
def scenarios(draw, **over):
    P = {**DEFAULT, **over}
    stats = gen_stats(draw, P)
    job = stats["job"]
    jobs = {job: gen_job(draw, P)}
    if P["autos"]:
        name = "Shot" if job in ("DNC", "BRD", "MCH") else "Auto"
        jobs[job]["skills"].append({
            "name": name, "timing": {"v": {"lock": 0, "delay": pick(draw, [532, 758, 0, 100])}},
            "dmg": {"v": {"potency": 90, "cls": "AUTO"}}}
            | ({"deny": some(draw, [x["name"] for x in jobs[job]["skills"]], 2)} if pct(draw, P["deny"]) else {}))
        if pct(draw, 10):  # both: the job's own shot is used
            jobs[job]["skills"].append({"name": "Auto" if name == "Shot" else "Shot",
                                        "timing": {"v": {"lock": 0, "delay": 321}},
                                        "dmg": {"v": {"potency": 80, "cls": "AUTO"}}})
    other = None
    if P["offclass"]:
        other = "AST" if job != "AST" else "SCH"
        jobs[other] = gen_job(draw, {**P, "res": 0, "skills": (1, 3)}, pick(draw, ["x", "x", ""]))
    names = [s["name"] for s in jobs[job]["skills"] if s["name"] not in ("Auto", "Shot")]
    opts = gen_opts(draw, P)
    top = opts.get("target", "Default Target")
    n = draw(st.integers(*P["presses"]))
    style = draw(st.integers(0, 99))
    timed = style >= 100 - P["timed"]
    mix = pct(draw, P["mix"])
    rot, t = [], draw(st.sampled_from([0, 1000, 5000, 0, -1500]))
    for _ in range(n):
        p = {}
        if other and pct(draw, P["offclass"]):
            p["job"] = other
            p["skill"] = pick(draw, [s["name"] for s in jobs[other]["skills"]])
        else:
            p["skill"] = pick(draw, names)
        m = gen_mod(draw, P)
        if m is not None:
            p["mod"] = m
        tg = gen_targets(draw, P, top)
        if tg is not None:
            p["targets"] = tg
        if timed or (mix and pct(draw, 50)):
            t += gen_gap(draw, P)
            p["t"] = t / 1000
        elif pct(draw, 8):
            p["n"] = pick(draw, [2, 3, 4, 6])
        rot.append(p)
    if timed and pct(draw, 20):
        rot = list(draw(st.permutations(rot)))
    return {"stats": stats, "lib": {"jobs": jobs}, "opts": opts, "rot": rot}


__all__ = ["scenarios", "CASTERS", "HEALERS", "JOBS"]


# ------------------------------------------------------------------------------------------
# rotations of real skills

REAL = dict(presses=(1, 20), timed=50, autos=40, downtime=20, overlap=0, server_tick=20, trailing=20, fight_start=15, target=10,
            multi=12, targets=4, mods=25, party=10, generic=8, versions=None, jobs=None, far=25, bonus=0, classes=35)


@functools.lru_cache(maxsize=None)
def catalogue(version, level):
    """What there is to press: {job: (names, generic names, {name: conditions}, {name: successors})}, party skills.
    If /repo cannot even make the library, run() will report it."""
    from . import build as B
    from .core import Violation
    try:
        m = B.real_model(version, level)
    except Violation:
        return {j: (["Auto"], ["Auto"], {}, {}) for j in JOBS}, []
    jobs, party = {}, []
    common = set.intersection(*(set(s) for s in m.skills.values()))
    for job, skills in m.skills.items():
        names = sorted(n for n in skills if n not in common and n not in ("Auto", "Shot"))
        gen = sorted(n for n in skills if n in common and not n.startswith("Wait"))
        gen += [n for n in ("Wait 1.00s", "Wait 0.50s", "Wait 5.00s", "Wait 0.00s") if n in skills]
        conds, succ = {}, {}
        for n, s in skills.items():
            keys = [k for table in (s.dmg, s.timing, s.buff, s.debuff, s.res, s.combo, s.fu) for k, _ in table if k]
            keys = sorted({", ".join(sorted(k)) for k in keys if not any(x.startswith("Target ") for x in k)})
            if keys:
                conds[n] = keys
            for _, cs in s.combo:
                for c in cs or ():
                    for a in c.actions:
                        succ.setdefault(a, []).append(n)
            if n in names and any(v.party for t in (s.buff, s.debuff) for _, v in t if v is not None):
                party.append((job, n))
        jobs[job] = (names, gen, conds, {k: sorted(set(v) & set(names)) for k, v in succ.items()})
    return jobs, sorted(party)


@st.composite
def real_scenarios(draw, **over):
    P = {**DEFAULT, **REAL, **over}
    version, level = pick(draw, list(P["versions"] or VERSIONS))
    jobs, party = catalogue(version, level)
    job = pick(draw, sorted(set(P["jobs"] or jobs) & set(jobs)) or sorted(jobs))
    stats = gen_stats(draw, {**P, "autos": 0}, job, version, level)
    if pct(draw, 50):
        stats.pop("weapon_delay")
    names, generic, conds, succ = jobs[job]
    opts = gen_opts(draw, P)
    top = opts.get("target", "Default Target")
    timed = pct(draw, P["timed"])
    rot, t, last = [], draw(st.sampled_from([0, 1000, 5000])), None
    for _ in range(draw(st.integers(*P["presses"]))):
        p = {}
        k = draw(st.integers(0, 99))
        cs = conds
        if k >= 100 - P["party"] and party:
            p["job"], p["skill"] = pick(draw, party)
            if p["job"] == job:
                del p["job"]
            else:
                cs = {}
        elif k >= 100 - P["party"] - P["generic"]:
            p["skill"] = pick(draw, generic)
        elif k <= 40 and succ.get(last):
            p["skill"] = pick(draw, succ[last])
        else:
            p["skill"] = pick(draw, names)
        last = p["skill"]
        m = {}
        if pct(draw, P["mods"]):
            if p["skill"] in cs and pct(draw, 75):
                m["cond"] = pick(draw, cs[p["skill"]])
            if pct(draw, 10):
                m["no_cast"] = True
            if pct(draw, 10):
                m["no_delay"] = True
            if pct(draw, 10):
                m["force_combo"] = True
            if "job" not in p:
                p["mod"] = m
        if P["bonus"] and "job" not in p and pct(draw, P["bonus"]):
            p["mod"] = {**m, "bonus": draw(st.integers(0, 80))}
        tg = gen_targets(draw, P, top)
        if tg is not None:
            p["targets"] = tg
        if timed:
            t += gen_gap(draw, P)
            p["t"] = t / 1000
        elif pct(draw, 5):
            p["n"] = 2
        rot.append(p)
    if timed and pct(draw, 15):
        rot = list(draw(st.permutations(rot)))
    return {"stats": stats, "opts": opts, "rot": rot}
