"""C12: conditional skill data."""
from hypothesis import strategies as st

from .. import build as B, gen, model as M
from ..core import Suite, Violation, sut
from ..gen import pct, pick

KINDS = {
    "dmg": ("get_damage_spec", B.from_dmg),
    "timing": ("get_timing_spec", B.from_timing),
    "buff": ("get_buff_spec", B.from_status),
    "debuff": ("get_debuff_spec", B.from_status),
    "chan": ("get_channeling_spec", B.from_chan),
    "res": ("get_job_resource_spec", lambda xs: tuple(map(B.from_res, xs))),
    "combo": ("get_combo_spec", lambda xs: tuple(map(B.from_combo, xs))),
    "fu": ("get_follow_up_skills", lambda xs: tuple(
        (f.skill.name, f.delay_after_parent_application, f.snapshot_buffs_with_parent, f.snapshot_debuffs_with_parent,
         f.dot_duration, f.primary_target_only) for f in xs)),
}


def model_value(kind, v):
    if v is None:
        return None
    if kind == "fu":
        return tuple((f.skill.name, f.delay, f.sb, f.sd, f.dot, f.pto) for f in v)
    return v


POOL = ["cA", "cB", "cAB", "No Combo", "No Positional", "1 Gauge", "2 Gauge", "Target 2", "Some Buff"]


def spell(conds, order, sep):
    return sep.join(conds[i] for i in order)


def run_tables(case):
    out = set()
    with sut("making the skill"):
        sk = B.r_skill(case["skill"])
    m = B.m_skill(case["skill"])
    conds = case["conds"]
    want_all = {}
    for kind, (fn, conv) in KINDS.items():
        table = getattr(m, kind)
        cs = frozenset(c.strip() for c in conds)
        absent = () if kind in ("res", "combo", "fu") else None
        if table and M.ambiguous(table, cs):
            continue
        want_all[kind] = model_value(kind, M.pick(table, cs, absent))
    for spelling in case["spellings"]:
        text = spell(conds, spelling["order"], spelling["sep"])
        with sut(f"conditions '{text}'"):
            mod = B.SkillModifier(with_condition=text)
        for kind, want in want_all.items():
            fn, conv = KINDS[kind]
            with sut(f"{fn} with '{text}'"):
                got = getattr(sk, fn)(mod)
                got = None if got is None else conv(got)
            if got != want:
                raise Violation(f"{fn} with conditions '{text}': {got}, expected {want}")
    # conditions the skill does not mention have no influence, and adding conditions one by one is the same
    with sut("adding conditions"):
        mod = B.SkillModifier(with_condition="unrelated, another one")
        for c in conds:
            mod.add_to_condition(c)
    for kind, want in want_all.items():
        fn, conv = KINDS[kind]
        with sut(fn):
            got = getattr(sk, fn)(mod)
            got = None if got is None else conv(got)
        if got != want:
            raise Violation(f"{fn} with {conds} and unrelated conditions: {got}, expected {want}")
    for kind in want_all:
        t = getattr(m, kind)
        if len(t) > 1:
            cs = frozenset(conds)
            best = [k for k, _ in t if k <= cs]
            out.add(f"{kind} table")
            if max(map(len, best)) > 0:
                out.add("conditional variant used")
            if len(best) > 2:
                out.add("several variants match")
    return sorted(out)


@st.composite
def tables(draw):
    P = {**gen.DEFAULT, "cond": 85, "dot": 0, "buff": 0, "rich": 40, "res_clear": 10}
    names = ["A", "B", "C"]
    s = {"name": "A", "gcd": pct(draw, 50)}
    ex = POOL[3:]

    def var(make, none_ok=False):
        return gen.variants(draw, P, make, ex, none_ok=none_ok)

    makers = {
        "dmg": lambda: var(gen.gen_dmg(P), True), "timing": lambda: var(gen.gen_timing(P, True)),
        "buff": lambda: var(lambda d: gen.gen_status(d, P, "A", names), True),
        "debuff": lambda: var(lambda d: gen.gen_status(d, P, "A", names, True), True),
        "chan": lambda: var(lambda d: gen.gen_chan(d, names), True),
        "res": lambda: var(gen.gen_res(P)), "combo": lambda: var(gen.gen_combo(P, names)),
        "fu": lambda: var(gen.gen_follow_up(P, names, False)),
    }
    chosen = [k for k in makers if pct(draw, 40)] or ["dmg"]
    for k in chosen:
        s[k] = makers[k]()
    n = draw(st.integers(0, 6))
    conds = []
    terms = sorted({x.strip() for k in chosen if isinstance(s[k], list) for c, _ in s[k] for x in c.split(",")} - {""})
    if terms and pct(draw, 70):
        conds = [c for c in terms if pct(draw, 70)]
        n = n // 3
    for _ in range(n):
        c = pick(draw, POOL)
        if c not in conds:
            conds.append(c)
    if terms and pct(draw, 25):  # almost the same is not the same
        c = pick(draw, terms)
        c = pick(draw, [c.lower(), c.upper(), c + "1", c[:-1], "1" + c, "No " + c])
        if c.strip() and c not in conds:
            conds.append(c)
    if conds and pct(draw, 10):
        conds.append(conds[0])  # given twice
    spellings = [{"order": list(draw(st.permutations(range(len(conds))))),
                  "sep": pick(draw, [", ", ",", " , ", ",  "])} for _ in range(2)]
    return {"skill": s, "conds": conds, "spellings": spellings}


def run_rotation(case):
    """The same through whole rotations, with the press's conditions spelt in other ways."""
    R = B.Run(case)
    R.check_hits((0, 1, 2, 3), "hits")
    out = set()
    for h in R.hits:
        if h.mod.conds & {k for ks, _ in h.skill.dmg for k in ks}:
            out.add("hit of a conditional variant")
    other = []
    for p in case["rot"]:
        p = dict(p)
        c = (p.get("mod") or {}).get("cond")
        if c:
            xs = [x.strip() for x in c.split(",")][::-1]
            p["mod"] = {**p["mod"], "cond": "  ,".join(xs + ["not mentioned"])}
        other.append(p)
    with sut("building with other spellings"):
        rb = B.r_rotation(B.r_stats(case["stats"]), R.lib, case["opts"], other)
        inst = B.DamageBuilder(R.stats, R.lib).get_damage_instances(rb.get_skill_timing())

    def key(x):
        d = x[1].get_damage_spec(x[2])
        return (*B.inst_key(x)[:3], *B.inst_key(x)[4:], d.potency, d.damage_class.name,
                tuple(sorted(x[2].with_condition - {"not mentioned"})))
    a, b = [key(x) for x in R.inst], [key(x) for x in inst]
    try:
        B.diff("hits with conditions spelt differently", b, a)
    except Violation:
        R.skip_if_ambiguous()
        raise
    return sorted(out)


def rotations():
    return gen.scenarios(cond=70, mods=80, presses=(1, 7), skills=(1, 3), buff=20, debuff=15, fu=25, combo=15, res=15,
                         delay=40, condeff=10, offclass=15)


def effects():
    """Conditions which hold because of buffs and debuffs, at the snapshot or (follow-ups) the hit itself."""
    return gen.scenarios(cond=45, mods=20, presses=(2, 9), skills=(2, 4), buff=60, debuff=60, condeff=75, fu=45, fu_status=20,
                         delay=50, multi=25, uses=15, rich=10, far=15)


def run_real(case):
    """Every skill of the game data: all its conditions in any combination."""
    lib = B.real_lib(case["version"], case["level"])
    model = B.real_model(case["version"], case["level"])
    job, name = case["job"], case["skill"]
    m = model.skills.get(job, {}).get(name)
    if m is None:
        return None
    with sut("looking up the skill"):
        sk = lib.get_skill(name, job)
    terms = sorted({c for kind in KINDS for k, _ in getattr(m, kind) for c in k})
    if not terms:
        return None
    conds = [terms[i % len(terms)] for i in case["pick"]]
    cs = frozenset(conds)
    text = case["sep"].join(conds)
    with sut("modifier"):
        mod = B.SkillModifier(with_condition=text)
    for kind, (fn, conv) in KINDS.items():
        table = getattr(m, kind)
        if not table:
            continue
        if M.ambiguous(table, cs):
            continue
        want = model_value(kind, M.pick(table, cs))
        with sut(f"{fn} of {job}/{name} with '{text}'"):
            got = getattr(sk, fn)(mod)
            got = None if got is None else conv(got)
        if got != want:
            raise Violation(f"{fn} of {job}/{name} with '{text}': {got}, expected {want}")
    return "several conditions" if len(cs) > 1 else "one condition"


@st.composite
def real(draw):
    v, l = pick(draw, gen.VERSIONS)
    model = None
    try:
        model = B.real_model(v, l)
    except Violation:
        return {"version": v, "level": l, "job": "SAM", "skill": "Auto", "pick": [0], "sep": ","}
    names = cond_skills(v, l, model)
    job, name = pick(draw, names)
    return {"version": v, "level": l, "job": job, "skill": name,
            "pick": [draw(st.integers(0, 30)) for _ in range(draw(st.integers(1, 5)))],
            "sep": pick(draw, [", ", ",", " , "])}


_cache = {}


def cond_skills(v, l, model):
    if (v, l) not in _cache:
        _cache[v, l] = sorted((j, n) for j, ss in model.skills.items() for n, s in ss.items()
                              if any(len(getattr(s, k)) > 1 for k in KINDS))
    return _cache[v, l]


SUITES = [
    Suite("tables", tables, run_tables, 4500, 400000,
          "skills with generated condition tables x conditions in different order and spacing; non-trivial: some table "
          "has conditions"),
    Suite("rotations", rotations, run_rotation, 900, 100000, "non-trivial: a hit uses a conditional variant"),
    Suite("conditions-of-effects", effects, run_rotation, 1200, 100000, "conditions that hold because of buffs and debuffs; "
          "same rule"),
    Suite("real-skills", real, run_real, 3000, 300000, "conditional real skills x combinations of their conditions"),
]
ASSUMPTIONS = ["tables in which two equally specific variants match are not judged (the tie is unspecified)"]
