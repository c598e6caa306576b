"""C23: channeling windows."""
from hypothesis import strategies as st

from .. import build as B, gen, model as M
from ..core import Suite, Violation, internal, sut
from ..gen import pct, pick

Tracker = internal("simulator.trackers.channeling_tracker", "ChannelingTracker")


def compare(what, got, want):
    if got != want:
        raise Violation(f"{what}: windows {got}, expected {want}")
    for (a, b), (c, d) in zip(got, got[1:]):
        if c < b:
            raise Violation(f"{what}: windows {got} overlap")


def labels(presses, skills, want):
    out = set()
    for (a, b), sp in zip(want, [(t, s, c) for t, s, c in presses if M.pick(s.chan, c) is not None and "Wait" not in s.name]):
        d = M.pick(sp[1].chan, sp[2]).duration
        out.add("ran its time" if b == a + d else "ended by a press")
    if len(want) > 1:
        out.add("several channels")
    return sorted(out)


def run_tracker(case):
    skills = {s["name"]: s for s in case["skills"]}
    with sut("making the skills"):
        rs = {n: B.r_skill(s) for n, s in skills.items()}
        tr = Tracker()
    ms = {n: B.m_skill(s) for n, s in skills.items()}
    model, t, done = M.Channels(), 0, []
    for gap, n, cond in case["presses"]:
        t += gap
        conds = M.parse_conds(cond)
        with sut("a press"):
            tr.process_channeling(t, rs[n], B.SkillModifier(with_condition=cond))
        model.press(t, ms[n], conds)
        done.append((t, ms[n], conds))
    with sut("the end"):
        tr.finalize()
        got = [tuple(map(B.r, w)) for w in tr.get_channeling_windows()]
    want = [tuple(map(B.r, w)) for w in model.finish()]
    compare(f"presses {case['presses']}", got, want)
    return labels(done, ms, want)


@st.composite
def histories(draw):
    names = [f"s{i}" for i in range(draw(st.integers(1, 5)))]
    P = {**gen.DEFAULT, "cond": 30}
    skills = []
    for i, n in enumerate(names):
        s = {"name": n, "timing": {"v": {}}}
        if i == 0 or pct(draw, 35):
            s["chan"] = gen.variants(draw, P, lambda d: gen.gen_chan(d, names + ["Wait 1.00s"]), none_ok=True)
        skills.append(s)
    skills.append({"name": "Wait 1.00s", "timing": {"v": {"lock": 1000}}})
    gap = st.one_of(st.sampled_from([0, 1000, 2500, 5000, 1, 2499, 2501, 10000]), st.integers(0, 12000))
    presses = draw(st.lists(st.tuples(gap, st.sampled_from([s["name"] for s in skills]), st.sampled_from(
        ["", "", "", "cA", "cB", "cA, cB", "cC"])).map(list), min_size=1, max_size=12))
    return {"skills": skills, "presses": presses}


def run_rotation(case, real=False):
    """Windows of rotations entered at given times, with the casts."""
    R = B.Run(case, real=real)
    with sut("no-auto periods"):
        got = sorted((B.r(a), B.r(b)) for a, b, *_ in R.rb.get_no_auto_periods())
    chan = [tuple(map(B.r, w)) for w in R.tl.ch.finish()]
    casts = [tuple(map(B.r, w)) for w in R.tl.windows]
    B.diff("casts and channels", got, sorted(chan + casts))
    return ["channel"] if chan else []


def run_real(case):
    return run_rotation(case, True)


def rotations():
    return gen.scenarios(chan=45, cast=30, timed=100, presses=(1, 10), skills=(1, 4), cond=15, mods=25, delay=10, buff=10,
                         fight_start=20, combo=8, res=8)


@st.composite
def real_rotations(draw):
    """Rotations with skills that channel."""
    c = draw(gen.real_scenarios(timed=100, presses=(2, 12), downtime=0, party=0,
                                jobs=["MNK", "NIN", "DNC", "MCH", "BLU", "AST", "PCT", "PLD", "VPR", "SAM", "WHM"]))
    return c


def channelers(tier):
    """Every real skill with a channel, on its own and followed by others."""
    out = []
    for v, l in (("6.55", 90), ("7.1", 100)) if tier == "quick" else B_versions():
        try:
            lib = B.real_model(v, l)
        except Violation:
            continue
        for job, skills in lib.skills.items():
            for n in list(skills):
                if n.startswith("Wait") or not skills[n].chan:
                    continue
                allow = sorted({a for _, c in skills[n].chan if c for a in c.allow} & set(skills))
                others = sorted(x for x in skills if not x.startswith("Wait") and skills[x].timing)[:6]
                for seq in [[], ["Wait 1.00s"], allow[:2], allow[:4] * 2, others[:1], allow[:1] + others[:2], [n], others[2:4] + [n]]:
                    for gap in (0.7, 3.1, 20):
                        out.append({"stats": dict(wd=126, main=2945, det=1620, crit=2377, dh=1048, speed=420, ten=420, strength=351,
                                                  job=job, version=v, level=l), "opts": {},
                                    "rot": [{"skill": s, "t": round(i * gap, 3)} for i, s in enumerate([n] + seq)]})
    return out


def B_versions():
    from ..gamedata import VERSIONS
    return VERSIONS


SUITES = [
    Suite("histories", histories, run_tracker, 3000, 300000, "histories of presses with channels, waits, allowed skills; "
          "non-trivial: a channel starts"),
    Suite("rotations", rotations, run_rotation, 900, 90000, "periods without autos of rotations; same rule"),
    Suite("real-channels", real_rotations, run_real, 100, 20000, "every real skill that channels (enumerated), and "
          "rotations of jobs that have one; same rule", channelers),
]
