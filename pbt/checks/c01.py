"""C01: stat conversions."""
import math
from fractions import Fraction as F

from hypothesis import strategies as st

from .. import build as B, dmg as D, gamedata as G
from ..core import Suite, Violation, sut
from ..gen import pick
from ..model import consts, scaled_time
from ama_xiv_combat_sim.simulator.calcs.stat_fns import StatFns
from ama_xiv_combat_sim.simulator.game_data.game_consts import GameConsts

# (patch string, level): also patches in between and after those with data of their own
PATCHES = [("6.55", 90), ("7.0", 90), ("7.0", 100), ("7.01", 100), ("7.05", 90), ("7.05", 100), ("7.1", 90),
           ("7.1", 100), ("7.15", 100), ("7.2", 100), ("6.58", 90), ("7.03", 100)]


def same(what, got, want):
    if abs(float(got) - float(want)) > 1e-9 * max(1, abs(float(want))):
        raise Violation(f"{what}: got {got}, expected {float(want)}")


def run_stat(case):
    """One stat value at one patch and level."""
    v, lvl, x, y = case["version"], case["level"], case["x"], case["y"]
    c = consts(v, lvl)
    jm, ms, delay = case["job_mod"], case["ms"], case["delay"]
    with sut(f"StatFns at {v}/{lvl} of {x}"):
        got = {
            "crit": StatFns.get_crit_stats(x, v, lvl), "dh": StatFns.get_dh_rate(x, v, lvl),
            "det": StatFns.fDet(x, v, lvl), "detdh": StatFns.fDetDH(x, y, v, lvl), "ten": StatFns.fTnc(x, v, lvl),
            "spd": StatFns.fSpd(x, v, lvl), "ap": StatFns.fAP(x, False, v, lvl), "apt": StatFns.fAP(x, True, v, lvl),
            "wd": StatFns.fWD(case["wd"], jm, v, lvl), "auto": StatFns.fAuto(case["wd"], delay, jm, v, lvl),
            "time": StatFns.get_time_using_speed_stat(ms, x, v, lvl),
        }
    at = f"{v}/{lvl}, stat {x}"
    rate, bonus = D.crit(x, c)
    same(f"crit rate {at}", got["crit"][0], rate)
    same(f"crit bonus {at}", got["crit"][1], bonus)
    same(f"direct hit rate {at}", got["dh"], D.dh_rate(x, c))
    same(f"determination {at}", got["det"], D.f_det(x, c))
    same(f"determination with direct hit {y} {at}", got["detdh"], D.f_det_dh(x, y, c))
    same(f"tenacity {at}", got["ten"], D.f_tnc(x, c))
    same(f"speed bonus {at}", got["spd"], D.f_spd(x, c))
    same(f"attack power {at}", got["ap"], D.f_ap(F(x), False, c))
    same(f"attack power of tanks {at}", got["apt"], D.f_ap(F(x), True, c))
    same(f"weapon damage {case['wd']} job modifier {jm} {v}/{lvl}", got["wd"], D.f_wd(case["wd"], jm, c))
    same(f"auto weapon damage {case['wd']} delay {delay} job modifier {jm} {v}/{lvl}", got["auto"],
         D.f_auto(case["wd"], delay, jm, c))
    same(f"{ms} ms at speed {x} {v}/{lvl}", got["time"], scaled_time(ms, x, v, lvl))
    if got["time"] != int(got["time"]) or got["time"] % 10:
        raise Violation(f"{ms} ms at speed {x}: {got['time']} is not a multiple of 10 ms")
    return ["base value" if x in (c["sub"], c["main"]) else "above base" if x > c["sub"] else "below base"]


@st.composite
def stat_cases(draw):
    v, lvl = pick(draw, PATCHES + [("test", 90)])
    c = consts(v, lvl)
    x = draw(st.one_of(st.integers(c["sub"], 5500), st.sampled_from([c["sub"], c["main"], c["sub"] + 1]),
                       st.integers(300, 6000)))
    return {"version": v, "level": lvl, "x": x, "y": draw(st.integers(c["sub"], 4000)),
            "job_mod": pick(draw, sorted(set(G.JOB_MOD.values()))), "wd": draw(st.integers(1, 200)),
            "ms": draw(st.one_of(st.sampled_from([2500, 1500, 2000, 2800, 3500, 4000, 5000, 3000, 1000, 7860, 0]),
                                 st.integers(0, 800).map(lambda k: 10 * k))),
            "delay": draw(st.integers(50, 100).map(lambda k: k * 4 / 100))}


def all_stats(tier):
    """Every value of every stat in the range reachable by gear, at every patch and level."""
    step = 1
    out = []
    for v, lvl in (("6.55", 90), ("7.05", 90), ("7.0", 100), ("7.1", 100)):
        for x in range(380, 5200, step):
            k = x + lvl
            out.append({"version": v, "level": lvl, "x": x, "y": 400 + (x * 7) % 3600,
                        "job_mod": (100, 105, 110, 112, 115)[k % 5], "wd": k % 180 + 1,
                        "ms": (2500, 1500, 2000, 2800, 3500, 4000, 3000)[k % 7], "delay": (200 + 4 * (k % 38)) / 100})
    return out


DERIVED = ("crit_rate", "crit_bonus", "det_bonus", "dh_rate", "job_mod", "trait_damage_mult",
           "trait_haste_time_reduction", "trait_auto_attack_delay_reduction")


def run_stats(case):
    """A character: everything derived from it, and that nothing given is altered."""
    s = case["stats"]
    with sut(f"Stats({s})"):
        x = B.r_stats(s)
        p = x.processed_stats
        got = {k: getattr(p, k) for k in DERIVED}
    c = consts(s["version"], s["level"])
    job = s["job"]
    haste = G.trait_haste(job, s["version"], s["level"])
    rate, bonus = D.crit(s["crit"], c)
    want = dict(crit_rate=rate, crit_bonus=bonus, det_bonus=D.f_det(s["det"], c), dh_rate=D.dh_rate(s["dh"], c),
                job_mod=G.JOB_MOD[job], trait_damage_mult=G.trait_damage(job), trait_haste_time_reduction=haste,
                trait_auto_attack_delay_reduction=haste)
    for k in DERIVED:
        same(f"{k} of {s}", got[k], want[k])
    same(f"weapon delay of {s}", x.weapon_delay,
         G.WEAPON_DELAY[job] if s.get("weapon_delay") is None else s["weapon_delay"])
    for k, n in B._STATS.items():
        if k in s and s[k] is not None and getattr(x, n) != s[k]:
            raise Violation(f"{n} given as {s[k]} is stored as {getattr(x, n)}")
    if s.get("roles") is None:
        same("default number of roles", x.num_roles_in_party, 5)
    with sut("roles"):
        fns = x.job_class_fns
        role = {r: f(job) for r, f in (("Tank", fns.isTank), ("Healer", fns.isHealer), ("Melee", fns.isMelee),
                                       ("Caster", fns.isCaster), ("Ranged", fns.isPhysRanged))}
    if {r for r, y in role.items() if y} != {G.ROLE[job]}:
        raise Violation(f"role of {job}: {role}")
    for f, lv in ((GameConsts.get_base_skill_speed, c["sub"]), (GameConsts.get_base_spell_speed, c["sub"])):
        with sut("base speed"):
            same("base speed", f(s["version"], s["level"]), lv)
    return ["default weapon delay" if s.get("weapon_delay") is None else "given weapon delay"] + (
        ["hasted job"] if haste else [])


@st.composite
def stats_cases(draw):
    v, lvl = pick(draw, PATCHES)
    lo = consts(v, lvl)["sub"]
    s = dict(wd=draw(st.integers(1, 160)), main=draw(st.integers(300, 6000)), det=draw(st.integers(390, 4000)),
             dh=draw(st.integers(lo, 4000)), crit=draw(st.integers(lo, 4000)), speed=draw(st.integers(lo, 4000)),
             ten=draw(st.integers(lo, 3000)), job=pick(draw, list(G.JOBS)), version=v, level=lvl)
    if draw(st.booleans()):
        s["weapon_delay"] = draw(st.integers(50, 100)) * 4 / 100
    if draw(st.booleans()):
        s["roles"] = draw(st.integers(0, 5))
    return {"stats": s}


def all_jobs(tier):
    return [{"stats": dict(wd=120, main=3000, det=1500, dh=1000, crit=2000, speed=700, ten=600, job=j, version=v,
                           level=lvl)} for v, lvl in PATCHES for j in G.JOBS]


SUITES = [
    Suite("one-stat", stat_cases, run_stat, 24000, 2500000, "any stat conversion; labels tell where the value lies",
          all_stats),
    Suite("character", stats_cases, run_stats, 8000, 400000, "a complete character of any job, patch and level",
          all_jobs),
]
ASSUMPTIONS = ["constants of levels 90 and 100 as published (allagan studies), written down in pbt/gamedata.py and "
               "pbt/model.py independently of the code"]
assert math
