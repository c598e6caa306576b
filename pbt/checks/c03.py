"""C03: crit and direct hit chances."""
from hypothesis import strategies as st

from .. import build as B, dmg as D
from ..core import Suite, Violation, sut
from ..gen import pct
from . import hits as H
from ama_xiv_combat_sim.simulator.calcs.compute_damage_utils import ComputeDamageUtils as CDU
import numpy as np


def near(what, got, want, tol=1e-9):
    if abs(float(got) - float(want)) > tol:
        raise Violation(f"{what}: got {got}, expected {float(want)}")


def run_rates(case):
    with sut("stats"):
        stats = B.r_stats(case["stats"])
    ms = B.m_stats(case["stats"])
    out = set()
    hs = [H.Hit(d, i) for i, d in enumerate(case["hits"])]
    good = []
    for h in hs:
        want = D.rates(ms, h.dmg, h.mod, h.meffs)
        if want is None:
            out.add("contradictory")
            try:
                got = CDU.compute_crit_rates_and_bonuses(stats, h.skill, h.modifier, h.reffs)
            except Exception:  # noqa: BLE001  (any rejection will do)
                continue
            raise Violation(f"contradictory forcing is accepted with rates {got}: {h.d}")
        with sut(f"chances of {h.d}"):
            dh, cr, bonus = CDU.compute_crit_rates_and_bonuses(stats, h.skill, h.modifier, h.reffs)
        near(f"crit chance of {h.d}", cr, want[0])
        near(f"direct hit chance of {h.d}", dh, want[1])
        near(f"crit bonus of {h.d}", bonus, want[2])
        for k, x in (("crit", cr), ("dh", dh)):
            if not 0 <= x <= 1:
                raise Violation(f"{k} chance {x} of {h.d}")
            if D.forced(k, h.dmg, h.mod, h.meffs) and x not in (0, 1):
                raise Violation(f"forced {k} chance is {x} of {h.d}")
        if want[0] == 1 and not D.forced("crit", h.dmg, h.mod, h.meffs):
            out.add("capped at 1")
        out |= set(H.labels(h, case["stats"])[1:])
        if not D.forced("crit", h.dmg, h.mod, h.meffs) and (h.meffs[0].crit or h.meffs[1].crit):
            out.add("crit raised by effects")
        good.append((h, want))
    if good:
        with sut("simulating"):
            sim = B.DamageSimulator(stats, [h.instance(1000 * i, i) for i, (h, _) in enumerate(good)], 1)
            crs, dhs = sim.get_crit_and_dh_rates()
            crs, dhs = np.atleast_1d(crs), np.atleast_1d(dhs)
            rng = sim.get_damage_ranges()
        if len(crs) != len(good) or len(dhs) != len(good):
            raise Violation(f"{len(good)} hits, {len(crs)} crit chances, {len(dhs)} direct hit chances")
        for i, (h, want) in enumerate(good):
            near(f"simulated crit chance of {h.d}", crs[i], want[0])
            near(f"simulated direct hit chance of {h.d}", dhs[i], want[1])
            p = {x[0]: x[3] for x in rng[i][1:]}
            near(f"probability of a crit of {h.d}", p["Crit, no DH"] + p["Crit, DH"], want[0])
            near(f"probability of a direct hit of {h.d}", p["No crit, DH"] + p["Crit, DH"], want[1])
    return sorted(out)


@st.composite
def rate_cases(draw):
    return {"stats": H.gen_stats(draw),
            "hits": [H.gen_hit(draw, conflicts=60, force=40) for _ in range(draw(st.integers(1, 3)))]}


def run_bonus(case):
    """A forced outcome turns chance-raising effects into damage, and only then."""
    with sut("stats"):
        stats = B.r_stats(case["stats"])
    ms = B.m_stats(case["stats"])
    h = H.Hit(case["hit"])
    if any(len(D.forced(k, h.dmg, h.mod, h.meffs)) == 2 for k in ("crit", "dh")):
        return None
    with sut("bonus multipliers"):
        bdh, bcr = CDU.get_guaranteed_dh_and_crit_bonus_dmg(stats, h.skill, h.modifier, h.reffs)
        got = CDU.get_base_damage(h.skill, h.modifier, stats, h.reffs)
    fdh = "FORCE_YES" in D.forced("dh", h.dmg, h.mod, h.meffs)
    fcr = "FORCE_YES" in D.forced("crit", h.dmg, h.mod, h.meffs)
    c = D.consts(ms.version, ms.level)
    near(f"bonus of forced direct hit of {h.d}", bdh,
         (D.q(h.meffs[0].dh) + D.q(h.meffs[1].dh)) / 4 if fdh else 0)
    near(f"bonus of forced crit of {h.d}", bcr,
         (D.q(h.meffs[0].crit) + D.q(h.meffs[1].crit)) * D.crit(ms.crit, c)[1] if fcr else 0)
    want = D.base_damage(ms, h.dmg, h.mod, h.meffs)
    if not any(abs(float(got) - float(w)) <= 1e-9 * max(1.0, float(w)) for w in want):
        raise Violation(f"average damage with forced outcomes of {h.d}: got {got}, expected {sorted(map(float, want))}")
    out = []
    if fdh:
        out.append("forced dh" + (" with effects" if bdh else ""))
    if fcr:
        out.append("forced crit" + (" with effects" if bcr else ""))
    return out


@st.composite
def bonus_cases(draw):
    h = H.gen_hit(draw, force=75)
    for e in h["effs"]:
        if pct(draw, 50):
            e.setdefault("crit", 0.1)
        if pct(draw, 50):
            e.setdefault("dh", 0.2)
    return {"stats": H.gen_stats(draw), "hit": h}


@st.composite
def end_to_end(draw):
    from .. import gen
    case = draw(gen.scenarios(buff=70, debuff=40, forced=25, uses=30, presses=(1, 6), skills=(1, 4), timed=60))
    for s in case["lib"]["jobs"][case["stats"]["job"]]["skills"]:
        if s.get("dmg") and isinstance(s["dmg"], dict) and pct(draw, 30):
            s["dmg"]["v"][draw(st.sampled_from(["crit", "dh"]))] = draw(st.sampled_from(H.FORCE))
    for p in case["rot"]:
        if pct(draw, 20):
            p["mod"] = {draw(st.sampled_from(["crit", "dh"])): draw(st.sampled_from(H.FORCE))}
    return case


def run_end_to_end(case):
    """Through rotation, effects and simulator: every hit has the chances its own effects give."""
    R = B.Run(case)
    R.skip_if_ambiguous()
    wants = [D.rates(R.ms, dmg_of(h), h.mod, (h.buffs, h.debuffs)) for h in R.hits]
    if any(w is None for w in wants):
        try:
            B.DamageSimulator(R.stats, R.inst, 1)
        except Exception:  # noqa: BLE001
            return ["contradictory"]
        raise Violation("contradictory forcing is accepted in a rotation")
    if not wants:
        return None
    with sut("simulating"):
        sim = B.DamageSimulator(R.stats, R.inst, 1)
        crs, dhs = (np.atleast_1d(x) for x in sim.get_crit_and_dh_rates())
    key = lambda t, n, a, b: (B.r(t), n, round(float(a), 9), round(float(b), 9))  # noqa: E731
    B.diff("chances of hits (time, skill, crit, direct hit)",
           [key(x[0], x[1].name, a, b) for x, a, b in zip(R.inst, crs, dhs)],
           [key(h.t, h.skill.name, w[0], w[1]) for h, w in zip(R.hits, wants)])
    return sorted({f"forced {k}" for h in R.hits for k in ("crit", "dh")
                   if D.forced(k, dmg_of(h), h.mod, (h.buffs, h.debuffs))} |
                  {"by effects" for h in R.hits if h.buffs.crit or h.debuffs.crit or h.buffs.dh or h.debuffs.dh})


@st.composite
def several(draw):
    """Several effects on the player and the target, each of which may force an outcome of the last skill."""
    effs = []
    for i in range(draw(st.integers(1, 4))):
        s = {"duration": 60000 if pct(draw, 80) else 1500, "allow": draw(st.sampled_from([["G"], ["G", "X"], ["G"], ["X"]]))}
        for k in ("gcrit", "gdh"):
            if pct(draw, 60):
                s[k] = draw(st.sampled_from(["FORCE_YES", "FORCE_NO"]))
        effs.append({"name": f"E{i}", "gcd": False, "timing": {"v": {}}, draw(st.sampled_from(["buff", "debuff"])): {"v": s}})
    dmg = {"potency": 300}
    mod = {}
    for d in (dmg, mod):
        for k in ("crit", "dh"):
            if pct(draw, 20):
                d[k] = draw(st.sampled_from(["FORCE_YES", "FORCE_NO"]))
    hit = {"name": "G", "gcd": True, "timing": {"v": {"recast": 2500}}, "dmg": {"v": dmg}}
    rot = [{"t": 0.25 * i, "skill": e["name"]} for i, e in enumerate(effs)] + [{"t": 3.0, "skill": "G", "mod": mod}]
    return {"stats": H.gen_stats(draw), "effs": effs, "hit": hit, "rot": list(draw(st.permutations(rot)))}


def run_several(case):
    t = {p["skill"]: p["t"] for p in case["rot"]}
    active = []
    for e in case["effs"]:
        slot = "buff" if "buff" in e else "debuff"
        s = e[slot]["v"]
        if "G" in s["allow"] and t["G"] * 1000 <= t[e["name"]] * 1000 + s["duration"]:
            active.append((slot, s))
    mod = next(p["mod"] for p in case["rot"] if p["skill"] == "G")
    want, twice = {}, False
    for k in ("crit", "dh"):
        srcs = [s["g" + k] for _, s in active if "g" + k in s] + [d[k] for d in (case["hit"]["dmg"]["v"], mod) if k in d]
        want[k] = set(srcs)
        twice |= any(sum(sl == x and "g" + k in s for sl, s in active) > 1 for x in ("buff", "debuff"))
    st_ = case["stats"]
    with sut("stats and library"):
        stats = B.r_stats(st_)
        lib = B.r_lib({"jobs": {st_["job"]: {"skills": case["effs"] + [case["hit"]]}}}, st_["version"], st_["level"])
        rb = B.r_rotation(stats, lib, {}, case["rot"])

    def go():
        sim = B.DamageSimulator(stats, B.DamageBuilder(stats, lib).get_damage_instances(rb.get_skill_timing()), 1)
        return [float(np.atleast_1d(x)[0]) for x in sim.get_crit_and_dh_rates()]

    if any(len(v) > 1 for v in want.values()):
        try:
            got = go()
        except Exception:  # noqa: BLE001
            return ["contradictory" + (" effects" if twice else "")]
        raise Violation(f"contradictory forcing {want} is accepted, with chances {got}")
    if twice:  # two effects which force the same: rejected today, which is not claimed
        try:
            got = go()
        except Exception:  # noqa: BLE001
            return None
    else:
        with sut("simulating"):
            got = go()
    for k, x in zip(("crit", "dh"), got):
        for f in want[k]:
            near(f"forced {k} chance", x, 1 if f == "FORCE_YES" else 0)
    return sorted(f"forced {k}" for k in want if want[k])


def dmg_of(h):
    from .. import model as M
    return M.pick(h.skill.dmg, h.mod.conds)


SUITES = [
    Suite("chances", rate_cases, run_rates, 6000, 400000,
          "non-trivial: an outcome is forced, contradictory, raised by effects or capped"),
    Suite("forced-bonus", bonus_cases, run_bonus, 8000, 500000, "non-trivial: an outcome is forced"),
    Suite("rotations", end_to_end, run_end_to_end, 2500, 120000,
          "non-trivial: some hit of a rotation has forced or raised chances"),
    Suite("several-sources", several, run_several, 1500, 100000,
          "up to four effects, the skill and its use force outcomes; non-trivial: an outcome is forced or contradictory"),
]
