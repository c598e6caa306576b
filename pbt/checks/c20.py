"""C20: kill times."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import build as B, dmg as D, gen, model as M
from ..core import Skip, Suite, Violation, sut
from ..gen import pct, pick
from ama_xiv_combat_sim.kill_time_estimator.kill_time_estimator import KillTimeEstimator


def lb_bounds(conds):
    """(lowest, highest, mean) stated for a limit break."""
    for c in conds:
        if c.startswith("Exact Damage: "):
            n = float(c.split(": ")[1])
            return n, n, n
    for c in conds:
        if c.startswith("Mean Damage: "):
            n = float(c.split(": ")[1])
            return math.floor(n * 0.95 - 1e-6), math.floor(n * 1.05 + 1e-6), n
    raise Skip("limit break without damage")


def bounds(R, h):
    """(lowest, highest, mean, variance) of a hit."""
    if "LB" in h.skill.name:
        lo, hi, m = lb_bounds(h.mod.conds)
        return lo, hi, m, ((hi - lo) / 2) ** 2 if hi > lo else 0
    d = M.pick(h.skill.dmg, h.mod.conds)
    rg = D.outcome_ranges(R.ms, d, h.mod, (h.buffs, h.debuffs))
    if rg is None:
        raise Skip("contradictory")
    live = [x for x in rg.values() if x[2] > 0]
    lo, hi = min(min(a) for a, _, _ in live), max(max(b) for _, b, _ in live)
    m = sum(p * (min(a) + max(b)) / 2 for a, b, p in live)
    return float(lo), float(hi), float(m), float((hi - lo) ** 2) / 4


def run(case, real=False):
    Rs = [B.Run(c, real=real) for c in case["rotations"]]
    for R in Rs:
        R.skip_if_ambiguous()
    hits = sorted(((B.r(h.t), *bounds(R, h)) for R in Rs for h in R.hits), key=lambda x: x[0])
    n, hp = case["n"], case["hp"]
    if hp is None:  # at, just below or just above what is certain
        k, off = case["hp_at"]
        hp = max(1, round(sum(h[3] for h in hits[: k + 1])) + off)
    np.random.seed(case["seed"])
    with sut("estimating kill times"):
        e = KillTimeEstimator(hp)
        for R in Rs:
            e.add_rotation(R.rb)
        kills, cumsum, times = e.estimate_kill_time(num_samples=n, verbose=False)
        kills, times, cumsum = list(kills), [float(t) for t in times], np.array(cumsum, dtype=float)
    np.random.seed()
    what = f"{len(hits)} hits of {len(Rs)} rotations, hp {hp}"
    if [B.r(t) for t in times] != [h[0] for h in hits]:
        raise Violation(f"{what}: times {times[:20]}, expected {[h[0] for h in hits][:20]}")
    if cumsum.shape != (len(hits), n):
        raise Violation(f"{what}: damage of shape {cumsum.shape} for {n} samples")
    if len(kills) != n:
        raise Violation(f"{what}: {len(kills)} kill times for {n} samples")
    # the damage itself: possible for the hits at each time
    groups = []
    for i, h in enumerate(hits):
        if groups and hits[groups[-1][-1]][0] == h[0]:
            groups[-1].append(i)
        else:
            groups.append([i])
    before = np.zeros(n)
    for g in groups:
        got = cumsum[g[-1]] - before
        before = cumsum[g[-1]]
        lo, hi = sum(hits[i][1] for i in g), sum(hits[i][2] for i in g)
        if got.min() < lo - 1e-6 * max(1, lo) or got.max() > hi + 1e-6 * max(1, hi):
            raise Violation(f"{what}: damage {got.min()}..{got.max()} at {hits[g[0]][0]} ms, possible are {lo}..{hi}")
        if lo == hi and np.abs(got - lo).max() > 1e-11 * max(1.0, cumsum[-1].max()):
            raise Violation(f"{what}: damage {got.min()}..{got.max()} at {hits[g[0]][0]} ms, exactly {lo} is stated")
        m, v = sum(hits[i][3] for i in g), sum(hits[i][4] for i in g)
        tol = 8 * math.sqrt(v / n) + 20 * (hi - lo) / n + 1e-6 * max(1, m) + len(g)
        if abs(got.mean() - m) > tol:
            raise Violation(f"{what}: mean damage {got.mean()} at {hits[g[0]][0]} ms, expected {m} +- {tol}")
        if n >= 30 and hi - lo > 40 * len(g) and len(set(got)) == 1:
            raise Violation(f"{what}: the same damage {got[0]} in all {n} samples at {hits[g[0]][0]} ms")
    if not any(h[1] % 1 for h in hits) and len(hits) and (cumsum % 1).any():
        raise Violation(f"{what}: damage is not whole")
    if len(hits) and (np.diff(cumsum, axis=0) < 0).any():
        raise Violation(f"{what}: cumulative damage decreases")
    # kill times from it
    want, never = [], 0
    for s in range(n):
        i = next((i for i in range(len(hits)) if cumsum[i, s] >= hp), None)
        if i is None:
            never += 1
        else:
            want.append(hits[i][0] / 1000)
    got, tail = kills[: n - never], kills[n - never:]
    if any(k is None for k in got) or any(not (k is None or k != k) for k in tail):
        raise Violation(f"{what}: {sum(k is None for k in kills)} samples without kill time, expected {never} at the end")
    for s, (a, b) in enumerate(zip(got, want)):
        if abs(a - b) > 1e-6:
            raise Violation(f"{what}: kill {s} at {a} s, but its damage reaches the hp at {b} s: {kills[:10]}")
    out = set()
    if want:
        out.add("killed")
    if want and never:
        out.add("some killed, some not")
    if len(set(want)) > 1:
        out.add("different kill times")
    if any("LB" in h.skill.name for R in Rs for h in R.hits):
        out.add("limit break")
    if len(Rs) > 1 and want:
        out.add("several rotations")
    if want and any(abs(cumsum[i, 0] - hp) < 1e-9 for i in range(len(hits))):
        out.add("exactly the hp")
    return sorted(out) if want else []


def run_real(case):
    return run(case, True)


CONDS = ["", "cA", "Foo: 12", "Target 2", "Mean", "12"]


def lb_cond(draw):
    n = draw(st.one_of(st.integers(1000, 3000000), st.integers(1, 300), st.sampled_from([10 ** 6, 50000])))
    if pct(draw, 15):
        n += pick(draw, [0.5, 0.7, 0.25, 0.99])
    c = f"{pick(draw, ['Exact', 'Exact', 'Mean'])} Damage: {n}"
    if pct(draw, 35):
        c = ", ".join(draw(st.permutations([c, pick(draw, ["cA", "Zeta", "Buff Only", "Area 51", "A: 7"])])))
    return c


def add_lbs(draw, c, name, share):
    """Puts limit breaks in place of some presses."""
    for p in c["rot"]:
        if pct(draw, share):
            p.pop("mod", None)
            p.pop("job", None)
            p["skill"] = name if isinstance(name, str) else pick(draw, name)
            p["mod"] = {"cond": lb_cond(draw)}
    return c


@st.composite
def cases(draw):
    rs = []
    for _ in range(draw(st.integers(1, 3))):
        c = draw(gen.scenarios(buff=15, dot=15, fu=10, multi=15, presses=(1, 6), skills=(1, 3), timed=70, autos=15, delay=30,
                               far=5, cond=8, mods=8, downtime=8, fight_start=30))
        share = pick(draw, [0, 0, 25, 100])
        if share:
            name = pick(draw, ["LB 1", "LB 3"])
            c["lib"]["jobs"][c["stats"]["job"]]["skills"].append(
                {"name": name, "timing": {"v": {"lock": 1000, "delay": pick(draw, [0, 500, 2200])}},
                 "dmg": {"v": {"potency": pick(draw, [0, 100, 2000])}}})
            add_lbs(draw, c, name, share)
        rs.append(c)
    return finish(draw, rs)


def finish(draw, rs):
    out = {"rotations": rs, "n": pick(draw, [1, 40, 40, 100, 7]), "seed": draw(st.integers(0, 2 ** 31)), "hp": None,
           "hp_at": [draw(st.integers(0, 12)), pick(draw, [0, 0, 0, 1, -1, 100, -100])]}
    if pct(draw, 15):
        out["hp"] = pick(draw, [1, 10 ** 9, 100000])
    return out


@st.composite
def real_cases(draw):
    rs = []
    for _ in range(draw(st.integers(1, 2))):
        c = draw(gen.real_scenarios(presses=(1, 8), downtime=5, generic=0, multi=8))
        rs.append(add_lbs(draw, c, ["LB 1", "LB 2", "LB 3"], 20))
    return finish(draw, rs)


SUITES = [
    Suite("estimates", cases, run, 1500, 90000, "1-3 generated rotations with limit breaks, hp at, below and above what hits "
          "reach; every sample is judged by its own cumulative damage; non-trivial: the boss dies in some sample"),
    Suite("real-skills", real_cases, run_real, 120, 12000, "1-2 real rotations; same rule"),
]
ASSUMPTIONS = ["numpy's generator is uniform and independent (means are judged within 8 standard errors)"]
