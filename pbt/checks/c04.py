"""C04: sampled damage."""
import math
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from .. import build as B, dmg as D
from ..core import Suite, Violation, sut
from ..gen import pct, pick
from . import hits as H


def simulate(stats, hs, times, n):
    with sut("simulating"):
        sim = B.DamageSimulator(stats, [h.instance(t, i) for i, (h, t) in enumerate(zip(hs, times))], n,
                                save_damage_matrix=True, save_crit_dh_status=True)
        m = np.asarray(sim.get_damage_matrix())
        c, d = np.asarray(sim.get_crit_status()), np.asarray(sim.get_dh_status())
        raw, dps = np.asarray(sim.get_raw_damage()), np.asarray(sim.get_dps())
    for what, x, shape in (("damage", m, (len(hs), n)), ("crit status", c, (len(hs), n)),
                           ("direct hit status", d, (len(hs), n)), ("total damage", raw, (n,)), ("dps", dps, (n,))):
        if x.shape != shape:
            raise Violation(f"{what} of {len(hs)} hits and {n} samples has shape {x.shape}")
    return m, c, d, raw, dps


def usable(case):
    hs = [H.Hit(d, i) for i, d in enumerate(case["hits"])]
    return [h for h in hs if not any(len(D.forced(k, h.dmg, h.mod, h.meffs)) == 2 for k in ("crit", "dh"))]


def possible(v, bases, c, d, bonus, trait, mult):
    """Whether some roll of some candidate base gives v."""
    v = F(v)
    if mult == 0:
        return v == 0
    approx = v / mult / trait / (F(5, 4) if d else 1) / (1 + bonus if c else 1)
    lo = min(min(D.fl({b * F(95, 100)})) for b in bases)
    hi = max(max(D.fl({b * F(105, 100)})) for b in bases)
    slack = 2 + math.ceil(1 / min(F(1), mult, trait * mult))
    for r in range(max(int(lo), math.floor(approx) - slack), min(int(hi), math.ceil(approx) + slack) + 1):
        if v in D.finish({F(r)}, c, d, bonus, trait, mult):
            return True
    return False


def run_possible(case):
    with sut("stats"):
        stats = B.r_stats(case["stats"])
    ms = B.m_stats(case["stats"])
    hs = usable(case)
    if not hs:
        return None
    # the simulator sorts the hits by time: give them in order here (C05 varies that)
    times = sorted(case["times"][:len(hs)])
    n = case["n"]
    np.random.seed(case["seed"])
    m, c, d, raw, dps = simulate(stats, hs, times, n)
    np.random.seed()
    out = set()
    for i, h in enumerate(hs):
        pc, pd, bonus = D.rates(ms, h.dmg, h.mod, h.meffs)
        bases = D.base_damage(ms, h.dmg, h.mod, h.meffs)
        trait, mult = D.trait_of(ms, h.dmg), D.mult_of(h.meffs)
        for j in range(n):
            cc, dd = bool(c[i, j]), bool(d[i, j])
            if (pc == 1 and not cc) or (pc == 0 and cc) or (pd == 1 and not dd) or (pd == 0 and dd):
                raise Violation(f"sample with crit={cc}, direct hit={dd} although the chances are {float(pc)}, "
                                f"{float(pd)}: {h.d}")
            if not possible(float(m[i, j]), bases, cc, dd, bonus, trait, mult):
                raise Violation(f"sampled damage {m[i, j]} with crit={cc}, direct hit={dd} is impossible for average "
                                f"damage {sorted(map(float, bases))}: {h.d}")
            out.add(("crit" if cc else "no crit") + (", dh" if dd else ", no dh"))
    total = m.sum(axis=0)
    if not np.allclose(total, raw, rtol=1e-12, atol=1e-6):
        raise Violation(f"total damage {raw} is not the sum over hits {total}")
    span = (times[-1] - times[0]) / 1000
    want = raw / span if span > 0 else np.full(n, math.inf)
    if not np.allclose(dps, want, rtol=1e-9):
        raise Violation(f"dps {dps} for damage {raw} in {span} s")
    return sorted(out)


@st.composite
def possible_cases(draw):
    k = draw(st.integers(1, 4))
    return {"stats": H.gen_stats(draw), "hits": [H.gen_hit(draw) for _ in range(k)],
            "times": [draw(st.integers(-2000, 600000)) for _ in range(k)], "n": draw(st.integers(1, 12)),
            "seed": draw(st.integers(0, 2**31))}


# ---- the distribution

Z = 6.5  # two-sided p of about 1e-10 per test


def run_distribution(case):
    with sut("stats"):
        stats = B.r_stats(case["stats"])
    ms = B.m_stats(case["stats"])
    hs = usable(case)
    n = case["n"]
    times = [1000 * i for i in range(len(hs))]
    np.random.seed(case["seed"])
    m, c, d, raw, dps = simulate(stats, hs, times, n)
    m2 = simulate(stats, hs, times, min(n, 2000))[0]
    np.random.seed()
    if np.array_equal(m[:, :m2.shape[1]], m2):
        raise Violation("two simulations in a row give exactly the same samples")
    u, cs, ds = [], [], []
    root = math.sqrt(n)
    for i, h in enumerate(hs):
        pc, pd, bonus = (float(x) for x in D.rates(ms, h.dmg, h.mod, h.meffs))
        base = float(max(D.base_damage(ms, h.dmg, h.mod, h.meffs)))
        f = float(D.trait_of(ms, h.dmg) * D.mult_of(h.meffs))
        for what, x, p in (("critical hits", c[i], pc), ("direct hits", d[i], pd)):
            if abs(x.mean() - p) > Z * math.sqrt(p * (1 - p) / n) + 1e-12:
                raise Violation(f"share of {what} is {x.mean()} of {n} samples, the chance is {p}: {h.d}")
        v = m[i] / (f * base) / np.where(c[i], 1 + bonus, 1) / np.where(d[i], 1.25, 1)
        slop = 4 / (base * min(1, f) * 0.1)  # truncations, in units of the roll's width
        x = np.sort((v - 0.95) / 0.1)
        ks = np.max(np.abs(x - np.arange(n) / n))
        if ks > 3.6 / root + slop:
            raise Violation(f"roll is not uniform between 95% and 105%: distance {ks} with {n} samples of {h.d}")
        u.append(v)
        cs.append(c[i].astype(float))
        ds.append(d[i].astype(float))
    series = [(f"{kind} of hit {i}", x) for kind, xs in (("roll", u), ("crit", cs), ("direct hit", ds))
              for i, x in enumerate(xs) if x.std() > 0]
    for a in range(len(series)):
        for b in range(a, len(series)):
            for lag in ((1,) if a == b else (0, 1)):
                x, y = series[a][1][lag:], series[b][1][:n - lag]
                rho = float(np.mean((x - x.mean()) * (y - y.mean())) / (x.std() * y.std()))
                if abs(rho) * root > Z + 0.5:
                    raise Violation(f"{series[a][0]} and {series[b][0]} (lag {lag}) are correlated: {rho} in {n} samples")
    lag = "independent series: %d" % len(series)
    return [lag]


@st.composite
def distribution_cases(draw):
    hs = []
    for _ in range(draw(st.integers(1, 3))):
        h = H.gen_hit(draw, force=15)
        h["dmg"]["potency"] = draw(st.integers(1500, 4000))
        h["dmg"].pop("single", None)
        h["dmg"]["cls"] = pick(draw, ["DIRECT", "PHYSICAL_DOT"])
        for e in h["effs"]:
            if "mult" in e:
                e["mult"] = max(1.0, e["mult"])
            e.pop("smult", None)
        hs.append(h)
    s = H.gen_stats(draw)
    s["main"] = max(3000, s["main"])
    s["wd"] = max(110, s["wd"])
    return {"stats": s, "hits": hs, "n": 60000 if pct(draw, 70) else 150000, "seed": draw(st.integers(0, 2**31))}


# ---- independence of anything from anything else, at any distance

FAR = 9.0


def run_independence(case):
    """Hits and samples read as one long series: no two of its members go together, whatever their distance."""
    with sut("stats"):
        stats = B.r_stats(case["stats"])
    ms = B.m_stats(case["stats"])
    kinds = usable(case)
    if not kinds:
        return None
    k, n = case["k"], case["n"]
    which = [i % len(kinds) for i in range(k)]
    np.random.seed(case["seed"])
    m, c, d, _, _ = simulate(stats, [kinds[i] for i in which], [1000 * i for i in range(k)], n)
    np.random.seed()
    z = {"roll": np.zeros((k, n)), "crit": np.zeros((k, n)), "direct hit": np.zeros((k, n))}
    for w, h in enumerate(kinds):
        rows = np.array(which) == w
        if not rows.any():
            continue
        pc, pd, bonus = (float(x) for x in D.rates(ms, h.dmg, h.mod, h.meffs))
        base = float(max(D.base_damage(ms, h.dmg, h.mod, h.meffs)))
        f = float(D.trait_of(ms, h.dmg) * D.mult_of(h.meffs))
        v = m[rows] / (f * base) / np.where(c[rows], 1 + bonus, 1) / np.where(d[rows], 1.25, 1)
        z["roll"][rows] = (v - v.mean()) / (0.1 / math.sqrt(12))
        for name, x, p in (("crit", c[rows], pc), ("direct hit", d[rows], pd)):
            if 0.1 <= p <= 0.9:
                z[name][rows] = (x - p) / math.sqrt(p * (1 - p))
    total = k * n
    size = 1 << (2 * total - 1).bit_length()
    for order in "CF":
        ft = {name: np.fft.rfft(x.ravel(order), size) for name, x in z.items()}
        for a in z:
            for b in z:
                r = np.fft.irfft(ft[a] * np.conj(ft[b]), size)[:total - total // 4]
                r = np.abs(r) / np.sqrt(total - np.arange(len(r)))
                if a == b:
                    r[0] = 0
                lag = int(np.argmax(r))
                if r[lag] > FAR:
                    raise Violation(f"{a} and {b} go together at distance {lag} ({'sample by sample' if order == 'C' else 'hit by hit'}) "
                                    f"in {k} hits x {n} samples: {r[lag]:.1f} standard errors")
    return [f"hits: {'1' if k == 1 else 'a few' if k < 50 else 'hundreds' if k < 1000 else 'thousands'}"]


@st.composite
def independence_cases(draw):
    case = draw(distribution_cases())
    del case["n"]
    case["stats"]["crit"] = max(1500, case["stats"]["crit"])
    case["stats"]["dh"] = max(1500, case["stats"]["dh"])
    k = draw(st.sampled_from([1, 2, 7, 40, 150, 600, 2000, 5200]))
    return {**case, "k": k, "n": draw(st.integers(60000, 240000)) // k + 1}


SUITES = [
    Suite("possible-values", possible_cases, run_possible, 2500, 250000,
          "every sample checked against the set of values the game can roll; labels: outcome classes seen"),
    Suite("distribution", distribution_cases, run_distribution, 160, 9000,
          "60000-150000 samples of up to 3 hits: frequencies, uniformity (KS) and pairwise correlations incl. lag 1, "
          "each with a false alarm probability of about 1e-10"),
    Suite("independence", independence_cases, run_independence, 48, 4000,
          "1-5200 hits times samples (60000-240000 values) as one series in both orders: auto- and cross-correlation of rolls, "
          "crits and direct hits at every distance (FFT), false alarm probability about 1e-9 per case"),
]
ASSUMPTIONS = ["numpy's global generator is seeded per case, so a run is reproducible as long as the code uses it; the "
               "tests do not depend on that"]
