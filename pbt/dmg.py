"""The damage formulas as exact rational arithmetic.

Truncations whose exact argument is a whole number (up to 1e-9) may come out one lower in floating
point, so every value is a set of candidates; it has one element unless such a case was met.
"""
import math
from fractions import Fraction as F

from . import gamedata as G
from .model import consts

EPS = F(1, 10**9)


def q(x):
    """A decimal number given as float."""
    if isinstance(x, (int, F)):
        return F(x)
    return F(float(x)).limit_denominator(10**7)


def fl(xs):
    out = set()
    for x in xs:
        k = round(x)
        if abs(x - k) <= EPS * max(1, abs(x)):
            out |= {F(k), F(k) - 1}
        else:
            out.add(F(math.floor(x)))
    return out


def mul(xs, *ys):
    for y in ys:
        xs = {x * y for x in xs}
    return xs


# ---- stats (exact: arguments are far enough from whole numbers for floats, or floats were fixed)


def f_wd(wd, job_mod, c):
    return math.floor(F(c["main"] * job_mod, 1000) + q(wd))


def f_auto(wd, delay, job_mod, c):
    return math.floor(f_wd(wd, job_mod, c) * q(delay) / 3)


def f_det(det, c):
    return math.floor(F(c["det"] * (det - c["main"]), c["div"])) + 1000


def f_det_dh(det, dh, c):
    return f_det(det, c) + math.floor(F(c["det"] * (dh - c["sub"]), c["div"]))


def f_tnc(ten, c):
    return math.floor(F(c["ten"] * (ten - c["sub"]), c["div"])) + 1000


def f_spd(spd, c):
    return math.floor(F(c["spd"] * (spd - c["sub"]), c["div"])) + 1000


def f_ap(main, tank, c):
    """main: rational"""
    return math.floor(F(c["ap_tank" if tank else "ap"]) * (main - c["main"]) / c["main"]) + 100


def crit(stat, c):
    a, b, d = c["crit"]
    x = math.floor(F(a * (stat - c["sub"]), c["div"]))
    return F(x + b, 1000), F(x + d, 1000)


def dh_rate(stat, c):
    return F(math.floor(F(c["dh"] * (stat - c["sub"]), c["div"])), 1000)


# ---- effects


def forced(kind, dmg, mod, effs):
    """kind: 'crit' or 'dh'; dmg: model.Dmg; mod: model.Mod; effs: two model.Eff. -> set of verdicts"""
    out = {getattr(dmg, kind), getattr(mod, kind)} | {getattr(e, "g" + kind) for e in effs}
    return out - {"DEFAULT"}


def rates(stats, dmg, mod, effs):
    """(crit rate, dh rate, crit bonus); None if outcomes are forced in contradictory ways."""
    c = consts(stats.version, stats.level)
    cr, bonus = crit(stats.crit, c)
    out = []
    for kind, base in (("crit", cr), ("dh", dh_rate(stats.dh, c))):
        f = forced(kind, dmg, mod, effs)
        if len(f) == 2:
            return None
        if f:
            out.append(F(1) if f == {"FORCE_YES"} else F(0))
        else:
            out.append(min(F(1), max(F(0), base + sum(q(getattr(e, kind)) for e in effs))))
    return out[0], out[1], bonus


def base_damage(stats, dmg, mod, effs):
    """Set of candidates for the average damage of a hit, before traits and damage effects."""
    if dmg.potency == 0:
        return {F(0)}
    c = consts(stats.version, stats.level)
    role = G.ROLE[stats.job]
    tank, magic = role == "Tank", role in ("Healer", "Caster")
    job_mod = G.JOB_MOD[stats.job]
    pot = q(dmg.potency)
    smult = q(effs[0].smult) * q(effs[1].smult)
    sadd = q(effs[0].add) + q(effs[1].add)
    party = 1 + F(stats.roles, 100)
    fdh = "FORCE_YES" in forced("dh", dmg, mod, effs)
    det = f_det_dh(stats.det, stats.dh, c) if fdh else f_det(stats.det, c)
    tnc = f_tnc(stats.ten, c) if tank else None

    if dmg.cls == "PET":
        pet_mod = job_mod if dmg.pet_mod is None else dmg.pet_mod
        diff = math.floor(F(c["main"] * job_mod, 100)) - math.floor(F(c["main"], 1) * q(pet_mod) / 100)
        mains = {(m + sadd) * q(dmg.pet_scalar) for m in fl({(q(stats.main) - diff) * smult})}
        wd = f_wd(stats.wd, pet_mod, c)
        aps = _aps(mains, False, c, True)
    else:
        wd = f_wd(stats.wd, job_mod, c)
        if dmg.cls == "AUTO" and magic:
            mains = {q(stats.strength) * party}
        else:
            mains = fl({(m + sadd) * party for m in fl({q(stats.main) * smult})})
        aps = _aps(mains, tank, c, dmg.cls == "AUTO" and magic)

    if dmg.cls in ("DIRECT", "PET", "AUTO"):
        if dmg.cls == "DIRECT" and magic:
            x = mul(fl(mul(aps, F(det, 1000))), F(1, 100))
            x = fl({a * b for a in x for b in fl({wd * pot / 100})})
        else:
            x = mul(fl(mul(aps, pot / 100)), F(1, 100))
            x = mul(fl(mul(x, F(det, 10))), F(1, 100))
            if tank:
                x = mul(fl(mul(x, F(tnc, 10))), F(1, 100))
            if dmg.cls == "AUTO":
                spd = f_spd(stats.speed, c) if G.uses_skill_speed(stats.job) else 1000
                x = mul(fl(mul(x, F(spd))), F(1, 10))
                x = fl(mul(fl(mul(x, F(f_auto(stats.wd, stats.weapon_delay, job_mod, c)))), F(1, 100)))
            else:
                x = fl(mul(x, F(wd)))
    elif dmg.cls == "MAGICAL_DOT":
        x = fl(mul(fl({pot * wd}), F(1, 100)))
        x = {a * b for a in x for b in aps}
        x = mul(x, F(f_spd(stats.speed, c)), F(det))
        x = fl(mul(x, F(1, 1000)))
        if tank:
            x = fl(mul(x, F(tnc, 1000)))
        x = fl(mul(fl(mul(x, F(1, 1000))), F(1, 100)))
    elif dmg.cls == "PHYSICAL_DOT":
        x = mul(fl(mul(aps, pot * det / 100)), F(1, 1000))
        if tank:
            x = fl(mul(x, F(tnc, 1000)))
        x = fl(mul(fl(mul(x, F(f_spd(stats.speed, c)))), F(1, 1000)))
        x = fl(mul(fl(mul(x, F(wd))), F(1, 100)))
    else:
        raise ValueError(dmg.cls)

    bdh = F(1, 4) * (q(effs[0].dh) + q(effs[1].dh)) if fdh else F(0)
    bcrit = F(0)
    if "FORCE_YES" in forced("crit", dmg, mod, effs):
        bcrit = crit(stats.crit, c)[1] * (q(effs[0].crit) + q(effs[1].crit))
    out = set()
    for b in x:
        for i in (fl({b * bdh}) if bdh else {F(0)}):
            for j in (fl({b * bcrit}) if bcrit else {F(0)}):
                out.add(max(F(1), (b + i + j) * q(dmg.single)))
    return out


def _aps(mains, tank, c, loose):
    """loose: the main stat itself is subject to floating point errors."""
    out = set()
    for m in mains:
        x = F(c["ap_tank" if tank else "ap"]) * (m - c["main"]) / c["main"]
        out |= {v + 100 for v in fl({x})} if loose else {F(f_ap(m, tank, c))}
    return out


def finish(rolls, is_crit, is_dh, bonus, trait, mult):
    """From rolled damage (set of whole numbers) to the final damage."""
    x = rolls
    if is_crit:
        x = {a + b for a in x for b in fl({a * bonus})}
    if is_dh:
        x = {a + b for a in x for b in fl({a / 4})}
    x = fl(mul(x, trait)) if trait != 1 else x
    return fl(mul(x, mult)) if mult != 1 else x


def trait_of(stats, dmg):
    return q(G.trait_damage(stats.job) if dmg.trait is None else dmg.trait)


def mult_of(effs):
    return q(effs[0].mult) * q(effs[1].mult)


def outcome_ranges(stats, dmg, mod, effs):
    """{(crit, dh): (set of lows, set of highs, probability)}, or None if contradictory."""
    r = rates(stats, dmg, mod, effs)
    if r is None:
        return None
    pc, pd, bonus = r
    b = base_damage(stats, dmg, mod, effs)
    lo, hi = fl(mul(b, F(95, 100))), fl(mul(b, F(105, 100)))
    trait, mult = trait_of(stats, dmg), mult_of(effs)
    out = {}
    for c in (False, True):
        for d in (False, True):
            p = (pc if c else 1 - pc) * (pd if d else 1 - pd)
            out[c, d] = (finish(lo, c, d, bonus, trait, mult), finish(hi, c, d, bonus, trait, mult), p)
    return out


def mean_bounds(ranges):
    lo = sum(p * (min(a) + min(b)) / 2 for a, b, p in ranges.values())
    hi = sum(p * (max(a) + max(b)) / 2 for a, b, p in ranges.values())
    return lo, hi


def variance(ranges):
    """Exact variance, or None if the ranges are not uniquely determined."""
    if any(len(a) > 1 or len(b) > 1 for a, b, _ in ranges.values()):
        return None
    rs = [(min(a), min(b), p) for a, b, p in ranges.values()]
    m = sum(p * (a + b) / 2 for a, b, p in rs)
    return sum(p * ((b - a) ** 2 / 12 + ((a + b) / 2) ** 2) for a, b, p in rs) - m * m
