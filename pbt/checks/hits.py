"""Single hits (used by C02-C05): JSON description -> objects of /repo and of the model."""
from hypothesis import strategies as st

from .. import build as B, dmg as D, gamedata as G, model as M
from ..gen import pct, pick
from ..model import consts
from ama_xiv_combat_sim.simulator.trackers.status_effects import StatusEffects

_EFF = {"crit": "crit_rate_add", "dh": "dh_rate_add", "mult": "damage_mult", "add": "main_stat_add",
        "smult": "main_stat_mult"}


def r_eff(d):
    kw = {_EFF[k]: v for k, v in d.items() if k in _EFF}
    for k, n in (("gcrit", "guaranteed_crit"), ("gdh", "guaranteed_dh")):
        if k in d:
            kw[n] = B.forced(d[k])
    return StatusEffects(**kw)


def m_eff(d):
    return M.Eff(**{k: v for k, v in d.items()})


class Hit:
    """stats: model stats shared by the hits of a case."""

    def __init__(self, d, i=0):
        self.d = d
        self.name = d.get("name", f"hit {i}")
        if d.get("variants"):
            self.mvars = [(M.parse_conds(c), B.m_dmg(x)) for c, x in d["variants"]]
            spec = {c: B.r_dmg(x) for c, x in d["variants"]}
            # variants of a table are unambiguous (see hit_cases)
            self.dmg = M.pick(self.mvars, M.parse_conds((d.get("mod") or {}).get("cond", "")))
        else:
            spec = B.r_dmg(d["dmg"])
            self.dmg = B.m_dmg(d["dmg"])
        self.skill = B.Skill(name=self.name, damage_spec=spec, timing_spec=B.r_timing({}))
        self.modifier = B.r_modifier(d.get("mod") or {})
        self.mod = B.m_mod(d.get("mod") or {})
        self.reffs = tuple(r_eff(e) for e in d["effs"])
        self.meffs = tuple(m_eff(e) for e in d["effs"])

    def instance(self, t=0, event_id=0, target="Default Target"):
        return (t, self.skill, self.modifier, self.reffs, event_id, target)


CLASSES = ["DIRECT", "MAGICAL_DOT", "PHYSICAL_DOT", "PET", "AUTO"]
FORCE = ["FORCE_YES", "FORCE_NO"]


def gen_eff(draw):
    d = {}
    if pct(draw, 45):
        d["mult"] = draw(st.one_of(st.sampled_from([1.05, 1.1, 1.2, 0.5, 1.03, 1.0609, 1.155]),
                                   st.integers(80, 160).map(lambda k: k / 100)))
    if pct(draw, 40):
        d["crit"] = draw(st.sampled_from([0.1, 0.2, 0.02, 0.3, 0.05, 1.0]))
    if pct(draw, 40):
        d["dh"] = draw(st.sampled_from([0.1, 0.2, 0.03, 0.25, 0.5]))
    if pct(draw, 25):
        d["add"] = draw(st.sampled_from([262, 100, 392, 1]))
    if pct(draw, 25):
        d["smult"] = draw(st.sampled_from([0.75, 0.5, 0.9]))
    return d


def gen_dmg_spec(draw):
    d = {"potency": draw(st.one_of(st.sampled_from([100, 200, 0, 30, 1]), st.integers(1, 2500),
                                   st.integers(1, 1400).map(lambda k: k / 2))),
         "cls": pick(draw, CLASSES)}
    if pct(draw, 15):
        d["trait"] = pick(draw, [1, 1.3, 1.2])
    if d["cls"] == "PET":
        if pct(draw, 60):
            d["pet_mod"] = pick(draw, [100, 115, 110])
        if pct(draw, 60):
            d["pet_scalar"] = pick(draw, [0.88, 0.9, 1.0, 1.15])
    if pct(draw, 15):
        d["single"] = pick(draw, [1.2, 0.5, 1.1, 2])
    return d


def gen_hit(draw, conflicts=0, force=30):
    d = {"dmg": gen_dmg_spec(draw), "effs": [gen_eff(draw), gen_eff(draw)], "mod": {}}
    for kind in ("crit", "dh"):
        if pct(draw, force):
            how = pick(draw, FORCE)
            places = [draw(st.integers(0, 3))]
            if pct(draw, 25):
                places.append(draw(st.integers(0, 3)))
            for j, where in enumerate(places):
                h = how
                if j == 1 and pct(draw, conflicts):
                    h = pick(draw, FORCE)
                if where == 0:
                    d["dmg"][kind] = h
                elif where == 1:
                    d["mod"][kind] = h
                else:
                    d["effs"][where - 2]["g" + kind] = h
    return d


def gen_stats(draw, extreme=True):
    v, lvl = pick(draw, [("7.1", 100), ("6.55", 90), ("7.0", 100), ("7.05", 90)])
    lo = consts(v, lvl)["sub"]
    top = 4500 if extreme else 3000
    s = dict(wd=draw(st.integers(1, 160)), main=draw(st.integers(400, 6000)), det=draw(st.integers(390 if lvl == 90 else 440, top)),
             dh=draw(st.integers(lo, top)), crit=draw(st.integers(lo, top)), speed=draw(st.integers(lo, top)),
             ten=draw(st.integers(lo, 3000)), job=pick(draw, list(G.JOBS)), version=v, level=lvl,
             roles=draw(st.integers(0, 5)), strength=draw(st.integers(100, 600)))
    if draw(st.booleans()):
        s["weapon_delay"] = draw(st.integers(50, 100)) * 4 / 100
    return s


def labels(h, stats):
    out = [h.dmg.cls + " " + G.ROLE[stats["job"]]]
    for kind in ("crit", "dh"):
        f = D.forced(kind, h.dmg, h.mod, h.meffs)
        if f:
            out.append(f"forced {kind}: " + "/".join(sorted(f)))
    return out
