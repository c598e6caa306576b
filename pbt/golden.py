"""The skill data of every patch and level in comparable form (golden/skills.json.gz, made by tools/make_golden.py)."""
import dataclasses
import functools
import gzip
import json
import math
import os

from . import build as B
from .core import VERIF

PATH = os.path.join(VERIF, "golden", "skills.json.gz")


def plain(x):
    """JSON form of model data; numbers to 9 digits, tables sorted by condition."""
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, (int, float)):
        if math.isinf(x):
            return "inf" if x > 0 else "-inf"
        y = float(f"{float(x):.9g}")
        return int(y) if y == int(y) else y
    if isinstance(x, frozenset):
        return sorted(x)
    if dataclasses.is_dataclass(x):
        out = {}
        for f in dataclasses.fields(x):
            if f.name == "ident":
                continue
            v = plain(getattr(x, f.name))
            d = f.default if f.default is not dataclasses.MISSING else (
                f.default_factory() if f.default_factory is not dataclasses.MISSING else dataclasses.MISSING)
            if d is dataclasses.MISSING or v != plain(d):
                out[f.name] = v
        return out
    if isinstance(x, (list, tuple)):
        ys = [plain(v) for v in x]
        if isinstance(x, list):  # a table
            ys.sort(key=lambda r: json.dumps(r[0]))
        return ys
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))}
    raise TypeError(type(x))


def dump_skill(conv, s):
    m = conv.skill(s)
    if s.aoe_dropoff is not None:  # the potencies following from it are judged by C15
        m.dmg = [(k, v) for k, v in m.dmg if not any(c.startswith("Target ") for c in k)]
    d = plain(m)
    d["aoe"] = bool(s.has_aoe)
    d["dropoff"] = plain(s.aoe_dropoff)
    return d


def dump_job(lib, job):
    """{skill: data} and the other settings of a job of a library of /repo."""
    conv = B.FromLib.__new__(B.FromLib)
    conv.fus = []
    names = B.skill_names(lib, job)
    skills = {n: dump_skill(conv, lib.get_skill(n, job)) for n in names if not is_wait(n)}
    waits = sorted(n for n in names if is_wait(n))
    other = {
        "prio": list(lib.get_status_effect_priority(job)),
        "res": {n: plain(B.M.ResSettings(s.max_value, tuple(sorted(s.skill_allowlist)), s.expiry_from_last_gain,
                                         s.add_number_to_conditional))
                for n, s in sorted(lib.get_all_resource_settings(job).items())},
        "brk": sorted([plain(g), sorted(plain(x) for x in b)] for g, b in lib.get_all_combo_breakers(job).items()),
    }
    return skills, waits, other


def is_wait(n):
    return n.startswith("Wait ")


@functools.lru_cache(maxsize=None)
def load():
    with gzip.open(PATH, "rt") as f:
        return json.load(f)


def expected(version, level, job):
    g = load()
    e = g["libs"][f"{version}/{level}"][job]
    return {n: g["table"][i] for n, i in e["skills"].items()}, g["waits"], e["other"]


def jobs(version, level):
    return sorted(load()["libs"][f"{version}/{level}"])
