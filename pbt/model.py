"""Reference model of the combat simulator, written from the documented rules.

It is independent of the code in /repo: plain data in, plain data out, exact arithmetic where
rounding matters. Times are in milliseconds.

The pipeline:  presses --build_timeline--> events --build_hits--> hits
"""
import heapq
import itertools
import math
from dataclasses import dataclass, field, replace
from fractions import Fraction
from types import SimpleNamespace as NS
from typing import Any

from .core import Skip

INF = math.inf
GCD = 2500
MIN_GCD = 1500
TICK = 3000
COMBO_MS = 30000
SNAP_BEFORE = 500
PER_TARGET = 135
DEFAULT_TARGET = "Default Target"

# ------------------------------------------------------------------------------------------
# data


@dataclass(frozen=True)
class Dmg:
    potency: float = 100
    cls: str = "DIRECT"
    crit: str = "DEFAULT"  # DEFAULT / FORCE_YES / FORCE_NO
    dh: str = "DEFAULT"
    trait: Any = None
    pet_mod: Any = None
    pet_scalar: float = 1.0
    min_potency: Any = None
    single: float = 1


@dataclass(frozen=True)
class Timing:
    cast: int = 0
    recast: int = GCD
    lock: int = 650
    delay: int = 0
    spd: bool = True
    haste: bool = True


@dataclass(frozen=True)
class Status:
    duration: float = 0
    max_duration: float = 0
    uses: float = INF
    max_uses: float = INF
    crit: float = 0
    dh: float = 0
    mult: float = 1
    add: float = 0
    smult: float = 1
    auto: float = 0
    haste: float = 0
    fcast: float = 0
    fgcd: float = 0
    extends: bool = True
    expires: tuple = ()
    allow: Any = None
    gcrit: str = "DEFAULT"
    gdh: str = "DEFAULT"
    cond: bool = False
    extend_only: bool = False
    party: bool = False
    clear: bool = False


@dataclass(frozen=True)
class Channel:
    duration: float = 0
    allow: tuple = ()
    uses: float = INF


@dataclass(frozen=True)
class Res:
    name: str = ""
    change: float = 0
    duration: float = INF
    refresh: bool = False
    clear: bool = False


@dataclass(frozen=True)
class ResSettings:
    cap: float = 0
    allow: tuple = ()
    expiry: float = INF
    number: bool = True


@dataclass(frozen=True)
class Combo:
    actions: tuple = ()
    group: Any = 0
    auto: bool = False
    break_all: bool = False


@dataclass
class FollowUp:
    skill: Any
    delay: int = 0
    sb: bool = True
    sd: bool = True
    dot: Any = None
    pto: bool = True
    ident: Any = None  # follow-ups with equal ident are the same effect


@dataclass
class Skill:
    """Every conditional field is a list of (frozenset of conditions, value), [] meaning absent."""
    name: str
    gcd: bool = False
    dmg: list = field(default_factory=list)
    timing: list = field(default_factory=list)
    buff: list = field(default_factory=list)
    debuff: list = field(default_factory=list)
    chan: list = field(default_factory=list)
    res: list = field(default_factory=list)
    combo: list = field(default_factory=list)
    fu: list = field(default_factory=list)
    deny: tuple = ()
    ign: tuple = ()
    res_snap: bool = True
    off_class: str = ""


@dataclass
class Lib:
    """Per job: skills by name, status priority, resource settings, combo breakers."""
    skills: dict
    prio: dict
    resources: dict
    breakers: dict


@dataclass
class Mod:
    """How a skill is used."""
    conds: frozenset = frozenset()
    crit: str = "DEFAULT"
    dh: str = "DEFAULT"
    force_combo: bool = False
    no_cast: bool = False
    no_delay: bool = False
    bonus: Any = None

    def plus(self, *conds):
        s = set(self.conds)
        for c in conds:
            s |= parse_conds(c) if isinstance(c, str) else set(c)
        return replace(self, conds=frozenset(s))


def parse_conds(text):
    return frozenset(x.strip() for x in text.split(",")) if text else frozenset()


def pick(variants, conds, default=None):
    """The variant with the most conditions, all of which hold. Equally specific ones: undecided."""
    best = [v for v in variants if v[0] <= conds]
    if not best:
        if not variants:
            return default
        raise Skip("no variant applies")
    n = max(len(k) for k, _ in best)
    top = [v for k, v in best if len(k) == n]
    # When several equally specific variants match the last declared one is used.
    return top[-1]


def ambiguous(variants, conds):
    best = [v for v in variants if v[0] <= conds]
    if not best:
        return bool(variants)
    n = max(len(k) for k, _ in best)
    return sum(len(k) == n for k, _ in best) > 1


# ------------------------------------------------------------------------------------------
# stats

LEVEL = {
    90: dict(div=1900, main=390, sub=400, ap=195, ap_tank=156, ten=100, dh=550, det=140, spd=130, crit=(200, 50, 400)),
    100: dict(div=2780, main=440, sub=420, ap=237, ap_tank=190, ten=112, dh=550, det=140, spd=130, crit=(200, 50, 400)),
}
LEVEL_TEST = LEVEL[90]


def consts(version, level):
    return LEVEL_TEST if version == "test" else LEVEL[level]


def scaled_time(ms, speed, version, level):
    """Base time in ms scaled by the speed stat, truncated to 10 ms."""
    c = consts(version, level)
    s = Fraction(speed)
    tier = math.ceil(Fraction(c["spd"]) * (c["sub"] - s) / c["div"])
    return 10 * math.floor(Fraction(ms) * (1000 + tier) / 10000)


def trunc10(factors):
    """Product of the factors truncated to a multiple of 10. Skips when rounding error decides."""
    exact = Fraction(1)
    for f in factors:
        exact *= Fraction(str(f)) if isinstance(f, float) else Fraction(f)
    q = exact / 10
    lo = math.floor(q)
    frac = q - lo
    eps = Fraction(1, 10**9)
    if eps < frac < 1 - eps:
        return 10 * lo
    seen = set()
    fs = [float(f) for f in factors]
    for perm in set(itertools.permutations(fs)):
        x = 1.0
        for f in perm:
            x *= f
        seen.add(10 * math.floor(x / 10.0))
        if len(perm) > 2:
            x = perm[0] * perm[1] * (math.prod(perm[2:]))
            seen.add(10 * math.floor(x / 10.0))
    if len(seen) > 1:
        raise Skip("truncation decided by floating point error")
    return seen.pop()


# ------------------------------------------------------------------------------------------
# status effects


@dataclass(frozen=True)
class Eff:
    crit: float = 0
    dh: float = 0
    mult: float = 1
    add: float = 0
    smult: float = 1
    auto: float = 1
    haste: tuple = ()  # factors
    autos: tuple = ()  # factors
    fcast: float = 0
    fgcd: float = 0
    gcrit: str = "DEFAULT"
    gdh: str = "DEFAULT"
    names: frozenset = frozenset()


class Statuses:
    def __init__(self, prio=()):
        self.prio = tuple(prio)
        self.buffs = {}
        self.debuffs = {}
        self.later = []  # what is applied later than the latest time asked for

    def _on(self, target):
        return self.debuffs.setdefault(target, {})

    def schedule(self, t, *what):
        self.later.append((t, *what))

    def expire(self, t):
        due = sorted((x for x in self.later if x[0] <= t), key=lambda x: x[0])
        self.later = [x for x in self.later if x[0] > t]
        for tt, *what in due:
            self._drop(tt)
            self.apply(tt, *what)
        self._drop(t)

    def _drop(self, t):
        for d in [self.buffs, *self.debuffs.values()]:
            for name in [n for n, r in d.items() if t > r.end or r.uses == 0]:
                del d[name]

    @staticmethod
    def _apply(d, t, name, spec):
        old = d.get(name)
        if old is None:
            if not spec.extend_only:
                d[name] = NS(start=t, end=t + spec.duration, uses=spec.uses, spec=spec)
            return
        left = max(old.end - t, 0)
        if spec.extends:
            left = min(left + spec.duration, spec.max_duration)
        d[name] = NS(start=old.start, end=t + left, uses=min(old.uses + spec.uses, spec.max_uses), spec=spec)

    def _end(self, name, t, target):
        for d in (self.buffs, self._on(target)):
            if name in d:
                d[name] = NS(**{**vars(d[name]), "end": t})

    def apply(self, t, skill, conds, targets=(DEFAULT_TARGET,)):
        b = pick(skill.buff, conds)
        d = pick(skill.debuff, conds)
        if b is not None:
            if b.clear:
                self.buffs = {}
            self._apply(self.buffs, t, skill.name, b)
            for n in b.expires:
                self._end(n, t, DEFAULT_TARGET)
        if d is not None:
            for target in targets:
                self._apply(self._on(target), t, skill.name, d)
                for n in d.expires:
                    self._end(n, t, target)

    def _compile(self, d, t, skill):
        act = [n for n, r in d.items() if t >= r.start and n not in skill.deny
               and (r.spec.allow is None or skill.name in r.spec.allow)]
        top = next((p for p in self.prio if p in act), None)
        if top is not None:
            lower = self.prio[self.prio.index(top) + 1:]
            act = [n for n in act if n not in lower]
        crit = dh = add = fcast = fgcd = 0
        mult = smult = 1
        haste, autos = [], []
        gcrit = gdh = "DEFAULT"
        conds = []
        for n in act:
            r = d[n]
            d[n] = NS(**{**vars(r), "uses": r.uses - 1})
            s = r.spec
            crit += s.crit
            dh += s.dh
            mult *= s.mult
            smult *= s.smult
            add += s.add
            if s.haste:
                haste.append(1 - s.haste)
            if s.auto:
                autos.append(1 - s.auto)
            fcast += s.fcast
            fgcd += s.fgcd
            if s.gcrit != "DEFAULT":
                if gcrit != "DEFAULT":
                    raise Skip("two effects force crits")
                gcrit = s.gcrit
            if s.gdh != "DEFAULT":
                if gdh != "DEFAULT":
                    raise Skip("two effects force direct hits")
                gdh = s.gdh
            if s.cond:
                conds.append(n)
        return Eff(crit, dh, mult, add, smult, math.prod(autos), tuple(haste), tuple(autos), fcast, fgcd,
                   gcrit, gdh, frozenset(act)), parse_conds(", ".join(conds))

    def buffs_at(self, t, skill):
        return self._compile(self.buffs, t, skill)

    def debuffs_at(self, t, skill, target=DEFAULT_TARGET):
        return self._compile(self._on(target), t, skill)


class Resources:
    """Gains and uses are kept as a history; a query replays what happened up to then."""

    def __init__(self, settings):
        self.settings = settings
        self.hist = {n: [] for n in settings}

    def add(self, t, skill, conds):
        for r in pick(skill.res, conds, ()):
            if r.clear:
                for n in self.hist:
                    self.hist[n].append((t, INF, -INF, False))
            else:
                if r.name not in self.hist:
                    raise Skip("unknown resource")
                self.hist[r.name].append((t, t + r.duration, r.change, r.refresh))

    def amount(self, name, t):
        cfg = self.settings[name]
        total, ref = 0, None
        for start, end, change, refresh in sorted(self.hist[name], key=lambda x: x[0]):
            if start > t:
                break
            if ref is None:
                ref = start
            if start > ref + cfg.expiry:
                total = 0
            if refresh:
                ref = start
            if t <= end:
                total = max(0, min(total + change, cfg.cap))
        if ref is not None and t > ref + cfg.expiry:
            total = 0
        return total

    def conds_at(self, t, skill):
        out = set()
        for n, cfg in self.settings.items():
            if skill.name in cfg.allow:
                a = self.amount(n, t)
                if a > 0:
                    out.add(f"{a} {n}" if cfg.number else n)
        return frozenset(out)


class Combos:
    def __init__(self, breakers):
        self.breakers = breakers  # group -> groups which break it
        self.last = {}  # group -> (time, skill name)

    def use(self, t, skill, mod):
        ok_all = True
        for c in pick(skill.combo, mod.conds, ()):
            if c.break_all:
                self.last = {}
                continue
            last = self.last.get(c.group)
            alive = last is not None and t - last[0] <= COMBO_MS and last[1] in c.actions
            ok = c.auto or mod.force_combo or not c.actions or alive
            ok_all = ok_all and ok
            if ok:
                self.last[c.group] = (t, skill.name)
            else:
                self.last.pop(c.group, None)
            for broken, by in self.breakers.items():
                if c.group in by:
                    self.last.pop(broken, None)
        return frozenset() if ok_all else frozenset(["No Combo"])


class Channels:
    def __init__(self):
        self.windows = []
        self.cur = None  # [start, spec, uses left]

    def _close(self, t):
        start, spec, _ = self.cur
        self.windows.append((start, min(start + spec.duration, t)))
        self.cur = None

    def press(self, t, skill, conds):
        if "Wait" in skill.name:
            return
        spec = pick(skill.chan, conds)
        if spec is not None:
            if self.cur:
                self._close(t)
            self.cur = [t, spec, spec.uses]
        elif self.cur:
            if skill.name in self.cur[1].allow:
                self.cur[2] -= 1
                if self.cur[2] > 0:
                    return
            self._close(t)

    def finish(self):
        if self.cur:
            self._close(INF)
        return sorted(self.windows)


# ------------------------------------------------------------------------------------------
# positional inference


def positional(skill, mod):
    """Conditions implied by a logged bonus percentage."""
    if mod.bonus is None:
        return mod.conds
    table = None
    if len(skill.dmg) != 1 or (skill.dmg and skill.dmg[0][0]):
        table = skill.dmg if skill.dmg else None
    if table is None and skill.fu and not (len(skill.fu) == 1 and not skill.fu[0][0]):
        table = []
        for k, fus in skill.fu:
            for f in fus:
                if f.skill.dmg:
                    table.append((k, f.skill.dmg[0][1] if len(f.skill.dmg) == 1 and not f.skill.dmg[0][0] else None))
                    break
        table = table or None
    if table is None or not any("No Positional" in k for k, _ in table):
        return mod.conds
    if any(d is None for _, d in table):
        raise Skip("conditional damage of a conditional follow up")
    base = mod.conds - set(skill.ign)
    floor_spec = pick(table, base | {"No Combo", "No Positional"})
    tries = ([], ["No Positional"], ["No Combo"], ["No Combo", "No Positional"])
    for extra in tries if mod.bonus else [x for x in tries if "No Positional" in x]:
        d = pick(table, base | set(extra))
        low = d.min_potency or floor_spec.potency
        if d.potency == 0:
            raise Skip("zero potency")
        if int(Fraction(str(d.potency - low)) * 100 / Fraction(str(d.potency))) == mod.bonus:
            return mod.conds | set(extra)
    return mod.conds if mod.bonus else mod.conds | {"No Positional"}  # reported, and left alone; no bonus: no positional


# ------------------------------------------------------------------------------------------
# timeline


@dataclass
class Event:
    key: float  # when it is processed: 1000 * snapshot time + order among simultaneous ones
    snap: float
    app: float
    skill: Skill
    mod: Mod
    status: list  # [buffs, debuffs]: True = snapshot at `snap`, False = at `app`
    targets: tuple
    origin: str = "press"  # press / follow / dot / auto

    @property
    def at_once(self):
        return self.snap == self.app


@dataclass
class Options:
    server_tick: Any = None  # seconds
    autos: bool = False
    ignore_trailing: bool = False
    fight_start: Any = None
    downtime: Any = ()  # tuple or dict, seconds
    default_target: str = DEFAULT_TARGET
    seq_blocks: bool = False  # casts and channels of skills entered in sequence delay autos, too
    new_target: bool = False  # the downtime that delays an auto is that of its own target, not of the previous auto's


@dataclass
class Press:
    skill: str
    job: str
    mod: Any = None  # None = default for the job
    targets: tuple = None
    t: Any = None  # seconds, None for sequential


class Timeline:
    def __init__(self, lib, stats, presses, opts):
        """stats: NS(job, version, level, speed, weapon_delay, trait_haste, trait_auto)"""
        self.lib, self.stats, self.opts = lib, stats, opts
        self.events = []
        self.presses = []  # (t, name, job or "", conds)
        self.windows = []  # casts of timed presses
        self.main = []  # (t, main target)
        self.dots = {}
        self.ch = Channels()
        self.all_targets = []
        seq, timed = [], []
        for p in presses:
            targets = p.targets or (opts.default_target,)
            for x in targets:
                if x not in self.all_targets:
                    self.all_targets.append(x)
            job = p.job or stats.job
            sk = lib.skills[job][p.skill]
            mod = p.mod
            if mod is None:
                mod = Mod(conds=parse_conds(sk.off_class)) if job != stats.job else Mod()
            (seq if p.t is None else timed).append((None if p.t is None else round(1000 * p.t), sk, mod, job, targets))
        self.timed_windows = []
        self._sequence(seq)
        self._timed(timed)
        last = max((e.app for e in self.events), default=None)
        self._dots(last if opts.ignore_trailing else None)
        if opts.autos:
            self._autos(last if opts.ignore_trailing else max((e.app for e in self.events), default=None))
        self.first = min((e.app for e in self.events if pick(e.skill.dmg, e.mod.conds) is not None), default=None)
        self.shift = self.first if opts.fight_start is None and self.first is not None else 0
        if self.shift:
            for e in self.events:
                e.snap -= self.shift
                e.app -= self.shift
                e.key -= int(1000 * self.shift)
            self.presses = [(t - self.shift, *r) for t, *r in self.presses]
        self.presses.sort(key=lambda p: p[0])
        self.removed = []
        self._downtime()

    # -- helpers
    def _trackers(self):
        s = self.stats
        return (Statuses(self.lib.prio.get(s.job, ())), Resources(self.lib.resources.get(s.job, {})),
                Combos(self.lib.breakers.get(s.job, {})))

    def _cast(self, timing, mod, buffs):
        if mod.no_cast:
            return 0
        s = self.stats
        c = scaled_time(timing.cast, s.speed, s.version, s.level) if timing.spd else timing.cast
        if timing.haste:
            c = trunc10([c, *buffs.haste, *([1 - s.trait_haste] if s.trait_haste else [])])
        return max(0, c - buffs.fcast)

    def _recast(self, timing, buffs, debuffs):
        s = self.stats
        r = scaled_time(timing.recast, s.speed, s.version, s.level) if timing.spd else timing.recast
        if timing.haste:
            r = trunc10([r, *buffs.haste, *debuffs.haste, *([1 - s.trait_haste] if s.trait_haste else [])])
        r -= buffs.fgcd
        return max(r, MIN_GCD) if timing.recast == GCD else r

    def _use(self, t, sk, mod, job, targets, st, rs, cb):
        """One press: what it is conditioned on, and all it causes. Returns its timing."""
        self.presses.append((t, sk.name, job if job != self.stats.job else "", mod.conds))
        st.expire(t)
        buffs, c1 = st.buffs_at(t, sk)
        debuffs, c2 = st.debuffs_at(t, sk)
        mod = mod.plus(c1, c2, rs.conds_at(t, sk))
        mod = mod.plus(cb.use(t, sk, mod))
        mod = replace(mod, conds=frozenset(positional(sk, mod)))
        timing = pick(sk.timing, mod.conds)
        if timing is None:
            raise Skip("skill without timing")
        cast = self._cast(timing, mod, buffs)
        self.main.append((t, targets[0]))
        snap = t + max(0, cast - SNAP_BEFORE)
        app = t + cast
        if not mod.no_delay:
            app += max(0, timing.delay - SNAP_BEFORE) if cast > 0 else timing.delay
        self.events.append(Event(int(1000 * snap), snap, app, sk, mod, [True, True], targets))
        st.schedule(app, sk, mod.conds, targets)
        rs.add(snap, sk, mod.conds)
        for i, f in enumerate(pick(sk.fu, mod.conds, ())):
            if f.dot is not None:
                for target in targets:
                    self.dots.setdefault((target, f.skill.name), []).append((app, snap, i + 1, f))
                continue
            fapp = app + f.delay
            fsnap, status = (snap, [f.sb, f.sd]) if f.sb or f.sd else (fapp, [True, True])
            ft = targets[:1] if f.pto else targets
            self.events.append(Event(int(1000 * fsnap) + i + 1, fsnap, fapp, f.skill, Mod(), status, ft, "follow"))
            st.schedule(fapp, f.skill, frozenset(), ft)
            rs.add(fapp, f.skill, frozenset())
        return timing, cast, self._recast(timing, buffs, debuffs), mod

    def _sequence(self, seq):
        tr = self._trackers()
        now = 0 if self.opts.fight_start is None else self.opts.fight_start
        gcd_ready = -INF
        for _, sk, mod, job, targets in seq:
            if sk.gcd:
                now = max(now, gcd_ready)
            timing, cast, recast, m = self._use(now, sk, mod, job, targets, *tr)
            if self.opts.seq_blocks:
                self.ch.press(now, sk, m.conds)
                if cast > 0:
                    self.windows.append((now, now + cast))
            if sk.gcd:
                gcd_ready = now + recast
            now += cast + timing.lock

    def _timed(self, timed):
        tr = self._trackers()
        for t, sk, mod, job, targets in sorted(timed, key=lambda p: (p[0], p[1].name)):
            _, cast, _, m = self._use(t, sk, mod, job, targets, *tr)
            self.ch.press(t, sk, m.conds)
            if cast > 0:
                self.windows.append((t, t + cast))

    def _dots(self, last):
        for (target, _), apps in self.dots.items():
            apps = sorted(apps, key=lambda a: a[0])
            n = 0
            for i, (app, snap, order, f) in enumerate(apps):
                end = app + f.dot
                if i + 1 < len(apps):
                    end = min(end, apps[i + 1][0])
                t = app
                if self.opts.server_tick is not None:
                    off = 1000 * Fraction(self.opts.server_tick)
                    t = int(app + (off - app) % TICK)
                while t < end:
                    if last is None or t <= last:
                        self.events.append(Event(int(1000 * snap) + order + n, snap, t, f.skill, Mod(),
                                                 [f.sb, f.sd], (target,), "dot"))
                        n += 1
                    t += TICK

    def _autos(self, last):
        s = self.stats
        first = min((e.app for e in self.events if pick(e.skill.dmg, e.mod.conds) is not None), default=None)
        if first is None:
            return
        skills = self.lib.skills[s.job]
        auto = skills.get("Shot") or skills["Auto"]
        delay = pick(auto.timing, frozenset()).delay
        offset = first if self.opts.fight_start is None else 0
        switches = sorted(self.main, key=lambda m: m[0])
        speed = []
        for e in sorted(self.events, key=lambda e: (e.key, e.skill.name)):
            for se in (pick(e.skill.buff, e.mod.conds), pick(e.skill.debuff, e.mod.conds)):
                if se is not None and (se.auto > 0 or se.haste > 0 or se.fcast > 0 or se.expires or se.clear):
                    speed.append((e.app, e))
                    break
        speed.sort(key=lambda x: x[0])
        for a, b in zip(speed, speed[1:]):
            if a[0] == b[0] and a[1].key == b[1].key and a[1].skill.name == b[1].skill.name:
                raise Skip("order of simultaneous speed effects")
        periods = self.windows + self.ch.finish()
        t = first
        while t + delay < last:
            target = next((x for tt, x in reversed(switches) if tt <= t), switches[0][1])
            self.events.append(Event(int(1000 * t), t, t + delay, auto, Mod(), [True, True], (target,), "auto"))
            st = Statuses(self.lib.prio.get(s.job, ()))
            for tt, e in speed:
                if tt <= t:
                    st.expire(tt)
                    st.apply(tt, e.skill, e.mod.conds, (self.opts.default_target,))
            st.expire(t)
            b, _ = st.buffs_at(t, auto)
            d, _ = st.debuffs_at(t, auto)
            t += trunc10([round(1000 * s.weapon_delay), *([1 - s.trait_auto] if s.trait_auto else []),
                          *b.autos, *d.autos])
            if self.opts.new_target:
                def attacked(t):
                    return next((x for tt, x in reversed(switches) if tt <= t), switches[0][1])
            else:
                def attacked(t):
                    return target
            moved = True
            while moved:
                moved = False
                for w0, w1, cls in self._windows(attacked(t)):
                    if w0 <= t - offset < w1 and cls in (None, "AUTO"):
                        t = w1 + offset
                        break
                t = max([t, *(p[1] for p in periods if p[0] <= t <= p[1])])
                moved = any(p[0] < t < p[1] for p in periods) or any(
                    w0 <= t - offset < w1 and cls in (None, "AUTO") for w0, w1, cls in self._windows(attacked(t)))

    def _windows(self, target):
        d = self.opts.downtime
        ws = d.get(target, ()) if isinstance(d, dict) else d
        return [(w[0] * 1000, w[1] * 1000, w[2] if len(w) > 2 else None) for w in ws]

    def _down(self, t, target, cls):
        return any(w0 <= t < w1 and c in (None, cls) for w0, w1, c in self._windows(target))

    def _downtime(self):
        keep = []
        for e in self.events:
            d = pick(e.skill.dmg, e.mod.conds)
            if d is not None:
                left = []
                for x in e.targets:  # the first one left is the first hit, the others follow it
                    if self._down(e.snap, x, d.cls) or self._down(e.app + PER_TARGET * len(left), x, d.cls):
                        self.removed.append((e, x))
                    else:
                        left.append(x)
                left = tuple(left)
                if not left:
                    continue
                e.targets = left
            keep.append(e)
        self.events = keep


# ------------------------------------------------------------------------------------------
# hits


@dataclass
class Hit:
    t: float
    skill: Skill
    mod: Mod
    buffs: Eff
    debuffs: Eff
    target: str
    snap: float
    event: Any


def build_hits(lib, stats, events, rng=None, note=None):
    """Processes the events in order; returns the hits sorted by time.

    rng: simultaneous events of one skill are processed in random order (default: as given).
    note: list to which the ties met are added."""
    st = Statuses(lib.prio.get(stats.job, ()))
    rs = Resources(lib.resources.get(stats.job, {}))
    cb = Combos(lib.breakers.get(stats.job, {}))
    heap, n = [], 0

    def push(key, t, app, skill, mod, b, d, targets, todo, ev):
        nonlocal n
        n += 1
        if t == app:
            app = None
            if todo.fresh:
                b = d = None
        heapq.heappush(heap, (key, skill.name, n if rng is None else (rng.random(), n), t, app, skill, mod, b, d, targets, todo, ev))

    for e in events:
        push(e.key, e.snap, e.app, e.skill, e.mod, None if e.status[0] else False, None if e.status[1] else False,
             e.targets, NS(fresh=True, gain=True, res=True, combo=True), e)
    hits = []
    while heap:
        key, name, _, t, app, sk, mod, b, d, targets, todo, ev = heapq.heappop(heap)
        if heap and heap[0][:2] == (key, name):
            if note is not None:
                note.append((key, name))
        st.expire(t)
        many = len(targets) > 1
        if app is None:
            if todo.res:
                mod = mod.plus(rs.conds_at(t, sk))
            if todo.gain:
                rs.add(t, sk, mod.conds)
            if todo.combo:
                mod = mod.plus(cb.use(t, sk, mod))
                mod = replace(mod, conds=frozenset(positional(sk, mod)))
            if not b:
                b, c = st.buffs_at(t, sk)
                mod = mod.plus(c)
            for i, target in enumerate(targets):
                m, dd = mod, d
                if many:
                    m = m.plus(f"Target {i + 1}")
                if not dd:
                    dd, c = st.debuffs_at(t, sk, target)
                    m = m.plus(c)
                    if not many:
                        mod = m
                if pick(sk.dmg, m.conds) is not None:
                    hits.append(Hit(t + (i * PER_TARGET if many else 0), sk, m, b, dd, target, ev.snap, ev))
            st.apply(t, sk, mod.conds, targets)
            continue
        if b is None:
            b, c = st.buffs_at(t, sk)
            mod = mod.plus(c)
        if sk.res_snap:
            mod = mod.plus(rs.conds_at(t, sk))
        mod = mod.plus(cb.use(t, sk, mod))
        mod = replace(mod, conds=frozenset(positional(sk, mod)))
        rs.add(t, sk, mod.conds)
        for i, target in enumerate(targets):
            m, dd = mod, d
            if many:
                m = m.plus(f"Target {i + 1}")
            if dd is None:
                dd, c = st.debuffs_at(t, sk, target)
                m = m.plus(c)
            ta = app + (i * PER_TARGET if many else 0)
            push(int(1000 * ta) + key - int(1000 * t), ta, None, sk, m, b, dd, (target,),
                 NS(fresh=False, gain=False, res=not sk.res_snap, combo=False), ev)
    hits.sort(key=lambda h: (h.t, h.skill.name))
    return hits
