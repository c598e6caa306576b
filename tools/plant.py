"""python3 tools/plant.py SPEC.py [ID ...]: makes seeded/<id>/ from specs and confirms each one in a scratch copy of /repo.
A spec module defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new), ...], demo=python source)]."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
PRE = '''import ama_xiv_combat_sim
import numpy as np
from ama_xiv_combat_sim.simulator.calcs.damage_class import DamageClass
from ama_xiv_combat_sim.simulator.calcs.forced_crit_or_dh import ForcedCritOrDH
from ama_xiv_combat_sim.simulator.calcs.compute_damage_utils import ComputeDamageUtils
from ama_xiv_combat_sim.simulator.calcs.stat_fns import StatFns
from ama_xiv_combat_sim.simulator.damage_simulator import DamageSimulator
from ama_xiv_combat_sim.simulator.skills.create_skill_library import create_skill_library
from ama_xiv_combat_sim.simulator.skills.skill import Skill
from ama_xiv_combat_sim.simulator.skills.skill_library import SkillLibrary
from ama_xiv_combat_sim.simulator.skills.skill_modifier import SkillModifier
from ama_xiv_combat_sim.simulator.specs.channeling_spec import ChannelingSpec
from ama_xiv_combat_sim.simulator.specs.combo_spec import ComboSpec
from ama_xiv_combat_sim.simulator.specs.damage_spec import DamageSpec
from ama_xiv_combat_sim.simulator.specs.follow_up import FollowUp
from ama_xiv_combat_sim.simulator.specs.job_resource_settings import JobResourceSettings
from ama_xiv_combat_sim.simulator.specs.job_resource_spec import JobResourceSpec
from ama_xiv_combat_sim.simulator.specs.status_effect_spec import StatusEffectSpec
from ama_xiv_combat_sim.simulator.specs.timing_spec import TimingSpec
from ama_xiv_combat_sim.simulator.stats import Stats
from ama_xiv_combat_sim.simulator.timeline_builders.damage_builder import DamageBuilder
from ama_xiv_combat_sim.simulator.timeline_builders.rotation_builder import RotationBuilder
from ama_xiv_combat_sim.simulator.trackers.status_effects import StatusEffects

def lib_of(skills, job="WAR", resources=(), breakers=(), prio=(), version="7.05", level=100):
    lib = SkillLibrary(version=version, level=level)
    lib.set_current_job_class(job)
    for s in skills:
        lib.add_skill(s)
    for n, r in resources:
        lib.add_resource(n, r)
    for g, b in breakers:
        lib.add_combo_breaker(g, b)
    lib.set_status_effect_priority(prio)
    return lib

def stats_of(job="WAR", **kw):
    d = dict(wd=140, weapon_delay=3.36, main_stat=4000, det_stat=2182, crit_stat=2596, dh_stat=940, speed_stat=420,
             tenacity=601, job_class=job, version="7.05", level=100)
    if job not in ("WAR", "PLD", "DRK", "GNB"):
        d["tenacity"] = None
    d.update(kw)
    return Stats(**d)

def hits(rb, stats, lib):
    return DamageBuilder(stats, lib).get_damage_instances(rb.get_skill_timing())

def T(app=0, lock=0, recast=2500, cast=0, speed=False, haste=False, **kw):
    return TimingSpec(base_cast_time=cast, animation_lock=lock, application_delay=app, gcd_base_recast_time=recast,
                      affected_by_speed_stat=speed, affected_by_haste_buffs=haste, **kw)

def expect(got, want):
    if got != want:
        raise SystemExit(f"got {got!r}, expected {want!r}")
'''
SH = '''#!/bin/bash
# run with cwd /repo (or a copy of it): exit 0 if the behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python "$here/demo.py"
'''
def run(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env)
def main():
    spec = importlib.util.spec_from_file_location("spec", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    ids = sys.argv[2:]
    for b in m.BUGS:
        if ids and b["id"] not in ids: continue
        tmp = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
        try:
            wt = tmp + "/repo"
            run(f"cp -a /repo {wt}", "/")
            ok = True
            d = os.path.join(tmp, "seed"); os.makedirs(d)
            open(d + "/demo.py", "w").write(PRE + "\n" + b["demo"].lstrip("\n")); open(d + "/demo.sh", "w").write(SH); os.chmod(d + "/demo.sh", 0o755)
            r = run(f"bash {d}/demo.sh", wt)
            if r.returncode != 0: print(b["id"], "demo fails on clean tree:", (r.stdout + r.stderr)[-1500:]); continue
            for f, old, new in b["edits"]:
                p = os.path.join(wt, "ama_xiv_combat_sim", f); s = open(p).read()
                if s.count(old) != 1: print(b["id"], "edit matches", s.count(old), "times:", f); ok = False; break
                open(p, "w").write(s.replace(old, new))
            if not ok: continue
            diff = run("git diff", wt).stdout
            # the removed lines must be lines of the original repository
            base = "c89caf8"
            for f, old, new in b["edits"]:
                o = run(f"git show {base}:ama_xiv_combat_sim/{f}", wt).stdout
                cur = [l for l in old.split("\n") if l.strip()]
                gone = [l for l in cur if l not in new.split("\n")]
                if gone and not any(l in o.split("\n") for l in gone): print(b["id"], "WARNING: changes only lines added by fixes", f)
            r = run(f"bash {d}/demo.sh", wt)
            if r.returncode == 0: print(b["id"], "demo passes with the bug"); continue
            why = (r.stdout + r.stderr).strip().split("\n")[-1]
            for script in ("build.sh", "test.sh"):
                s = open("/opt/vp/" + script).read().replace("/opt/vp/reports", "@R@").replace("/repo", wt).replace("@R@", tmp + "/xml")
                open(f"{tmp}/{script}", "w").write(s)
            r = run(f"bash {tmp}/build.sh", wt)
            if r.returncode: print(b["id"], "does not build", r.stderr[-500:]); continue
            run(f"bash {tmp}/test.sh {tmp}/out.json", wt)
            out = json.load(open(f"{tmp}/out.json"))
            passed = set(out.get("passed", []))
            missing = sorted(STABLE - passed)
            if missing: print(b["id"], "breaks tests:", len(missing), missing[:3]); continue
            dst = os.path.join(V, "seeded", b["id"]); shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
            open(dst + "/patch.diff", "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
            print(b["id"], "OK:", why[:150])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
main()
