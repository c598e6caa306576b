"""Records the example rotations of /repo in golden/examples.json (run once, at the pinned data)."""
import glob, importlib, json, os, sys
sys.path.insert(0, "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for path in sorted(glob.glob("/repo/ama_xiv_combat_sim/example_rotations/*/*_data.py")):
    mod = path[len("/repo/"):-3].replace("/", ".")
    job = mod.split(".")[-1][:3]
    rots = getattr(importlib.import_module(mod), f"all_{job}_rotations").rotations
    for key, levels in rots.items():
        assert key not in out
        for level, d in levels.items():
            def skill(s):
                assert isinstance(s, str), s
                return s
            def party(p):
                r = list(p[:3])
                if len(p) > 3:
                    m = p[3]
                    assert m.guaranteed_crit.name == "DEFAULT" and m.guaranteed_dh.name == "DEFAULT" and not m.force_combo
                    r.append(", ".join(sorted(m.with_condition)))
                return r
            assert set(d) <= {"stats", "skills", "party_skills", "start_version", "end_version"}, d.keys()
            out.setdefault(key, {})[str(level)] = {
                "stats": d["stats"], "skills": [skill(s) for s in d["skills"]],
                "party": [party(p) for p in d.get("party_skills", ())], "start": d["start_version"], "end": d.get("end_version"),
                "autos": job not in ("ast", "sge", "whm")}
json.dump(out, open(os.path.join(HERE, "golden", "examples.json"), "w"), indent=0, sort_keys=True)
print(len(out), sum(len(v) for v in out.values()))
