"""PYTHONPATH=/repo:/verif python tools/make_golden.py : writes golden/skills.json.gz from the current tree."""
import gzip, json, os, sys
from pbt import build as B, golden
from pbt.gamedata import VERSIONS
table, index, libs, waits = [], {}, {}, None
for v, l in VERSIONS:
    lib = B.real_lib(v, l)
    libs[f"{v}/{l}"] = {}
    for job in sorted(lib.get_jobs()):
        skills, w, other = golden.dump_job(lib, job)
        assert waits in (None, w)
        waits = w
        e = {}
        for n, d in sorted(skills.items()):
            k = json.dumps(d, sort_keys=True)
            if k not in index:
                index[k] = len(table)
                table.append(d)
            e[n] = index[k]
        libs[f"{v}/{l}"][job] = {"skills": e, "other": other}
os.makedirs(os.path.dirname(golden.PATH), exist_ok=True)
with open(golden.PATH, "wb") as f, gzip.GzipFile(fileobj=f, mode="wb", mtime=0) as z:
    z.write(json.dumps({"table": table, "libs": libs, "waits": waits}, sort_keys=True).encode())
print(len(table), os.path.getsize(golden.PATH), len(waits), waits[:3], waits[-3:])
