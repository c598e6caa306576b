import json
import sys

from . import core, main


def replay(path):
    r = json.load(open(path))
    suite = [s for s in main.load(r["property"]).SUITES if s.name == r["suite"]][0]
    core.watchdog_on()
    try:
        suite.run(r["case"])
    except core.Violation as v:
        print(v)
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    except core.Skip:
        print("not judged")
    print("the case passes on its own (if it failed within a run, state left by earlier cases matters: "
          f"rerun with VERIF_SEED={r['seed']} bash check.sh {r['property']} {r['tier']})")
    return 0


if __name__ == "__main__":
    sys.exit(replay(sys.argv[1]))
