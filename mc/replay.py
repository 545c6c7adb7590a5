"""python -m mc.replay FILE: run one recorded case again, without the explorer."""
import importlib
import json
import sys

from mc import core


def main(path):
    core.setup_env()
    r = json.load(open(path))
    mod = importlib.import_module(r["module"])
    seen = []
    for _ in range(2):      # the same case must fail every time
        rec = core.Rec()
        msg = core.run_case(mod, r["case"], rec)
        if msg is None and rec.findings:
            msg = "deviation " + ", ".join(rec.findings)
        seen.append(msg)
    print("case:", core.short(r["case"], 3000))
    print("result:", seen[0])
    if seen[0] != seen[1]:
        print("second run differs:", seen[1])
    return 1 if seen[0] or seen[1] else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
