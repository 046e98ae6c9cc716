"""python3-vt replay.py FILE: run the failing input of a replay file on the real code again."""
import json
import sys

from check import rac_case


def main():
    d = json.load(open(sys.argv[1]))
    for o in d.get("failed_obligations", []):
        print("obligation: %s (%s) %s" % (o.get("name"), o.get("status"), o.get("why", "")))
    if "case" not in d:
        print("no failing input was found for this obligation")
        return 0
    msg = rac_case(d["module"], d["group"], d["case"])
    print("replay: %s" % (msg or "the contract holds on this input now"))
    return 1 if msg else 0


if __name__ == "__main__":
    sys.exit(main())
