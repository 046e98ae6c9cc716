"""python -m rac.main MODULE TIER SEED BUDGET SHARD SHARDS | --replay FILE"""
import importlib
import json
import os
import sys


def main(argv):
    out = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2) if os.environ.get("RAC_QUIET", "1") == "1" else None
    from rac import common
    mod = importlib.import_module("rac." + argv[0])
    if argv[1] == "--case":
        case = json.loads(argv[3])
        g = [g for g in mod.GROUPS if g["name"] == argv[2]][0]
        res = {"message": common.run_case(g, case)}
    else:
        only = argv[6].split(",") if len(argv) > 6 and argv[6] else None
        res = common.run_module(mod, argv[1], int(argv[2]), float(argv[3]), int(argv[4]),
                                int(argv[5]), only, progress=os.environ.get("RAC_PROGRESS"))
    os.write(out, (json.dumps(res, default=common.plain)
                   + "\n").encode())


if __name__ == "__main__":
    main(sys.argv[1:])
