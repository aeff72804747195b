"""python -m mon.worker PID TIER SEED SHARD NSHARDS TREE OUT [only scenario:index]"""
import faulthandler
import importlib
import json
import os
import sys


def main(argv):
    pid, tier, seed, shard, nshards, tree, out = argv[:7]
    only = None
    if len(argv) > 7 and argv[7]:
        s, i = argv[7].rsplit(":", 1)
        only = (s, int(i))
    faulthandler.enable()
    deadline = float(os.environ.get("VERIF_DEADLINE", "0")) or None
    import electrode
    assert os.path.realpath(electrode.__file__).startswith(os.path.realpath(tree)), electrode.__file__
    from mon import core, registry
    for m in [registry.MODULES[pid]]+registry.ALSO.get(pid, []):
        importlib.import_module("mon.props." + m)
    run = core.Run(pid, tier, int(seed), int(shard), int(nshards), os.path.realpath(tree), only,
                   deadline, bool(os.environ.get("VERIF_CALIBRATE")))
    run.now = os.open(out+".now", os.O_CREAT | os.O_WRONLY)
    run.go()
    with open(out, "w") as f:
        json.dump(run.report(), f)


if __name__ == "__main__":
    main(sys.argv[1:])
