"""Replays the descriptions of a same network (GenEquiv.tla) on the real code, on both backends, and records their bounds side by side.

usage: equiv_worker.py SCENARIOS.json TRACE.json SHARD NSHARDS
"""
import json
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bounds_worker import do_case

OTHER = {"torch": "tensorflow", "tensorflow": "torch"}


def views(case, backend):
    res = []
    for v, net in enumerate(case["variants"]):
        r = do_case(dict(case, net=net), backend)
        res.append(dict(variant=v + 1, backend=backend, ky=r["ky"], kS=r["kS"], unchanged=r["unchanged"], runs=r["runs"], pl=r["pl"]))
    return res


def main():
    scen, out, shard, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    other = None
    backend = os.environ["KERAS_BACKEND"]
    if "--alone" not in sys.argv:
        other = subprocess.Popen([sys.executable, os.path.abspath(__file__), scen, out + ".other", str(shard), str(n), "--alone"],
                                 env=dict(os.environ, KERAS_BACKEND=OTHER[backend]))
    import keras

    assert keras.backend.backend() == backend
    cases = json.load(open(scen))
    mine = {c["id"]: views(c, backend) for i, c in enumerate(cases) if i % n == shard}
    if other is None:
        json.dump(mine, open(out, "w"))
        return
    if other.wait() != 0:
        raise RuntimeError("the replay on %s stopped" % OTHER[backend])
    theirs = json.load(open(out + ".other"))
    os.remove(out + ".other")
    trace = []
    for c in cases:
        if c["id"] in mine:
            vs = mine[c["id"]] + theirs[c["id"]]
            rec = {k: v for k, v in c.items() if k not in ("net", "runs", "be")}
            rec.update(pl=all(v.pop("pl") for v in vs), views=vs)
            trace.append(rec)
    json.dump(trace, open(out, "w"))


if __name__ == "__main__":
    main()
