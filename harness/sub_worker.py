"""Replays refinements of boxes (GenSub.tla) on the real code and records the sub-boxes.

usage: sub_worker.py SCENARIOS.json TRACE.json SHARD NSHARDS
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from netbuild import build
from observe import err_text, tonp

S = 65536     # halvings of sixteenths are exact over this denominator


def corners(case):
    lo = np.array([b["lo"] for b in case["boxes"]]) / 16.0
    hi = np.array([b["hi"] for b in case["boxes"]]) / 16.0
    return lo, hi


def qbox(lo, hi):
    return dict(lo=[int(v) for v in np.rint(np.ravel(lo) * S)], hi=[int(v) for v in np.rint(np.ravel(hi) * S)])


def dedupe(boxes):
    seen, res = set(), []
    for b in boxes:
        k = json.dumps(b)
        if k not in seen:
            seen.add(k)
            res.append(b)
    return res


def parts(case):
    from decomon.wrapper import refine_boxes

    lo, hi = corners(case)
    shape = (len(lo),) + tuple(case["shape"])
    res = []
    for n in case["asked"]:
        r = dict(asked=n)
        try:
            a, b = refine_boxes(lo.reshape(shape), hi.reshape(shape), n_sub_boxes=n)
            r.update(ok=True, shapes=[list(a.shape), list(b.shape)], parts=[[qbox(x, y) for x, y in zip(u, v)] for u, v in zip(a, b)])
        except Exception as e:  # noqa
            r.update(ok=False, err=err_text(e), shapes=[], parts=[])
        res.append(r)
    return res


def queries(case):
    import decomon
    from decomon import wrapper as W
    from decomon.models import clone

    model, _ = build(case["net"])
    lo, hi = corners(case)
    res = []
    for st in case["steps"]:
        dm = clone(model, method="forward-ibp")
        seen = []

        def call(self, inputs, *a, **kw):
            try:
                z = tonp(inputs[0] if isinstance(inputs, list) else inputs)
                seen.extend(qbox(row[0], row[1]) for row in np.asarray(z, dtype="float64"))
            except Exception:  # noqa
                seen.append(None)      # a symbolic call: what is examined is not known
            return base.__call__(self, inputs, *a, **kw)

        base = type(dm)
        dm.__class__ = type(base.__name__, (base,), {"__call__": call})
        r = dict(st)
        try:
            np.random.seed(st["rs"])
            kw = dict(source_labels=np.array(st["lab"])) if st["fn"] in ("adv", "check") else {}
            if st["op"] == "range":
                f = {"range": decomon.get_range_box, "upper": decomon.get_upper_box, "lower": decomon.get_lower_box}[st["fn"]]
                f(dm, lo, hi, batch_size=st["bs"], n_sub_boxes=st["nsub"])
            elif st["op"] == "adv":
                decomon.get_adv_box(dm, lo, hi, batch_size=st["bs"], n_sub_boxes=st["nsub"], **kw)
            else:
                f = {"upper": W.get_upper_box, "lower": W.get_lower_box, "adv": W.get_adv_box, "check": W.check_adv_box}[st["fn"]]
                W.refine_box(f, dm, lo, hi, st["nsub"], batch_size=st["bs"], random=st["random"], **kw)
            known = bool(seen) and None not in seen
            r.update(ok=True, known=known, parts=dedupe(seen) if known else [])
        except Exception as e:  # noqa
            r.update(ok=False, err=err_text(e), known=False, parts=[])
        res.append(r)
    return res


def main():
    scen, out, shard, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    import keras

    backend = keras.backend.backend()
    cases = [c for c in json.load(open(scen)) if backend in c["be"]]
    res = []
    for i, c in enumerate(cases):
        if i % n != shard:
            continue
        keras.utils.clear_session()
        lo, hi = corners(c)
        rec = {k: v for k, v in c.items() if k not in ("net", "boxes", "steps", "asked", "be")}
        rec.update(backend=backend, roots=[qbox(a, b) for a, b in zip(lo, hi)], steps=parts(c) if c["kind"] == "parts" else queries(c))
        res.append(rec)
    json.dump(res, open(out, "w"))


if __name__ == "__main__":
    main()
