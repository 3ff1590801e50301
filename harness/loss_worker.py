"""Replays the scenarios of the certified losses (GenLoss.tla) on the real code (one backend) and records their values.

usage: loss_worker.py SCENARIOS.json TRACE.json SHARD NSHARDS
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from bounds_worker import has_softmax, logits_net
from observe import *  # noqa

CLIP = 4000.0


def value(t):
    return float(np.asarray(tonp(t), dtype="float64"))


def losses(dm, z, case, form):
    """The values of the losses: one per input, then on the whole batch."""
    from decomon.metrics import loss as M

    ibp, aff = form
    nb = len(z)
    no = len(case["refs"][0])
    refs = np.array(case["refs"], dtype="float32") / case["xden"]
    hot = np.eye(no, dtype="float32")[np.array(case["labels"])]
    fs = {"upper": (M.get_upper_loss(dm), refs), "lower": (M.get_lower_loss(dm), refs), "adv": (M.get_adv_loss(dm), hot),
          "clip": (M.get_adv_loss(dm, clip_value=-1.0), hot), "sigm": (M.get_adv_loss(dm, sigmoid=True), hot),
          "soft": (M.get_adv_loss(dm, softmax=True), hot)}
    pred = M.get_model(dm)(totensor(z))
    res = {}
    for k, (f, y) in fs.items():
        rows = [value(f(totensor(y[b:b + 1]), pred[b:b + 1])) for b in range(nb)]
        res[k] = np.array(rows + [value(f(totensor(y), pred))])
    res["ce"] = tonp(M.build_crossentropy_model(dm)(totensor(z))).astype("float64")
    res["ace"] = tonp(M.build_asymptotic_crossentropy_model(dm)(totensor(z))).astype("float64")
    if aff and case["dom"] == "box":
        res["rad"] = tonp(M.build_radius_robust_model(dm)(totensor(z))).astype("float64")
    return res


def do_case(case, backend):
    import keras
    from decomon.models import clone
    from netbuild import build

    keras.utils.clear_session()
    rec = {k: v for k, v in case.items() if k not in ("runs", "be")}
    rec["backend"] = backend
    model, _ = build(case["net"])
    ys = keras_values(build(logits_net(case["net"]))[0] if has_softmax(case["net"]) else model, case)
    ymax = max(np.abs(v).max() for v in ys)
    rec["kS"] = scale_for((ymax + 1) * 16)
    rec["ky"] = [q(v, rec["kS"]) for v in ys]
    prob = [np.exp(v - v.max(-1, keepdims=True)) for v in ys]
    prob = [v / v.sum(-1, keepdims=True) for v in prob]
    rec["prob"] = [q(v, 2 ** 15) for v in prob]
    lse = [np.log(np.exp(v - v.max(-1, keepdims=True)).sum(-1)) + v.max(-1) for v in ys]
    rec["lse"] = [q(v, rec["kS"]) for v in lse]
    rec["runs"] = []
    for run in case["runs"]:
        r = dict(run)
        form = expected_forms(run)
        z = domain_inputs(case)
        try:
            dm = clone(model, perturbation_domain=domain_of(case), method=run["m"], slope=run["slope"], **form_kwargs(run))
            base = parse_outputs(dm(totensor(z)), *form)["vals"]
            vals = losses(dm, z, case, form)
            if form[0]:
                vals.update(u=base["u"], l=base["l"])
            r["ok"] = True
            r["softok"] = np.isfinite(vals["soft"]).tolist()
            vals["soft"] = np.nan_to_num(vals["soft"], nan=CLIP)
            r["finite"] = bool(all(np.isfinite(v).all() for k, v in vals.items() if k != "soft"))
            r["S"] = 1
            r["shapes"] = {k: list(v.shape) for k, v in vals.items()}
            if r["finite"]:
                vals = {k: np.clip(v, -CLIP, CLIP) for k, v in vals.items()}
                r["S"] = scale_for((max(np.abs(v).max() for v in vals.values()) + ymax + 1) * 16)
                r.update({k: q(v, r["S"]) for k, v in vals.items()})
                r["soft"], r["sigm"] = q(vals["soft"], 2 ** 15), q(vals["sigm"], 2 ** 15)
        except Exception as e:  # noqa
            r.update(ok=False, err=err_text(e), finite=True, S=1, shapes={})
        rec["runs"].append(r)
    # sigmoid of the largest margin at each sample point
    rec["sig"] = []
    for b, v in enumerate(ys):
        i = case["labels"][b]
        m = np.max(np.delete(v, i, axis=1), axis=1) - v[:, i]
        rec["sig"].append(q(1 / (1 + np.exp(-np.clip(m, -60, 60))), 2 ** 15))
    return rec


def main():
    scen, out, shard, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    import keras

    backend = keras.backend.backend()
    cases = [c for c in json.load(open(scen)) if backend in c["be"]]
    json.dump([do_case(c, backend) for i, c in enumerate(cases) if i % n == shard], open(out, "w"))


if __name__ == "__main__":
    main()
