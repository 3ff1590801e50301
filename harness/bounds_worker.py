"""Replays scenarios of the specification on the real code (one backend) and writes the trace of what it returned.

usage: bounds_worker.py SCENARIOS.json TRACE.json SHARD NSHARDS
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from observe import *  # noqa


def has_softmax(net):
    return any(n.get("act") == "softmax" or n.get("fn") == "softmax" for n in net["nodes"])


NONLIN = {"sigmoid", "tanh", "softplus", "softsign", "exponential"}


def is_pl(net):
    return all(n.get("act", "none") not in NONLIN and n.get("fn", "none") not in NONLIN and ("net" not in n or is_pl(n["net"]))
               for n in net["nodes"])


def logits_net(net):
    net = json.loads(json.dumps(net))
    for n in net["nodes"]:
        if n.get("act") == "softmax":
            n["act"] = "none"
    return net


def echo_ok(x, z):
    """The description of the domain returned along affine bounds is the one given."""
    return x is None or bool(x.shape == z.shape and np.abs(x - z).max() < 1e-4)


def declared_ok(model, shapes):
    """The shapes declared by the converted network are those of its outputs."""
    dec = [tuple(o.shape) for o in model.outputs]
    return len(dec) == len(shapes) and all(len(a) == len(b) and all(i is None or i == j for i, j in zip(a, b)) for a, b in zip(dec, shapes))


def description(model):
    """What a user can see of a network besides its weights (the names of its layers excepted)."""
    lays = [("model", lay.trainable, description(lay)) if hasattr(lay, "layers")
            else (type(lay).__name__, lay.trainable, json.dumps({k: v for k, v in lay.get_config().items() if k != "name"}, sort_keys=True, default=str))
            for lay in model.layers]
    return [lays, [(tuple(w.shape), bool(w.trainable)) for w in model.weights], len(model.trainable_weights)]


def do_case(case, backend):
    import keras
    from decomon.models import clone
    from netbuild import build

    keras.utils.clear_session()
    rec = {k: case[k] for k in ("id", "fam", "net", "xden", "dom", "boxes", "pts")}
    for k in ("p", "eps", "centers"):
        if k in case:
            rec[k] = case[k]
    rec["backend"] = backend
    rec["softmax"] = has_softmax(case["net"])
    rec["pl"] = is_pl(case["net"])
    model, _ = build(case["net"])
    w0 = [tonp(w).copy() for w in model.weights]
    d0 = description(model)
    y0 = keras_values(model, case)
    yref = y0 if not rec["softmax"] else keras_values(build(logits_net(case["net"]))[0], case)
    ymax = max(np.abs(v).max() for v in yref)
    kS = scale_for((ymax + 1) * 16)
    rec["kS"] = kS
    rec["ky"] = [q(v, kS) for v in yref]
    rec["nlmag"] = int(max(max(np.abs(np.array([b["lo"], b["hi"]])).max() for b in case["boxes"]) // case["xden"], 1))
    rec["runs"] = []
    conv = {}
    for run in case["runs"]:
        r = dict(run)
        ibp, aff = expected_forms(run)
        view = dict(case, dom="box") if run.get("as") == "box" else case
        z = domain_inputs(view)
        try:
            kw = dict(perturbation_domain=domain_of(view), method=run["m"], slope=run["slope"], **form_kwargs(run))
            kw.update(run.get("kw", {}))
            dm = clone(model, **kw)
            r["flags"] = [bool(dm.ibp), bool(dm.affine)]
            out = parse_outputs(dm(totensor(z)), ibp, aff)
            r["shapes"] = out["shapes"]
            r["declared"] = declared_ok(dm, out["shapes"])
            r["status"] = "ok"
            if "vals" in out:
                vals = out["vals"]
                x = vals.pop("x", None)
                r["echo"] = echo_ok(x, z)
                quantize_run(r, vals, ibp, aff, case, ymax)
            else:
                r.update(finite=True, ibp=ibp, aff=aff, S=1, echo=True)
        except Exception as e:  # noqa
            r.update(status=err_text(e), finite=True, ibp=ibp, aff=aff, S=1, shapes=[], flags=[ibp, aff], echo=True, declared=True)
        rec["runs"].append(r)
    y1 = keras_values(model, case)
    w1 = [tonp(w) for w in model.weights]
    rec["unchanged"] = bool(d0 == description(model) and len(w0) == len(w1) and all(np.array_equal(a, b) for a, b in zip(w0, w1))
                            and all(np.array_equal(a, b) for a, b in zip(y0, y1)))
    return rec


def main():
    scen, out, shard, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    import keras

    backend = keras.backend.backend()
    cases = [c for c in json.load(open(scen)) if backend in c["be"]]
    trace = [do_case(c, backend) for i, c in enumerate(cases) if i % n == shard]
    json.dump(trace, open(out, "w"))


if __name__ == "__main__":
    main()
