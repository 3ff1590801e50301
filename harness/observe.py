"""Observation of the real code: conversions, bounds, and their quantization for the trace specifications."""
import math
import os
import traceback

import numpy as np

METHOD_FORMS = {
    "forward-ibp": (True, False), "forward-affine": (False, True), "forward-hybrid": (True, True),
    "crown": (True, False), "crown-forward-ibp": (True, False), "crown-forward-affine": (False, True),
    "crown-forward-hybrid": (True, True),
}
LIMIT = 2.0 ** 29


def expected_forms(run):
    return {"default": METHOD_FORMS[run["m"]], "TT": (True, True), "TF": (True, False), "FT": (False, True)}[run["form"]]


def form_kwargs(run):
    return {"default": {}, "TT": dict(final_ibp=True, final_affine=True), "TF": dict(final_ibp=True, final_affine=False),
            "FT": dict(final_ibp=False, final_affine=True)}[run["form"]]


def domain_of(case):
    from decomon.core import BallDomain, BoxDomain

    if case["dom"] == "box":
        return BoxDomain()
    p = {"1": 1, "2": 2, "inf": np.inf}[case["p"]]
    return BallDomain(eps=case["eps"] / case["xden"], p=p)


def domain_inputs(case):
    d = case["xden"]
    if case["dom"] == "box":
        return np.array([[b["lo"], b["hi"]] for b in case["boxes"]], dtype="float32") / np.float32(d)
    return np.array(case["centers"], dtype="float32") / np.float32(d)


def tonp(t):
    import keras

    return keras.ops.convert_to_numpy(t)


def totensor(a):
    import keras

    return keras.ops.convert_to_tensor(np.asarray(a, dtype="float32"))


def keras_values(model, case):
    """Outputs of the Keras model on the sample points: list (per box) of arrays (points, outputs)."""
    sizes = [len(p) for p in case["pts"]]
    x = np.array([q for p in case["pts"] for q in p], dtype="float32") / np.float32(case["xden"])
    y = model(totensor(x))
    if isinstance(y, (list, tuple)):
        y = y[0]
    y = tonp(y).astype("float64").reshape(len(x), -1)
    return np.split(y, np.cumsum(sizes)[:-1])


def scale_for(maxval, limit=LIMIT, cap=15):
    """Largest power of two (at most 2^cap) such that maxval * scale stays below the limit."""
    if maxval <= 0:
        return 2 ** cap
    return 2 ** int(max(0, min(cap, math.floor(math.log2(limit / maxval)))))


def q(a, S):
    return np.rint(np.asarray(a, dtype="float64") * S).astype(int).tolist()


def parse_outputs(out, ibp, affine):
    if not isinstance(out, (list, tuple)):
        out = [out]
    out = [tonp(o) for o in out]
    shapes = [list(o.shape) for o in out]
    r = dict(shapes=shapes)
    names = ["x", "u", "wu", "bu", "l", "wl", "bl"] if ibp and affine else ["u", "l"] if ibp else ["x", "wu", "bu", "wl", "bl"]
    if len(out) == len(names):
        r["vals"] = dict(zip(names, [o.astype("float64") for o in out]))
    return r


def quantize_run(rec, vals, ibp, affine, case, yabs):
    """Adds to the record the quantized bounds and their scale.  xden * (|w||x| + |b| + |u| + |y|) * S < 2^29."""
    xden = case["xden"]
    finite = all(np.isfinite(v).all() for v in vals.values())
    rec["finite"] = bool(finite)
    rec["ibp"], rec["aff"] = bool(ibp), bool(affine)
    if not finite:
        rec["S"] = 1
        return
    nb = len(case["boxes"])
    m = yabs
    xm = np.array([np.abs(np.array([b["lo"], b["hi"]])).max(0) for b in case["boxes"]], dtype="float64") / xden
    if ibp:
        m = max(m, np.abs(vals["u"]).max(), np.abs(vals["l"]).max())
    if affine:
        for w, b in (("wu", "bu"), ("wl", "bl")):
            W = np.abs(vals[w]).reshape(nb, xm.shape[1], -1) if vals[w].size == nb * xm.shape[1] * (vals[b].size // nb) else None
            if W is None:
                m = max(m, np.abs(vals[w]).max())
            else:
                m = max(m, (np.einsum("bi,bio->bo", np.maximum(xm, 1.0), W) + np.abs(vals[b]).reshape(nb, -1)).max())
    S = scale_for((m + 1) * xden)
    rec["S"] = S
    for k in ("u", "l", "wu", "bu", "wl", "bl"):
        if k in vals:
            rec[k] = q(np.clip(vals[k], -LIMIT / S, LIMIT / S), S)


def err_text(e):
    return (type(e).__name__ + ": " + str(e))[:160].replace("\n", " ").replace('"', "'")
