"""Replays operators, layers and backward layers on bounds drawn by the specification (GenOps.tla), on one backend.

usage: op_worker.py SCENARIOS.json TRACE.json SHARD NSHARDS
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from netbuild import make_layer, set_weights
from observe import *  # noqa

P = {"1": 1, "2": 2, "inf": np.inf}
FN = {
    "exp": np.exp, "log": np.log, "frac_pos": lambda v: 1 / v, "sigmoid": lambda v: 1 / (1 + np.exp(-v)), "tanh": np.tanh,
    "softsign": lambda v: v / (1 + np.abs(v)), "softplus": lambda v: np.log1p(np.exp(-np.abs(v))) + np.maximum(v, 0),
}
NAMES = {"hybrid": ["x", "u", "wu", "bu", "l", "wl", "bl"], "ibp": ["u", "l"], "affine": ["x", "wu", "bu", "wl", "bl"]}


def domain(case):
    from decomon.core import BallDomain, BoxDomain

    return BoxDomain() if case["dom"] == "box" else BallDomain(eps=case["eps"] / case["xden"], p=P[case["p"]])


def tensors(case, k):
    """The bounds of operand k, as arrays."""
    smp, sh, nx, d = case["ops"][k], case["shs"][k], case["nx"], case["oden"]
    r = {f: np.array([s[f] for s in smp], dtype="float64").reshape([len(smp)] + sh) / d for f in ("u", "bu", "l", "bl")}
    r.update({f: np.array([s[f] for s in smp], dtype="float64").reshape([len(smp), nx] + sh) for f in ("wu", "wl")})
    r["x"] = np.array([[b["lo"], b["hi"]] for b in case["boxes"]] if case["dom"] == "box" else case["centers"]) / case["xden"]
    return r


def values(case, k):
    """The values of operand k: for each sample, (points, entries)."""
    return [(np.array(p) @ np.array(s["A"], dtype="float64")) / case["xden"] + np.array(s["c"]) for p, s in zip(case["pts"], case["ops"][k])]


def keras_layer(nd):
    if nd["op"] == "id":
        return make_layer(dict(op="dropout"), None)
    if nd["op"] in ("fn", "relu"):
        return make_layer(dict(op="act", fn=nd.get("fn", "relu")), None)
    if nd["op"] == "dot":
        return make_layer(dict(op="dot", axes=[nd["a1"], nd["a2"]]), None)
    return make_layer(nd, None)


def operator(case, run, args):
    import decomon.layers.utils as L
    import decomon.utils as U

    nd = case["nd"]
    op = nd["op"]
    kw = dict(mode=run["mode"], perturbation_domain=domain(case))
    two = {"add": U.add, "sub": U.subtract, "max": U.maximum, "min": U.minimum, "mul": L.multiply}
    one = {"minus": U.minus, "relu": U.relu_, "abs": L.abs, "pow": L.pow}
    fn = {"softplus": L.softplus_, "exp": L.exp, "log": L.log, "frac_pos": L.frac_pos}
    ax = {"rmax": L.max_, "rmin": L.min_, "sum": L.sum, "sort": L.sort, "expand": L.expand_dims, "split": L.split}
    if op in two:
        return two[op](args[0], args[1], **kw)
    if op == "relu":
        kw["slope"] = run["slope"]
    if op in one:
        return one[op](args[0], **kw)
    if op == "fn":
        if nd["fn"] == "softplus":
            kw["slope"] = run["slope"]
        return fn[nd["fn"]](args[0], **kw)
    if op in ax:
        return ax[op](args[0], axis=nd["axis"], **kw)
    if op == "broadcast":
        return L.broadcast(args[0], nd["n"], nd["axis"], run["mode"], perturbation_domain=kw["perturbation_domain"])
    if op == "permute":
        return L.permute_dimensions(args[0], nd["axis"], axis_perm=nd["pos"], **kw)
    raise ValueError(op)


def arrays(case, run, outs, nouts):
    """The tensors of the outputs, flattened and concatenated: u, l, wu, bu, wl, bl."""
    names = NAMES[run["mode"]]
    outs = outs if isinstance(outs[0], (list, tuple)) else [outs]
    B = len(case["boxes"])
    shapes, cat = [], {}
    for o in outs:
        if len(o) != len(names):
            raise ValueError("number of tensors: %d" % len(o))
        v = {n: tonp(t).astype("float64") for n, t in zip(names, o)}
        shapes.append({n: list(a.shape) for n, a in v.items() if n != "x"})
        for n, a in v.items():
            if n != "x":
                cat.setdefault(n, []).append(a.reshape((B, case["nx"], -1) if n in ("wu", "wl") else (B, -1)))
        if "x" in v and (v["x"].shape != tensors(case, 0)["x"].shape or np.abs(v["x"] - tensors(case, 0)["x"]).max() > 1e-5):
            raise ValueError("description of the domain changed")
    return shapes, {n: np.concatenate(v, -1) for n, v in cat.items()}


def quantize(r, arrs, amp):
    fin = bool(all(np.isfinite(v).all() for v in arrs.values()))
    r["finite"] = fin
    r["S"] = 1
    if fin:
        m = max([1.0] + [np.abs(v).max() if v.size else 0 for v in arrs.values()])
        r["S"] = scale_for((m + 1) * amp)
        r.update({k: q(v, r["S"]) for k, v in arrs.items()})


def do_case(case, backend):
    import keras
    from decomon.backward_layers.convert import to_backward
    from decomon.layers.convert import to_decomon

    keras.utils.clear_session()
    rec = dict(case)
    rec["backend"] = backend
    nd = case["nd"]
    dt = [tensors(case, k) for k in range(len(case["shs"]))]
    ys = [values(case, k) for k in range(len(case["shs"]))]
    ymax = max(np.abs(v).max() for y in ys for v in y) + 1
    sizes = [len(p) for p in case["pts"]]
    kl = keras_layer(nd) if case["fam"] == "layer" else None
    rec["ky"], rec["kS"] = [], 1
    if kl is not None:          # the layer of Keras gives the values of the operator
        ins = [np.concatenate(y).reshape([-1] + sh).astype("float32") for y, sh in zip(ys, case["shs"])]
        kin = [keras.Input(tuple(sh)) for sh in case["shs"]]
        kl(kin if len(kin) > 1 else kin[0])
        set_weights(kl, nd)
        out = kl([totensor(v) for v in ins] if len(ins) > 1 else totensor(ins[0]))
        ky = np.split(tonp(out).astype("float64").reshape(len(ins[0]), -1), np.cumsum(sizes)[:-1])
    elif nd["op"] == "fn":
        ky = [FN[nd["fn"]](v) for v in ys[0]]
    else:
        ky = None
    if ky is not None:
        rec["kS"] = scale_for((max(np.abs(v).max() for v in ky) + 1) * 16)
        rec["ky"] = [q(v, rec["kS"]) for v in ky]
    xm = max(np.abs(np.array([b["lo"], b["hi"]])).max() for b in case["boxes"]) + 16
    nout = 1
    runs = []
    for run in case["runs"]:
        r = dict(run, status="ok", finite=True, S=1, shapes=[], back=[])
        runs.append(r)
        names = NAMES[run["mode"]]
        args = [[totensor(d[n]) for n in names] for d in dt]
        lay = None
        try:
            if kl is None:
                outs = operator(case, run, args)
            else:
                lay = to_decomon(kl, case["nx"], slope=run["slope"], perturbation_domain=domain(case), ibp=run["mode"] != "affine",
                                 affine=run["mode"] != "ibp")
                flat = [t for a in args for t in a]
                outs = lay(flat)
            r["shapes"], arrs = arrays(case, run, outs, nout)
            quantize(r, arrs, xm * (case["nx"] + 1) * 4)
        except Exception as e:  # noqa
            r.update(status=err_text(e))
            continue
        if case["back"]:
            try:
                bl = to_backward(lay, slope=run["slope"], mode=run["mode"], perturbation_domain=domain(case))
                bo = bl(flat)
                bo = bo if isinstance(bo[0], (list, tuple)) else [bo]
                for k, o in enumerate(bo):
                    v = {n: tonp(t).astype("float64") for n, t in zip(("wu", "bu", "wl", "bl"), o)}
                    b = dict(status="ok", shapes={n: list(a.shape) for n, a in v.items()})
                    ne = int(np.prod(case["shs"][min(k, len(case["shs"]) - 1)]))
                    quantize(b, v, (ymax + 1) * 32 * (ne + 1) * 2)
                    r["back"].append(b)
            except Exception as e:  # noqa
                r["back"] = [dict(status=err_text(e), finite=True, S=1, shapes={})]
    rec["runs"] = runs
    return rec


def main():
    scen, out, shard, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    import keras

    backend = keras.backend.backend()
    cases = [c for c in json.load(open(scen)) if backend in c["be"]]
    json.dump([do_case(c, backend) for i, c in enumerate(cases) if i % n == shard], open(out, "w"))


if __name__ == "__main__":
    main()
