"""Replays histories of calls (GenSession.tla) on the real code (one backend) and records the replies.

usage: session_worker.py SCENARIOS.json TRACE.json SHARD NSHARDS
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
from bounds_worker import has_softmax, is_pl, logits_net
from netbuild import build
from observe import *  # noqa

P = {"1": 1, "2": 2, "inf": np.inf}


def mk_domain(d, xden):
    from decomon.core import BallDomain, BoxDomain

    return BoxDomain() if d["t"] == "box" else BallDomain(eps=d["eps"] / xden, p=P[d["p"]])


def labels(lab, n_out):
    if lab["form"] == "none":
        return None
    if lab["form"] == "int":
        return int(lab["val"])
    if lab["form"] == "list":
        return [int(v) for v in lab["val"]]
    return np.array(lab["val"], dtype="int64")


class Session:
    def __init__(self, case, make_convs=True):
        self.case = case
        self.xden = case["xden"]
        self.d = np.float64(case["xden"])
        self.model, _ = build(case["nets"][0])
        self.n_out = int(np.prod(self.model.outputs[0].shape[1:]))
        self.convs = [self.convert(c) for c in case["convs"]] if make_convs else []

    def convert(self, c, dom=None):
        import keras
        from decomon.models import clone

        kw = dict(method=c["m"], slope=c["slope"], perturbation_domain=mk_domain(dom or c["dom"], self.xden), **form_kwargs(c))
        if c["finetune"]:
            kw["finetune"] = True
        if not c["shared"]:
            kw["shared"] = False
        if c["spec"]:
            steps = [st for h in self.case["hist"] for st in h if st["op"] == "callc"]
            nc = len(steps[0]["C"][0][0]) if steps else self.n_out      # scores of attacks: one column by label
            kw["back_bounds"] = [keras.Input((self.n_out, nc))]
        return clone(self.model, **kw)

    def box(self, batch):
        bs = [self.case["boxes"][b - 1] for b in batch]
        return np.array([b["lo"] for b in bs]) / self.d, np.array([b["hi"] for b in bs]) / self.d

    def centers(self, batch):
        return np.array([self.case["centers"][b - 1] for b in batch]) / self.d

    def inputs(self, batch):
        if self.case["dom"] == "box":
            return np.stack(self.box(batch), 1).astype("float32")
        return self.centers(batch).astype("float32")

    def target(self, s):
        return self.model if s["i"] == 0 else self.convs[s["i"] - 1]

    def bounds(self, dm, c, batch, C=None):
        ibp, aff = expected_forms(c)
        z = totensor(self.inputs(batch))
        out = parse_outputs(dm([z, totensor(C)] if C is not None else z), ibp, aff)
        if "vals" not in out:
            raise ValueError("number of outputs: %d" % len(out["shapes"]))
        return {k: v for k, v in out["vals"].items() if k != "x"}

    def step(self, s):
        import decomon
        from decomon import wrapper as W

        op = s["op"]
        if op == "setw":
            self.model.set_weights(build(self.case["nets"][s["v"] - 1], prefix="w")[0].get_weights())
        elif op == "conv":
            self.convs[s["i"] - 1] = self.convert(self.case["convs"][s["i"] - 1])
        elif op == "setdom":
            self.convs[s["i"] - 1].set_domain(mk_domain(s["dom"], self.xden))
        elif op == "tune":
            self.tune(self.convs[s["i"] - 1], s["a"])
        elif op == "reset":
            self.convs[s["i"] - 1].reset_finetuning()
        elif op == "call":
            return self.bounds(self.convs[s["i"] - 1], self.case["convs"][s["i"] - 1], s["batch"])
        elif op == "callc":
            return self.bounds(self.convs[s["i"] - 1], self.case["convs"][s["i"] - 1], s["batch"], C=np.array(s["C"], dtype="float32"))
        elif op == "range":
            f = {"range": decomon.get_range_box, "upper": decomon.get_upper_box, "lower": decomon.get_lower_box}[s["fn"]]
            lo, hi = self.box(s["batch"])
            return self.pair(s["fn"], f(self.target(s), lo, hi, batch_size=s["bs"], n_sub_boxes=s["nsub"]))
        elif op == "noise":
            f = {"range": decomon.get_range_noise, "upper": decomon.get_upper_noise, "lower": decomon.get_lower_noise}[s["fn"]]
            eps = s["eps"] / self.d if s["eps"] >= 0 else -1.0
            return self.pair(s["fn"], f(self.target(s), self.centers(s["batch"]), eps=eps, p=P[s["p"]], batch_size=s["bs"]))
        elif op == "adv":
            lo, hi = self.box(s["batch"])
            return dict(v=decomon.get_adv_box(self.target(s), lo, hi, **self.labs(s), batch_size=s["bs"], n_sub_boxes=s["nsub"]))
        elif op == "check":
            lo, hi = self.box(s["batch"])
            return dict(v=decomon.check_adv_box(self.target(s), lo, hi, **self.labs(s), batch_size=s["bs"]))
        elif op == "advnoise":
            eps = s["eps"] / self.d if s["eps"] >= 0 else -1.0
            return dict(v=decomon.get_adv_noise(self.target(s), self.centers(s["batch"]), eps=eps, p=P[s["p"]], batch_size=s["bs"], **self.labs(s)))
        elif op == "refine":
            f = {"upper": W.get_upper_box, "lower": W.get_lower_box, "adv": W.get_adv_box, "check": W.check_adv_box}[s["fn"]]
            lo, hi = self.box(s["batch"])
            np.random.seed(s["rs"])
            kw = self.labs(s) if s["fn"] in ("adv", "check") else {}
            r = decomon.refine_box(f, self.target(s), lo, hi, s["nsub"], batch_size=s["bs"], random=s["random"], **kw)
            return dict(v=r) if kw else self.pair(s["fn"], r)
        return {}

    def labs(self, s):
        r = dict(source_labels=labels(s["lab"]["src"], self.n_out))
        t = labels(s["lab"]["tgt"], self.n_out)
        if t is not None:
            r["target_labels"] = t
        return r

    @staticmethod
    def pair(fn, r):
        return dict(u=r[0], l=r[1]) if fn == "range" else dict(u=r) if fn == "upper" else dict(l=r)

    @staticmethod
    def tune(dm, a):
        rng = np.random.default_rng(a)
        ws = [w for lay in dm.layers for w in lay.trainable_weights if "alpha" in w.path or "beta" in w.path]
        for w in ws:
            v = rng.random(tuple(w.shape))
            w.assign({1000: 0 * v, 1001: 0 * v + 1, 1002: np.rint(v)}.get(a, v))


def quantized(r, case):
    """The arrays of a reply over a common scale."""
    xden = case["xden"]
    arrs = {k: np.asarray(v, dtype="float64") for k, v in r.items()}
    fin = bool(all(np.isfinite(v).all() for v in arrs.values()))
    if not fin:
        return dict(finite=False, S=1)
    xm = max(np.abs(np.array([b["lo"], b["hi"]])).max() for b in case["boxes"]) / xden + 1
    m = 1.0
    for k, v in arrs.items():
        t = np.abs(v).max() if v.size else 0
        m = max(m, t * xm * v.shape[1] if k in ("wu", "wl") else t)
    S = scale_for((m + case["kmax"] + 1) * xden * 4)
    shapes = {k: list(v.shape) for k, v in arrs.items()}
    flat = {k: v.reshape(v.shape[:2 if k in ("wu", "wl") else 1] + (-1,)) if v.ndim > (3 if k in ("wu", "wl") else 2) else v for k, v in arrs.items()}
    return dict({k: q(v, S) for k, v in flat.items()}, finite=True, S=S, shapes=shapes)


def do_case(case, backend):
    import keras

    keras.utils.clear_session()
    rec = {k: v for k, v in case.items() if k not in ("hist", "be", "refs")}
    rec["backend"] = backend
    rec["softmax"] = has_softmax(case["nets"][0])
    rec["pl"] = is_pl(case["nets"][0])
    ky = [keras_values(build(logits_net(n))[0], case) for n in case["nets"]]
    ymax = max(np.abs(v).max() for y in ky for v in y)
    rec["kS"] = scale_for((ymax + 1) * 64)
    rec["ky"] = [[q(v, rec["kS"]) for v in y] for y in ky]
    rec["kmax"] = case["kmax"] = int(ymax) + 1
    yend = [keras_values(build(n)[0], case) for n in case["nets"]]
    # the bounds of networks freshly converted, one input at a time
    rec["refs"] = []
    for ref in case["refs"]:
        s = Session(dict(case, nets=[case["nets"][ref["wv"] - 1]]), make_convs=False)
        r = dict(ref)
        try:
            c = case["convs"][ref["i"] - 1]
            dm = s.convert(c, ref["dom"])
            outs = [s.bounds(dm, c, [b + 1]) for b in range(len(case["boxes"]))]
            r.update(ok=True, **quantized({k: np.concatenate([o[k] for o in outs]) for k in outs[0]}, case))
        except Exception as e:  # noqa
            r.update(ok=False, err=err_text(e), finite=True, S=1)
        rec["refs"].append(r)
    rec["hist"] = []
    for hist in case["hist"]:
        h = []
        wv = 1
        try:
            s = Session(case)
        except Exception as e:  # noqa
            rec["hist"].append(dict(steps=[dict(st, ok=False, err=err_text(e), finite=True, S=1) for st in hist[:1]], end=True))
            continue
        for st in hist:
            r = dict(st)
            try:
                out = s.step(st)
                r["ok"] = True
                r.update(quantized(out, case) if out else dict(finite=True, S=1))
            except Exception as e:  # noqa
                r.update(ok=False, err=err_text(e), finite=True, S=1)
            if st["op"] == "setw":
                wv = st["v"]
            h.append(r)
        y = keras_values(s.model, case)
        rec["hist"].append(dict(steps=h, end=bool(all(np.abs(a - b).max() < 1e-5 * (1 + np.abs(b).max()) for a, b in zip(y, yend[wv - 1])))))
    del rec["kmax"]
    return rec


def main():
    scen, out, shard, n = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    import keras

    backend = keras.backend.backend()
    cases = [c for c in json.load(open(scen)) if backend in c["be"]]
    json.dump([do_case(c, backend) for i, c in enumerate(cases) if i % n == shard], open(out, "w"))


if __name__ == "__main__":
    main()
