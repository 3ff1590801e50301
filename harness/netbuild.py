"""Build a Keras model from the JSON description of a network used by the specification.

A network is {"nin": n, "nodes": [node, ...], "outs": [index, ...]}.  Node 0 is the input; node k has
"op", "in" (indices of its predecessors) and the parameters of the operation.  Weights are given as
integers over the common denominator "wden" (default 1), so that the TLA+ semantics can use them exactly.
"""
import numpy as np


def _arr(v, den):
    return np.asarray(v, dtype="float64") / den


def build(net, prefix="n"):
    import keras
    from keras import layers as L

    nodes = net["nodes"]
    if net.get("style") == "seq":
        return build_sequential(net, prefix)
    tensors = []
    klayers = []
    inp = keras.Input((net["nin"],), name=prefix + "_in") if not net.get("noname") else keras.Input((net["nin"],))
    tensors.append(inp)
    klayers.append(None)
    for k, nd in enumerate(nodes):
        if k == 0:
            continue
        ins = [tensors[i] for i in nd["in"]]
        name = f"{prefix}_{k}_{nd['op']}"
        if "share" in nd:
            lay = klayers[nd["share"]]
        else:
            lay = make_layer(nd, name)
        t = lay(ins if len(ins) > 1 else ins[0])
        if "share" not in nd:
            set_weights(lay, nd)
            if nd.get("frozen"):
                lay.trainable = False
        tensors.append(t)
        klayers.append(lay)
    outs = [tensors[i] for i in net["outs"]]
    model = keras.Model(inp, outs if len(outs) > 1 else outs[0])
    return model, klayers


def build_sequential(net, prefix):
    import keras

    lays = [make_layer(nd, f"{prefix}_{k}_{nd['op']}") for k, nd in enumerate(net["nodes"]) if k > 0]
    model = keras.Sequential([keras.Input((net["nin"],))] + lays)
    for lay, nd in zip(lays, net["nodes"][1:]):
        set_weights(lay, nd)
    return model, [None] + lays


def make_layer(nd, name):
    import keras
    from keras import layers as L

    op = nd["op"]
    if op == "dense":
        return L.Dense(nd["units"], activation=_act(nd), use_bias=nd.get("use_bias", True), name=name)
    if op == "conv":
        return L.Conv2D(
            nd["filters"], tuple(nd["kernel"]), strides=tuple(nd.get("strides", (1, 1))),
            padding=nd.get("padding", "valid"), dilation_rate=tuple(nd.get("dilation", (1, 1))),
            data_format=nd.get("df", "channels_last"), use_bias=nd.get("use_bias", True),
            activation=_act(nd), name=name,
        )
    if op == "act":
        return L.Activation(nd["fn"], name=name)
    if op == "reshape":
        return L.Reshape(tuple(nd["shape"]), name=name)
    if op == "permute":
        return L.Permute(tuple(nd["dims"]), name=name)
    if op == "flatten":
        return L.Flatten(data_format=nd.get("df", "channels_last"), name=name)
    if op == "bn":
        return L.BatchNormalization(axis=nd.get("axis", -1), epsilon=nd.get("eps", 1e-3), center=nd.get("center", True),
                                    scale=nd.get("scale", True), name=name)
    if op == "dropout":
        return L.Dropout(0.5, name=name)
    if op == "maxpool":
        return L.MaxPooling2D(pool_size=tuple(nd["pool"]), strides=tuple(nd["strides"]) if nd.get("strides") else None,
                              padding=nd.get("padding", "valid"), data_format=nd.get("df", "channels_last"), name=name)
    if op == "model":
        return build(nd["net"], prefix=name)[0]
    cls = {"add": L.Add, "avg": L.Average, "sub": L.Subtract, "max": L.Maximum, "min": L.Minimum, "mul": L.Multiply}
    if op in cls:
        return cls[op](name=name)
    if op == "concat":
        return L.Concatenate(axis=nd.get("axis", -1), name=name)
    if op == "dot":
        a = nd["axes"]
        return L.Dot(axes=tuple(a) if isinstance(a, list) else a, name=name)
    raise ValueError(op)


def _act(nd):
    a = nd.get("act", "none")
    return None if a == "none" else a


def set_weights(lay, nd):
    den = nd.get("wden", 1)
    op = nd["op"]
    if op in ("dense", "conv"):
        ws = [_arr(nd["W"], den)]
        if nd.get("use_bias", True):
            ws.append(_arr(nd["b"], den))
        lay.set_weights(ws)
    elif op == "bn":
        ws = []
        if nd.get("scale", True):
            ws.append(_arr(nd["gamma"], den))
        if nd.get("center", True):
            ws.append(_arr(nd["beta"], den))
        ws.append(_arr(nd["mean"], den))
        ws.append(np.asarray(nd["var4"], dtype="float64") / 4.0 - nd.get("eps", 1e-3))
        lay.set_weights(ws)
