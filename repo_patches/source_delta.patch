From e2ad4bf0e0ea26a4aa480124d36aaddbaac4861e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 01/29] fix: sound affine hull of s-shaped activations when a
 bound is 0 or the tangent point is approximate

---
 src/decomon/utils.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/decomon/utils.py b/src/decomon/utils.py
index a4d7944..c976041 100644
--- a/src/decomon/utils.py
+++ b/src/decomon/utils.py
@@ -554,7 +554,6 @@ def get_linear_hull_s_shape(
 
     z_value = K.cast(0.0, dtype=dtype)
     o_value = K.cast(1.0, dtype=dtype)
-    t_value = K.cast(2.0, dtype=dtype)
 
     # flatten
     shape = list(u_c.shape[1:])
@@ -573,7 +572,8 @@ def get_linear_hull_s_shape(
     alpha_u_0 = K.where(
         K.greater_equal(s_u_prime, coeff), o_value + z_value * u_c_flat, z_value * u_c_flat
     )  # (None, n)
-    alpha_u_1 = (o_value - alpha_u_0) * ((K.sign(l_c_flat) + o_value) / t_value)
+    # concave part only (0 included): no tangent to look for
+    alpha_u_1 = (o_value - alpha_u_0) * K.cast(K.greater_equal(l_c_flat, z_value), dtype=dtype)
 
     w_u_0 = coeff
     b_u_0 = -w_u_0 * l_c_flat + s_l
@@ -591,7 +591,8 @@ def get_linear_hull_s_shape(
     alpha_l_0 = K.where(
         K.greater_equal(s_l_prime, coeff), o_value + z_value * l_c_flat, z_value * l_c_flat
     )  # (None, n)
-    alpha_l_1 = (o_value - alpha_l_0) * ((K.sign(-u_c_flat) + o_value) / t_value)
+    # convex part only (0 included): no tangent to look for
+    alpha_l_1 = (o_value - alpha_l_0) * K.cast(K.less_equal(u_c_flat, z_value), dtype=dtype)
 
     w_l_0 = coeff
     b_l_0 = -w_l_0 * u_c_flat + s_u
@@ -658,9 +659,11 @@ def get_t_upper(
         -1,
     )  # (None, n)
 
+    # t_value is only an approximation of the tangent point: to remain above func, we take the tangent at t_value
+    # and shift it (if necessary) to be also above (l_c_flat, s_l)
     s_t = func(t_value)  # (None, n)
-    w_u = (s_t - s_l) / K.maximum(K.cast(epsilon(), dtype=u_c_flat.dtype), t_value - l_c_flat)  # (None, n)
-    b_u = -w_u * l_c_flat + s_l  # + func(l_c_flat)
+    w_u = f_prime(t_value)  # (None, n)
+    b_u = K.maximum(s_t - w_u * t_value, s_l - w_u * l_c_flat)
 
     return [w_u, b_u]
 
@@ -715,8 +718,10 @@ def get_t_lower(
         -1,
     )
 
+    # t_value is only an approximation of the tangent point: to remain below func, we take the tangent at t_value
+    # and shift it (if necessary) to be also below (u_c_flat, s_u)
     s_t = func(t_value)  # (None, n)
-    w_l = (s_u - s_t) / K.maximum(K.cast(epsilon(), dtype=u_c_flat.dtype), u_c_flat - t_value)  # (None, n)
-    b_l = -w_l * u_c_flat + s_u  # func(u_c_flat)
+    w_l = f_prime(t_value)  # (None, n)
+    b_l = K.minimum(s_t - w_l * t_value, s_u - w_l * u_c_flat)
 
     return [w_l, b_l]
-- 
2.43.0


From 349b189c2cbf42e5bce4fdb3fda4e5a24f07a529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 02/29] fix: sound bounds for softplus (affine) and softmax

---
 src/decomon/layers/activations.py | 10 +++++++++-
 src/decomon/layers/utils.py       |  8 ++++----
 src/decomon/utils.py              |  9 ++++-----
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/decomon/layers/activations.py b/src/decomon/layers/activations.py
index e773a14..97e334e 100644
--- a/src/decomon/layers/activations.py
+++ b/src/decomon/layers/activations.py
@@ -469,9 +469,16 @@ def softmax(
     mode = ForwardMode(mode)
     ibp = get_ibp(mode)
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
+    mode_to = mode
+    if mode == ForwardMode.AFFINE:
+        # the constant bounds are needed to ensure the positivity of the sum of exponentials
+        x, u_c, w_u, b_u, l_c, w_l, b_l, _, _ = inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)
+        inputs = [x, u_c, w_u, b_u, l_c, w_l, b_l]
+        mode = ForwardMode.HYBRID
+        inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
 
     outputs_exp = exponential(
-        minus(inputs, mode=mode, perturbation_domain=perturbation_domain),
+        inputs,
         dc_decomp=dc_decomp,
         perturbation_domain=perturbation_domain,
         mode=mode,
@@ -498,6 +505,7 @@ def softmax(
         u_c = K.minimum(u_c, o_value)
         l_c = K.maximum(l_c, z_value)
 
+    inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode_to, perturbation_domain=perturbation_domain)
     return inputs_outputs_spec.extract_outputsformode_from_fulloutputs([x, u_c, w_u, b_u, l_c, w_l, b_l, h, g])
 
 
diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 7bb09d6..b8261ce 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -218,17 +218,17 @@ def frac_pos(
     l_c_out = K.cast(1.0, dtype=u_c.dtype) / u_c
 
     if affine:
-        w_u_0 = (u_c_out - l_c_out) / K.maximum(u_c - l_c, K.cast(epsilon(), dtype=u_c.dtype))
-        b_u_0 = l_c_out - w_u_0 * l_c
+        w_u_0 = (l_c_out - u_c_out) / K.maximum(u_c - l_c, K.cast(epsilon(), dtype=u_c.dtype))
+        b_u_0 = u_c_out - w_u_0 * l_c
 
         y = (u_c + l_c) / 2.0
         b_l_0 = K.cast(2.0, dtype=y.dtype) / y
         w_l_0 = -K.cast(1.0, dtype=y.dtype) / y**2
 
         w_u_out = w_u_0[:, None] * w_l
-        b_u_out = b_u_0 * b_l + b_u_0
+        b_u_out = w_u_0 * b_l + b_u_0
         w_l_out = w_l_0[:, None] * w_u
-        b_l_out = b_l_0 * b_u + b_l_0
+        b_l_out = w_l_0 * b_u + b_l_0
     else:
         w_u_out, b_u_out, w_l_out, b_l_out = empty_tensor, empty_tensor, empty_tensor, empty_tensor
 
diff --git a/src/decomon/utils.py b/src/decomon/utils.py
index c976041..9a63ff0 100644
--- a/src/decomon/utils.py
+++ b/src/decomon/utils.py
@@ -215,8 +215,8 @@ def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slo
     slope = Slope(slope)
     # in case upper=lower, this cases are
     # considered with index_dead and index_linear
-    u_c = K.softsign(upper)
-    l_c = K.softsign(lower)
+    u_c = K.softplus(upper)
+    l_c = K.softplus(lower)
     alpha = (u_c - l_c) / K.maximum(K.cast(epsilon(), dtype=upper.dtype), (upper - lower))
     w_u = alpha
     b_u = -alpha * lower + l_c
@@ -243,11 +243,10 @@ def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slo
     else:
         raise ValueError(f"Unknown slope {slope}")
 
+    # softplus remains positive when upper<=0: only the lower bound can be set to 0
     index_dead = -K.clip(K.sign(upper) - o_value, -o_value, z_value)
 
-    w_u = (o_value - index_dead) * w_u
     w_l = (o_value - index_dead) * w_l
-    b_u = (o_value - index_dead) * b_u
     b_l = (o_value - index_dead) * b_l
 
     if "finetune" in kwargs:
@@ -257,7 +256,7 @@ def get_linear_softplus_hull(upper: Tensor, lower: Tensor, slope: Union[str, Slo
         alpha_l = alpha_l[None]
 
         w_u = alpha_u * w_u
-        b_u = alpha_u * b_u + (o_value - alpha_u) * K.maximum(upper, z_value)
+        b_u = alpha_u * b_u + (o_value - alpha_u) * u_c
 
         w_l = alpha_l * w_l
         b_l = alpha_l * b_l + (o_value - alpha_l) * K.maximum(lower, z_value)
-- 
2.43.0


From 33e2a397ec82e56fe04ef74bd448021c3190a417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:44 +0000
Subject: [PATCH 03/29] fix: conversion no longer linearizes in place the
 softmax layer of the original model

---
 src/decomon/models/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index f0ecd6a..a0eed49 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -189,6 +189,10 @@ def split_activation(layer: Layer) -> list[Layer]:
     config = layer.get_config()
     activation = config.pop("activation", None)
     # split if needed
+    if isinstance(layer, Activation) and activation == "softmax":
+        # a final softmax is linearized in place during the conversion:
+        # we work on a copy so that the original model is left unchanged
+        return [Activation.from_config(layer.get_config())]
     if activation is None or activation == "linear" or isinstance(layer, Activation):
         return [layer]
     else:
@@ -205,7 +209,7 @@ def split_activation(layer: Layer) -> list[Layer]:
         # activation layer
         if isinstance(activation, dict):
             if isinstance(layer.activation, Layer):  # can be an Activation or a PReLU layer
-                activation_layer = layer.activation
+                activation_layer = split_activation(layer.activation)[0]
                 # update the name to starts with main layer name
                 activation_layer_name = f"{layer.name}_activation_{layer.activation.name}"
                 activation_layer.name = activation_layer_name
-- 
2.43.0


From 4c0d1ca77703d69242263820f759c277ff09b9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 04/29] fix: affine coefficients w.r.t. the model input when
 converting ibp bounds to affine bounds

---
 src/decomon/models/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index a0eed49..ccb7540 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -325,7 +325,11 @@ class Convert2Mode(Layer):
 
         if compute_dummy_affine:
             x = K.concatenate([K.expand_dims(l_c, 1), K.expand_dims(u_c, 1)], 1)
-            w = K.zeros_like(BatchedIdentityLike()(l_c))
+            if self.input_dim > 0:
+                # coefficients w.r.t. the input of the model
+                w = K.repeat(K.zeros_like(K.expand_dims(l_c, 1)), self.input_dim, axis=1)
+            else:
+                w = K.zeros_like(BatchedIdentityLike()(l_c))
             w_u = w
             b_u = u_c
             w_l = w
-- 
2.43.0


From 0873576a6121b2b7d6cc5ace90c8679dfc878c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:46 +0000
Subject: [PATCH 05/29] fix: backward convolution with channels_first data
 format or non-square kernel

---
 src/decomon/backward_layers/utils_conv.py | 43 +++++++++--------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/src/decomon/backward_layers/utils_conv.py b/src/decomon/backward_layers/utils_conv.py
index ae0faf8..61d607b 100644
--- a/src/decomon/backward_layers/utils_conv.py
+++ b/src/decomon/backward_layers/utils_conv.py
@@ -58,27 +58,27 @@ def get_toeplitz_channels_last(conv_layer: Conv2D, flatten: bool = True) -> Back
     _, w_out, h_out, c_out = output_shape
 
     kernel_filter = conv_layer.kernel
-    filter_size = kernel_filter.shape[0]
+    filter_w, filter_h = kernel_filter.shape[:2]
 
     diag = K.reshape(K.identity(w_in * h_in * c_in), (w_in * h_in * c_in, w_in, h_in, c_in))
 
     diag_patches = extract_patches(
         diag,
-        size=[filter_size, filter_size],
+        size=[filter_w, filter_h],
         strides=list(conv_layer.strides),
         dilation_rate=list(conv_layer.dilation_rate),
         padding=conv_layer.padding,
     )
 
-    diag_patches_ = K.reshape(diag_patches, (w_in, h_in, c_in, w_out, h_out, filter_size**2, c_in))
+    diag_patches_ = K.reshape(diag_patches, (w_in, h_in, c_in, w_out, h_out, filter_w * filter_h, c_in))
 
     shape = list(range(len(diag_patches_.shape)))
     shape[-1] -= 1
     shape[-2] += 1
     diag_patches_ = K.transpose(diag_patches_, shape)
-    kernel = conv_layer.kernel  # (filter_size, filter_size, c_in, c_out)
+    kernel = conv_layer.kernel  # (filter_w, filter_h, c_in, c_out)
 
-    kernel = K.transpose(K.reshape(kernel, (filter_size**2, c_in, c_out)), (1, 2, 0))[
+    kernel = K.transpose(K.reshape(kernel, (filter_w * filter_h, c_in, c_out)), (1, 2, 0))[
         None, None, None, None, None
     ]  # (1,1,c_in, c_out, filter_size^2)
 
@@ -126,29 +126,18 @@ def get_toeplitz_channels_first(conv_layer: Conv2D, flatten: bool = True) -> Bac
     else:  # list of outputs
         output_shape = output[-1].shape
     _, c_out, w_out, h_out = output_shape
-    kernel_filter = conv_layer.kernel
-    filter_size = kernel_filter.shape[0]
-
-    diag = K.reshape(K.identity(w_in * h_in * c_in), (w_in * h_in * c_in, w_in, h_in, c_in))
-
-    diag_patches = extract_patches(diag, [filter_size, filter_size], [1, 1], [1, 1], padding=conv_layer.padding)
-
-    diag_patches_ = K.reshape(diag_patches, (w_in, h_in, c_in, w_out, h_out, filter_size**2, c_in))
-
-    shape = list(range(len(diag_patches_.shape)))
-    shape[-1] -= 1
-    shape[-2] += 1
-    diag_patches_ = K.transpose(diag_patches_, shape)
-    kernel = conv_layer.kernel  # (filter_size, filter_size, c_in, c_out)
 
-    kernel = K.transpose(K.reshape(kernel, (filter_size**2, c_in, c_out)), (1, 2, 0))[
-        None, None, None, None, None
-    ]  # (1,1,c_in, c_out, filter_size^2)
-
-    w = K.sum(K.expand_dims(diag_patches_, -2) * kernel, (5, 7))
-    # kernel shape: (1,      1,     1,   1,    1,    c_in, c_out, filter_size^2)
-    # diag_patches shape: (w_in, h_in, c_in, w_out, h_out, c_in, 1,     filter_size^2)
-    # (w_in, h_in, c_in, w_out, h_out, c_in, c_out, filter^2)
+    # each row of the matrix is the image by the convolution of an element of the canonical basis
+    diag = K.cast(K.reshape(K.identity(c_in * w_in * h_in), (c_in * w_in * h_in, c_in, w_in, h_in)), conv_layer.dtype)
+    w = K.conv(
+        diag,
+        conv_layer.kernel,
+        strides=list(conv_layer.strides),
+        padding=conv_layer.padding,
+        dilation_rate=conv_layer.dilation_rate,
+        data_format="channels_first",
+    )
+    w = K.reshape(w, (c_in, w_in, h_in, c_out, w_out, h_out))
 
     w = K.cast(w, conv_layer.dtype)
     # cast w for dtype
-- 
2.43.0


From c52dc6174964ed883840081582a3501a4a1f23a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:46 +0000
Subject: [PATCH 06/29] fix: flatten with channels_first data format (affine
 bounds) and backward permute

---
 .../backward_layers/backward_layers.py        | 32 ++++++++++++++-----
 src/decomon/layers/decomon_layers.py          |  5 +--
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index 76619e6..5ebebc7 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -431,6 +431,17 @@ class BackwardActivation(BackwardLayer):
             self.frozen_grid = False
 
 
+def _get_input_shape_wo_batchsize(layer: Layer, inputs: list[BackendTensor]) -> tuple[int, ...]:
+    """Get the input shape of the (keras or decomon) layer, even though the bounds on its input have been flattened."""
+    shape = tuple(inputs[-1].shape[1:])
+    if len(shape) == 1:
+        layer_input = layer.input
+        if isinstance(layer_input, list):
+            layer_input = layer_input[-1]
+        shape = tuple(layer_input.shape[1:])
+    return shape
+
+
 class BackwardFlatten(BackwardLayer):
     """Backward  LiRPA of Flatten"""
 
@@ -453,7 +464,14 @@ class BackwardFlatten(BackwardLayer):
         )
 
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
-        return get_identity_lirpa(inputs)
+        w_u_out, b_u_out, w_l_out, b_l_out = get_identity_lirpa(inputs)
+        if self.layer.data_format == "channels_first":
+            shape = _get_input_shape_wo_batchsize(self.layer, inputs)
+            # each row of the matrix is a flattened input: flatten it in the order used by the layer
+            n_dim = w_u_out.shape[1]
+            w_u_out = K.reshape(Flatten.call(self.layer, K.reshape(w_u_out, (-1,) + shape)), (-1, n_dim, n_dim))
+            w_l_out = K.reshape(Flatten.call(self.layer, K.reshape(w_l_out, (-1,) + shape)), (-1, n_dim, n_dim))
+        return [w_u_out, b_u_out, w_l_out, b_l_out]
 
 
 class BackwardReshape(BackwardLayer):
@@ -507,17 +525,15 @@ class BackwardPermute(BackwardLayer):
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
         w_u_out, b_u_out, w_l_out, b_l_out = get_identity_lirpa(inputs)
 
-        # w_u_out (None, n_in, n_out)
-        y = inputs[-1]
+        # w_u_out (None, n_in, n_out): each row is a flattened input, to be permuted as the layer does
         n_dim = w_u_out.shape[1]
         n_out = w_u_out.shape[-1]
-        shape = list(y.shape[1:])
+        shape = list(_get_input_shape_wo_batchsize(self.layer, inputs))
 
-        w_u_out = K.reshape(w_u_out, [-1] + shape + [n_out])
-        w_l_out = K.reshape(w_l_out, [-1] + shape + [n_out])
+        w_u_out = K.reshape(w_u_out, [-1] + shape)
+        w_l_out = K.reshape(w_l_out, [-1] + shape)
 
-        dims = [0] + list(self.dims) + [len(y.shape)]
-        dims = list(np.argsort(dims))
+        dims = [0] + list(self.dims)
         w_u_out = K.reshape(K.transpose(w_u_out, dims), (-1, n_dim, n_out))
         w_l_out = K.reshape(K.transpose(w_l_out, dims), (-1, n_dim, n_out))
 
diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index d6eced0..9d6c1ab 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -745,8 +745,9 @@ class DecomonFlatten(DecomonLayer, Flatten):
             b_l_out = op(b_l)
             input_dim = x.shape[-1]
             output_shape = int(np.prod(b_u_out.shape[1:]))
-            w_u_out = K.reshape(w_u, (-1, input_dim, output_shape))
-            w_l_out = K.reshape(w_l, (-1, input_dim, output_shape))
+            # flatten the coefficients in the same order as the bias (it depends on data_format)
+            w_u_out = K.reshape(op(K.reshape(w_u, (-1,) + tuple(b_u.shape[1:]))), (-1, input_dim, output_shape))
+            w_l_out = K.reshape(op(K.reshape(w_l, (-1,) + tuple(b_l.shape[1:]))), (-1, input_dim, output_shape))
         else:
             w_u_out, b_u_out, w_l_out, b_l_out = empty_tensor, empty_tensor, empty_tensor, empty_tensor
 
-- 
2.43.0


From 9352b5df9de21402f170cc6a539d28b072d52c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:28 +0000
Subject: [PATCH 07/29] fix: sound ibp bounds in crown with ball perturbation
 domains

---
 src/decomon/models/crown.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/decomon/models/crown.py b/src/decomon/models/crown.py
index 6abbd7d..8d1e2c6 100644
--- a/src/decomon/models/crown.py
+++ b/src/decomon/models/crown.py
@@ -5,7 +5,7 @@ import keras.ops as K
 from keras.layers import InputSpec, Layer
 from keras.src.layers.merging.dot import batch_dot
 
-from decomon.core import ForwardMode, PerturbationDomain
+from decomon.core import BoxDomain, ForwardMode, PerturbationDomain
 from decomon.keras_utils import BatchedDiagLike
 from decomon.types import BackendTensor
 
@@ -69,15 +69,18 @@ class Convert2BackwardMode(Layer):
         w_u_out, b_u_out, w_l_out, b_l_out = backward_bounds
         empty_tensor = K.convert_to_tensor([])
 
+        perturbation_domain = self.perturbation_domain
         if self.mode in [ForwardMode.AFFINE, ForwardMode.HYBRID]:
             x_0 = inputs_wo_backward_bounds[0]
         else:
+            # only the constant bounds of the input are available: x_0 is described by a box
+            perturbation_domain = BoxDomain()
             u_c, l_c = inputs_wo_backward_bounds
             x_0 = K.concatenate([K.expand_dims(l_c, 1), K.expand_dims(u_c, 1)], 1)
 
         if self.mode in [ForwardMode.IBP, ForwardMode.HYBRID]:
-            u_c_out = self.perturbation_domain.get_upper(x_0, w_u_out, b_u_out)
-            l_c_out = self.perturbation_domain.get_lower(x_0, w_l_out, b_l_out)
+            u_c_out = perturbation_domain.get_upper(x_0, w_u_out, b_u_out)
+            l_c_out = perturbation_domain.get_lower(x_0, w_l_out, b_l_out)
         else:
             u_c_out, l_c_out = empty_tensor, empty_tensor
 
-- 
2.43.0


From c8ef84ec7a2aadab8eaa62e64bf0a757fc9ef4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 08/29] fix: sub-boxes of get_range_box with several outputs or
 multidimensional boxes

---
 src/decomon/wrapper.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 2a5129b..587062b 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -589,8 +589,9 @@ def get_range_box(
             l_out = np.reshape(l_out, [-1] + shape)
 
     if n_split > 1:
-        u_out = np.max(np.reshape(u_out, (-1, n_split)), -1)
-        l_out = np.min(np.reshape(l_out, (-1, n_split)), -1)
+        # aggregate over the sub-boxes only, output by output
+        u_out = np.max(np.reshape(u_out, (n_batch, n_split) + u_out.shape[1:]), 1)
+        l_out = np.min(np.reshape(l_out, (n_batch, n_split) + l_out.shape[1:]), 1)
     return u_out, l_out
 
 
@@ -763,7 +764,7 @@ def refine_boxes(
     output_dim = np.prod(shape)
     if len(shape) > 1:
         x_min = np.reshape(x_min, (-1, output_dim))
-        x_max = np.reshape(x_min, (-1, output_dim))
+        x_max = np.reshape(x_max, (-1, output_dim))
     # x_min (None, n)
     # x_max (None, n)
     n = x_min.shape[-1]
-- 
2.43.0


From 32c5bbfd739e5c310a3a0959d7c81f149cbc7524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:41 +0000
Subject: [PATCH 09/29] fix: integer labels and target labels in adversarial
 robustness wrappers

---
 src/decomon/wrapper.py | 75 +++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 42 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 587062b..6674b39 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -27,14 +27,27 @@ def _get_dual_ord(p: float) -> float:
         raise ValueError(f"p must be equal to 1, 2, or np.inf, unknown value {p}.")
 
 
-def prepare_labels(labels: LabelType, n_batch: int) -> np.typing.NDArray[np.int_]:
-    if isinstance(labels, (int, np.int_)):
+def prepare_labels(labels: LabelType, n_batch: int, model: DecomonModel) -> np.typing.NDArray[np.int_]:
+    """Convert labels into a 0/1 mask over the model outputs, for each sample.
+
+    Args:
+        labels: either an integer (same label for each sample), either an array of labels for each sample,
+            or already a 0/1 mask over the outputs for each sample
+        n_batch: number of samples
+        model: the model whose outputs are labelled
+
+    Returns:
+        0/1 mask of shape (n_batch, n_out)
+    """
+    n_out = int(np.prod(model.outputs[-1].shape[1:]))
+    if isinstance(labels, (int, np.integer)):
         labels = np.zeros((n_batch, 1), dtype=np.int_) + labels
-    elif not isinstance(labels, np.ndarray):
-        labels = np.array(labels).reshape((n_batch, -1))
-    else:
-        labels = labels.reshape((n_batch, -1))
-    return labels.astype("int_")
+    labels = np.array(labels).reshape((n_batch, -1)).astype("int_")
+    if labels.shape[-1] != n_out:
+        mask = np.zeros((n_batch, n_out), dtype=np.int_)
+        np.put_along_axis(mask, labels, 1, axis=-1)
+        return mask
+    return labels
 
 
 ##### ADVERSARIAL ROBUSTTNESS #####
@@ -101,9 +114,9 @@ def get_adv_box(
 
     z = np.concatenate([x_min, x_max], 1)
 
-    source_labels = prepare_labels(source_labels, n_batch)
+    source_labels = prepare_labels(source_labels, n_batch, decomon_model)
     if target_labels is not None:
-        target_labels = prepare_labels(target_labels, n_batch)
+        target_labels = prepare_labels(target_labels, n_batch, decomon_model)
 
     if n_split > 1:
         shape = list(source_labels.shape[1:])
@@ -230,9 +243,9 @@ def get_adv_box(
             return np.max(np.max(upper, -2), -1)
 
         if ibp and affine:
-            z, u_c, w_u_f, b_u_f, l_c, w_l_f, b_l_f = output[:7]
+            _, u_c, w_u_f, b_u_f, l_c, w_l_f, b_l_f = output[:7]
         elif not ibp and affine:
-            z, w_u_f, b_u_f, w_l_f, b_l_f = output[:5]
+            _, w_u_f, b_u_f, w_l_f, b_l_f = output[:5]
         elif ibp and not affine:
             u_c, l_c = output[:2]
         else:
@@ -311,18 +324,9 @@ def check_adv_box(
     x_max = x_max.reshape((-1, 1, input_dim))
 
     z = np.concatenate([x_min, x_max], 1)
-    if isinstance(source_labels, (int, np.int_)):
-        source_labels = np.zeros((n_batch, 1)) + source_labels
-
-    if isinstance(source_labels, list):
-        source_labels = np.array(source_labels).reshape((n_batch, -1))
-
-    source_labels = source_labels.reshape((n_batch, -1))
-    source_labels = source_labels.astype(np.int_)
-
+    source_labels = prepare_labels(source_labels, n_batch, decomon_model)
     if target_labels is not None:
-        target_labels = target_labels.reshape((n_batch, -1))
-        target_labels = target_labels.astype(np.int_)
+        target_labels = prepare_labels(target_labels, n_batch, decomon_model)
 
     if n_split > 1:
         shape = list(source_labels.shape[1:])
@@ -341,11 +345,7 @@ def check_adv_box(
             source_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
         ]
         target_labels_list: list[Optional[npt.NDArray[np.int_]]]
-        if (
-            (target_labels is not None)
-            and (not isinstance(target_labels, int))
-            and (str(target_labels.dtype)[:3] != "int")
-        ):
+        if target_labels is not None:
             target_labels_list = [
                 target_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
             ]
@@ -411,11 +411,11 @@ def check_adv_box(
             return np.max(np.max(upper, -2), -1)
 
         if ibp:
-            z, u_c, w_u_f, b_u_f, l_c, w_l_f, b_l_f = output[:7]
+            _, u_c, w_u_f, b_u_f, l_c, w_l_f, b_l_f = output[:7]
         else:
-            z, w_u_f, b_u_f, w_l_f, b_l_f = output[:5]
+            _, w_u_f, b_u_f, w_l_f, b_l_f = output[:5]
 
-        return get_affine_sample(z, w_l_f, b_l_f, w_u_f, b_u_f, source_labels)
+        return get_affine_sample(z, w_l_f, b_l_f, w_u_f, b_u_f, source_labels, target_labels)
 
 
 #### FORMAL BOUNDS ######
@@ -961,14 +961,9 @@ def get_adv_noise(
     x_reshaped = x + 0 * x
     x_reshaped = x_reshaped.reshape([-1] + input_shape)
 
-    if isinstance(source_labels, (int, np.int_)):
-        source_labels = np.zeros((n_batch, 1), dtype=np.int_) + source_labels
-    source_labels = np.array(source_labels).reshape((n_batch, -1)).astype(np.int_)
-
+    source_labels = prepare_labels(source_labels, n_batch, decomon_model)
     if target_labels is not None:
-        if isinstance(target_labels, (int, np.int_)):
-            target_labels = np.zeros((n_batch, 1), dtype=np.int_) + source_labels
-        target_labels = np.array(target_labels).reshape((n_batch, -1)).astype(np.int_)
+        target_labels = prepare_labels(target_labels, n_batch, decomon_model)
 
     if batch_size > 0:
         # split
@@ -980,11 +975,7 @@ def get_adv_noise(
             source_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
         ]
         target_labels_list: list[Optional[npt.NDArray[np.int_]]]
-        if (
-            (target_labels is not None)
-            and (not isinstance(target_labels, int))
-            and (str(target_labels.dtype)[:3] != "int")
-        ):
+        if target_labels is not None:
             target_labels_list = [
                 target_labels[batch_size * i : batch_size * (i + 1)] for i in range(len(x_reshaped) // batch_size + r)
             ]
-- 
2.43.0


From dd68459cc03ba00780439df7b37c53c1bb2ce437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:41 +0000
Subject: [PATCH 10/29] fix: random refinement and labels of sub-boxes in
 refine_box

---
 src/decomon/wrapper.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 6674b39..fb38a4c 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -836,6 +836,12 @@ def refine_box(
 
     n_x = len(x_min)
 
+    # the labels of a box are shared by all its sub-boxes
+    if source_labels is not None:
+        source_labels = np.repeat(prepare_labels(source_labels, n_x, decomon_model), n_split, axis=0)
+    if target_labels is not None:
+        target_labels = np.repeat(prepare_labels(target_labels, n_x, decomon_model), n_split, axis=0)
+
     # split
     x_min_split = np.zeros((n_x, n_split, input_dim))
     x_max_split = np.zeros((n_x, n_split, input_dim))
@@ -882,7 +888,7 @@ def refine_box(
                 i = int(np.argmax(np.max(index_max[n_i, :count], -1)))
                 j = int(np.argmax(index_max[n_i, i]))
             else:
-                i = np.random.randint(count - 1)
+                i = np.random.randint(count)
                 j = np.random.randint(input_dim)
 
             z_min = x_min_split[n_i, i] + 0.0
-- 
2.43.0


From a8f7d6d5d047b0b89ba9f64094a9d7aa36e9e3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:52 +0000
Subject: [PATCH 11/29] fix: get_adv_noise with a Keras model, affine bounds
 and p=2, noise of the model domain when eps<0

---
 src/decomon/wrapper.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index fb38a4c..8c8b101 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -684,6 +684,9 @@ def get_range_noise(
         if eps >= 0:
             decomon_model.set_domain(perturbation_domain)
 
+    eps = decomon_model.perturbation_domain.eps
+    p = decomon_model.perturbation_domain.p
+
     # reshape x_mmin, x_max
     input_shape = list(decomon_model.input_shape[1:])
     input_dim = np.prod(input_shape)
@@ -954,7 +957,8 @@ def get_adv_noise(
         if eps >= 0:
             decomon_model.set_domain(perturbation_domain)
 
-    eps = model.perturbation_domain.eps
+    eps = decomon_model.perturbation_domain.eps
+    p = decomon_model.perturbation_domain.p
 
     # reshape x_mmin, x_max
     input_shape = list(decomon_model.input_shape[1:])
@@ -1065,7 +1069,7 @@ def get_adv_noise(
             upper_0 = np.sum(w_u_f * z_tensor[:, :, None, None], 1) + b_u_f
             # compute dual norm
             if p == 2:
-                upper_1 = eps * np.sum(w_u_f**2, 1)
+                upper_1 = eps * np.sqrt(np.sum(w_u_f**2, 1))
             elif p == 1:
                 upper_1 = eps * np.max(np.abs(w_u_f), 1)
             elif p == np.inf:
@@ -1082,10 +1086,10 @@ def get_adv_noise(
             return np.max(np.max(upper, -2), -1)
 
         if ibp and affine:
-            z, u_c, w_u_f, b_u_f, l_c, w_l_f, b_l_f = output[:7]
-        if not ibp and affine:
-            z, w_u_f, b_u_f, w_l_f, b_l_f = output[:5]
-        if ibp and not affine:
+            _, u_c, w_u_f, b_u_f, l_c, w_l_f, b_l_f = output[:7]
+        elif not ibp and affine:
+            _, w_u_f, b_u_f, w_l_f, b_l_f = output[:5]
+        elif ibp and not affine:
             u_c, l_c = output[:2]
         else:
             raise NotImplementedError("not ibp and not affine not implemented")
@@ -1093,7 +1097,7 @@ def get_adv_noise(
         if ibp:
             adv_ibp = get_ibp_score(u_c, l_c, source_labels, target_labels)
         if affine:
-            adv_f = get_affine_score(z, w_u_f, b_u_f, w_l_f, b_l_f, source_labels, target_labels)
+            adv_f = get_affine_score(x_reshaped, w_u_f, b_u_f, w_l_f, b_l_f, source_labels, target_labels)
 
         if ibp and not affine:
             adv_score = adv_ibp
-- 
2.43.0


From e19f922f2e53357412e88201bf79eeab4786e6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:05 +0000
Subject: [PATCH 12/29] fix: DecomonModel.set_domain updates the input bounds
 and the mode conversions

---
 src/decomon/models/models.py |  3 +++
 src/decomon/models/utils.py  | 43 ++++++++++++++++++++----------------
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/decomon/models/models.py b/src/decomon/models/models.py
index 572ac07..6e9e666 100644
--- a/src/decomon/models/models.py
+++ b/src/decomon/models/models.py
@@ -69,6 +69,9 @@ class DecomonModel(keras.Model):
         for layer in self.layers:
             if hasattr(layer, "perturbation_domain"):
                 layer.perturbation_domain = self.perturbation_domain
+            for spec_name in ("inputs_outputs_spec", "inputs_outputs_spec_from", "inputs_outputs_spec_to"):
+                if hasattr(layer, spec_name):
+                    getattr(layer, spec_name).perturbation_domain = self.perturbation_domain
 
     def freeze_weights(self) -> None:
         for layer in self.layers:
diff --git a/src/decomon/models/utils.py b/src/decomon/models/utils.py
index ccb7540..ca209aa 100644
--- a/src/decomon/models/utils.py
+++ b/src/decomon/models/utils.py
@@ -118,25 +118,10 @@ def get_input_tensors(
             b = K.zeros_like(z_tensor[:, 0])
 
     elif isinstance(perturbation_domain, BallDomain):
-        if perturbation_domain.p == np.inf:
-            radius = perturbation_domain.eps
-            u_c_tensor = Lambda(
-                lambda var: var + K.cast(radius, dtype=model.layers[0].dtype), dtype=model.layers[0].dtype
-            )(z_tensor)
-            if ibp:
-                l_c_tensor = Lambda(
-                    lambda var: var - K.cast(radius, dtype=model.layers[0].dtype), dtype=model.layers[0].dtype
-                )(z_tensor)
-            if affine:
-                W = BatchedIdentityLike()(u_c_tensor)
-                b = K.zeros_like(u_c_tensor)
-
-        else:
-            W = BatchedIdentityLike()(z_tensor)
-            b = K.zeros_like(z_tensor)
-            if ibp:
-                u_c_tensor = perturbation_domain.get_upper(z_tensor, W, b)
-                l_c_tensor = perturbation_domain.get_lower(z_tensor, W, b)
+        W = BatchedIdentityLike()(z_tensor)
+        b = K.zeros_like(z_tensor)
+        if ibp:
+            u_c_tensor, l_c_tensor = InputBounds(perturbation_domain, dtype=z_tensor.dtype)([z_tensor, W, b])
 
     else:
         raise NotImplementedError(f"Not implemented for perturbation domain type {type(perturbation_domain)}")
@@ -286,6 +271,26 @@ def get_inner_layers(model: Model) -> int:
     return count
 
 
+class InputBounds(Layer):
+    """Constant bounds of the model input, given the current perturbation domain."""
+
+    def __init__(self, perturbation_domain: PerturbationDomain, **kwargs: Any):
+        super().__init__(**kwargs)
+        self.perturbation_domain = perturbation_domain
+
+    def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
+        x, w, b = inputs
+        return [self.perturbation_domain.get_upper(x, w, b), self.perturbation_domain.get_lower(x, w, b)]
+
+    def compute_output_shape(self, input_shape: list[tuple[Optional[int], ...]]) -> list[tuple[Optional[int], ...]]:
+        return [input_shape[-1], input_shape[-1]]
+
+    def get_config(self) -> dict[str, Any]:
+        config = super().get_config()
+        config.update({"perturbation_domain": self.perturbation_domain})
+        return config
+
+
 class Convert2Mode(Layer):
     def __init__(
         self,
-- 
2.43.0


From 7ec03e3adf79fb0c2e82daafde768035c6fb0504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:10 +0000
Subject: [PATCH 13/29] fix: reset_finetuning for forward and backward
 activations

---
 src/decomon/backward_layers/backward_layers.py | 12 ++++++++++++
 src/decomon/layers/decomon_layers.py           |  6 +++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index 5ebebc7..79e40c7 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -420,6 +420,18 @@ class BackwardActivation(BackwardLayer):
                         self._trainable_weights += [self.alpha_b_l]
             self.frozen_alpha = False
 
+    def reset_finetuning(self) -> None:
+        if self.finetune and self.activation_name != "linear":
+            if isinstance(self.perturbation_domain, GridDomain):
+                if self.activation_name[:4] == "relu":
+                    alpha_b_l = np.zeros(self.alpha_b_l.shape)
+                    alpha_b_l[0] = 1
+                    self.alpha_b_l.assign(alpha_b_l)
+            else:
+                self.alpha_b_l.assign(np.ones(self.alpha_b_l.shape))
+                if self.activation_name[:4] != "relu":
+                    self.alpha_b_u.assign(np.ones(self.alpha_b_u.shape))
+
     def freeze_grid(self) -> None:
         if len(self.grid_finetune) and not self.frozen_grid:
             self._trainable_weights = self._trainable_weights[2:]
diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index 9d6c1ab..4a8bbbe 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -625,10 +625,10 @@ class DecomonActivation(DecomonLayer, Activation):
         if self.finetune and self.mode != ForwardMode.IBP:
             if self.activation_name != "linear":
                 if self.activation_name[:4] == "relu":
-                    self.beta_l_f.assign(np.ones_like(self.beta_l_f.value()))
+                    self.beta_l_f.assign(K.ones_like(self.beta_l_f))
                 else:
-                    self.beta_u_f.assign(np.ones_like(self.beta_u_f.value()))
-                    self.beta_l_f.assign(np.ones_like(self.beta_l_f.value()))
+                    self.beta_u_f.assign(K.ones_like(self.beta_u_f))
+                    self.beta_l_f.assign(K.ones_like(self.beta_l_f))
 
     def freeze_alpha(self) -> None:
         if not self.frozen_alpha:
-- 
2.43.0


From 72fa5bc886aa6f89c48d5fc2a765e273d32d5dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:21 +0000
Subject: [PATCH 14/29] fix: output of decomon Dot keeps the last axis when
 merging vectors

---
 src/decomon/layers/decomon_merge_layers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/decomon/layers/decomon_merge_layers.py b/src/decomon/layers/decomon_merge_layers.py
index 8838cdb..a4d68e3 100644
--- a/src/decomon/layers/decomon_merge_layers.py
+++ b/src/decomon/layers/decomon_merge_layers.py
@@ -623,6 +623,14 @@ class DecomonDot(DecomonMerge, Dot):
         else:
             w_u_out, b_u_out, w_l_out, b_l_out = empty_tensor, empty_tensor, empty_tensor, empty_tensor
 
+        if n_0 == 0 and n_1 == 0:
+            # dot product of vectors: as in Keras, the output keeps a last axis of size 1
+            if self.ibp:
+                u_c_out, l_c_out = K.expand_dims(u_c_out, -1), K.expand_dims(l_c_out, -1)
+            if self.affine:
+                w_u_out, b_u_out = K.expand_dims(w_u_out, -1), K.expand_dims(b_u_out, -1)
+                w_l_out, b_l_out = K.expand_dims(w_l_out, -1), K.expand_dims(b_l_out, -1)
+
         if self.dc_decomp:
             raise NotImplementedError()
         else:
-- 
2.43.0


From ba8b430d3044603579c596c46477230060dd4317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:56 +0000
Subject: [PATCH 15/29] fix: converted batch normalization shares the weights
 of the original layer when shared=True

---
 src/decomon/layers/decomon_layers.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/decomon/layers/decomon_layers.py b/src/decomon/layers/decomon_layers.py
index 4a8bbbe..f689fea 100644
--- a/src/decomon/layers/decomon_layers.py
+++ b/src/decomon/layers/decomon_layers.py
@@ -810,9 +810,21 @@ class DecomonBatchNormalization(DecomonLayer, BatchNormalization):
         )
 
     def build(self, input_shape: list[tuple[Optional[int], ...]]) -> None:
-        super().build(input_shape)
+        if self.shared:
+            # the weights are those of the original layer: see `share_weights()`
+            self._reduction_axes = list(range(len(input_shape[-1])))
+            del self._reduction_axes[self.axis]
+            self.built = True
+        else:
+            super().build(input_shape)
         self.input_spec = [InputSpec(min_ndim=len(elem)) for elem in input_shape]
 
+    def share_weights(self, layer: Layer) -> None:
+        if not self.shared:
+            return
+        for weight_name in self.keras_weights_names:
+            setattr(self, weight_name, getattr(layer, weight_name))
+
     def call(self, inputs: list[BackendTensor], training: bool = False, **kwargs: Any) -> list[BackendTensor]:
         z_value = K.cast(0.0, self.dtype)
 
-- 
2.43.0


From b9d9e1c7ed9de112b4c5eb5409099789d7602272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:40 +0000
Subject: [PATCH 16/29] fix: backward activations on feature maps (fine-tuned
 relu, sigmoid, tanh, softplus)

---
 src/decomon/backward_layers/activations.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/decomon/backward_layers/activations.py b/src/decomon/backward_layers/activations.py
index 153f1cd..9a4d5c8 100644
--- a/src/decomon/backward_layers/activations.py
+++ b/src/decomon/backward_layers/activations.py
@@ -80,9 +80,9 @@ def backward_relu(
         inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
         x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)
         input_shape = inputs_outputs_spec.get_kerasinputshape(inputs)
-        bounds = get_linear_hull_relu(upper=u_c, lower=l_c, slope=slope, **kwargs)
         dim = int(np.prod(input_shape[1:]))  # type: ignore
-        return [K.reshape(elem, (-1, dim)) for elem in bounds]
+        u_c, l_c = K.reshape(u_c, (-1, dim)), K.reshape(l_c, (-1, dim))
+        return get_linear_hull_relu(upper=u_c, lower=l_c, slope=slope, **kwargs)
 
     raise NotImplementedError()
 
@@ -115,6 +115,8 @@ def backward_sigmoid(
     mode = ForwardMode(mode)
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
     x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)
+    dim = int(np.prod(u_c.shape[1:]))
+    u_c, l_c = K.reshape(u_c, (-1, dim)), K.reshape(l_c, (-1, dim))
     return get_linear_hull_sigmoid(u_c, l_c, slope=slope, **kwargs)
 
 
@@ -146,6 +148,8 @@ def backward_tanh(
     mode = ForwardMode(mode)
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
     x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)
+    dim = int(np.prod(u_c.shape[1:]))
+    u_c, l_c = K.reshape(u_c, (-1, dim)), K.reshape(l_c, (-1, dim))
     return get_linear_hull_tanh(u_c, l_c, slope=slope, **kwargs)
 
 
@@ -322,6 +326,8 @@ def backward_softplus(
     mode = ForwardMode(mode)
     inputs_outputs_spec = InputsOutputsSpec(dc_decomp=dc_decomp, mode=mode, perturbation_domain=perturbation_domain)
     x, u_c, w_u, b_u, l_c, w_l, b_l, h, g = inputs_outputs_spec.get_fullinputs_from_inputsformode(inputs)
+    dim = int(np.prod(u_c.shape[1:]))
+    u_c, l_c = K.reshape(u_c, (-1, dim)), K.reshape(l_c, (-1, dim))
     return get_linear_softplus_hull(u_c, l_c, slope=slope, **kwargs)
 
 
-- 
2.43.0


From c081f357c04ba6f9723839c2fb9f810a5d208d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:20 +0000
Subject: [PATCH 17/29] fix: backward dense and batch normalization of
 multidimensional inputs in pure crown

---
 src/decomon/backward_layers/backward_layers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decomon/backward_layers/backward_layers.py b/src/decomon/backward_layers/backward_layers.py
index 79e40c7..0e26953 100644
--- a/src/decomon/backward_layers/backward_layers.py
+++ b/src/decomon/backward_layers/backward_layers.py
@@ -70,7 +70,7 @@ class BackwardDense(BackwardLayer):
             inputs = self.layer.input
 
         y = inputs[-1]
-        flatten_inputdim_wo_last_dim = int(np.prod(y.shape[1:-1]))
+        flatten_inputdim_wo_last_dim = int(np.prod(y.shape[1:])) // int(self.kernel.shape[0])
         flatten_outputdim = flatten_inputdim_wo_last_dim * self.layer.units
         batchsize = y.shape[0]
 
@@ -604,6 +604,9 @@ class BackwardBatchNormalization(BackwardLayer):
     def call(self, inputs: list[BackendTensor], **kwargs: Any) -> list[BackendTensor]:
         y = inputs[-1]
         n_out = int(np.prod(y.shape[1:]))
+        if len(y.shape) == 2 and n_out != self.layer.moving_mean.shape[0]:
+            # flattened multidimensional input
+            y = K.reshape(y, (-1,) + _get_input_shape_wo_batchsize(self.layer, inputs))
 
         n_dim = len(y.shape)
         shape = [1] * n_dim
-- 
2.43.0


From 94c8cf247cdeaf2b8f17422e3c0aef343209b124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 18/29] fix: adversarial scores with a linear specification and
 several source labels

---
 src/decomon/wrapper.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/decomon/wrapper.py b/src/decomon/wrapper.py
index 8c8b101..f1eab7a 100644
--- a/src/decomon/wrapper.py
+++ b/src/decomon/wrapper.py
@@ -154,6 +154,18 @@ def get_adv_box(
                 ]
             )
 
+    elif decomon_model.backward_bounds and np.max(np.sum(source_labels, -1)) > 1:
+        # several source labels: one specification, hence one call, by source label
+        adv_score = np.max(
+            [
+                np.where(
+                    source_labels[:, k] > 0, get_adv_box(decomon_model, x_min, x_max, k, target_labels, -1), -np.inf
+                )
+                for k in range(source_labels.shape[-1])
+            ],
+            0,
+        )
+
     else:
         ibp = decomon_model.ibp
         affine = decomon_model.affine
-- 
2.43.0


From e24ed2559a2979204121379938d91b80065fe00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 19/29] fix: backward conversion of layers shared by several
 nodes

---
 src/decomon/models/backward_cloning.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/decomon/models/backward_cloning.py b/src/decomon/models/backward_cloning.py
index 89137c7..24d7052 100644
--- a/src/decomon/models/backward_cloning.py
+++ b/src/decomon/models/backward_cloning.py
@@ -74,6 +74,12 @@ def retrieve_layer(
         backward_layer = backward_map[id(node)]
     else:
         backward_layer = layer_fn(node.operation)
+        # layers shared by several nodes: the names must remain unique in the converted model
+        used_names = {layer.name for layer in backward_map.values()}
+        name, count = backward_layer.name, 0
+        while backward_layer.name in used_names:
+            count += 1
+            backward_layer.name = f"{name}_{count}"
         if joint:
             backward_map[id(node)] = backward_layer
     return backward_layer
-- 
2.43.0


From 977d7dbc8e55cbb7dd6487c480c1fdf1cd00e536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:59 +0000
Subject: [PATCH 20/29] fix: permute_dimensions of affine bounds permutes the
 right axis (Dot with affine bounds)

---
 src/decomon/layers/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index b8261ce..9cdf87a 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -559,10 +559,12 @@ def permute_dimensions(
     if len(input_shape) <= 2:
         # not enough dim to permute
         return inputs
+    if axis < 0:
+        axis += len(input_shape)
     index_np = np.arange(len(input_shape))
     index = tuple(np.insert(np.delete(index_np, axis), axis_perm, axis))
     index_w_np = np.arange(len(input_shape) + 1)
-    index_w = tuple(np.insert(np.delete(index_w_np, axis), axis_perm + 1, axis))
+    index_w = tuple(np.insert(np.delete(index_w_np, axis + 1), axis_perm + 1, axis + 1))
 
     if ibp:
         u_c_out = K.transpose(u_c, index)
-- 
2.43.0


From f3f5b91e8b5dbdbab49b3c7740b9523ed0e63f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:59 +0000
Subject: [PATCH 21/29] fix: split and sort of bounds with Keras 3

---
 src/decomon/layers/utils.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 9cdf87a..5dc3bd0 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -685,19 +685,19 @@ def split(
     empty_tensor_list = [empty_tensor] * n
 
     if ibp:
-        u_c_list = K.split(u_c, num_or_size_splits=n, axis=axis)
-        l_c_list = K.split(l_c, num_or_size_splits=n, axis=axis)
+        u_c_list = K.split(u_c, n, axis=axis)
+        l_c_list = K.split(l_c, n, axis=axis)
     else:
         u_c_list, l_c_list = empty_tensor_list, empty_tensor_list
 
     if affine:
-        b_u_list = K.split(b_u, num_or_size_splits=n, axis=axis)
-        b_l_list = K.split(b_l, num_or_size_splits=n, axis=axis)
+        b_u_list = K.split(b_u, n, axis=axis)
+        b_l_list = K.split(b_l, n, axis=axis)
 
         if axis != -1:
             axis += 1
-        w_u_list = K.split(w_u, num_or_size_splits=n, axis=axis)
-        w_l_list = K.split(w_l, num_or_size_splits=n, axis=axis)
+        w_u_list = K.split(w_u, n, axis=axis)
+        w_l_list = K.split(w_l, n, axis=axis)
     else:
         w_u_list, b_u_list, w_l_list, b_l_list = (
             empty_tensor_list,
@@ -765,7 +765,7 @@ def sort(
     empty_tensor_list = [empty_tensor] * n
 
     # what about splitting elements
-    op_split = lambda x: K.split(x, n, axis=axis)
+    op_split = lambda x: list(K.split(x, n, axis=axis))
     if ibp:
         u_c_list = op_split(u_c)
         l_c_list = op_split(l_c)
@@ -773,9 +773,9 @@ def sort(
         u_c_list, l_c_list = empty_tensor_list, empty_tensor_list
 
     if affine:
-        w_u_list = K.split(w_u, n, axis=axis + 1)
+        w_u_list = list(K.split(w_u, n, axis=axis + 1))
         b_u_list = op_split(b_u)
-        w_l_list = K.split(w_l, n, axis=axis + 1)
+        w_l_list = list(K.split(w_l, n, axis=axis + 1))
         b_l_list = op_split(b_l)
     else:
         w_u_list, b_u_list, w_l_list, b_l_list = (
-- 
2.43.0


From 808c2b295a629372cadbfe48d2e3cd3b3541d60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:59 +0000
Subject: [PATCH 22/29] fix: abs is relu(x) + relu(-x)

---
 src/decomon/layers/utils.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/decomon/layers/utils.py b/src/decomon/layers/utils.py
index 5dc3bd0..a118cd3 100644
--- a/src/decomon/layers/utils.py
+++ b/src/decomon/layers/utils.py
@@ -901,15 +901,11 @@ def abs(
     if perturbation_domain is None:
         perturbation_domain = BoxDomain()
     inputs_0 = relu_(inputs, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain, mode=mode)
-    inputs_1 = minus(
-        relu_(
-            minus(inputs, mode=mode, perturbation_domain=perturbation_domain),
-            dc_decomp=dc_decomp,
-            perturbation_domain=perturbation_domain,
-            mode=mode,
-        ),
-        mode=mode,
+    inputs_1 = relu_(
+        minus(inputs, mode=mode, perturbation_domain=perturbation_domain),
+        dc_decomp=dc_decomp,
         perturbation_domain=perturbation_domain,
+        mode=mode,
     )
 
     return add(inputs_0, inputs_1, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain, mode=mode)
-- 
2.43.0


From 31c0e4cc8251076c314eb472b0bc863eaf16a3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:59 +0000
Subject: [PATCH 23/29] fix: backward_minimum is the opposite of the maximum of
 the opposites

---
 src/decomon/backward_layers/utils.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/decomon/backward_layers/utils.py b/src/decomon/backward_layers/utils.py
index 1b6094e..1e09370 100644
--- a/src/decomon/backward_layers/utils.py
+++ b/src/decomon/backward_layers/utils.py
@@ -379,13 +379,13 @@ def backward_minimum(
 
     if perturbation_domain is None:
         perturbation_domain = BoxDomain()
-    w_u_out, b_u_out, w_l_out, b_l_out = backward_minus(w_u_out, b_u_out, w_l_out, b_l_out)
+    # minimum(x_0, x_1) = - maximum(-x_0, -x_1)
     bounds_0, bounds_1 = backward_maximum(
-        inputs_0,
-        inputs_1,
-        w_u_out,
+        minus(inputs_0, mode=mode, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain),
+        minus(inputs_1, mode=mode, dc_decomp=dc_decomp, perturbation_domain=perturbation_domain),
+        -w_u_out,
         b_u_out,
-        w_l_out,
+        -w_l_out,
         b_l_out,
         perturbation_domain=perturbation_domain,
         mode=mode,
@@ -396,8 +396,8 @@ def backward_minimum(
     w_u_out_0, b_u_out_0, w_l_out_0, b_l_out_0 = bounds_0
     w_u_out_1, b_u_out_1, w_l_out_1, b_l_out_1 = bounds_1
 
-    bounds_0 = backward_minus(w_u_out_0, b_u_out_0, w_l_out_0, b_l_out_0)
-    bounds_1 = backward_minus(w_u_out_1, b_u_out_1, w_l_out_1, b_l_out_1)
+    bounds_0 = [-w_u_out_0, b_u_out_0, -w_l_out_0, b_l_out_0]
+    bounds_1 = [-w_u_out_1, b_u_out_1, -w_l_out_1, b_l_out_1]
 
     return [bounds_0, bounds_1]
 
-- 
2.43.0


From 143a2beed185d7947748f2cd4c023e806e29e67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:59 +0000
Subject: [PATCH 24/29] fix: backward average of three operands or more

---
 src/decomon/backward_layers/backward_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decomon/backward_layers/backward_merge.py b/src/decomon/backward_layers/backward_merge.py
index 0a9028a..6a87a1a 100644
--- a/src/decomon/backward_layers/backward_merge.py
+++ b/src/decomon/backward_layers/backward_merge.py
@@ -228,7 +228,7 @@ class BackwardAverage(BackwardMerge):
                 if j == 1:
                     inputs_0 = inputs_list[0]
                 else:
-                    inputs_0 = self.op(list(chain(*inputs_list[: (j - 1)])))  # merge (j-1) first inputs
+                    inputs_0 = self.op(list(chain(*inputs_list[:j])))  # merge j first inputs
                 bounds_0, bounds_1 = backward_add(
                     inputs_0,
                     inputs_1,
-- 
2.43.0


From d2337a2a5fd5e327d4454b08e454dbed7871ec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 25/29] fix: affine bounds converted from constant bounds are
 returned with the model input

---
 src/decomon/models/convert.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decomon/models/convert.py b/src/decomon/models/convert.py
index 2fc6644..d2f210b 100644
--- a/src/decomon/models/convert.py
+++ b/src/decomon/models/convert.py
@@ -242,6 +242,10 @@ def clone(
         final_affine=final_affine,
     )
 
+    if final_affine and not affine:
+        # constant bounds converted into affine bounds: these are given w.r.t. the model input
+        output[0] = z_tensor
+
     back_bounds_from_inputs = [elem for elem in back_bounds if isinstance(elem._keras_history.operation, InputLayer)]
 
     return DecomonModel(
-- 
2.43.0


From 0448746addd5f4c6bd1b473dacb11e3106fd7d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 26/29] fix: shapes declared for affine bounds converted from
 constant bounds

---
 src/decomon/core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/decomon/core.py b/src/decomon/core.py
index 74790f4..75b0b3c 100644
--- a/src/decomon/core.py
+++ b/src/decomon/core.py
@@ -233,7 +233,10 @@ class InputsOutputsSpec:
                 batchsize = u_c_shape[0]
                 x_shape = (batchsize,) + self.perturbation_domain.get_x_input_shape_wo_batchsize(self.model_input_dim)
                 b_shape = tuple(u_c_shape)
-                w_shape = tuple(u_c_shape) + (u_c_shape[-1],)
+                if self.model_input_dim > 0:
+                    w_shape = (batchsize, self.model_input_dim) + b_shape[1:]
+                else:
+                    w_shape = b_shape + (b_shape[-1],)
                 x_shape, w_u_shape, b_u_shape, w_l_shape, b_l_shape = (
                     x_shape,
                     w_shape,
@@ -258,7 +261,10 @@ class InputsOutputsSpec:
                 batchsize = u_c_shape[0]
                 x_shape = (batchsize,) + self.perturbation_domain.get_x_input_shape_wo_batchsize(self.model_input_dim)
                 b_shape = tuple(u_c_shape)
-                w_shape = tuple(u_c_shape) + (u_c_shape[-1],)
+                if self.model_input_dim > 0:
+                    w_shape = (batchsize, self.model_input_dim) + b_shape[1:]
+                else:
+                    w_shape = b_shape + (b_shape[-1],)
                 x_shape, w_u_shape, b_u_shape, w_l_shape, b_l_shape = (
                     x_shape,
                     w_shape,
-- 
2.43.0


From c9f9a952fcb8a1ce2bf1370c1fa1199fdda91fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 27/29] fix: losses on ball domains

---
 src/decomon/metrics/loss.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/decomon/metrics/loss.py b/src/decomon/metrics/loss.py
index fce6797..fa529f6 100644
--- a/src/decomon/metrics/loss.py
+++ b/src/decomon/metrics/loss.py
@@ -121,7 +121,7 @@ def get_upper_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             u_c = y_pred[:, :, 0]
 
         elif mode == ForwardMode.AFFINE:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-1, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-1, 0]
@@ -130,7 +130,7 @@ def get_upper_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             b_u = y_pred[:, -1, n_comp : n_comp + n_out]
 
         elif mode == ForwardMode.HYBRID:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-2, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-2, 0]
@@ -183,7 +183,7 @@ def get_lower_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             l_c = y_pred[:, :, 1]
 
         elif mode == ForwardMode.AFFINE:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-1, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-1, 0]
@@ -192,7 +192,7 @@ def get_lower_loss(model: DecomonModel) -> Callable[[Tensor, Tensor], Tensor]:
             b_l = y_pred[:, -1, n_comp + n_out :]
 
         elif mode == ForwardMode.HYBRID:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-2, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-2, 0]
@@ -281,7 +281,7 @@ def get_adv_loss(
                 u_c, l_c = softmax_([u_c, l_c], mode=mode, perturbation_domain=perturbation_domain, clip=False)
 
         elif mode == ForwardMode.AFFINE:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-1, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-1, 0]
@@ -297,7 +297,7 @@ def get_adv_loss(
                 )
 
         elif mode == ForwardMode.HYBRID:
-            if len(y_pred.shape) == 3:
+            if n_comp > 1:
                 x_0 = K.transpose(y_pred[:, :-2, :n_comp], (0, 2, 1))
             else:
                 x_0 = y_pred[:, :-2, 0]
-- 
2.43.0


From 30bc8893936a94389b3fdbd43beeb35ac7ee23c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 28/29] fix: adversarial loss applies the softmax only when
 asked to, with hybrid bounds too

---
 src/decomon/metrics/loss.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decomon/metrics/loss.py b/src/decomon/metrics/loss.py
index fa529f6..925f9bd 100644
--- a/src/decomon/metrics/loss.py
+++ b/src/decomon/metrics/loss.py
@@ -309,9 +309,10 @@ def get_adv_loss(
             u_c = y_pred[:, -1, n_comp : n_comp + n_out]
             l_c = y_pred[:, -1, n_comp + n_out :]
 
-            _, u_c, w_u, b_u, l_c, w_l, b_l = softmax_(
-                [x_0, u_c, w_u, b_u, l_c, w_l, b_l], mode=mode, perturbation_domain=perturbation_domain, clip=False
-            )
+            if softmax:
+                _, u_c, w_u, b_u, l_c, w_l, b_l = softmax_(
+                    [x_0, u_c, w_u, b_u, l_c, w_l, b_l], mode=mode, perturbation_domain=perturbation_domain, clip=False
+                )
 
         else:
             raise ValueError(f"Unknown mode {mode}")
-- 
2.43.0


From d82674cf2fceab406a5f32a34d7d04d89f8833c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 29/29] fix: crossentropy models use the perturbation domain of
 the converted network

---
 src/decomon/metrics/loss.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/decomon/metrics/loss.py b/src/decomon/metrics/loss.py
index 925f9bd..a7f2ddf 100644
--- a/src/decomon/metrics/loss.py
+++ b/src/decomon/metrics/loss.py
@@ -603,7 +603,9 @@ def build_crossentropy_model(model: DecomonModel) -> DecomonModel:
     inputs = model.input
     output = model.output
 
-    layer_fusion = DecomonLossFusion(mode=mode, backward=model.backward_bounds)
+    layer_fusion = DecomonLossFusion(
+        mode=mode, perturbation_domain=perturbation_domain, backward=model.backward_bounds
+    )
     output_fusion = layer_fusion(output, mode=mode)
 
     return DecomonModel(
@@ -627,7 +629,7 @@ def build_asymptotic_crossentropy_model(model: DecomonModel) -> DecomonModel:
     inputs = model.input
     output = model.output
 
-    layer_fusion = DecomonLossFusion(mode=mode, asymptotic=True)
+    layer_fusion = DecomonLossFusion(mode=mode, perturbation_domain=perturbation_domain, asymptotic=True)
     output_fusion = layer_fusion(output, mode=mode)
 
     return DecomonModel(
-- 
2.43.0

