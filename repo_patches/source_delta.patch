From f39cab91b4262b62d027077e31e382f2831954bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:03 +0000
Subject: [PATCH 01/67] fix: Tensor.max/min with **kwargs crashed the converter

---
 paconvert/api_matcher.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index d9baa11..1156daa 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -1351,6 +1351,8 @@ class TensorMaxMatcher(BaseMatcher):
         self.parse_func(func)
         new_args = self.parse_args(args)
         new_kwargs = self.parse_kwargs(kwargs)
+        if new_kwargs is None:
+            return None
         if len(new_args) + len(new_kwargs) > 2:
             return "misidentify"
 
@@ -1413,6 +1415,8 @@ class TensorMinMatcher(BaseMatcher):
         self.parse_func(func)
         new_args = self.parse_args(args)
         new_kwargs = self.parse_kwargs(kwargs)
+        if new_kwargs is None:
+            return None
         if len(new_args) + len(new_kwargs) > 2:
             return "misidentify"
 
-- 
2.43.0


From 56c689473ac93bcd52f41992428bd02255715eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:03 +0000
Subject: [PATCH 02/67] fix: torch.testing.make_tensor with **kwargs crashed
 the converter

---
 paconvert/api_matcher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 1156daa..0fd9611 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -948,6 +948,8 @@ class AssertMatcher(BaseMatcher):
 class MakeTMatcher(BaseMatcher):
     def get_paddle_nodes(self, args, kwargs):
         kwargs = self.parse_kwargs(kwargs)
+        if kwargs is None:
+            return None
         if "shape" not in kwargs:
             if len(args) > 1 or (len(args) == 1 and isinstance(args[0], ast.Constant)):
                 shape = self.parse_args(args)
-- 
2.43.0


From 122454c4cd5e404bf4e23e8cda55d45bf8782779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:03 +0000
Subject: [PATCH 03/67] fix: OneCycleLR with final_div_factor but no div_factor
 crashed the converter

---
 paconvert/api_matcher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 0fd9611..e9eac7b 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -4172,7 +4172,7 @@ class ConstantLRMatcher(LRSchedulerMatcher):
 
 class OneCycleLRMatcher(LRSchedulerMatcher):
     def generate_code(self, kwargs):
-        if "total_steps" in kwargs and "None" not in kwargs["total_steps"]:
+        if "total_steps" in kwargs and kwargs["total_steps"] != "None":
             pass
         else:
             steps_per_epoch = kwargs.pop("steps_per_epoch")
@@ -4182,7 +4182,7 @@ class OneCycleLRMatcher(LRSchedulerMatcher):
         if "final_div_factor" in kwargs:
             final_div_factor = kwargs.pop("final_div_factor")
             max_lr = kwargs["max_lr"]
-            div_factor = kwargs["div_factor"]
+            div_factor = kwargs.get("div_factor", "25.0")
             kwargs["end_learning_rate"] = "({}) * 1. /(({}) * {})".format(
                 max_lr, div_factor, final_div_factor
             )
-- 
2.43.0


From 3141e7b60418856a0a331a3ca746a811b91b05a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:03 +0000
Subject: [PATCH 04/67] fix: chain_matmul(a, *rest) generated code that does
 not parse

---
 paconvert/api_matcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index e9eac7b..a50803c 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -3262,7 +3262,7 @@ class Num2TensorBinaryMatcher(BaseMatcher):
 
 class Chain_MatmulMatcher(BaseMatcher):
     def get_paddle_nodes(self, args, kwargs):
-        if len(args) == 1 and isinstance(args[0], ast.Starred):
+        if len(args) == 0 or any(isinstance(arg, ast.Starred) for arg in args):
             return None
         new_args = self.parse_args(args)
         new_kwargs = self.parse_kwargs(kwargs)
-- 
2.43.0


From 7f16d3070b1d3e1db77008d7cd238ec00165757b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:03 +0000
Subject: [PATCH 05/67] fix: Tensor.type(non_blocking=...) without dtype
 crashed the converter

---
 paconvert/api_matcher.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index a50803c..d355df0 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -2079,8 +2079,10 @@ class TensorTypeMatcher(BaseMatcher):
             # For torch.nn.Module.type, torch.nn.Module.type use torch.Tensor.type
             if "dst_type" in kwargs:
                 code = f"{self.paddleClass}.astype({kwargs['dst_type']})"
-            else:
+            elif "dtype" in kwargs:
                 code = f"{self.paddleClass}.astype({kwargs['dtype']})"
+            else:
+                code = f"str({self.paddleClass}.dtype)"
         return code
 
 
-- 
2.43.0


From c1ad82f01cf03ca43575a228404a9e7468956e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:46 +0000
Subject: [PATCH 06/67] fix: CppExtension/CUDAExtension with extra positional
 arguments generated code that does not parse

---
 paconvert/api_matcher.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index d355df0..6e80031 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -5963,6 +5963,9 @@ class CUDAAndCppExtensionMatcher(GenericMatcher):
 
         for i, node in enumerate(args):
             k = args_list[i]
+            # not support 'CppExtension("name", ["a.cc"], *args)'
+            if k.startswith("*") or isinstance(node, ast.Starred):
+                return None
             v = astor.to_source(node).strip("\n")
             new_kwargs[k] = v
 
-- 
2.43.0


From ac6abcffa85bb57cdf5d1d4ae005838e63a6a757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:46 +0000
Subject: [PATCH 07/67] fix: torchvision models called with *args lost the
 arguments

---
 paconvert/api_matcher.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 6e80031..c232449 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -5480,6 +5480,9 @@ class WeightsMatcher(BaseMatcher):
 
         for i, node in enumerate(args):
             k = args_list[i]
+            # not support 'resnet18(*args)'
+            if k.startswith("*") or isinstance(node, ast.Starred):
+                return None
             v = astor.to_source(node).strip("\n")
             new_kwargs[k] = v
 
-- 
2.43.0


From 63c5853fecf18abff4319e3f00c379ac35622a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:46 +0000
Subject: [PATCH 08/67] fix: setup() of a cpp extension without name crashed
 the converter

---
 paconvert/api_matcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index c232449..9101d58 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -4730,7 +4730,8 @@ class SetUpMatcher(BaseMatcher):
 
         kwargs.pop("cmdclass")
         global CPP_EXTENSION_LIST
-        CPP_EXTENSION_LIST.append(kwargs["name"].strip('"'))
+        if "name" in kwargs:
+            CPP_EXTENSION_LIST.append(kwargs["name"].strip('"'))
         return ast.parse(
             "paddle.utils.cpp_extension.setup({})".format(self.kwargs_to_str(kwargs))
         )
-- 
2.43.0


From e280ff3296783112df0f6916b7d755034479b3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:46 +0000
Subject: [PATCH 09/67] fix: torch.autograd.Function.backward had no
 replacement API and crashed the converter

---
 paconvert/api_mapping.json | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/paconvert/api_mapping.json b/paconvert/api_mapping.json
index 135abe6..0dbab39 100644
--- a/paconvert/api_mapping.json
+++ b/paconvert/api_mapping.json
@@ -2985,15 +2985,8 @@
     "Matcher": "ChangePrefixMatcher"
   },
   "torch.autograd.Function.backward": {
-    "Matcher": "GenericMatcher",
-    "args_list": [
-      "ctx",
-      "*grad_outputs"
-    ],
-    "kwargs_change": {
-      "grad_outputs": "args"
-    },
-    "abstract": true,
+    "Matcher": "ChangeAPIMatcher",
+    "paddle_api": "paddle.autograd.PyLayer.backward",
     "min_input_args": 1
   },
   "torch.autograd.Function.forward": {
-- 
2.43.0


From 520c54db213cf3d05a1c75c41cb91b1bec14fb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:46 +0000
Subject: [PATCH 10/67] fix: Tensor methods called through the class crashed
 the converter or lost the receiver

---
 paconvert/transformer/basic_transformer.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index e804dfb..694a7cf 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -478,7 +478,24 @@ class BasicTransformer(BaseTransformer):
                 self.all_api_map[torch_api]["paddle_api"] = (
                     matcher.get_paddle_api() if matcher.get_paddle_api() else ""
                 )
-                node_list = matcher.get_paddle_nodes(node.args, node.keywords)
+                if (
+                    torch_api.startswith("torch.Tensor.")
+                    and len(node.args) > 0
+                    and not isinstance(node.args[0], ast.Starred)
+                    and not isinstance(matcher, (ChangePrefixMatcher, ChangeAPIMatcher))
+                ):
+                    # torch.Tensor.sort(x, 0) is x.sort(0)
+                    node_list = matcher.get_paddle_class_nodes(
+                        ast.Attribute(
+                            value=node.args[0],
+                            attr=torch_api.split(".")[-1],
+                            ctx=ast.Load(),
+                        ),
+                        node.args[1:],
+                        node.keywords,
+                    )
+                else:
+                    node_list = matcher.get_paddle_nodes(node.args, node.keywords)
                 if node_list == "delete":
                     if isinstance(self.parent_node, ast.Expr):
                         self.success_api_count += 1
-- 
2.43.0


From c142a3dcd16b1b4e599739d110ce62ab9167016d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:41 +0000
Subject: [PATCH 11/67] fix: Tensor.triangular_solve(self, upper=...) crashed
 the converter

---
 paconvert/api_matcher.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 9101d58..d7d8239 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -3100,6 +3100,9 @@ class TriangularSolveMatcher(BaseMatcher):
 
 class TensorTriangularSolveMatcher(BaseMatcher):
     def generate_code(self, kwargs):
+        if "A" not in kwargs:
+            # x.triangular_solve(self, ...) in a class, self is taken as receiver
+            return "misidentify"
         kwargs["input"] = self.paddleClass
         return TriangularSolveMatcher.generate_code(self, kwargs)
 
-- 
2.43.0


From 6481d1bebb43ed7e1295afb5718350336f452163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:41 +0000
Subject: [PATCH 12/67] fix: torch.utils.data.dataloader.DataLoader was both
 alias and API and crashed the converter

---
 paconvert/api_alias_mapping.json | 1 -
 1 file changed, 1 deletion(-)

diff --git a/paconvert/api_alias_mapping.json b/paconvert/api_alias_mapping.json
index 2e3de92..8cb5417 100644
--- a/paconvert/api_alias_mapping.json
+++ b/paconvert/api_alias_mapping.json
@@ -143,7 +143,6 @@
   "torch.torch.finfo": "torch.finfo",
   "torch.torch.tril": "torch.tril",
   "torch.trapz": "torch.trapezoid",
-  "torch.utils.data.dataloader.DataLoader": "torch.utils.data.DataLoader",
   "torch.utils.data.sampler.SubsetRandomSampler": "torch.utils.data.SubsetRandomSampler",
   "torch.utils.data.sampler.WeightedRandomSampler": "torch.utils.data.WeightedRandomSampler",
   "torch.utils.model_zoo.load_url": "torch.hub.load_state_dict_from_url",
-- 
2.43.0


From 931d8d6b295de75765bd2509f297be1a561cafdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:46 +0000
Subject: [PATCH 13/67] fix: requires_grad/non_blocking/some expressions lost
 their parentheses when negated

---
 paconvert/api_matcher.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index d7d8239..b296452 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -122,7 +122,7 @@ class GenericMatcher(BaseMatcher):
 
         stop_gradient_v = "None"
         if "requires_grad" in kwargs and "requires_grad" not in kwargs_change_value:
-            stop_gradient_v = "not " + kwargs.pop("requires_grad").strip("()")
+            stop_gradient_v = "not " + kwargs.pop("requires_grad")
 
         out_v = "None"
         if "out" in kwargs and "out" not in kwargs_change_value:
@@ -1832,7 +1832,7 @@ class TensorNew_Matcher(BaseMatcher):
 
         stop_gradient_v = None
         if "requires_grad" in kwargs:
-            stop_gradient_v = "not " + kwargs.pop("requires_grad").strip("()")
+            stop_gradient_v = "not " + kwargs.pop("requires_grad")
 
         pin_memory_v = False
         if "pin_memory" in kwargs and kwargs.pop("pin_memory") == "(True)":
@@ -1876,7 +1876,7 @@ class TensorNewFullMatcher(BaseMatcher):
 
         stop_gradient_v = None
         if "requires_grad" in kwargs:
-            stop_gradient_v = "not " + kwargs.pop("requires_grad").strip("()")
+            stop_gradient_v = "not " + kwargs.pop("requires_grad")
 
         pin_memory_v = False
         if "pin_memory" in kwargs and kwargs.pop("pin_memory") == "(True)":
@@ -1915,7 +1915,7 @@ class TensorNewTensorMatcher(BaseMatcher):
             kwargs.pop("device")
 
         if "requires_grad" in kwargs:
-            kwargs["stop_gradient"] = "not " + kwargs.pop("requires_grad").strip("()")
+            kwargs["stop_gradient"] = "not " + kwargs.pop("requires_grad")
 
         if "pin_memory" in kwargs and kwargs.pop("pin_memory") == "(True)":
             kwargs["place"] = "paddle.CUDAPinnedPlace()"
@@ -1935,7 +1935,7 @@ class TorchTensorMatcher(BaseMatcher):
             if "cuda" in kwargs["place"]:
                 kwargs["place"] = kwargs["place"].replace("cuda", "gpu")
         if "requires_grad" in kwargs:
-            kwargs["stop_gradient"] = "not " + kwargs.pop("requires_grad").strip("()")
+            kwargs["stop_gradient"] = "not " + kwargs.pop("requires_grad")
 
         if "pin_memory" in kwargs and kwargs.pop("pin_memory") == "(True)":
             kwargs["place"] = "paddle.CUDAPinnedPlace()"
@@ -2571,7 +2571,7 @@ class TensorToMatcher(BaseMatcher):
         if "memory_format" in new_kwargs:
             new_kwargs.pop("memory_format")
         if "non_blocking" in new_kwargs:
-            new_kwargs["blocking"] = "not " + new_kwargs.pop("non_blocking").strip("()")
+            new_kwargs["blocking"] = "not " + new_kwargs.pop("non_blocking")
         if "device" in new_kwargs:
             if "cuda" in new_kwargs["device"]:
                 new_kwargs["device"] = new_kwargs["device"].replace("cuda", "gpu")
@@ -4370,7 +4370,7 @@ class SvdMatcher(BaseMatcher):
             kwargs["x"] = self.paddleClass
 
         if "some" in kwargs:
-            kwargs["full_matrices"] = "not " + kwargs.pop("some").strip("()")
+            kwargs["full_matrices"] = "not " + kwargs.pop("some")
 
         if "out" in kwargs and kwargs["out"] != "None":
             out_v = kwargs.pop("out")
-- 
2.43.0


From 3234279593fc132daf3aeefd6600809b1c012be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:46 +0000
Subject: [PATCH 14/67] fix: RNN/LSTM/RNNBase ignored bidirectional given as an
 expression

---
 paconvert/api_matcher.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index b296452..52cc504 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -3711,9 +3711,13 @@ class RNNMatcher(BaseMatcher):
         kwargs["time_major"] = f"not {batch_first}"
 
         if "bidirectional" in kwargs:
-            if "(True)" == kwargs["bidirectional"]:
+            bidirectional = kwargs.pop("bidirectional")
+            if "(True)" == bidirectional:
                 kwargs["direction"] = "'bidirect'"
-            kwargs.pop("bidirectional")
+            elif "(False)" != bidirectional:
+                kwargs["direction"] = "'bidirect' if {} else 'forward'".format(
+                    bidirectional
+                )
 
         return GenericMatcher.generate_code(self, kwargs)
 
@@ -3728,9 +3732,11 @@ class RNNBaseMatcher(BaseMatcher):
 
         direction = "'forward'"
         if "bidirectional" in kwargs:
-            if "True" in kwargs["bidirectional"]:
+            bidirectional = kwargs.pop("bidirectional")
+            if "(True)" == bidirectional:
                 direction = "'bidirect'"
-            kwargs.pop("bidirectional")
+            elif "(False)" != bidirectional:
+                direction = "'bidirect' if {} else 'forward'".format(bidirectional)
         kwargs["direction"] = direction
 
         return GenericMatcher.generate_code(self, kwargs)
-- 
2.43.0


From 6ac0fc556c91fde7b48cd8d84bdae0d51fba11b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:46 +0000
Subject: [PATCH 15/67] fix: Tensor.qr(some=...) selected the opposite mode and
 ignored expressions

---
 paconvert/api_matcher.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 52cc504..05b9b37 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -4346,7 +4346,12 @@ class QrMatcher(BaseMatcher):
         out_v = kwargs.pop("out") if "out" in kwargs else None
 
         if some_v:
-            kwargs["mode"] = "'complete'" if some_v != "(False)" else "'reduced'"
+            if some_v == "(True)":
+                kwargs["mode"] = "'reduced'"
+            elif some_v == "(False)":
+                kwargs["mode"] = "'complete'"
+            else:
+                kwargs["mode"] = "'reduced' if {} else 'complete'".format(some_v)
 
         if out_v:
             kwargs["x"] = kwargs.pop("input")
-- 
2.43.0


From 6ca0774e76dc8310987f70be08440a91f8c87e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:11 +0000
Subject: [PATCH 16/67] fix: make_tensor shape expressions containing quotes
 were garbled

---
 paconvert/api_matcher.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 05b9b37..50115ca 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -957,7 +957,9 @@ class MakeTMatcher(BaseMatcher):
                 shape = astor.to_source(args[0].value).strip("\n")
             else:
                 shape = self.parse_args(args)[0]
-            kwargs = {"shape": str(shape).replace("'", ""), **kwargs}
+            if isinstance(shape, list):
+                shape = "[{}]".format(", ".join(shape))
+            kwargs = {"shape": shape, **kwargs}
 
         if "dtype" not in kwargs:
             kwargs["dtype"] = "float32"
-- 
2.43.0


From 9634f45f3f042651b7479c7d81ed93ec98f7c058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:51 +0000
Subject: [PATCH 17/67] fix: index_copy took some dim variables for the literal
 0

---
 paconvert/api_matcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 50115ca..857b547 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -2450,7 +2450,7 @@ class IndexCopyMatcher(BaseMatcher):
         if "out" in kwargs:
             out_v = kwargs.pop("out")
 
-        if kwargs["dim"][1:-1].isdigit() and int(kwargs["dim"][1:-1]) == 0:
+        if kwargs["dim"] == "(0)":
             if out_v:
                 code = "paddle.assign(paddle.scatter({}, {}, {}), {})".format(
                     kwargs["input"], kwargs["index"], kwargs["source"], out_v
-- 
2.43.0


From c1d09399601b442065fbabf64166e202b7d09333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:08 +0000
Subject: [PATCH 18/67] fix: index_copy generated an undefined name, assigned
 to the input and crashed on non-assignable inputs

---
 paconvert/api_matcher.py | 68 ++++++++++++++--------------------------
 1 file changed, 24 insertions(+), 44 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 857b547..c9811ee 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -2461,55 +2461,35 @@ class IndexCopyMatcher(BaseMatcher):
                 )
             return code
 
+        result = "paddle.scatter({x}, {temp_index}, {new_t}).reshape({temp_shape})"
         if out_v:
-            API_TEMPLATE = textwrap.dedent(
+            result = "paddle.assign(" + result + ", {out})"
+        API_TEMPLATE = (
+            textwrap.dedent(
                 """
-                times, temp_shape, temp_index = paddle.prod(paddle.to_tensor({}.shape[:{}])), {}.shape, {}
-                {}, new_t = {}.reshape([-1] + temp_shape[{}+1:]), {}.reshape([-1] + temp_shape[{}+1:])
-                for i in range(1, times):
-                    temp_index= paddle.concat([temp_index, index+len(index)*i])
-                paddle.assign(paddle.scatter({}, temp_index, new_t).reshape(temp_shape), {})
+                {times}, {temp_shape}, {index} = paddle.prod(paddle.to_tensor({input_v}.shape[:{dim}])), {input_v}.shape, {index_v}
+                {x}, {new_t}, {temp_index} = {input_v}.reshape([-1] + {temp_shape}[{dim}+1:]), {source}.reshape([-1] + {temp_shape}[{dim}+1:]), {index}
+                for {i} in range(1, {times}):
+                    {temp_index} = paddle.concat([{temp_index}, {index}+len({index})*{i}])
                 """
             )
+            + result
+        )
 
-            code = API_TEMPLATE.format(
-                kwargs["input"],
-                kwargs["dim"],
-                kwargs["input"],
-                kwargs["index"],
-                kwargs["input"],
-                kwargs["input"],
-                kwargs["dim"],
-                kwargs["source"],
-                kwargs["dim"],
-                kwargs["input"],
-                out_v,
-            )
-        else:
-            API_TEMPLATE = textwrap.dedent(
-                """
-                times, temp_shape, temp_index = paddle.prod(paddle.to_tensor({}.shape[:{}])), {}.shape, {}
-                {}, new_t = {}.reshape([-1] + temp_shape[{}+1:]), {}.reshape([-1] + temp_shape[{}+1:])
-                for i in range(1, times):
-                    temp_index= paddle.concat([temp_index, index+len(index)*i])
-                paddle.scatter({}, temp_index, new_t).reshape(temp_shape)
-                """
-            )
-
-            code = API_TEMPLATE.format(
-                kwargs["input"],
-                kwargs["dim"],
-                kwargs["input"],
-                kwargs["index"],
-                kwargs["input"],
-                kwargs["input"],
-                kwargs["dim"],
-                kwargs["source"],
-                kwargs["dim"],
-                kwargs["input"],
-            )
-
-        return code
+        return API_TEMPLATE.format(
+            times=get_unique_name("times"),
+            temp_shape=get_unique_name("temp_shape"),
+            index=get_unique_name("index"),
+            x=get_unique_name("x"),
+            new_t=get_unique_name("new_t"),
+            temp_index=get_unique_name("temp_index"),
+            i=get_unique_name("i"),
+            input_v=kwargs["input"],
+            dim=kwargs["dim"],
+            index_v=kwargs["index"],
+            source=kwargs["source"],
+            out=out_v,
+        )
 
 
 class ReverseMomentumMatcher(BaseMatcher):
-- 
2.43.0


From 35b3f7d6b925e1943067013445d8dc3e497ca01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:08 +0000
Subject: [PATCH 19/67] fix: decode_jpeg without device generated the undefined
 name cpu

---
 paconvert/api_matcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index c9811ee..d07cf27 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -5408,7 +5408,7 @@ class VOCDetectionMatcher(BaseMatcher):
 class DecodeJpegMatcher(BaseMatcher):
     def generate_code(self, kwargs):
         kwargs["x"] = kwargs.pop("input")
-        device = kwargs.pop("device", "cpu")
+        device = kwargs.pop("device", "'cpu'")
         API_TEMPLATE = textwrap.dedent(
             """
             {}({}).to({})
-- 
2.43.0


From c3f5513db907c503eda1907bb37a73acadd399bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:08 +0000
Subject: [PATCH 20/67] fix: hoisted statements mentioning sys.path in a user
 expression were moved to the top of the file

---
 paconvert/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index a982469..6a8f98d 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -152,7 +152,11 @@ class BaseTransformer(ast.NodeTransformer):
         for node in node_list:
             if isinstance(node, (ast.Import, ast.ImportFrom)):
                 import_nodes.append(node)
-            elif "sys.path" in astor.to_source(node):
+            elif (
+                isinstance(node, ast.Expr)
+                and isinstance(node.value, ast.Call)
+                and self.get_full_attr(node.value.func) == "sys.path.append"
+            ):
                 import_nodes.append(node)
             else:
                 other_nodes.append(node)
-- 
2.43.0


From da863191eaa9f7da6afed12202dae1c73cb5cb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:29 +0000
Subject: [PATCH 21/67] fix: the bare name torch.distributed.Backend was
 converted to itself

---
 paconvert/api_mapping.json | 1 -
 1 file changed, 1 deletion(-)

diff --git a/paconvert/api_mapping.json b/paconvert/api_mapping.json
index 0dbab39..93526d9 100644
--- a/paconvert/api_mapping.json
+++ b/paconvert/api_mapping.json
@@ -3755,7 +3755,6 @@
   },
   "torch.distributed.Backend": {
     "Matcher": "DistributedBackendMatcher",
-    "paddle_api": "torch.distributed.Backend",
     "min_input_args": 1,
     "args_list": [
       "name"
-- 
2.43.0


From 1f4150dd2c9110b21390b690551f45176175d75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:29 +0000
Subject: [PATCH 22/67] fix: np_str_obj_array_pattern was converted to code
 that needs an import of re

---
 paconvert/attribute_mapping.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/attribute_mapping.json b/paconvert/attribute_mapping.json
index 5fc3f25..b752eb9 100644
--- a/paconvert/attribute_mapping.json
+++ b/paconvert/attribute_mapping.json
@@ -274,6 +274,6 @@
   },
   "torch.utils.data._utils.collate.np_str_obj_array_pattern": {
     "Matcher": "GenericMatcher",
-    "paddle_api": "re.compile(r'[SaUO]')"
+    "paddle_api": "__import__('re').compile(r'[SaUO]')"
   }
 }
-- 
2.43.0


From 643d34dce804a1e00e468e102c64b3f76c187ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:57 +0000
Subject: [PATCH 23/67] fix: softmin without dim used a helper import * does
 not export and the negated rank

---
 paconvert/api_matcher.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index d07cf27..f0c41a6 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -3005,7 +3005,7 @@ class FSoftMinMatcher(BaseMatcher):
     def generate_utils_code(self):
         CODE_TEMPLATE = textwrap.dedent(
             """
-            def _get_softmin_dim(axis: int) -> int:
+            def get_softmin_dim(axis: int) -> int:
                 if axis == 0 or axis == 1 or axis == 3:
                     return 0
                 else:
@@ -3015,12 +3015,13 @@ class FSoftMinMatcher(BaseMatcher):
         return CODE_TEMPLATE
 
     def generate_code(self, kwargs):
-        kwargs["input"] = f"-{kwargs['input']}"
         if "dim" not in kwargs or kwargs["dim"] == "None":
             self.enable_utils_code()
-            kwargs["dim"] = "_get_softmin_dim({}.ndim)".format(kwargs["input"])
+            kwargs["dim"] = "get_softmin_dim({}.ndim)".format(kwargs["input"])
+            kwargs["input"] = f"-{kwargs['input']}"
             return GenericMatcher.generate_code(self, kwargs)
         else:
+            kwargs["input"] = f"-{kwargs['input']}"
             return GenericMatcher.generate_code(self, kwargs)
 
 
-- 
2.43.0


From 9b1dfdbbe6895d1137a48f873fb41ee6ccc7631f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:57 +0000
Subject: [PATCH 24/67] fix: set_num_threads helpers were not exported by the
 emitted import *

---
 paconvert/api_matcher.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index f0c41a6..c2f9b9d 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -5210,7 +5210,7 @@ class SetNumInteropThreadsMatcher(BaseMatcher):
         CODE_TEMPLATE = textwrap.dedent(
             """
             import os
-            def _set_num_interop_threads(int):
+            def set_num_interop_threads(int):
                 os.environ['OMP_NUM_THREADS'] = str(int)
             """
         )
@@ -5220,7 +5220,7 @@ class SetNumInteropThreadsMatcher(BaseMatcher):
         self.enable_utils_code()
         API_TEMPLATE = textwrap.dedent(
             """
-            _set_num_interop_threads({})
+            set_num_interop_threads({})
             """
         )
         code = API_TEMPLATE.format(kwargs["int"])
@@ -5233,7 +5233,7 @@ class SetNumThreadsMatcher(BaseMatcher):
         CODE_TEMPLATE = textwrap.dedent(
             """
             import os
-            def _set_num_threads(int):
+            def set_num_threads(int):
                 os.environ['CPU_NUM'] = str(int)
             """
         )
@@ -5243,7 +5243,7 @@ class SetNumThreadsMatcher(BaseMatcher):
         self.enable_utils_code()
         API_TEMPLATE = textwrap.dedent(
             """
-            _set_num_threads({})
+            set_num_threads({})
             """
         )
         code = API_TEMPLATE.format(kwargs["int"])
-- 
2.43.0


From 34d753103fcd78e2ce3702042b2e408d00807358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:57 +0000
Subject: [PATCH 25/67] fix: the get_enum helper used warnings without
 importing it

---
 paconvert/api_matcher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index c2f9b9d..37d42e1 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -3980,6 +3980,8 @@ class Get_EnumMatcher(BaseMatcher):
                 elif reduction == "mean":
                     ret = 1
                 elif reduction == "elementwise_mean":
+                    import warnings
+
                     warnings.warn("reduction='elementwise_mean' is deprecated, please use reduction='mean' instead.")
                     ret = 1
                 elif reduction == "sum":
-- 
2.43.0


From dd78a495a7191d9d333554648640e115873ff85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:57 +0000
Subject: [PATCH 26/67] fix: apply_rotary_emb_func passed options its helper
 does not take

---
 paconvert/api_mapping.json | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/paconvert/api_mapping.json b/paconvert/api_mapping.json
index 93526d9..58c9595 100644
--- a/paconvert/api_mapping.json
+++ b/paconvert/api_mapping.json
@@ -188,6 +188,13 @@
       "seqlen_offsets",
       "cu_seqlens",
       "max_seqlen"
+    ],
+    "unsupport_args": [
+      "interleaved",
+      "inplace",
+      "seqlen_offsets",
+      "cu_seqlens",
+      "max_seqlen"
     ]
   },
   "flash_attn.ops.rms_norm.rms_norm": {
-- 
2.43.0


From 0cecd8716a3dc4c6e10de8872755279bdecf03db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:27 +0000
Subject: [PATCH 27/67] fix: an unsupported argument after an omitted (None)
 one slipped through, and the call was changed even when not converted

---
 paconvert/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index 6a8f98d..8c0fbf6 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -357,6 +357,7 @@ class BaseMatcher(object):
             # not support 'torch.rot90(tensor, *config)'
             if isinstance(node, ast.Starred) and not allow_starred:
                 return None
+        support_kwargs = []
         for node in kwargs:
             k = node.arg
             # not support 'torch.rot90(tensor, **config)'
@@ -366,13 +367,14 @@ class BaseMatcher(object):
             if k in unsupport_args:
                 if isinstance(node.value, ast.Constant):
                     if node.value.value is None:
-                        kwargs.remove(node)
                         continue
                 return None
+            support_kwargs.append(node)
             if k not in args_list + overload_args_list:
                 return "misidentify"
             if k in force_kwargs_list:
                 force_kwargs_num += 1
+        kwargs = support_kwargs
 
         posion_args_num = len(args) + len(kwargs) - force_kwargs_num
         if posion_args_num < min_input_args_num:
-- 
2.43.0


From 481b56671c8926525ed3338c69043e763dcbf8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:15 +0000
Subject: [PATCH 28/67] fix: an output folder holding the input file, or a path
 beneath it, overwrote or deleted the input

---
 paconvert/converter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index c68ead4..85ee7ee 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -117,6 +117,9 @@ class Converter:
                 if os.path.isdir(out_dir)
                 else out_dir
             )
+            assert out_file != in_dir and not out_file.startswith(
+                in_dir + os.sep
+            ), "--out_dir must not lead to the input file itself"
             utils_file_helper = UtilsFileHelper(
                 out_file, is_dir_mode=False, logger=self.logger
             )
-- 
2.43.0


From 085d3a7064cabd62cb03db4e452deb2dcefb0590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:15 +0000
Subject: [PATCH 29/67] fix: an output folder inside the input folder was
 converted into itself without end

---
 paconvert/converter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 85ee7ee..dcaf4a1 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -110,6 +110,8 @@ class Converter:
         else:
             exclude = []
         exclude.append("__pycache__")
+        # an output folder inside the input folder is not part of the input
+        exclude.append("^" + re.escape(out_dir) + "$")
 
         if os.path.isfile(in_dir):
             out_file = (
-- 
2.43.0


From 7ea47743579e9489b31e5792553603baa40303fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:15 +0000
Subject: [PATCH 30/67] fix: an output folder above the input folder could
 overwrite input files of a same-named subfolder

---
 paconvert/converter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index dcaf4a1..793e8d3 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -126,6 +126,11 @@ class Converter:
                 out_file, is_dir_mode=False, logger=self.logger
             )
         elif os.path.isdir(in_dir):
+            if in_dir.startswith(out_dir + os.sep):
+                # in_dir=/a/b with /a/b/b would be mirrored from /a/b/b to /a/b
+                assert not os.path.exists(
+                    os.path.join(in_dir, os.path.relpath(in_dir, out_dir))
+                ), "--out_dir must not lead back into --in_dir"
             utils_file_helper = UtilsFileHelper(
                 out_dir + "/paddle_utils.py", is_dir_mode=True, logger=self.logger
             )
-- 
2.43.0


From 163726ee40a56642416ae770e3629e86eacb9f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:39 +0000
Subject: [PATCH 31/67] fix: mapping tables and the output file were read in
 the locale's encoding

---
 paconvert/global_var.py | 8 ++++----
 paconvert/utils.py      | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/paconvert/global_var.py b/paconvert/global_var.py
index e20c71e..e405e2e 100644
--- a/paconvert/global_var.py
+++ b/paconvert/global_var.py
@@ -19,19 +19,19 @@ import os
 
 class GlobalManager:
     json_file = os.path.dirname(__file__) + "/api_mapping.json"
-    with open(json_file, "r") as file:
+    with open(json_file, "r", encoding="UTF-8") as file:
         API_MAPPING = json.load(file)
 
     json_file = os.path.dirname(__file__) + "/api_wildcard_mapping.json"
-    with open(json_file, "r") as file:
+    with open(json_file, "r", encoding="UTF-8") as file:
         API_WILDCARD_MAPPING = json.load(file)
 
     json_file = os.path.dirname(__file__) + "/attribute_mapping.json"
-    with open(json_file, "r") as file:
+    with open(json_file, "r", encoding="UTF-8") as file:
         ATTRIBUTE_MAPPING = json.load(file)
 
     json_file = os.path.dirname(__file__) + "/api_alias_mapping.json"
-    with open(json_file, "r") as file:
+    with open(json_file, "r", encoding="UTF-8") as file:
         ALIAS_MAPPING = json.load(file)
 
     # used to replace import (means replace api by all)
diff --git a/paconvert/utils.py b/paconvert/utils.py
index 99ab447..d631777 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -152,7 +152,7 @@ class UtilsFileHelper(object):
 
         # insert the new code into the existing file
         if not self.is_dir_mode:
-            with open(self.fileName, "r") as f:
+            with open(self.fileName, "r", encoding="UTF-8") as f:
                 existing_content = f.read()
 
             # find a position to insert the new code
-- 
2.43.0


From 9696398c6fc0747a85a0e049b0c4a77c195d635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:39 +0000
Subject: [PATCH 32/67] fix: helper code of a second conversion in one process
 went to the first conversion's output

---
 paconvert/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/utils.py b/paconvert/utils.py
index d631777..87990a1 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -52,7 +52,7 @@ class UtilsFileHelper(object):
     )
 
     def __init__(self, fileName=None, is_dir_mode=False, logger=None):
-        if not hasattr(self, "initialized"):
+        if fileName is not None or not hasattr(self, "initialized"):
             super().__init__()
             self.fileName = fileName
             self.is_dir_mode = is_dir_mode
-- 
2.43.0


From adefa797211979a516103db203117313cd491f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:03 +0000
Subject: [PATCH 33/67] fix: torch APIs below an attribute of a list, dict,
 f-string, boolean or attribute chain were not visited

---
 paconvert/base.py                           | 10 ++++++++++
 paconvert/transformer/basic_transformer.py  | 17 +++++------------
 paconvert/transformer/import_transformer.py | 17 +++++------------
 3 files changed, 20 insertions(+), 24 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index 8c0fbf6..6a816d6 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -179,6 +179,16 @@ class BaseTransformer(ast.NodeTransformer):
         else:
             return "None"
 
+    def visit_attribute_base(self, node):
+        """
+        visit the expression which an attribute chain starts from
+        torch.abs(x).foo.bar -> torch.abs(x)
+        """
+        while isinstance(node.value, ast.Attribute):
+            node = node.value
+        if not isinstance(node.value, ast.Name):
+            node.value = self.visit(node.value)
+
     def get_torch_api_from_node(self, node):
         full_attr = self.get_full_attr(node)
         attr_list = full_attr.split(".")
diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index 694a7cf..faafd01 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -74,18 +74,8 @@ class BasicTransformer(BaseTransformer):
         # 4. (-x).transpose(1, 0)
         # 5. x[0].transpose(1, 0)
         # 6. (x if flag else y).transpose(1, 0)
-        if isinstance(
-            node.value,
-            (
-                ast.Call,
-                ast.Compare,
-                ast.BinOp,
-                ast.UnaryOp,
-                ast.Subscript,
-                ast.Assert,
-                ast.IfExp,
-            ),
-        ):
+        # others, such as: [torch.abs(x)].index / f"{torch.abs(x)}".split / (y or torch.abs(x)).sum
+        if not isinstance(node.value, (ast.Name, ast.Attribute)):
             super(BasicTransformer, self).generic_visit(node)
 
         # 6. torch.tensor(features_A).T.cuda()
@@ -103,6 +93,9 @@ class BasicTransformer(BaseTransformer):
                 full_attr = self.get_full_attr_strict(node.value)
                 if "utils.data" not in full_attr:
                     super(BasicTransformer, self).generic_visit(node)
+            else:
+                # torch.abs(x).foo.bar
+                self.visit_attribute_base(node)
 
         # should be handled by visit_Call
         if isinstance(self.parent_node, ast.Call):
diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 99a2084..a9f789b 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -342,18 +342,8 @@ class ImportTransformer(BaseTransformer):
         eg.
             nn.Module -> torch.nn.Module
         """
-        if isinstance(
-            node.value,
-            (
-                ast.Call,
-                ast.Compare,
-                ast.BinOp,
-                ast.UnaryOp,
-                ast.Subscript,
-                ast.Assert,
-                ast.IfExp,
-            ),
-        ):
+        # others, such as: [torch.abs(x)].index / f"{torch.abs(x)}".split / (y or torch.abs(x)).sum
+        if not isinstance(node.value, (ast.Name, ast.Attribute)):
             super(ImportTransformer, self).generic_visit(node)
         if isinstance(node.value, ast.Attribute):
             if node.value.attr in [
@@ -369,6 +359,9 @@ class ImportTransformer(BaseTransformer):
                 full_attr = self.get_full_attr_strict(node.value)
                 if "utils.data" not in full_attr:
                     super(ImportTransformer, self).generic_visit(node)
+            else:
+                # torch.abs(x).foo.bar
+                self.visit_attribute_base(node)
 
         torch_api = self.get_torch_api_from_node(node)
         if torch_api:
-- 
2.43.0


From 07aadb935386140b9ab90c486002ba1fa03c2348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:03 +0000
Subject: [PATCH 34/67] fix: looking for the enclosing block recursed without
 end for a use in an except clause

---
 paconvert/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index 6a816d6..0547f61 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -95,7 +95,7 @@ class BaseTransformer(ast.NodeTransformer):
                         if node == self.node_stack[i + 1]:
                             return scope_node, "finalbody", index
 
-        return self.scope_body_index(-2)
+        return self.scope_body_index(level - 1)
 
     def insert_scope(self):
         # if multiple line, insert into scope node only One time
-- 
2.43.0


From 89f20fb8d75b23bf99e61302d86ec8528495bf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:03 +0000
Subject: [PATCH 35/67] fix: statements inserted for a use inside async, class,
 match or except* blocks were moved out of the block

---
 paconvert/base.py                             | 20 +++++++++++++++++++
 .../transformer/custom_op_transformer.py      |  2 +-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index 0547f61..b03ffd6 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -290,6 +290,14 @@ class BaseTransformer(ast.NodeTransformer):
         self.scope_stack.pop()
         return node
 
+    visit_AsyncFunctionDef = visit_FunctionDef
+
+    def visit_ClassDef(self, node):
+        self.scope_stack.append(node)
+        super(BaseTransformer, self).generic_visit(node)
+        self.scope_stack.pop()
+        return node
+
     def visit_While(self, node):
         self.scope_stack.append(node)
         super(BaseTransformer, self).generic_visit(node)
@@ -308,6 +316,8 @@ class BaseTransformer(ast.NodeTransformer):
         self.scope_stack.pop()
         return node
 
+    visit_TryStar = visit_Try
+
     def visit_TryFinally(self, node):
         self.scope_stack.append(node)
         super(BaseTransformer, self).generic_visit(node)
@@ -320,18 +330,28 @@ class BaseTransformer(ast.NodeTransformer):
         self.scope_stack.pop()
         return node
 
+    visit_AsyncFor = visit_For
+
     def visit_With(self, node):
         self.scope_stack.append(node)
         super(BaseTransformer, self).generic_visit(node)
         self.scope_stack.pop()
         return node
 
+    visit_AsyncWith = visit_With
+
     def visit_ExceptHandler(self, node):
         self.scope_stack.append(node)
         super(BaseTransformer, self).generic_visit(node)
         self.scope_stack.pop()
         return node
 
+    def visit_match_case(self, node):
+        self.scope_stack.append(node)
+        super(BaseTransformer, self).generic_visit(node)
+        self.scope_stack.pop()
+        return node
+
     def visit_Module(self, node):
         self.scope_stack.append(node)
         super(BaseTransformer, self).generic_visit(node)
diff --git a/paconvert/transformer/custom_op_transformer.py b/paconvert/transformer/custom_op_transformer.py
index 673256e..bd104fb 100644
--- a/paconvert/transformer/custom_op_transformer.py
+++ b/paconvert/transformer/custom_op_transformer.py
@@ -208,7 +208,7 @@ class CustomOpTransformer(BaseTransformer):
             return None
 
     def visit_ClassDef(self, node):
-        super(CustomOpTransformer, self).generic_visit(node)
+        super(CustomOpTransformer, self).visit_ClassDef(node)
         for autograd_func_node, cpp_ext in AUTOGRAD_FUNC_NODES.items():
             if autograd_func_node == node:
                 log_debug(
-- 
2.43.0


From 91e944e8ba678673c2541590f8d4b55ed936a222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:13 +0000
Subject: [PATCH 36/67] fix: a block which only imported torch was left empty,
 so the output did not parse

---
 paconvert/base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/paconvert/base.py b/paconvert/base.py
index b03ffd6..6f37ee6 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -55,6 +55,7 @@ class BaseTransformer(ast.NodeTransformer):
     def transform(self):
         self.visit(self.root)
         self.insert_scope()
+        self.fill_empty_block()
 
     def visit(self, node):
         self.node_stack.append(node)
@@ -117,6 +118,16 @@ class BaseTransformer(ast.NodeTransformer):
                         except:
                             getattr(scope_node, body).insert(0, line)
 
+    def fill_empty_block(self):
+        # all statements of a block may have been removed, such as 'import torch'
+        for node in ast.walk(self.root):
+            if not isinstance(node, (ast.stmt, ast.ExceptHandler, ast.match_case)):
+                continue
+            if getattr(node, "body", None) == []:
+                node.body.append(ast.Pass())
+            if getattr(node, "handlers", None) == [] and node.finalbody == []:
+                node.finalbody.append(ast.Pass())
+
     def record_scope(self, scope_body_index, node_list):
         if not isinstance(node_list, list):
             node_list = [node_list]
-- 
2.43.0


From 4769f50da8fcd068e9dd59416e9b79625b8fd8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:13 +0000
Subject: [PATCH 37/67] fix: statements were inserted behind their use when a
 statement before it was removed

---
 paconvert/base.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/paconvert/base.py b/paconvert/base.py
index 6f37ee6..55bb944 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -47,6 +47,7 @@ class BaseTransformer(ast.NodeTransformer):
         self.node_stack = []
         self.scope_stack = []
         self.scope_insert_lines = collections.defaultdict(dict)
+        self.scope_origin_nodes = {}
         self.logger = logger
         self.black_list = []
         self.all_api_map = all_api_map
@@ -107,6 +108,11 @@ class BaseTransformer(ast.NodeTransformer):
                     insert_lines.items(), key=lambda x: x[0], reverse=True
                 )
                 for index, lines in insert_lines:
+                    # statements before it may have been removed
+                    for node in self.scope_origin_nodes[(scope_node, body)][index:]:
+                        if node in getattr(scope_node, body):
+                            index = getattr(scope_node, body).index(node)
+                            break
                     log_debug(
                         self.logger,
                         "insert extra {} lines finally".format(len(lines)),
@@ -137,6 +143,9 @@ class BaseTransformer(ast.NodeTransformer):
         scope_node = scope_body_index[0]
         body = scope_body_index[1]
         index = scope_body_index[2]
+        self.scope_origin_nodes.setdefault(
+            (scope_node, body), list(getattr(scope_node, body))
+        )
 
         if body in self.scope_insert_lines[scope_node]:
             if index in self.scope_insert_lines[scope_node][body]:
-- 
2.43.0


From 245c0e106ff4701362d13ace925c3aeea7758fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:29 +0000
Subject: [PATCH 38/67] fix: statements were hoisted out of comprehensions,
 lambdas and conditional expressions, or into decorator lists

---
 paconvert/base.py | 41 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index 55bb944..9a01b92 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -185,12 +185,49 @@ class BaseTransformer(ast.NodeTransformer):
             self.record_scope((self.root, "body", 0), import_nodes)
 
         if len(other_nodes) > 0:
-            if isinstance(self.parent_node, (ast.DictComp, ast.ListComp)):
+            if self.in_deferred_expr():
                 return False
-            self.record_scope(self.scope_body_index(), other_nodes)
+            scope_body_index = self.scope_body_index()
+            if scope_body_index[1] == "decorator_list":
+                # insert before the decorated definition
+                scope_body_index = self.scope_body_index(-2)
+            self.record_scope(scope_body_index, other_nodes)
 
         return True
 
+    def in_deferred_expr(self):
+        """
+        whether current node is evaluated repeatedly, conditionally or later than
+        its statement, so that no statement can be inserted before it
+        """
+        for i in range(len(self.node_stack) - 1, 0, -1):
+            node, parent = self.node_stack[i], self.node_stack[i - 1]
+            if isinstance(
+                parent, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
+            ):
+                first = parent.generators[0]
+            elif isinstance(parent, (ast.comprehension, ast.For, ast.AsyncFor)):
+                first = parent.iter
+            elif isinstance(parent, ast.Lambda):
+                first = parent.args
+            elif isinstance(parent, ast.BoolOp):
+                first = parent.values[0]
+            elif isinstance(parent, (ast.IfExp, ast.Assert)):
+                first = parent.test
+            elif isinstance(parent, (ast.With, ast.AsyncWith)):
+                first = parent.items[0]
+            elif isinstance(parent, ast.withitem):
+                first = parent.context_expr
+            elif isinstance(parent, (ast.While, ast.ExceptHandler, ast.match_case)):
+                first = None
+            else:
+                first = node
+            if node is not first:
+                return True
+            if isinstance(parent, ast.stmt):
+                return False
+        return False
+
     def get_full_attr(self, node):
         if isinstance(node, ast.Attribute):
             return self.get_full_attr(node.value) + "." + node.attr
-- 
2.43.0


From 501915c0f0ec65d720933578daf2bc2dd0dce223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:52 +0000
Subject: [PATCH 39/67] fix: temporary variables of inserted statements
 overwrote variables of the user and of other uses

---
 paconvert/api_matcher.py | 58 +++++++++++++++++++++++++++++++---------
 paconvert/base.py        | 11 +++++++-
 2 files changed, 55 insertions(+), 14 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 37d42e1..6b0c59d 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -986,11 +986,12 @@ class MakeTMatcher(BaseMatcher):
         else:
             API_TEMPLATE = textwrap.dedent(
                 """
-                out = paddle.uniform({}, dtype={}, min={}, max={}).to({})
-                out.stop_gradient = not {}
-                out
+                tmp_out = paddle.uniform({}, dtype={}, min={}, max={}).to({})
+                tmp_out.stop_gradient = not {}
+                tmp_out
                 """
             )
+            API_TEMPLATE = self.unique_temp_names(API_TEMPLATE, "tmp_out")
             code = API_TEMPLATE.format(
                 kwargs["shape"],
                 kwargs["dtype"],
@@ -3414,18 +3415,20 @@ class SLogDetMatcher(BaseMatcher):
             out_v = kwargs.pop("out")
             API_TEMPLATE = textwrap.dedent(
                 """
-                res = paddle.linalg.slogdet({})
-                paddle.assign(res[0], {}[0]), paddle.assign(res[1], {}[1])
+                tmp_res = paddle.linalg.slogdet({})
+                paddle.assign(tmp_res[0], {}[0]), paddle.assign(tmp_res[1], {}[1])
                 """
             )
+            API_TEMPLATE = self.unique_temp_names(API_TEMPLATE, "tmp_res")
             code = API_TEMPLATE.format(x_v, out_v, out_v)
         else:
             API_TEMPLATE = textwrap.dedent(
                 """
-                res = paddle.linalg.slogdet({})
-                res[0], res[1].astype("float32")
+                tmp_res = paddle.linalg.slogdet({})
+                tmp_res[0], tmp_res[1].astype("float32")
                 """
             )
+            API_TEMPLATE = self.unique_temp_names(API_TEMPLATE, "tmp_res")
             code = API_TEMPLATE.format(x_v)
 
         return code
@@ -3493,6 +3496,7 @@ class LinalgInvExMatcher(BaseMatcher):
                 paddle.assign(out1, output={}[0]), paddle.assign(out2, output={}[1])
                 """
             )
+            API_TEMPLATE = self.unique_temp_names(API_TEMPLATE, "out1", "out2")
             code = API_TEMPLATE.format(kwargs["A"], kwargs["A"], out_v, out_v)
             return code
         else:
@@ -3518,6 +3522,7 @@ class LinalgCholeskyExMatcher(BaseMatcher):
                 paddle.assign(out1, output={}[0]), paddle.assign(out2, output={}[1])
                 """
             )
+            API_TEMPLATE = self.unique_temp_names(API_TEMPLATE, "out1", "out2")
             code = API_TEMPLATE.format(
                 kwargs["input"], kwargs["upper"], kwargs["input"], out_v, out_v
             )
@@ -3625,6 +3630,7 @@ class DoubleAssignMatcher(BaseMatcher):
                 paddle.assign(out1, {}[0]), paddle.assign(out2, {}[1])
                 """
             )
+            API_TEMPLATE = self.unique_temp_names(API_TEMPLATE, "out1", "out2")
             code = API_TEMPLATE.format(
                 self.get_paddle_api(), self.kwargs_to_str(kwargs), out_v, out_v
             )
@@ -3645,6 +3651,7 @@ class TripleAssignMatcher(BaseMatcher):
                 paddle.assign(out1, {}[0]), paddle.assign(out2, {}[1]), paddle.assign(out3, {}[2])
                 """
             )
+            API_TEMPLATE = self.unique_temp_names(API_TEMPLATE, "out1", "out2", "out3")
             code = API_TEMPLATE.format(
                 self.get_paddle_api(), self.kwargs_to_str(kwargs), out_v, out_v, out_v
             )
@@ -3912,6 +3919,7 @@ class SortMatcher(BaseMatcher):
                 paddle.assign(out1, {}[0]), paddle.assign(out2, {}[1])
                 """
             )
+            API_TEMPLATE = self.unique_temp_names(API_TEMPLATE, "out1", "out2")
             code = API_TEMPLATE.format(
                 self.kwargs_to_str(kwargs), self.kwargs_to_str(kwargs), out_v, out_v
             )
@@ -4133,6 +4141,7 @@ class LRSchedulerMatcher(BaseMatcher):
             tmp_lr
             """
         )
+        API_TEMPLATE = self.unique_temp_names(API_TEMPLATE, "tmp_lr")
         code = API_TEMPLATE.format(
             self.get_paddle_api(), self.kwargs_to_str(kwargs), optimizer
         )
@@ -4259,6 +4268,9 @@ class LuMatcher(BaseMatcher):
                     paddle.assign(tmp_lu, {}[0]), paddle.assign(tmp_p, {}[1]), paddle.assign(tmp_info, {}[2])
                     """
                 )
+                API_TEMPLATE = self.unique_temp_names(
+                    API_TEMPLATE, "tmp_lu", "tmp_p", "tmp_info"
+                )
                 code = API_TEMPLATE.format(
                     self.get_paddle_api(),
                     self.kwargs_to_str(new_kwargs),
@@ -4273,6 +4285,7 @@ class LuMatcher(BaseMatcher):
                     paddle.assign(tmp_lu, {}[0]), paddle.assign(tmp_p, {}[1])
                     """
                 )
+                API_TEMPLATE = self.unique_temp_names(API_TEMPLATE, "tmp_lu", "tmp_p")
                 code = API_TEMPLATE.format(
                     self.get_paddle_api(), self.kwargs_to_str(new_kwargs), out_v, out_v
                 )
@@ -4293,10 +4306,13 @@ class LinalgLuMatcher(BaseMatcher):
             API_TEMPLATE = textwrap.dedent(
                 """
                 tmp_lu, tmp_p = paddle.linalg.lu({})
-                P, L, U = paddle.linalg.lu_unpack(tmp_lu, tmp_p)
-                paddle.assign(P, {}[0]), paddle.assign(L, {}[1]), paddle.assign(U, {}[2])
+                tmp_P, tmp_L, tmp_U = paddle.linalg.lu_unpack(tmp_lu, tmp_p)
+                paddle.assign(tmp_P, {}[0]), paddle.assign(tmp_L, {}[1]), paddle.assign(tmp_U, {}[2])
                 """
             )
+            API_TEMPLATE = self.unique_temp_names(
+                API_TEMPLATE, "tmp_lu", "tmp_p", "tmp_P", "tmp_L", "tmp_U"
+            )
             code = API_TEMPLATE.format(
                 self.kwargs_to_str(new_kwargs),
                 out_v,
@@ -4310,6 +4326,7 @@ class LinalgLuMatcher(BaseMatcher):
                 paddle.linalg.lu_unpack(tmp_lu, tmp_p)
                 """
             )
+            API_TEMPLATE = self.unique_temp_names(API_TEMPLATE, "tmp_lu", "tmp_p")
             code = API_TEMPLATE.format(
                 self.kwargs_to_str(new_kwargs),
             )
@@ -4346,6 +4363,7 @@ class QrMatcher(BaseMatcher):
                 paddle.assign(tmp_q, {}[0]), paddle.assign(tmp_r, {}[1])
                 """
             )
+            API_TEMPLATE = self.unique_temp_names(API_TEMPLATE, "tmp_q", "tmp_r")
 
             code = API_TEMPLATE.format(
                 self.get_paddle_api(), self.kwargs_to_str(kwargs), out_v, out_v
@@ -4376,6 +4394,9 @@ class SvdMatcher(BaseMatcher):
                 paddle.assign(tmp_u, {}[0]), paddle.assign(tmp_s, {}[1]), paddle.assign(tmp_v.conj().t(), {}[2])
                 """
             )
+            API_TEMPLATE = self.unique_temp_names(
+                API_TEMPLATE, "tmp_u", "tmp_s", "tmp_v"
+            )
             code = API_TEMPLATE.format(
                 self.get_paddle_api(),
                 self.kwargs_to_str(kwargs),
@@ -4390,6 +4411,9 @@ class SvdMatcher(BaseMatcher):
                 tmp_u, tmp_s, tmp_v.conj().t()
                 """
             )
+            API_TEMPLATE = self.unique_temp_names(
+                API_TEMPLATE, "tmp_u", "tmp_s", "tmp_v"
+            )
             code = API_TEMPLATE.format(
                 self.get_paddle_api(),
                 self.kwargs_to_str(kwargs),
@@ -4695,6 +4719,7 @@ class TensorInplaceReserveTypeMatcher(BaseMatcher):
             {}({}).cast_(_x_dtype_)
             """
         )
+        API_TEMPLATE = self.unique_temp_names(API_TEMPLATE, "_x_dtype_")
 
         convert_tensor = self.api_mapping_dict.get("convert_tensor", {})
 
@@ -5010,9 +5035,9 @@ class Lu_unpackMatcher(BaseMatcher):
 
         out_v = kwargs.pop("out", "None")
         if out_v != "None":
-            out1 = "out1"
-            out2 = "out2"
-            out3 = "out3"
+            out1 = temp1 = get_unique_name("out1")
+            out2 = temp2 = get_unique_name("out2")
+            out3 = temp3 = get_unique_name("out3")
             if "unpack_ludata" in kwargs and kwargs["unpack_ludata"] == "(False)":
                 out2 = "paddle.paddle.to_tensor([])"
                 out3 = "paddle.paddle.to_tensor([])"
@@ -5020,11 +5045,14 @@ class Lu_unpackMatcher(BaseMatcher):
                 out1 = "paddle.paddle.to_tensor([])"
             API_TEMPLATE = textwrap.dedent(
                 """
-                out1, out2, out3 = {}({})
+                {}, {}, {} = {}({})
                 paddle.assign({}, {}[0]), paddle.assign({}, {}[1]), paddle.assign({}, {}[2])
                 """
             )
             code = API_TEMPLATE.format(
+                temp1,
+                temp2,
+                temp3,
                 self.get_paddle_api(),
                 self.kwargs_to_str(kwargs),
                 out1,
@@ -5054,6 +5082,7 @@ class Linalg_qrMatcher(BaseMatcher):
                     paddle.assign(out1, {}[0]), paddle.assign(out2, {}[1])
                     """
                 )
+                API_TEMPLATE = self.unique_temp_names(API_TEMPLATE, "out1", "out2")
                 code = API_TEMPLATE.format(
                     self.get_paddle_api(), self.kwargs_to_str(kwargs), out_v, out_v
                 )
@@ -5070,6 +5099,7 @@ class Linalg_qrMatcher(BaseMatcher):
                     paddle.assign(out1, {}[0]), paddle.assign(out2, {}[1])
                     """
                 )
+                API_TEMPLATE = self.unique_temp_names(API_TEMPLATE, "out1", "out2")
                 code = API_TEMPLATE.format(
                     self.get_paddle_api(), self.kwargs_to_str(kwargs), out_v, out_v
                 )
@@ -5106,6 +5136,7 @@ class HistogramMatcher(BaseMatcher):
                     paddle.assign(out1, {out_v}[0]), paddle.assign(out2, {out_v}[1])
                     """
                 )
+                API_TEMPLATE = self.unique_temp_names(API_TEMPLATE, "out1", "out2")
                 code = API_TEMPLATE.format(
                     paddleclass=self.paddleClass,
                     kwargs=self.kwargs_to_str(kwargs),
@@ -5119,6 +5150,7 @@ class HistogramMatcher(BaseMatcher):
                     paddle.assign(out1, {out_v}[0]), paddle.assign(out2, {out_v}[1])
                     """
                 )
+                API_TEMPLATE = self.unique_temp_names(API_TEMPLATE, "out1", "out2")
                 code = API_TEMPLATE.format(
                     kwargs=self.kwargs_to_str(kwargs),
                     kwargs_bin_edges=self.kwargs_to_str(kwargs_bin_edges),
diff --git a/paconvert/base.py b/paconvert/base.py
index 9a01b92..cade77b 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -22,7 +22,7 @@ from itertools import groupby
 import astor
 
 from paconvert.global_var import GlobalManager
-from paconvert.utils import UtilsFileHelper, log_debug
+from paconvert.utils import UtilsFileHelper, get_unique_name, log_debug
 
 
 class BaseTransformer(ast.NodeTransformer):
@@ -425,6 +425,15 @@ class BaseMatcher(object):
         self.api_mapping_dict = api_mapping_dict
         self.logger = logger
 
+    def unique_temp_names(self, template, *names):
+        """
+        rename the temporary variables of template, so that they neither overwrite
+        variables of user nor those of another use in the same statement
+        """
+        for name in names:
+            template = template.replace(name, get_unique_name(name))
+        return template
+
     def parse_args_and_kwargs(
         self, args, kwargs, allow_starred=False, allow_none=False
     ):
-- 
2.43.0


From 2e98ac37bc7a37fc9fe1fd789170a2f48a1779c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:52 +0000
Subject: [PATCH 40/67] fix: equal statements inserted for two uses in one
 statement were merged into one

---
 paconvert/base.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index cade77b..a7cf021 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -151,7 +151,10 @@ class BaseTransformer(ast.NodeTransformer):
             if index in self.scope_insert_lines[scope_node][body]:
                 origin_node_list = self.scope_insert_lines[scope_node][body][index]
                 for node in node_list.copy():
-                    # remove duplicate node
+                    # remove duplicate import or annotation, other statements
+                    # must run once for each use
+                    if not self.is_import_or_annotation(node):
+                        continue
                     for ele in origin_node_list:
                         if ast.dump(node) == ast.dump(ele):
                             node_list.remove(node)
@@ -163,6 +166,20 @@ class BaseTransformer(ast.NodeTransformer):
         else:
             self.scope_insert_lines[scope_node][body] = {index: node_list}
 
+    def is_import_node(self, node):
+        if isinstance(node, (ast.Import, ast.ImportFrom)):
+            return True
+        return (
+            isinstance(node, ast.Expr)
+            and isinstance(node.value, ast.Call)
+            and self.get_full_attr(node.value.func) == "sys.path.append"
+        )
+
+    def is_import_or_annotation(self, node):
+        return self.is_import_node(node) or (
+            isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)
+        )
+
     def insert_multi_node(self, node_list):
         if len(node_list) == 0:
             return True
@@ -170,13 +187,7 @@ class BaseTransformer(ast.NodeTransformer):
         import_nodes = []
         other_nodes = []
         for node in node_list:
-            if isinstance(node, (ast.Import, ast.ImportFrom)):
-                import_nodes.append(node)
-            elif (
-                isinstance(node, ast.Expr)
-                and isinstance(node.value, ast.Call)
-                and self.get_full_attr(node.value.func) == "sys.path.append"
-            ):
+            if self.is_import_node(node):
                 import_nodes.append(node)
             else:
                 other_nodes.append(node)
-- 
2.43.0


From cd8c2a0def1fef38c803e29a883136e7633a0a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:52 +0000
Subject: [PATCH 41/67] fix: names imported after a module of the current
 project were dropped

---
 paconvert/transformer/import_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index a9f789b..9f86022 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -67,7 +67,7 @@ class ImportTransformer(BaseTransformer):
             if os.path.exists(import_path) or os.path.exists(import_path + ".py"):
                 self.insert_other_packages(self.imports_map, alias_node)
                 new_node_names.append(alias_node)
-                break
+                continue
 
             # 2. import from TORCH_PACKAGE_MAPPING (which means replace api one by one)
             for pkg_name in (
-- 
2.43.0


From 64cd7d708ccef20c4b56c608b98bb458eeff2bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:52 +0000
Subject: [PATCH 42/67] fix: C++ extensions of an earlier conversion in the
 same process changed a later one

---
 paconvert/converter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 793e8d3..6b59ced 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -28,6 +28,8 @@ import astor
 from paconvert.transformer.basic_transformer import BasicTransformer
 from paconvert.transformer.import_transformer import ImportTransformer
 from paconvert.transformer.custom_op_transformer import (
+    AUTOGRAD_FUNC_NODES,
+    CPP_EXTENSION_LIST,
     PreCustomOpTransformer,
     CustomOpTransformer,
 )
@@ -135,6 +137,9 @@ class Converter:
                 out_dir + "/paddle_utils.py", is_dir_mode=True, logger=self.logger
             )
 
+        # C++ extensions and autograd functions of a previous project
+        CPP_EXTENSION_LIST.clear()
+        AUTOGRAD_FUNC_NODES.clear()
         self.transfer_dir(in_dir, out_dir, exclude)
         utils_file_helper.write_code()
 
-- 
2.43.0


From 879cb4baa3e28c1f09943324bc300bdbec9bf002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:52 +0000
Subject: [PATCH 43/67] fix: the output depended on the hash seed and on the
 order of directory entries

---
 paconvert/converter.py                      | 2 +-
 paconvert/transformer/import_transformer.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 6b59ced..ebce2cf 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -43,7 +43,7 @@ from paconvert.global_var import GlobalManager
 
 
 def listdir_nohidden(path):
-    for f in os.listdir(path):
+    for f in sorted(os.listdir(path)):
         if not f.startswith("."):
             yield f
 
diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 9f86022..7043b94 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -500,12 +500,14 @@ class ImportTransformer(BaseTransformer):
         super(ImportTransformer, self).generic_visit(node)
         line_NO = 1
         paddle_package_list = []
-        for torch_package in self.imports_map[self.file]["torch_packages"]:
+        for torch_package in sorted(self.imports_map[self.file]["torch_packages"]):
             paddle_package_list.append(
                 GlobalManager.TORCH_PACKAGE_MAPPING[torch_package]
             )
 
-        for may_torch_package in self.imports_map[self.file]["may_torch_packages"]:
+        for may_torch_package in sorted(
+            self.imports_map[self.file]["may_torch_packages"]
+        ):
             paddle_package_list.append(may_torch_package)
 
         for paddle_package in paddle_package_list:
-- 
2.43.0


From 65cf11398081f07acbe3f4f2143a9c22c6b3a7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:52 +0000
Subject: [PATCH 44/67] fix: one misidentified use removed all uses of that API
 from the API list

---
 paconvert/transformer/basic_transformer.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index faafd01..bdd36d4 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -162,7 +162,7 @@ class BasicTransformer(BaseTransformer):
                 elif paddle_api == "misidentify":
                     # This API usage indicate that is is not a Pytorch API
                     self.torch_api_count -= 1
-                    del self.all_api_map[torch_api]
+                    self.remove_api_count(torch_api)
                     log_debug(
                         self.logger,
                         " Misidentify {}".format(torch_api),
@@ -337,7 +337,7 @@ class BasicTransformer(BaseTransformer):
             elif node_list == "misidentify":
                 # This API usage indicate that it is not this class attribute
                 self.torch_api_count -= 1
-                del self.all_api_map[torch_api]
+                self.remove_api_count(torch_api)
                 log_debug(
                     self.logger,
                     " Misidentify Class Attribute: {}".format(torch_api),
@@ -502,7 +502,7 @@ class BasicTransformer(BaseTransformer):
                 elif node_list == "misidentify":
                     # This API usage indicate that is is not a Pytorch API
                     self.torch_api_count -= 1
-                    del self.all_api_map[torch_api]
+                    self.remove_api_count(torch_api)
                     log_debug(
                         self.logger,
                         " Misidentify {}".format(torch_api),
@@ -703,7 +703,7 @@ class BasicTransformer(BaseTransformer):
                 return node
             elif node_list == "misidentify":
                 self.torch_api_count -= 1
-                del self.all_api_map[torch_api]
+                self.remove_api_count(torch_api)
                 # This API usage indicate that it is not this class method
                 log_debug(
                     self.logger,
@@ -776,6 +776,11 @@ class BasicTransformer(BaseTransformer):
         )
         return node
 
+    def remove_api_count(self, torch_api):
+        self.all_api_map[torch_api]["count"] -= 1
+        if self.all_api_map[torch_api]["count"] == 0:
+            del self.all_api_map[torch_api]
+
     def start_with_torch(self, torch_api):
         for torch_package in self.imports_map[self.file]["torch_packages"]:
             if torch_api.startswith("%s." % torch_package):
-- 
2.43.0


From 7e4b773b7691d82bea67ae5ff08fdf6de844cb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:52 +0000
Subject: [PATCH 45/67] fix: an attribute of a class without a paddle
 counterpart was converted to nonsense or crashed

---
 paconvert/transformer/basic_transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index bdd36d4..1ed63a8 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -199,9 +199,9 @@ class BasicTransformer(BaseTransformer):
                 #     ...
                 # torch.nn.Module.add = add_module
                 matcher = self.get_api_matcher(".".join(attr_list[:-1]), origin_attr)
-                if matcher:
+                paddle_api = matcher.get_paddle_api() if matcher else None
+                if paddle_api and paddle_api not in ["delete", "misidentify"]:
                     torch_api = ".".join(attr_list[:-1])
-                    paddle_api = matcher.get_paddle_api()
                     if paddle_api == "unchange":
                         self.success_api_count += 1
                         log_info(
-- 
2.43.0


From 5fcb30125e3341beab78dc8c0dfdc89af5537eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:52 +0000
Subject: [PATCH 46/67] fix: --show_unalign_api crashed on an aligned API
 outside of torch

---
 paconvert/converter.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index ebce2cf..ce32b86 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -179,9 +179,7 @@ class Converter:
 
             unalign_api_map = self.all_api_map.copy()
             for k, v in self.all_api_map.items():
-                if not k.startswith("torch."):
-                    unalign_api_map.pop(k)
-                if k in GlobalManager.CHANGE_PREFIX_API:
+                if not k.startswith("torch.") or k in GlobalManager.CHANGE_PREFIX_API:
                     unalign_api_map.pop(k)
 
             if len(unalign_api_map) == 0:
-- 
2.43.0


From ad2af1ec8c1c7bcfef99e7c628ae9dd3b3bec74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:52 +0000
Subject: [PATCH 47/67] fix: the name of a loaded C++ extension lost its
 leading letters

---
 paconvert/transformer/custom_op_transformer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/paconvert/transformer/custom_op_transformer.py b/paconvert/transformer/custom_op_transformer.py
index bd104fb..c435411 100644
--- a/paconvert/transformer/custom_op_transformer.py
+++ b/paconvert/transformer/custom_op_transformer.py
@@ -179,11 +179,11 @@ class CustomOpTransformer(BaseTransformer):
                     if cpp_ext.startswith("load_"):
                         log_info(
                             self.logger,
-                            f"change 'from {node.module} import {alias_node.name}' to 'from {node.module} import {cpp_ext.lstrip('load_')}' ",
+                            f"change 'from {node.module} import {alias_node.name}' to 'from {node.module} import {cpp_ext[len('load_') :]}' ",
                             self.file_name,
                             node.lineno,
                         )
-                        alias_node.name = cpp_ext.lstrip("load_")
+                        alias_node.name = cpp_ext[len("load_") :]
                     else:
                         log_info(
                             self.logger,
@@ -233,7 +233,7 @@ class CustomOpTransformer(BaseTransformer):
                     node.lineno,
                 )
                 if cpp_ext.startswith("load_"):
-                    new_node = ast.parse(f"{cpp_ext.lstrip('load_')}").body[0]
+                    new_node = ast.parse(f"{cpp_ext[len('load_') :]}").body[0]
                 else:
                     new_node = ast.parse(f"{cpp_ext}.custom_op_xxx").body[0]
 
-- 
2.43.0


From 750c08b835b0ca0791b7a29f1133e0e288887d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:52 +0000
Subject: [PATCH 48/67] fix: loading a C++ extension into an attribute crashed

---
 paconvert/transformer/custom_op_transformer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paconvert/transformer/custom_op_transformer.py b/paconvert/transformer/custom_op_transformer.py
index c435411..c9e324e 100644
--- a/paconvert/transformer/custom_op_transformer.py
+++ b/paconvert/transformer/custom_op_transformer.py
@@ -79,7 +79,9 @@ class PreCustomOpTransformer(BaseTransformer):
         super(PreCustomOpTransformer, self).generic_visit(node)
         if isinstance(node.value, ast.Call):
             if "paddle.utils.cpp_extension.load" == self.get_full_attr(node.value.func):
-                self.cpp_ext_load_names.append(node.targets[0].id)
+                for target in node.targets:
+                    if isinstance(target, ast.Name):
+                        self.cpp_ext_load_names.append(target.id)
         return node
 
     def visit_Attribute(self, node):
-- 
2.43.0


From 67abd276ff2db01becba825d67f8541f51ac4eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:52 +0000
Subject: [PATCH 49/67] fix: --exclude_packages crashed for a package which is
 not converted anyway

---
 paconvert/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/main.py b/paconvert/main.py
index e9e066a..ffcbec2 100644
--- a/paconvert/main.py
+++ b/paconvert/main.py
@@ -137,7 +137,7 @@ def main():
     if args.exclude_packages:
         exclude_packages = args.exclude_packages.split(",")
         for package in exclude_packages:
-            GlobalManager.TORCH_PACKAGE_MAPPING.pop(package)
+            GlobalManager.TORCH_PACKAGE_MAPPING.pop(package, None)
 
     if args.separate_convert:
         project_num_100 = 0
-- 
2.43.0


From a0f8dfbc2b6bb85f1100e6c3ee555f3b5f8bed63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:27 +0000
Subject: [PATCH 50/67] fix: imports were inserted before the docstring and
 'from __future__ import', which is a syntax error

---
 paconvert/base.py                             | 19 ++++++++++++++++++-
 .../transformer/custom_op_transformer.py      |  2 +-
 paconvert/transformer/import_transformer.py   |  2 +-
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index a7cf021..bc6baa0 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -99,6 +99,23 @@ class BaseTransformer(ast.NodeTransformer):
 
         return self.scope_body_index(level - 1)
 
+    def import_body_index(self):
+        # imports must follow the docstring and 'from __future__ import ...'
+        index = 0
+        for node in self.root.body:
+            if isinstance(node, ast.ImportFrom) and node.module == "__future__":
+                index += 1
+            elif (
+                index == 0
+                and isinstance(node, ast.Expr)
+                and isinstance(node.value, ast.Constant)
+                and isinstance(node.value.value, str)
+            ):
+                index += 1
+            else:
+                break
+        return self.root, "body", index
+
     def insert_scope(self):
         # if multiple line, insert into scope node only One time
         for scope_node in self.scope_insert_lines:
@@ -193,7 +210,7 @@ class BaseTransformer(ast.NodeTransformer):
                 other_nodes.append(node)
 
         if len(import_nodes) > 0:
-            self.record_scope((self.root, "body", 0), import_nodes)
+            self.record_scope(self.import_body_index(), import_nodes)
 
         if len(other_nodes) > 0:
             if self.in_deferred_expr():
diff --git a/paconvert/transformer/custom_op_transformer.py b/paconvert/transformer/custom_op_transformer.py
index c9e324e..b33d7ec 100644
--- a/paconvert/transformer/custom_op_transformer.py
+++ b/paconvert/transformer/custom_op_transformer.py
@@ -201,7 +201,7 @@ class CustomOpTransformer(BaseTransformer):
 
         if len(import_list) > 0:
             import_node = ast.parse("import " + ", ".join(import_list))
-            self.record_scope((self.root, "body", 0), import_node.body)
+            self.record_scope(self.import_body_index(), import_node.body)
 
         if len(new_node_names) > 0:
             node.names = new_node_names
diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 7043b94..1d91b42 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -517,6 +517,6 @@ class ImportTransformer(BaseTransformer):
                 self.file_name,
             )
             self.record_scope(
-                (self.root, "body", 0), ast.parse(f"import {paddle_package}").body
+                self.import_body_index(), ast.parse(f"import {paddle_package}").body
             )
             line_NO += 1
-- 
2.43.0


From 59b880fef453918f722a81d892801cd4ed1c94f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:27 +0000
Subject: [PATCH 51/67] fix: helper code of a single file was inserted before
 its docstring and imports

---
 paconvert/utils.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/paconvert/utils.py b/paconvert/utils.py
index 87990a1..1f8fbe4 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -98,6 +98,17 @@ class UtilsFileHelper(object):
                 i += 1
                 continue
 
+            # docstring of the module
+            if insert_idx == 0 and stripped.lstrip("rRuU")[:3] in ('"""', "'''"):
+                quote = stripped.lstrip("rRuU")[:3]
+                rest = stripped.lstrip("rRuU")[3:]
+                while quote not in rest and i + 1 < n:
+                    i += 1
+                    rest = lines[i]
+                i += 1
+                insert_idx = i
+                continue
+
             if stripped.startswith("import "):
                 insert_idx = i + 1
                 i += 1
-- 
2.43.0


From e3531efac6551ba16ee0b0ac971bb05c71acff38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:27 +0000
Subject: [PATCH 52/67] fix: names of temporary variables depended on earlier
 conversions in the same process

---
 paconvert/converter.py | 11 ++++++++---
 paconvert/utils.py     |  4 ++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index ce32b86..f18f883 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -35,13 +35,17 @@ from paconvert.transformer.custom_op_transformer import (
 )
 from paconvert.utils import (
     UtilsFileHelper,
-    get_unique_name,
+    UniqueNameGenerator,
     log_info,
     log_warning,
+    reset_unique_name,
 )
 from paconvert.global_var import GlobalManager
 
 
+LoggerName = UniqueNameGenerator()
+
+
 def listdir_nohidden(path):
     for f in sorted(os.listdir(path)):
         if not f.startswith("."):
@@ -66,7 +70,7 @@ class Converter:
         self.imports_map = collections.defaultdict(dict)
         self.torch_api_count = 0
         self.success_api_count = 0
-        self.logger = logging.getLogger(name=get_unique_name("Converter"))
+        self.logger = logging.getLogger(name=LoggerName("Converter"))
         if log_dir is None:
             self.logger.addHandler(logging.StreamHandler())
         elif log_dir == "disable":
@@ -137,7 +141,8 @@ class Converter:
                 out_dir + "/paddle_utils.py", is_dir_mode=True, logger=self.logger
             )
 
-        # C++ extensions and autograd functions of a previous project
+        # temporary names, C++ extensions and autograd functions of a previous project
+        reset_unique_name()
         CPP_EXTENSION_LIST.clear()
         AUTOGRAD_FUNC_NODES.clear()
         self.transfer_dir(in_dir, out_dir, exclude)
diff --git a/paconvert/utils.py b/paconvert/utils.py
index 1f8fbe4..538aaa1 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -36,6 +36,10 @@ def get_unique_name(key):
     return Generator(key)
 
 
+def reset_unique_name():
+    Generator.ids.clear()
+
+
 class UtilsFileHelper(object):
     _instance = None
     _lock = threading.Lock()
-- 
2.43.0


From 07d4b5cfc90771edf70b1926f319870a72e81b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:27 +0000
Subject: [PATCH 53/67] fix: a file with a match or except* statement crashed
 the whole conversion

---
 paconvert/converter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index f18f883..c8bbb06 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -391,7 +391,11 @@ class Converter:
                 root = ast.parse(code)
 
             self.transfer_node(root, old_path)
-            code = astor.to_source(root)
+            try:
+                code = astor.to_source(root)
+            except AttributeError:
+                # astor does not know match and except* statements
+                code = ast.unparse(root)
 
             # format code
             if not self.no_format:
-- 
2.43.0


From 4a5b3cf18c2c66d5b92fe8d95891682395fa5c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:05 +0000
Subject: [PATCH 54/67] fix: the marker of an unsupported method or attribute
 was put on a blank line

---
 paconvert/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index c8bbb06..2b003aa 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -519,7 +519,7 @@ class Converter:
                 continue
             else:
                 # func decorator_list: @
-                if mark_next_line and line != "@":
+                if mark_next_line and line != "@" and line.strip():
                     lines[i] = ">>>>>>" + line
                     mark_next_line = False
                     continue
-- 
2.43.0


From 9dadad7a37f09c89e8398c8061e5be9606622e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:32 +0000
Subject: [PATCH 55/67] fix: an unsupported API was not marked when its line
 mixes quotes or it stands in an f-string

---
 paconvert/converter.py | 46 +++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 2b003aa..7aaac2d 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -17,10 +17,12 @@
 
 import ast
 import collections
+import io
 import logging
 import os
 import re
 import shutil
+import tokenize
 import black
 import isort
 import astor
@@ -503,16 +505,33 @@ class Converter:
             text = pattern.sub(_mask_match, text)
         return text
 
+    def mask_str(self, code):
+        # """ torch.* """
+        # " torch.* "
+        # just mask the str, avoid str influence the torch api recognize
+        lines = code.split("\n")
+        try:
+            tokens = list(tokenize.generate_tokens(io.StringIO(code).readline))
+        except (tokenize.TokenError, SyntaxError):
+            tokens = []
+        for token in tokens:
+            if not re.match("STRING|FSTRING", tokenize.tok_name[token.type]):
+                continue
+            for row in range(token.start[0] - 1, token.end[0]):
+                line = lines[row]
+                begin = token.start[1] if row == token.start[0] - 1 else 0
+                end = token.end[1] if row == token.end[0] - 1 else len(line)
+                lines[row] = line[:begin] + '"' * (end - begin) + line[end:]
+        return "\n".join(lines)
+
     def mark_unsupport(self, code, file):
         scan_code = code
         if self.mode == "min":
             scan_code = self.mask_change_prefix_apis(code, file)
 
         lines = code.split("\n")
-        scan_lines = scan_code.split("\n")
+        scan_lines = self.mask_str(scan_code).split("\n")
         mark_next_line = False
-        in_str = False
-        bracket_num = 0
         for i, line in enumerate(lines):
             if "Not Support auto convert" in line:
                 mark_next_line = True
@@ -524,26 +543,7 @@ class Converter:
                     mark_next_line = False
                     continue
 
-            # """ torch.* """
-            # " torch.* "
-            # ' torch.* '
-            # " (torch "
-            # " torch) "
-            # just remove the str, avoid str influence the torch api recognize
-            scan_source = scan_lines[i]
-            rm_str_line = re.sub(r"[\"]{3}[^\"]+[\"]{3}", "", scan_source)
-            rm_str_line = re.sub(r"[\"]{1}[^\"]+[\"]{1}", "", rm_str_line)
-            rm_str_line = re.sub(r"[\']{1}[^\']+[\']{1}", "", rm_str_line)
-
-            # """
-            # torch.*
-            # """
-            last_in_str = in_str
-            if rm_str_line.count('"""') % 2 != 0:
-                in_str = not in_str
-            if last_in_str or in_str:
-                continue
-
+            rm_str_line = scan_lines[i]
             scan_line = rm_str_line
             if self.mode == "min":
                 stripped_line = rm_str_line.strip()
-- 
2.43.0


From 2e7a779e5c34eb6ff915d9f95e4e46fdd49873f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:32 +0000
Subject: [PATCH 56/67] fix: the marker of an unsupported method was put on
 statements inserted for another use

---
 paconvert/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index bc6baa0..c34389b 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -135,6 +135,8 @@ class BaseTransformer(ast.NodeTransformer):
                         "insert extra {} lines finally".format(len(lines)),
                         self.file_name,
                     )
+                    # the marker goes to the line after the annotation
+                    lines = sorted(lines, key=self.is_annotation)
                     for line in lines[::-1]:
                         try:
                             getattr(scope_node, body).insert(index, line)
@@ -193,9 +195,10 @@ class BaseTransformer(ast.NodeTransformer):
         )
 
     def is_import_or_annotation(self, node):
-        return self.is_import_node(node) or (
-            isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)
-        )
+        return self.is_import_node(node) or self.is_annotation(node)
+
+    def is_annotation(self, node):
+        return isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)
 
     def insert_multi_node(self, node_list):
         if len(node_list) == 0:
-- 
2.43.0


From 46cca901259d9430362fcead2cd64f9b7b466a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:09 +0000
Subject: [PATCH 57/67] fix: packages whose name only contains a replaced
 package's name were replaced too

---
 paconvert/transformer/import_transformer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 1d91b42..1589ba3 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -113,13 +113,16 @@ class ImportTransformer(BaseTransformer):
 
             # 3. import form IMPORT_PACKAGE_MAPPING (which means replace api by all)
             for pkg_name in list(GlobalManager.IMPORT_PACKAGE_MAPPING.keys()):
-                if f"{pkg_name}." in alias_node.name or pkg_name == alias_node.name:
+                if (
+                    alias_node.name.startswith(f"{pkg_name}.")
+                    or pkg_name == alias_node.name
+                ):
                     replace_pkg_name = GlobalManager.IMPORT_PACKAGE_MAPPING[pkg_name]
                     if alias_node.asname:
                         # case 1: 'import audiotools as tools' -> 'import paddlespeech.audiotools as tools'
                         # case 2: 'import audiotools.ml as ml' -> 'import paddlespeech.audiotools.ml as ml'
                         replace_pkg_name = alias_node.name.replace(
-                            pkg_name, replace_pkg_name
+                            pkg_name, replace_pkg_name, 1
                         )
                         log_info(
                             self.logger,
@@ -297,13 +300,13 @@ class ImportTransformer(BaseTransformer):
 
         # 3. import form GlobalManager.IMPORT_PACKAGE_MAPPING (which means replace api by all)
         for pkg_name in list(GlobalManager.IMPORT_PACKAGE_MAPPING.keys()):
-            if f"{pkg_name}." in node.module or pkg_name == node.module:
+            if node.module.startswith(f"{pkg_name}.") or pkg_name == node.module:
                 # case 1: 'from audiotools import AudioSignal' -> 'from paddlespeech.audiotools import AudioSignal'
                 # case 2: 'from audiotools.ml import BaseModel' -> 'from paddlespeech.audiotools.ml import BaseModel'
                 # case 3: 'from audiotools.ml import BaseModel as Model' -> 'from paddlespeech.audiotools.ml import BaseModel as Model'
                 origin_module = node.module
                 node.module = origin_module.replace(
-                    pkg_name, GlobalManager.IMPORT_PACKAGE_MAPPING[pkg_name]
+                    pkg_name, GlobalManager.IMPORT_PACKAGE_MAPPING[pkg_name], 1
                 )
                 log_info(
                     self.logger,
-- 
2.43.0


From 6f3013965d230d9cbd969a016a38259aec881014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:06 +0000
Subject: [PATCH 58/67] fix: a name imported from torch was left undefined in
 most positions, e.g. dtype=float32

---
 paconvert/transformer/import_transformer.py | 42 +++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 1589ba3..276800e 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -322,6 +322,38 @@ class ImportTransformer(BaseTransformer):
         self.insert_other_packages(self.imports_map, node)
         return node
 
+    def get_bound_names(self, root):
+        """
+        names which are bound by more than one import or by anything else than an import
+        """
+        bound_names = set()
+        import_names = defaultdict(set)
+        for node in ast.walk(root):
+            if isinstance(node, ast.Name):
+                if not isinstance(node.ctx, ast.Load):
+                    bound_names.add(node.id)
+            elif isinstance(node, ast.arg):
+                bound_names.add(node.arg)
+            elif isinstance(node, (ast.Global, ast.Nonlocal)):
+                bound_names.update(node.names)
+            elif isinstance(node, (ast.Import, ast.ImportFrom)):
+                module = ""
+                if isinstance(node, ast.ImportFrom):
+                    module = "." * node.level + (node.module or "") + "."
+                for alias_node in node.names:
+                    name = alias_node.asname or alias_node.name
+                    import_names[name].add(module + alias_node.name)
+            elif not isinstance(node, ast.alias):
+                # def func / class A / except Error as e / case [a, *b] / case {**c}
+                for attr in ["name", "rest"]:
+                    if isinstance(getattr(node, attr, None), str):
+                        bound_names.add(getattr(node, attr))
+
+        for name, modules in import_names.items():
+            if len(modules) > 1:
+                bound_names.add(name)
+        return bound_names
+
     def insert_other_packages(self, imports_map, node):
         if isinstance(node, ast.ImportFrom):
             for alias_node in node.names:
@@ -478,6 +510,15 @@ class ImportTransformer(BaseTransformer):
         elif isinstance(self.parent_node, ast.Index) and self.parent_node.value == node:
             maybe_torch = True  # 13. Union[List[str], List[AddedToken]]
 
+        # 19. the import is removed, so every use of the name must be replaced. If nothing
+        # else binds the name, it can only be the imported one: torch.zeros(2, dtype=float32)
+        if (
+            not maybe_torch
+            and isinstance(node.ctx, ast.Load)
+            and node.id not in self.bound_names
+        ):
+            maybe_torch = True
+
         if maybe_torch:
             torch_api = self.get_torch_api_from_node(node)
             if torch_api:
@@ -500,6 +541,7 @@ class ImportTransformer(BaseTransformer):
         """
         'import torch_package' has been removed already, add 'import paddle_package'
         """
+        self.bound_names = self.get_bound_names(node)
         super(ImportTransformer, self).generic_visit(node)
         line_NO = 1
         paddle_package_list = []
-- 
2.43.0


From 8df92647eb778ce52dadea53df5ffc3e67cff494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:06 +0000
Subject: [PATCH 59/67] fix: a variable named other_packages or torch_packages
 crashed the conversion

---
 paconvert/base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index c34389b..ef5d519 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -281,8 +281,9 @@ class BaseTransformer(ast.NodeTransformer):
         full_attr = self.get_full_attr(node)
         attr_list = full_attr.split(".")
         old_module = attr_list[0]
-        if old_module in self.imports_map[self.file]:
-            new_module = self.imports_map[self.file][old_module]
+        new_module = self.imports_map[self.file].get(old_module)
+        # torch_packages / other_packages ... of imports_map are not names of the user
+        if isinstance(new_module, str):
             attr_list[0] = new_module
             torch_api = ".".join(attr_list)
             return torch_api
@@ -338,8 +339,9 @@ class BaseTransformer(ast.NodeTransformer):
 
         attr_list = full_attr.split(".")
         old_module = attr_list[0]
-        if old_module in self.imports_map[self.file]:
-            new_module = self.imports_map[self.file][old_module]
+        new_module = self.imports_map[self.file].get(old_module)
+        # torch_packages / other_packages ... of imports_map are not names of the user
+        if isinstance(new_module, str):
             attr_list[0] = new_module
             full_attr = ".".join(attr_list)
         return full_attr, origin_attr
-- 
2.43.0


From 921d2e8679fbea9fccc69c2ec3364b008ff738a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:19 +0000
Subject: [PATCH 60/67] fix: the import of a C++ extension was removed although
 the code still uses it

---
 .../transformer/custom_op_transformer.py      | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/paconvert/transformer/custom_op_transformer.py b/paconvert/transformer/custom_op_transformer.py
index b33d7ec..d58885e 100644
--- a/paconvert/transformer/custom_op_transformer.py
+++ b/paconvert/transformer/custom_op_transformer.py
@@ -44,10 +44,28 @@ class PreCustomOpTransformer(BaseTransformer):
         self.cpp_ext_import_names = {}
         self.cpp_ext_load_names = []
 
+    def only_used_in_pylayer(self, name):
+        # only the class definitions of PyLayer will be removed
+        pylayer_nodes = set()
+        for node in ast.walk(self.root):
+            if isinstance(node, ast.ClassDef) and any(
+                "paddle.autograd.PyLayer" == self.get_full_attr(base)
+                for base in node.bases
+            ):
+                pylayer_nodes.update(ast.walk(node))
+
+        for node in ast.walk(self.root):
+            if isinstance(node, ast.Name) and node.id == name:
+                if node not in pylayer_nodes:
+                    return False
+        return True
+
     def visit_Import(self, node):
         new_node_names = []
         for alias_node in node.names:
-            if alias_node.name in CPP_EXTENSION_LIST:
+            if alias_node.name in CPP_EXTENSION_LIST and self.only_used_in_pylayer(
+                alias_node.asname or alias_node.name
+            ):
                 if alias_node.asname:
                     log_info(
                         self.logger,
-- 
2.43.0


From a43ff05c2155c2570312087bbd6c983e9e9d646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:46 +0000
Subject: [PATCH 61/67] fix: with --separate_convert the output depended on the
 order of the directory listing

---
 paconvert/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/main.py b/paconvert/main.py
index ffcbec2..2e7ac5c 100644
--- a/paconvert/main.py
+++ b/paconvert/main.py
@@ -146,7 +146,7 @@ def main():
         convert_rate_map = {}
 
         in_dir = os.path.abspath(args.in_dir)
-        for project_name in os.listdir(in_dir):
+        for project_name in sorted(os.listdir(in_dir)):
             converter = Converter(
                 mode=args.mode,
                 log_dir=args.log_dir,
-- 
2.43.0


From f7f0197c9f58b55a9069c958ba11e4ac21a2dea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:28 +0000
Subject: [PATCH 62/67] fix: in hasattr/setattr, a variable named like a known
 package was replaced although the package is not imported

---
 paconvert/transformer/basic_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index 1ed63a8..0bc15c3 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -886,7 +886,7 @@ class BasicTransformer(BaseTransformer):
                 "hasattr",
             ]
         ):
-            if node.id in GlobalManager.TORCH_PACKAGE_MAPPING:
+            if node.id in self.imports_map[self.file]["torch_packages"]:
                 return (
                     ast.parse(GlobalManager.TORCH_PACKAGE_MAPPING[node.id])
                     .body[0]
-- 
2.43.0


From e834f44a96ff9e56ddea96a015abdfb28a8b2415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:11 +0000
Subject: [PATCH 63/67] fix: the API lists and --separate_convert crashed when
 pandas or openpyxl, which are not required, are not installed

---
 paconvert/converter.py | 33 ++++++++++++++++++---------------
 paconvert/main.py      | 12 ++++++++----
 2 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 7aaac2d..f094566 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -171,13 +171,10 @@ class Converter:
                         "{:<80}{:<80}{:<8}".format(k, str(v["paddle_api"]), v["count"]),
                     )
 
-                import pandas
-
                 data = [(k, v["paddle_api"], v["count"]) for k, v in all_api_list]
-                df = pandas.DataFrame(
-                    data, columns=["PyTorch API", "Paddle API", "Count"]
+                self.save_excel(
+                    "all_api_map.xlsx", data, ["PyTorch API", "Paddle API", "Count"]
                 )
-                df.to_excel("all_api_map.xlsx", index=False)
 
         if self.show_unalign_api:
             log_info(self.logger, "\n===========================================")
@@ -208,13 +205,10 @@ class Converter:
                         "{:<80}{:<80}{:<8}".format(k, str(v["paddle_api"]), v["count"]),
                     )
 
-                import pandas
-
                 data = [(k, v["paddle_api"], v["count"]) for k, v in unalign_api_list]
-                df = pandas.DataFrame(
-                    data, columns=["PyTorch API", "Paddle API", "Count"]
+                self.save_excel(
+                    "unalign_api_map.xlsx", data, ["PyTorch API", "Paddle API", "Count"]
                 )
-                df.to_excel("unalign_api_map.xlsx", index=False)
 
         if self.show_unsupport_api:
             log_info(self.logger, "\n===========================================")
@@ -236,12 +230,11 @@ class Converter:
                 for k, v in unsupport_api_list:
                     log_info(self.logger, "{:<80}{:<8}".format(k, v))
 
-                import pandas
-
-                df = pandas.DataFrame(
-                    unsupport_api_list, columns=["PyTorch API", "Count"]
+                self.save_excel(
+                    "unsupport_api_map.xlsx",
+                    unsupport_api_list,
+                    ["PyTorch API", "Count"],
                 )
-                df.to_excel("unsupport_api_map.xlsx", index=False)
 
         faild_api_count = self.torch_api_count - self.success_api_count
         if not self.log_markdown:
@@ -338,6 +331,16 @@ class Converter:
         except:
             pass
 
+    def save_excel(self, path, data, columns):
+        # pandas and openpyxl are optional, the list is already in the log
+        try:
+            import pandas
+
+            df = pandas.DataFrame(data, columns=columns)
+            df.to_excel(path, index=False)
+        except ImportError as e:
+            log_warning(self.logger, "{} is not saved: {}".format(path, e))
+
     def transfer_dir(self, in_dir, out_dir, exclude):
         if os.path.isfile(in_dir):
             old_path = in_dir
diff --git a/paconvert/main.py b/paconvert/main.py
index 2e7ac5c..60d7fc8 100644
--- a/paconvert/main.py
+++ b/paconvert/main.py
@@ -189,10 +189,14 @@ def main():
                 project_num_90 / project_num,
             )
         )
-        import pandas
-
-        df = pandas.DataFrame.from_dict(dict(convert_rate_map), orient="index")
-        df.to_excel("convert_rate_map.xlsx")
+        # pandas and openpyxl are optional, the rates are already printed
+        try:
+            import pandas
+
+            df = pandas.DataFrame.from_dict(dict(convert_rate_map), orient="index")
+            df.to_excel("convert_rate_map.xlsx")
+        except ImportError as e:
+            print("convert_rate_map.xlsx is not saved: {}".format(e))
         return
 
     converter = Converter(
-- 
2.43.0


From 10db51422c0a3832cd7502fd16f970bf5368496a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:11 +0000
Subject: [PATCH 64/67] fix: in minimal mode all APIs were flagged as
 unsupported if only a submodule is imported, e.g. import torch.nn

---
 paconvert/transformer/import_transformer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 276800e..439fbbf 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -97,6 +97,8 @@ class ImportTransformer(BaseTransformer):
                             )
                     else:
                         self.imports_map[self.file][alias_node.name] = alias_node.name
+                        # 'import torch.nn' binds the name torch
+                        self.imports_map[self.file][pkg_name] = pkg_name
                         if self.mode == "min":
                             new_node_names.append(alias_node)
                         else:
-- 
2.43.0


From 93729c8d46c25eb111356ff127c6c37121979c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:56 +0000
Subject: [PATCH 65/67] fix: in minimal mode torch.Tensor.name = func became
 torch.Tensor.name.name = func and was flagged

---
 paconvert/transformer/basic_transformer.py  |  4 +++-
 paconvert/transformer/import_transformer.py | 20 +++++++++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index 0bc15c3..351faa1 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -198,7 +198,9 @@ class BasicTransformer(BaseTransformer):
                 # def add_module(self, module):
                 #     ...
                 # torch.nn.Module.add = add_module
-                matcher = self.get_api_matcher(".".join(attr_list[:-1]), origin_attr)
+                matcher = self.get_api_matcher(
+                    ".".join(attr_list[:-1]), origin_attr.rpartition(".")[0]
+                )
                 paddle_api = matcher.get_paddle_api() if matcher else None
                 if paddle_api and paddle_api not in ["delete", "misidentify"]:
                     torch_api = ".".join(attr_list[:-1])
diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 439fbbf..007bb03 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -402,13 +402,31 @@ class ImportTransformer(BaseTransformer):
 
         torch_api = self.get_torch_api_from_node(node)
         if torch_api:
-            if self.in_min_mode(torch_api):
+            if self.in_min_mode(torch_api) or self.is_setattr_in_min_mode(
+                node, torch_api
+            ):
                 self.change_prefix_api_map[self.file].add(torch_api)
                 return node
 
             return ast.parse(self.get_canonical_torch_api(torch_api)).body[0].value
         return node
 
+    def is_setattr_in_min_mode(self, node, torch_api):
+        """
+        torch.nn.Module.add = add_module, BasicTransformer only converts torch.nn.Module
+        """
+        if isinstance(self.parent_node, ast.Call) and node == self.parent_node.func:
+            return False
+        torch_api = self.get_canonical_torch_api(torch_api)
+        if torch_api in GlobalManager.API_MAPPING:
+            return False
+        if torch_api in GlobalManager.ATTRIBUTE_MAPPING:
+            return False
+        torch_class = self.get_canonical_torch_api(torch_api.rpartition(".")[0])
+        return torch_class in GlobalManager.API_MAPPING and self.in_min_mode(
+            torch_class
+        )
+
     def visit_Name(self, node):
         """
         change torch api name to full api according to import info.
-- 
2.43.0


From df9f120eb242638d66e70040fa30d175a242c752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:56 +0000
Subject: [PATCH 66/67] fix: in minimal mode APIs imported by 'from torch
 import torch' were flagged as unsupported

---
 paconvert/transformer/import_transformer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 007bb03..7bf4b64 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -405,7 +405,10 @@ class ImportTransformer(BaseTransformer):
             if self.in_min_mode(torch_api) or self.is_setattr_in_min_mode(
                 node, torch_api
             ):
-                self.change_prefix_api_map[self.file].add(torch_api)
+                # from torch import torch: the text spells torch.* for torch.torch.*
+                self.change_prefix_api_map[self.file].update(
+                    [torch_api, self.get_full_attr(node)]
+                )
                 return node
 
             return ast.parse(self.get_canonical_torch_api(torch_api)).body[0].value
-- 
2.43.0


From c1a65092ec08ab0338e3f50a294621b1ae4710f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:45 +0000
Subject: [PATCH 67/67] fix: an API of another package that is an alias of a
 torch API was left undefined when it is not called

---
 paconvert/transformer/import_transformer.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 7bf4b64..6491633 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -411,9 +411,17 @@ class ImportTransformer(BaseTransformer):
                 )
                 return node
 
-            return ast.parse(self.get_canonical_torch_api(torch_api)).body[0].value
+            return self.get_canonical_node(torch_api)
         return node
 
+    def get_canonical_node(self, torch_api):
+        torch_api = self.get_canonical_torch_api(torch_api)
+        # timm.models.layers.trunc_normal_ is an alias of torch.nn.init.trunc_normal_
+        package = torch_api.split(".")[0]
+        if package in GlobalManager.TORCH_PACKAGE_MAPPING:
+            self.imports_map[self.file]["torch_packages"].add(package)
+        return ast.parse(torch_api).body[0].value
+
     def is_setattr_in_min_mode(self, node, torch_api):
         """
         torch.nn.Module.add = add_module, BasicTransformer only converts torch.nn.Module
@@ -487,9 +495,7 @@ class ImportTransformer(BaseTransformer):
                     if self.in_min_mode(torch_api):
                         self.change_prefix_api_map[self.file].add(torch_api)
                         return node
-                    return (
-                        ast.parse(self.get_canonical_torch_api(torch_api)).body[0].value
-                    )
+                    return self.get_canonical_node(torch_api)
 
                 elif self.parent_node.func.id in [
                     "isinstance",
@@ -557,7 +563,7 @@ class ImportTransformer(BaseTransformer):
                     self.change_prefix_api_map[self.file].add(torch_api)
                     return node
 
-                return ast.parse(self.get_canonical_torch_api(torch_api)).body[0].value
+                return self.get_canonical_node(torch_api)
         return node
 
     def visit_Module(self, node):
-- 
2.43.0

