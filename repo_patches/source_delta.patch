From d2393b6ee55bdfb239772bbfc6f3ec7a0bd3efb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:31 +0000
Subject: [PATCH 01/17] fix: scale float tensors by powers of two instead of
 unsupported shifts

torch no longer implements << and >> for floating-point tensors, so every HUB*,
FXP*, TLUT* layer and Round raised for every input.
---
 kernel/linear.py | 66 ++++++++++++++++++++++++------------------------
 kernel/utils.py  |  2 +-
 2 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/kernel/linear.py b/kernel/linear.py
index 1f3c9c6..6663b63 100644
--- a/kernel/linear.py
+++ b/kernel/linear.py
@@ -444,7 +444,7 @@ class HUBLinearFunction(torch.autograd.Function):
         # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # 
         # scale input to range 0~2^widthi-1
         buf_i = torch.empty(0, dtype=torch.long, device=input.device)
-        torch.abs((input >> rshift_i).unsqueeze_(1).round().type(torch.long), out=buf_i)
+        torch.abs((input / 2**rshift_i).unsqueeze_(1).round().type(torch.long), out=buf_i)
         torch.clamp(buf_i, 0, cycle-1, out=buf_i)
         
         # actual input: its sign
@@ -457,7 +457,7 @@ class HUBLinearFunction(torch.autograd.Function):
         # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # 
         # scale weight with batch to range 0~2^widthw-1
         buf_w_no_batch = torch.empty(0, dtype=torch.long, device=weight.device)
-        torch.abs((weight >> rshift_w).unsqueeze_(0).round().type(torch.long), out=buf_w_no_batch)
+        torch.abs((weight / 2**rshift_w).unsqueeze_(0).round().type(torch.long), out=buf_w_no_batch)
         torch.clamp(buf_w_no_batch, 0, cycle-1, out=buf_w_no_batch)
         buf_w = torch.empty(0, dtype=torch.long, device=weight.device)
         torch.cat(batch*[buf_w_no_batch], 0, out=buf_w)
@@ -473,7 +473,7 @@ class HUBLinearFunction(torch.autograd.Function):
         output = torch.empty(0, device=weight.device)
         torch.matmul(act_input, act_wght.transpose(1, 2), out=output)
         
-        output = (output >> rshift_o).squeeze_(1)
+        output = (output / 2**rshift_o).squeeze_(1)
         
         if bias is not None:
             output += bias.unsqueeze(0).expand_as(output)
@@ -584,7 +584,7 @@ class FXPLinearFunction(torch.autograd.Function):
         bot_i = 1 - max_abs_i
         top_i = max_abs_i - 1
         i_round = torch.empty(0, device=input.device)
-        torch.round(input >> rshift_i, out=i_round)
+        torch.round(input / 2**rshift_i, out=i_round)
         torch.clamp(i_round.unsqueeze_(1), bot_i, top_i, out=i_round)
         
         # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # # 
@@ -594,12 +594,12 @@ class FXPLinearFunction(torch.autograd.Function):
         bot_w = 1 - max_abs_w
         top_w = max_abs_w - 1
         w_round = torch.empty(0, device=input.device)
-        torch.round(weight >> rshift_w, out=w_round)
+        torch.round(weight / 2**rshift_w, out=w_round)
         torch.clamp(w_round.unsqueeze_(0), bot_w, top_w, out=w_round)
         
         output = torch.empty(0, device=weight.device)
         torch.matmul(i_round, w_round.transpose(1, 2), out=output)
-        output = (output >> rshift_o).squeeze_(1)
+        output = (output / 2**rshift_o).squeeze_(1)
         
         if bias is not None:
             output += bias.unsqueeze(0).expand_as(output)
@@ -781,29 +781,29 @@ class TLUTLinearFXPFXPFunction(torch.autograd.Function):
 
         rshift_i, rshift_w, _ = rshift_offset(input_fp32, weight_fp32, widthi, widthw, rounding, quantilei, quantilew)
         
-        torch.trunc((input_fp32 >> rshift_i).clamp(-2**widthi+1, 2**widthi-1), out=input_fp32)
-        torch.trunc((weight_fp32 >> rshift_w).clamp(-2**widthw+1, 2**widthw-1), out=weight_fp32)
+        torch.trunc((input_fp32 / 2**rshift_i).clamp(-2**widthi+1, 2**widthi-1), out=input_fp32)
+        torch.trunc((weight_fp32 / 2**rshift_w).clamp(-2**widthw+1, 2**widthw-1), out=weight_fp32)
 
         if temporal in ["i", "input"]:
             frac = torch.zeros_like(input_fp32)
             for i in range(degree):
-                input_fp32 = input_fp32 >> widtht
+                input_fp32 = input_fp32 / 2**widtht
                 torch.frac(input_fp32, out=frac)
                 torch.trunc(input_fp32, out=input_fp32)
-                torch.clamp(frac << widtht, cycle_neg+1, cycle_pos-1, out=frac)
-                torch.add(frac >> widtht, input_new >> widtht, out=input_new)
-            input_new = (input_new << (delta + widthi + rshift_i)).type(weight.type())
-            weight_new = (weight_fp32 << rshift_w).type(weight.type())
+                torch.clamp(frac * 2**widtht, cycle_neg+1, cycle_pos-1, out=frac)
+                torch.add(frac / 2**widtht, input_new / 2**widtht, out=input_new)
+            input_new = (input_new * 2**(delta + widthi + rshift_i)).type(weight.type())
+            weight_new = (weight_fp32 * 2**rshift_w).type(weight.type())
         elif temporal in ["w", "weight"]:
             frac = torch.zeros_like(weight_fp32)
             for i in range(degree):
-                weight_fp32 = weight_fp32 >> widtht
+                weight_fp32 = weight_fp32 / 2**widtht
                 torch.frac(weight_fp32, out=frac)
                 torch.trunc(weight_fp32, out=weight_fp32)
-                torch.clamp(frac << widtht, cycle_neg+1, cycle_pos-1, out=frac)
-                torch.add(frac >> widtht, weight_new >> widtht, out=weight_new)
-            input_new = (input_fp32 << rshift_i).type(input.type())
-            weight_new = (weight_new << (delta + widthw + rshift_w)).type(input.type())
+                torch.clamp(frac * 2**widtht, cycle_neg+1, cycle_pos-1, out=frac)
+                torch.add(frac / 2**widtht, weight_new / 2**widtht, out=weight_new)
+            input_new = (input_fp32 * 2**rshift_i).type(input.type())
+            weight_new = (weight_new * 2**(delta + widthw + rshift_w)).type(input.type())
         
         output = torch.matmul(input_new, weight_new.t())
         
@@ -853,27 +853,27 @@ class TLUTLinearFXPFPFunction(torch.autograd.Function):
         if temporal in ["i", "input"]:
             input_new = torch.zeros_like(input_fp32)
             frac = torch.zeros_like(input_fp32)
-            torch.trunc((input_fp32 >> rshift_i).clamp(-2**width+1, 2**width-1), out=input_fp32)
+            torch.trunc((input_fp32 / 2**rshift_i).clamp(-2**width+1, 2**width-1), out=input_fp32)
             for i in range(degree):
-                input_fp32 = input_fp32 >> widtht
+                input_fp32 = input_fp32 / 2**widtht
                 torch.frac(input_fp32, out=frac)
                 torch.trunc(input_fp32, out=input_fp32)
-                torch.clamp(frac << widtht, cycle_neg+1, cycle_pos-1, out=frac)
-                torch.add(frac >> widtht, input_new >> widtht, out=input_new)
-            input_new = (input_new << (delta + width + rshift_i)).type(weight.type())
+                torch.clamp(frac * 2**widtht, cycle_neg+1, cycle_pos-1, out=frac)
+                torch.add(frac / 2**widtht, input_new / 2**widtht, out=input_new)
+            input_new = (input_new * 2**(delta + width + rshift_i)).type(weight.type())
             weight_new = weight
         elif temporal in ["w", "weight"]:
             weight_new = torch.zeros_like(weight_fp32)
             frac = torch.zeros_like(weight_fp32)
-            torch.trunc((weight_fp32 >> rshift_w).clamp(-2**width+1, 2**width-1), out=weight_fp32)
+            torch.trunc((weight_fp32 / 2**rshift_w).clamp(-2**width+1, 2**width-1), out=weight_fp32)
             for i in range(degree):
-                weight_fp32 = weight_fp32 >> widtht
+                weight_fp32 = weight_fp32 / 2**widtht
                 torch.frac(weight_fp32, out=frac)
                 torch.trunc(weight_fp32, out=weight_fp32)
-                torch.clamp(frac << widtht, cycle_neg+1, cycle_pos-1, out=frac)
-                torch.add(frac >> widtht, weight_new >> widtht, out=weight_new)
+                torch.clamp(frac * 2**widtht, cycle_neg+1, cycle_pos-1, out=frac)
+                torch.add(frac / 2**widtht, weight_new / 2**widtht, out=weight_new)
             input_new = input
-            weight_new = (weight_new << (delta + width + rshift_w)).type(input.type())
+            weight_new = (weight_new * 2**(delta + width + rshift_w)).type(input.type())
         
         output = torch.matmul(input_new, weight_new.t())
         
@@ -929,15 +929,15 @@ class TLUTLinearFPFPFunction(torch.autograd.Function):
             frac = torch.zeros_like(weight_fp32)
             mantissa_new = torch.zeros_like(weight_fp32)
 
-        mantissa = mantissa << width
+        mantissa = mantissa * 2**width
         for i in range(degree):
-            mantissa = mantissa >> widtht
+            mantissa = mantissa / 2**widtht
             torch.frac(mantissa, out=frac)
             torch.trunc(mantissa, out=mantissa)
-            torch.clamp(frac << widtht, cycle_neg+1, cycle_pos-1, out=frac)
-            torch.add(frac >> widtht, mantissa_new >> widtht, out=mantissa_new)
+            torch.clamp(frac * 2**widtht, cycle_neg+1, cycle_pos-1, out=frac)
+            torch.add(frac / 2**widtht, mantissa_new / 2**widtht, out=mantissa_new)
 
-        mantissa_new = mantissa_new << delta
+        mantissa_new = mantissa_new * 2**delta
 
         if temporal in ["i", "input"]:
             input_new = torch.ldexp(mantissa_new, exponent).type(dtype)
diff --git a/kernel/utils.py b/kernel/utils.py
index 128534b..ce25f82 100644
--- a/kernel/utils.py
+++ b/kernel/utils.py
@@ -179,7 +179,7 @@ class RoundSTE(torch.autograd.Function):
     # Note that both forward and backward are @staticmethods
     @staticmethod
     def forward(ctx, input, fracwidth, min_val, max_val):
-        return torch.round(input << fracwidth).clamp(min_val, max_val) >> fracwidth
+        return torch.round(input * 2**fracwidth).clamp(min_val, max_val) / 2**fracwidth
     
     # This function has only a single output, so it gets only one gradient
     @staticmethod
-- 
2.43.0


From 00f8466729a50866ba22a8d7f0476d81e9f35c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:31 +0000
Subject: [PATCH 02/17] fix: convtransp2d_get_padding halved the total padding
 twice

---
 kernel/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernel/utils.py b/kernel/utils.py
index ce25f82..ff67a2a 100644
--- a/kernel/utils.py
+++ b/kernel/utils.py
@@ -99,8 +99,8 @@ def convtransp2d_get_padding(h_w_in, h_w_out, kernel_size=1, stride=1, dilation=
     h_w_in, h_w_out, kernel_size, stride, dilation, out_pad = num2tuple(h_w_in), num2tuple(h_w_out), \
         num2tuple(kernel_size), num2tuple(stride), num2tuple(dilation), num2tuple(out_pad)
         
-    p_h = -(h_w_out[0] - 1 - out_pad[0] - dilation[0]*(kernel_size[0]-1) - (h_w_in[0] - 1)*stride[0]) / 2
-    p_w = -(h_w_out[1] - 1 - out_pad[1] - dilation[1]*(kernel_size[1]-1) - (h_w_in[1] - 1)*stride[1]) / 2
+    p_h = -(h_w_out[0] - 1 - out_pad[0] - dilation[0]*(kernel_size[0]-1) - (h_w_in[0] - 1)*stride[0])
+    p_w = -(h_w_out[1] - 1 - out_pad[1] - dilation[1]*(kernel_size[1]-1) - (h_w_in[1] - 1)*stride[1])
     
     return (math.floor(p_h/2), math.ceil(p_h/2)), (math.floor(p_w/2), math.ceil(p_w/2))
 
-- 
2.43.0


From 641c2ead2c349db328192f726e8c9c55cc12aed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:31 +0000
Subject: [PATCH 03/17] fix: FSUReLU swapped its stream and buffer types

---
 kernel/relu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernel/relu.py b/kernel/relu.py
index 156cd91..7cbcca2 100644
--- a/kernel/relu.py
+++ b/kernel/relu.py
@@ -23,8 +23,8 @@ class FSUReLU(torch.nn.Module):
         self.swcfg["stype"] = swcfg["stype"]
 
         self.depth = hwcfg["depth"]
-        self.stype = swcfg["btype"]
-        self.btype = swcfg["stype"]
+        self.stype = swcfg["stype"]
+        self.btype = swcfg["btype"]
 
         self.buf_max = 2**self.depth - 1
         self.buf_half = 2**(self.depth - 1)
-- 
2.43.0


From 38c46389258bfd3b9f1d6d82e030042d0dba5b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 04/17] fix: Correlation.Monitor raised for streams of any
 shape but [1]

---
 metric/metric.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metric/metric.py b/metric/metric.py
index 175ad52..cdc7aa4 100644
--- a/metric/metric.py
+++ b/metric/metric.py
@@ -23,10 +23,10 @@ class Correlation(torch.nn.Module):
         in_1_is_1 = 1 - in_1_is_0
         in_2_is_0 = torch.eq(in_2, 0).type(torch.float)
         in_2_is_1 = 1 - in_2_is_0
-        self.paired_00_d.data.add_(in_1_is_0 * in_2_is_0)
-        self.paired_01_c.data.add_(in_1_is_0 * in_2_is_1)
-        self.paired_10_b.data.add_(in_1_is_1 * in_2_is_0)
-        self.paired_11_a.data.add_(in_1_is_1 * in_2_is_1)
+        self.paired_00_d.data = self.paired_00_d.data.add(in_1_is_0 * in_2_is_0)
+        self.paired_01_c.data = self.paired_01_c.data.add(in_1_is_0 * in_2_is_1)
+        self.paired_10_b.data = self.paired_10_b.data.add(in_1_is_1 * in_2_is_0)
+        self.paired_11_a.data = self.paired_11_a.data.add(in_1_is_1 * in_2_is_1)
         self.len.data.add_(1)
     
     def forward(self):
-- 
2.43.0


From 7b14184236d46986abe637f115f172ec955a7b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 05/17] fix: JKFF with int8 streams returned its own state,
 changing earlier outputs

---
 kernel/jkff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/jkff.py b/kernel/jkff.py
index b0f3935..f039d4f 100644
--- a/kernel/jkff.py
+++ b/kernel/jkff.py
@@ -28,6 +28,6 @@ class JKFF(torch.nn.Module):
         j1k1 = j1 & k1
         
         self.jkff.data = j0k0 * self.jkff + j1k0 * torch.ones_like(J, dtype=torch.int8) + j0k1 * torch.zeros_like(J, dtype=torch.int8) + j1k1 * (1 - self.jkff)
-        return self.jkff.type(self.stype)
+        return self.jkff.detach().clone().type(self.stype)
 
     
\ No newline at end of file
-- 
2.43.0


From 01d761939436ac9850af4228b6a69a52d9b0f011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 06/17] fix: HUBLinear and HUBConv2d raised when 'cycle' is
 None (full run)

---
 kernel/conv.py   | 8 ++++++--
 kernel/linear.py | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/kernel/conv.py b/kernel/conv.py
index 75086b6..aaf73dc 100644
--- a/kernel/conv.py
+++ b/kernel/conv.py
@@ -396,7 +396,7 @@ class HUBConv2d(torch.nn.Conv2d):
         self.hwcfg["quantilew"] = hwcfg["quantilew"]
         self.hwcfg["rounding"] = hwcfg["rounding"].lower()
         self.hwcfg["signmag"] = hwcfg["signmag"]
-        self.hwcfg["cycle"] = min(hwcfg["cycle"], 2**(max(hwcfg["widthi"], hwcfg["widthw"]) - hwcfg["signmag"]))
+        self.hwcfg["cycle"] = hwcfg["cycle"]
 
         self.itc = (self.hwcfg["rngi"] in ["race", "tc", "race10", "tc10"])
         self.wtc = (self.hwcfg["rngw"] in ["race", "tc", "race10", "tc10"])
@@ -419,7 +419,11 @@ class HUBConv2d(torch.nn.Conv2d):
         # maximum possible run cycle
         self.cycle_max = 2**(max(hwcfg["widthi"], hwcfg["widthw"]) - hwcfg["signmag"])
         # actual run cycle
-        self.cycle_act = min(hwcfg["cycle"], 2**(max(hwcfg["widthi"], hwcfg["widthw"]) - hwcfg["signmag"]))
+        if self.hwcfg["cycle"] is None:
+            self.cycle_act = self.cycle_max
+        else:
+            self.cycle_act = min(self.hwcfg["cycle"], self.cycle_max)
+        self.hwcfg["cycle"] = self.cycle_act
 
         assert groups == 1, \
             "Error: the 'groups' in " + str(self) + " class requires to be 1."
diff --git a/kernel/linear.py b/kernel/linear.py
index 6663b63..b8a17f5 100644
--- a/kernel/linear.py
+++ b/kernel/linear.py
@@ -313,7 +313,7 @@ class HUBLinear(torch.nn.Linear):
         self.hwcfg["quantilew"] = hwcfg["quantilew"]
         self.hwcfg["rounding"] = hwcfg["rounding"].lower()
         self.hwcfg["signmag"] = hwcfg["signmag"]
-        self.hwcfg["cycle"] = min(hwcfg["cycle"], 2**(max(hwcfg["widthi"], hwcfg["widthw"]) - hwcfg["signmag"]))
+        self.hwcfg["cycle"] = hwcfg["cycle"]
 
         self.itc = (self.hwcfg["rngi"] in ["race", "tc", "race10", "tc10"])
         self.wtc = (self.hwcfg["rngw"] in ["race", "tc", "race10", "tc10"])
-- 
2.43.0


From ad04afcbf2f7d70fbff9f854343d0ea37822c2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 07/17] fix: FSUConv2d raised for a (height, width) padding
 pair

---
 kernel/conv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kernel/conv.py b/kernel/conv.py
index aaf73dc..a48cf25 100644
--- a/kernel/conv.py
+++ b/kernel/conv.py
@@ -212,8 +212,9 @@ class FSUConv2dPC(torch.nn.Conv2d):
             
         # indicator of even/odd cycle
         self.even_cycle_flag = torch.nn.Parameter(torch.ones(1, dtype=torch.bool), requires_grad=False)
-        self.padding_0 = torch.nn.ConstantPad2d(self.padding, 0)
-        self.padding_1 = torch.nn.ConstantPad2d(self.padding, 1)
+        pad_h, pad_w = num2tuple(self.padding)
+        self.padding_0 = torch.nn.ConstantPad2d((pad_w, pad_w, pad_h, pad_h), 0)
+        self.padding_1 = torch.nn.ConstantPad2d((pad_w, pad_w, pad_h, pad_h), 1)
         self.bipolar_mode = torch.nn.Parameter(torch.tensor([self.mode == "bipolar"], dtype=torch.bool), requires_grad=False)
 
     def FSUConv2d_PC_wrc(self, input):
-- 
2.43.0


From 756c3351502170f602ca60336399efa088c3962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 08/17] fix: weight clipper raised for modules without bias

---
 kernel/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernel/utils.py b/kernel/utils.py
index ff67a2a..585a5b1 100644
--- a/kernel/utils.py
+++ b/kernel/utils.py
@@ -23,11 +23,11 @@ class NN_SC_Weight_Clipper(object):
         else:
             self.method = "norm"
                 
-        if hasattr(module, 'weight'):
+        if getattr(module, 'weight', None) is not None:
             w = module.weight.data
             self.clipping(w)
         
-        if hasattr(module, 'bias'):
+        if getattr(module, 'bias', None) is not None:
             w = module.bias.data
             self.clipping(w)
         
-- 
2.43.0


From 14c41c8dfe14a0832202ebc9d9fa152c69dee979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 09/17] fix: HUB product map was indexed (input, weight) with
 weight as controller

With a temporal-coded weight the map's first index is the weight, but the layers
look it up by (input, weight); transpose it in that case.
---
 kernel/conv.py   | 3 +++
 kernel/linear.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/kernel/conv.py b/kernel/conv.py
index a48cf25..a10ff26 100644
--- a/kernel/conv.py
+++ b/kernel/conv.py
@@ -493,6 +493,9 @@ class HUBConv2d(torch.nn.Conv2d):
         torch.gt(cycle_ctlerval, self.rngctlee.unsqueeze(0), out=cycle_ctleebit)
         for c in range(self.cycle_max):
             self.mapctlee.data[c] = torch.sum(cycle_ctleebit[:, 0:self.mapctler.data[c]], 1).squeeze_()
+        if self.wtc:
+            # the map above is indexed by (controller, controllee), while weight is the controller here
+            self.mapctlee.data = self.mapctlee.data.t().contiguous()
         
         self.rshift_i = None
         self.rshift_w = None
diff --git a/kernel/linear.py b/kernel/linear.py
index b8a17f5..5c84d4c 100644
--- a/kernel/linear.py
+++ b/kernel/linear.py
@@ -404,6 +404,9 @@ class HUBLinear(torch.nn.Linear):
         torch.gt(cycle_ctlerval, self.rngctlee.unsqueeze(0), out=cycle_ctleebit)
         for c in range(self.cycle_max):
             self.mapctlee.data[c] = torch.sum(cycle_ctleebit[:, 0:self.mapctler.data[c]], 1).squeeze_()
+        if self.wtc:
+            # the map above is indexed by (controller, controllee), while weight is the controller here
+            self.mapctlee.data = self.mapctlee.data.t().contiguous()
         
         self.rshift_i = None
         self.rshift_w = None
-- 
2.43.0


From b345058ee5a4c236301332db739210cfd6ccdc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 10/17] fix: FXP layers clamped to one bit more than the
 configured width

---
 kernel/conv.py   | 4 ++--
 kernel/linear.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/kernel/conv.py b/kernel/conv.py
index a10ff26..0b7b521 100644
--- a/kernel/conv.py
+++ b/kernel/conv.py
@@ -582,8 +582,8 @@ class FXPConv2d(torch.nn.Conv2d):
             self.bias.data = bias_ext
         
         # max abs value
-        self.max_abs_i = 2**self.hwcfg["widthi"]
-        self.max_abs_w = 2**self.hwcfg["widthw"]
+        self.max_abs_i = 2**(self.hwcfg["widthi"] - 1)
+        self.max_abs_w = 2**(self.hwcfg["widthw"] - 1)
         
         self.rshift_i = None
         self.rshift_w = None
diff --git a/kernel/linear.py b/kernel/linear.py
index 5c84d4c..1eccfd6 100644
--- a/kernel/linear.py
+++ b/kernel/linear.py
@@ -549,8 +549,8 @@ class FXPLinear(torch.nn.Linear):
             self.bias.data = bias_ext
         
         # max abs value
-        self.max_abs_i = 2**self.hwcfg["widthi"]
-        self.max_abs_w = 2**self.hwcfg["widthw"]
+        self.max_abs_i = 2**(self.hwcfg["widthi"] - 1)
+        self.max_abs_w = 2**(self.hwcfg["widthw"] - 1)
         
         self.rshift_i = None
         self.rshift_w = None
-- 
2.43.0


From c0d65a70faf1fe8e77aca1f76997be7df4f6a53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 11/17] fix: all-zero input or weight turned HUB/FXP/TLUT
 outputs into NaN

---
 kernel/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kernel/utils.py b/kernel/utils.py
index 585a5b1..9cf2ca0 100644
--- a/kernel/utils.py
+++ b/kernel/utils.py
@@ -216,6 +216,8 @@ def rshift_offset(input, weight, widthi, widthw, rounding="round", quantilei=1,
         lower_bound_i = torch.quantile(input, quantile_i_lower)
         upper_bound_i = torch.quantile(input, quantile_i_upper)
         scale_i = torch.max(lower_bound_i.abs(), upper_bound_i.abs())
+        # an all-zero tensor has no range, any finite shift represents it exactly
+        scale_i = torch.where(scale_i > 0, scale_i, torch.ones_like(scale_i))
         imax_int = scale_i.log2()
 
         quantile_w_upper = 0.5 - quantilew / 2
@@ -223,6 +225,7 @@ def rshift_offset(input, weight, widthi, widthw, rounding="round", quantilei=1,
         lower_bound_w = torch.quantile(weight, quantile_w_lower)
         upper_bound_w = torch.quantile(weight, quantile_w_upper)
         scale_w = torch.max(lower_bound_w.abs(), upper_bound_w.abs())
+        scale_w = torch.where(scale_w > 0, scale_w, torch.ones_like(scale_w))
         wmax_int = scale_w.log2()
 
         if rounding == "round":
-- 
2.43.0


From 5e9602ef3689378285c29d24d77d82e91d01e3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 12/17] fix: LFSR source failed when its random initial state
 came out all zeros

---
 stream/gen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stream/gen.py b/stream/gen.py
index 0489066..4ea9421 100644
--- a/stream/gen.py
+++ b/stream/gen.py
@@ -6,7 +6,9 @@ from math import log2, ceil, floor
 def get_lfsr_seq(width=8):
     polylist = LFSR().get_fpolyList(m=width)
     poly = polylist[np.random.randint(0, len(polylist), 1)[0]]
-    L = LFSR(fpoly=poly,initstate ='random')
+    # any state but all zeros, from which the register never leaves
+    init = np.random.randint(1, 2**width)
+    L = LFSR(fpoly=poly,initstate=[(init >> j) & 1 for j in range(width)])
     lfsr_seq = []
     for i in range(2**width):
         value = 0
-- 
2.43.0


From c2cfcc046507cebe05fc19ce2bfcdac4ed420203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 13/17] fix: FXP layers accepted unknown rounding modes and
 out-of-range quantiles

---
 kernel/conv.py   | 9 +++++++++
 kernel/linear.py | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/kernel/conv.py b/kernel/conv.py
index 0b7b521..fff4524 100644
--- a/kernel/conv.py
+++ b/kernel/conv.py
@@ -569,6 +569,15 @@ class FXPConv2d(torch.nn.Conv2d):
         self.hwcfg["widthw"] = hwcfg["widthw"]
         self.hwcfg["quantilew"] = hwcfg["quantilew"]
         self.hwcfg["rounding"] = hwcfg["rounding"].lower()
+
+        assert self.hwcfg["quantilei"] > 0 and self.hwcfg["quantilei"] <= 1, \
+            "Error: the hw config 'quantilei' of " + str(self) + " class needs to be within (0, 1]."
+        
+        assert self.hwcfg["quantilew"] > 0 and self.hwcfg["quantilew"] <= 1, \
+            "Error: the hw config 'quantilew' of " + str(self) + " class needs to be within (0, 1]."
+
+        assert self.hwcfg["rounding"] in ["round", "ceil", "floor"], \
+            "Error: the hw config 'rounding' of " + str(self) + " class requires one of ['round', 'ceil', 'floor']."
         
         # weight and bias
         if weight_ext is not None:
diff --git a/kernel/linear.py b/kernel/linear.py
index 1eccfd6..b9ba77c 100644
--- a/kernel/linear.py
+++ b/kernel/linear.py
@@ -536,6 +536,15 @@ class FXPLinear(torch.nn.Linear):
         self.hwcfg["widthw"] = hwcfg["widthw"]
         self.hwcfg["quantilew"] = hwcfg["quantilew"]
         self.hwcfg["rounding"] = hwcfg["rounding"].lower()
+
+        assert self.hwcfg["quantilei"] > 0 and self.hwcfg["quantilei"] <= 1, \
+            "Error: the hw config 'quantilei' of " + str(self) + " class needs to be within (0, 1]."
+        
+        assert self.hwcfg["quantilew"] > 0 and self.hwcfg["quantilew"] <= 1, \
+            "Error: the hw config 'quantilew' of " + str(self) + " class needs to be within (0, 1]."
+
+        assert self.hwcfg["rounding"] in ["round", "ceil", "floor"], \
+            "Error: the hw config 'rounding' of " + str(self) + " class requires one of ['round', 'ceil', 'floor']."
         
         # weight and bias
         if weight_ext is not None:
-- 
2.43.0


From ecb9d47dd627ebb9fd70c5a02be438072c87b340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:32 +0000
Subject: [PATCH 14/17] fix: progerror_report raised when values were requested
 (it read a ProgError attribute that does not exist)

---
 kernel/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kernel/utils.py b/kernel/utils.py
index 9cf2ca0..fe1c090 100644
--- a/kernel/utils.py
+++ b/kernel/utils.py
@@ -129,9 +129,9 @@ def tensor_unary_outlier(tensor, name="tensor"):
 
 def progerror_report(progerror, name="progerror", report_value=False, report_relative=False):
     if report_value:
-        min = progerror.in_value.min().item()
-        max = progerror.in_value.max().item()
-        std, mean = torch.std_mean(progerror()[0])
+        min = progerror.source.min().item()
+        max = progerror.source.max().item()
+        std, mean = torch.std_mean(progerror.source)
         print("{:30s}".format(name) + \
                 ", Binary   Value range," + "{:12f}".format(min) + ", {:12f}".format(max) + \
                 ", std," + "{:12f}".format(std) + \
-- 
2.43.0


From dede87da534be6eb393692b0f8f72a89ba863049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:40 +0000
Subject: [PATCH 15/17] fix: BISQRT_O_U/_B did not compile (missing commas,
 undefined DEP for the shift register)

---
 hw/kernel/sqrt/BISQRT_O_B.sv | 10 +++++-----
 hw/kernel/sqrt/BISQRT_O_U.sv | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/hw/kernel/sqrt/BISQRT_O_B.sv b/hw/kernel/sqrt/BISQRT_O_B.sv
index 66e9e80..c2070df 100644
--- a/hw/kernel/sqrt/BISQRT_O_B.sv
+++ b/hw/kernel/sqrt/BISQRT_O_B.sv
@@ -1,8 +1,8 @@
 `include "../../stream/shuffle/Bi2Uni.sv"
 
 module BISQRT_O_B #(
-    parameter DEP=3
-    parameter DEP_SR=4
+    parameter DEP=3,
+    parameter DEP_SR=4,
     parameter DEPLOG_SR=2
 ) (
     input logic clk,    // Clock
@@ -27,12 +27,12 @@ module BISQRT_O_B #(
 
     always_ff @(posedge clk or negedge rst_n) begin : proc_sr
         if(~rst_n) begin
-            for (int i = 0; i < DEP; i++) begin
+            for (int i = 0; i < DEP_SR; i++) begin
                 sr[i] <= i%2;
             end
         end else begin
-            sr[DEP-1] <= out_inv;
-            for (int i = 0; i < DEP-1; i++) begin
+            sr[DEP_SR-1] <= out_inv;
+            for (int i = 0; i < DEP_SR-1; i++) begin
                 sr[i] <= sr[i+1];
             end
         end
diff --git a/hw/kernel/sqrt/BISQRT_O_U.sv b/hw/kernel/sqrt/BISQRT_O_U.sv
index d50c467..84824af 100644
--- a/hw/kernel/sqrt/BISQRT_O_U.sv
+++ b/hw/kernel/sqrt/BISQRT_O_U.sv
@@ -1,6 +1,6 @@
 module BISQRT_O_U #(
-    parameter DEP=3
-    parameter DEP_SR=4
+    parameter DEP=3,
+    parameter DEP_SR=4,
     parameter DEPLOG_SR=2
 ) (
     input logic clk,    // Clock
@@ -24,12 +24,12 @@ module BISQRT_O_U #(
 
     always_ff @(posedge clk or negedge rst_n) begin : proc_sr
         if(~rst_n) begin
-            for (int i = 0; i < DEP; i++) begin
+            for (int i = 0; i < DEP_SR; i++) begin
                 sr[i] <= i%2;
             end
         end else begin
-            sr[DEP-1] <= out_inv;
-            for (int i = 0; i < DEP-1; i++) begin
+            sr[DEP_SR-1] <= out_inv;
+            for (int i = 0; i < DEP_SR-1; i++) begin
                 sr[i] <= sr[i+1];
             end
         end
-- 
2.43.0


From 93475cfd82a9a2c7e2c45452963ba2560a3a6493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:40 +0000
Subject: [PATCH 16/17] fix: bipolar BISQRT_S_JK_B/_IS_B traced the input
 instead of the output, so they computed no root

---
 hw/kernel/sqrt/BISQRT_S_IS_B.sv | 3 ++-
 hw/kernel/sqrt/BISQRT_S_JK_B.sv | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/hw/kernel/sqrt/BISQRT_S_IS_B.sv b/hw/kernel/sqrt/BISQRT_S_IS_B.sv
index 155c2fb..77e0c90 100644
--- a/hw/kernel/sqrt/BISQRT_S_IS_B.sv
+++ b/hw/kernel/sqrt/BISQRT_S_IS_B.sv
@@ -1,4 +1,5 @@
 `include "../div/CORDIV_kernel.sv"
+`include "../../stream/shuffle/Bi2Uni.sv"
 
 module BISQRT_S_IS_B #(
     parameter DEP=1,
@@ -60,7 +61,7 @@ module BISQRT_S_IS_B #(
     ) U_Bi2Uni(
         .clk(clk),
         .rst_n(rst_n),
-        .in(in),
+        .in(out),
         .out(outUni)
         );
 
diff --git a/hw/kernel/sqrt/BISQRT_S_JK_B.sv b/hw/kernel/sqrt/BISQRT_S_JK_B.sv
index 0049d32..b0fe865 100644
--- a/hw/kernel/sqrt/BISQRT_S_JK_B.sv
+++ b/hw/kernel/sqrt/BISQRT_S_JK_B.sv
@@ -41,7 +41,7 @@ module BISQRT_S_JK_B # (
     ) U_Bi2Uni(
         .clk(clk),
         .rst_n(rst_n),
-        .in(in),
+        .in(out),
         .out(outUni)
         );
 
-- 
2.43.0


From c97b296acdcc7ea0610b9d04a85a3bc82f1f6da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:40 +0000
Subject: [PATCH 17/17] fix: SkewedSyncInt kept what it released and saturated
 one bit short

---
 hw/stream/shuffle_int/SkewedSyncInt.sv | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hw/stream/shuffle_int/SkewedSyncInt.sv b/hw/stream/shuffle_int/SkewedSyncInt.sv
index d8fe6c6..94cfb73 100644
--- a/hw/stream/shuffle_int/SkewedSyncInt.sv
+++ b/hw/stream/shuffle_int/SkewedSyncInt.sv
@@ -28,11 +28,11 @@ module SkewedSyncInt # (
 
     assign sum = cnt + in0;
     assign sum_overflow = sum[DEP];
-    assign sum_clip = sum_overflow ? {{DEP-1}{1'b1}} : sum[DEP-1:0];
+    assign sum_clip = sum_overflow ? {DEP{1'b1}} : sum[DEP-1:0];
 
     assign sum_res = sum - out0;
     assign sum_res_overflow = sum_res[DEP];
-    assign sum_res_clip = sum_res_overflow ? {{DEP-1}{1'b1}} : sum[DEP-1:0];
+    assign sum_res_clip = sum_res_overflow ? {DEP{1'b1}} : sum_res[DEP-1:0];
 
     always_ff @(posedge clk or negedge rst_n) begin : proc_cnt
         if(~rst_n) begin
-- 
2.43.0

