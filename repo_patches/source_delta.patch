From 2a107fc1f0aea22ee62d6ab7899dff80201e773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 01/29] fix: keep Contractable batch size per thread and set it
 from each input

The class-wide batch size was shared by all threads and survived from one call
to the next: concurrent calls with different batch sizes failed, and an MPS
with label_site=0 failed on its first call or reused the previous batch size.
---
 torchmps/contractables.py | 28 +++++++++++++++++++++++-----
 torchmps/torchmps.py      |  4 ++++
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/torchmps/contractables.py b/torchmps/contractables.py
index cc6a4e3..fa05bf0 100644
--- a/torchmps/contractables.py
+++ b/torchmps/contractables.py
@@ -1,7 +1,27 @@
+import threading
+
 import torch
 
 
-class Contractable:
+_thread_state = threading.local()
+
+
+class _ContractableMeta(type):
+    """
+    Gives each thread its own global batch size
+    """
+
+    @property
+    def global_bs(cls):
+        # The global batch size, which is None until it has been set
+        return getattr(_thread_state, "global_bs", None)
+
+    @global_bs.setter
+    def global_bs(cls, batch_size):
+        _thread_state.global_bs = batch_size
+
+
+class Contractable(metaclass=_ContractableMeta):
     """
     Container for tensors with labeled indices and a global batch size
 
@@ -19,12 +39,10 @@ class Contractable:
                             (number of modes) of our tensor
         global_bs (int):    The batch size associated with all Contractables.
                             This is shared between all Contractable instances
-                            and allows for automatic expanding of tensors
+                            of a thread and allows for automatic expanding of
+                            tensors
     """
 
-    # The global batch size
-    global_bs = None
-
     def __init__(self, tensor, bond_str):
         shape = list(tensor.shape)
         num_dim = len(shape)
diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 3fdc570..854f1da 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -7,6 +7,7 @@ import torch.nn as nn
 
 from .utils import init_tensor, svd_flex
 from .contractables import (
+    Contractable,
     SingleMat,
     MatRegion,
     OutputCore,
@@ -621,6 +622,9 @@ class LinearRegion(nn.Module):
         parallel_eval = self.parallel_eval
         lin_bonds = ["l", "r"]
 
+        # Use the batch size of this input, not one left over by earlier calls
+        Contractable.global_bs = input_data.size(0)
+
         # Whether to move intermediate vectors to a GPU (fixes Issue #8)
         to_cuda = input_data.is_cuda
         device = f"cuda:{input_data.get_device()}" if to_cuda else "cpu"
-- 
2.43.0


From 93a041440ed2115ac44ef30b271dda7f5f6acf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 02/29] fix: evaluate an InputRegion with a single site

With label_site=1 or label_site=input_dim-1 every forward call failed, since a
region of length 1 was given an input without site index.
---
 torchmps/torchmps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 854f1da..ea25e10 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -635,7 +635,7 @@ class LinearRegion(nn.Module):
         contractable_list = []
         for module in self.module_list:
             mod_len = len(module)
-            if mod_len == 1:
+            if mod_len == 1 and not isinstance(module, InputRegion):
                 mod_input = input_data[:, ind]
             else:
                 mod_input = input_data[:, ind : (ind + mod_len)]
-- 
2.43.0


From b56596303f2ea71f439c850e8f17cf804933ab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 03/29] fix: accept a tensor as MPS path

---
 torchmps/torchmps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index ea25e10..0555220 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -433,8 +433,10 @@ class MPS(nn.Module):
             )
         assert len(self.linear_region) == input_dim
 
+        if isinstance(path, torch.Tensor):
+            path = path.tolist()
         if path:
-            assert isinstance(path, (list, torch.Tensor))
+            assert isinstance(path, list)
             assert len(path) == input_dim
 
         # Set the rest of our MPS attributes
-- 
2.43.0


From 7c7d57f8752b3959a0d625df5fae900a104d8f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 04/29] fix: shift adaptive MPS with one or two sites beside
 the output

Such regions hold stray InputSites after unmerging, which had no combination
rule (or were dropped as the only core), so the second merge state could not be
built and construction or the first shift failed an assertion.
---
 torchmps/torchmps.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 0555220..9024f21 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -830,6 +830,10 @@ class MergedLinearRegion(LinearRegion):
                     combined_list.append(merged_list[mod_num])
                     mod_num += 1
 
+            # A lone core has no neighbors to merge with
+            if len(merged_list) == 1:
+                break
+
             # We're finished when unmerged_list remains unchanged
             if len(combined_list) == len(merged_list):
                 break
@@ -976,6 +980,14 @@ class MergedLinearRegion(LinearRegion):
 
             return InputRegion(new_tensor)
 
+        # Combine two stray InputSites, return an InputRegion
+        elif (
+            not merging
+            and isinstance(left_core, InputSite)
+            and isinstance(right_core, InputSite)
+        ):
+            return InputRegion(torch.stack([left_core.tensor, right_core.tensor]))
+
         # If this situation doesn't belong to the above cases, return None
         else:
             return None
-- 
2.43.0


From a0a4038819511ab63fc5f1d253c82d54222994ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 05/29] fix: leave adaptive MPS unchanged when a merge shift
 fails midway

An error or interrupt during a shift left the model in a transient state: with
the offset flipped early, the next call used cores from an earlier phase and
lost all training since, and lone cores of the live list were rescaled in
place. The shift now builds the other merged list aside and takes effect with
the one assignment to module_list, which also determines the offset.
---
 torchmps/torchmps.py | 45 +++++++++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 19 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 9024f21..ac79dcd 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -2,6 +2,8 @@
 TODO:
     (1) Update master to include all the new features in dynamic_capacity
 """
+import copy
+
 import torch
 import torch.nn as nn
 
@@ -725,10 +727,9 @@ class MergedLinearRegion(LinearRegion):
         # Initialize attributes self.module_list_0 and self.module_list_1
         # using the unmerged self.module_list, then redefine the latter in
         # terms of one of the former lists
-        self.offset = 0
-        self._merge(offset=self.offset)
-        self._merge(offset=(self.offset + 1) % 2)
-        self.module_list = getattr(self, f"module_list_{self.offset}")
+        self._merge(self.module_list, offset=0)
+        self._merge(self.module_list, offset=1)
+        self.module_list = self.module_list_0
 
         # Initialize variables used during switching
         self.input_counter = 0
@@ -749,13 +750,15 @@ class MergedLinearRegion(LinearRegion):
         """
         # If we've hit our threshold, flip the merge state of our tensors
         if self.input_counter >= self.merge_threshold:
-            bond_list, sv_list = self._unmerge(cutoff=self.cutoff)
-            self.offset = (self.offset + 1) % 2
-            self._merge(offset=self.offset)
+            unmerged_list, bond_list, sv_list = self._unmerge(cutoff=self.cutoff)
+            new_offset = (self.offset + 1) % 2
+            self._merge(unmerged_list, offset=new_offset)
+
+            # Point self.module_list to the appropriate merged module. Only
+            # this changes our merge state, so an error or interrupt at any
+            # earlier point leaves everything as it was before the flip
+            self.module_list = getattr(self, f"module_list_{new_offset}")
             self.input_counter -= self.merge_threshold
-
-            # Point self.module_list to the appropriate merged module
-            self.module_list = getattr(self, f"module_list_{self.offset}")
         else:
             bond_list, sv_list = None, None
 
@@ -769,10 +772,17 @@ class MergedLinearRegion(LinearRegion):
         else:
             return output
 
+    @property
+    def offset(self):
+        """
+        Returns the offset (0 or 1) of the merged module list in current use
+        """
+        return 0 if self.module_list is self.module_list_0 else 1
+
     @torch.no_grad()
-    def _merge(self, offset):
+    def _merge(self, unmerged_list, offset):
         """
-        Convert unmerged modules in self.module_list to merged counterparts
+        Convert unmerged modules in unmerged_list to merged counterparts
 
         Calling _merge (or _unmerge) directly can cause undefined behavior,
         but see MergedLinearRegion.forward for intended use
@@ -782,8 +792,6 @@ class MergedLinearRegion(LinearRegion):
         """
         assert offset in [0, 1]
 
-        unmerged_list = self.module_list
-
         # Merge each core internally and add the results to midway_list
         site_num = offset
         merged_list = []
@@ -880,8 +888,9 @@ class MergedLinearRegion(LinearRegion):
                 bond_list.extend(new_bonds[1:])
                 sv_list.extend(new_svs[1:])
             else:
+                # Copy the core, whose norm is rescaled in place below
                 assert not isinstance(core, InputRegion)
-                unmerged_list.append(core)
+                unmerged_list.append(copy.deepcopy(core))
                 bond_list.append(None)
                 sv_list.append(None)
 
@@ -928,10 +937,8 @@ class MergedLinearRegion(LinearRegion):
         for core, these_scales in zip(unmerged_list, scales):
             core.rescale_norm(these_scales)
 
-        # Add our unmerged module list as a new attribute and return
-        # the updated bond dimensions
-        self.module_list = nn.ModuleList(unmerged_list)
-        return bond_list, sv_list
+        # Return our unmerged modules and the updated bond dimensions
+        return unmerged_list, bond_list, sv_list
 
     def combine(self, left_core, right_core, merging):
         """
-- 
2.43.0


From 54c87252b5d44b6316d37b50ffa295ff2e6d2a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 06/29] fix: save the merge state of an adaptive MPS in its
 state_dict

The offset, input counter, bond_list and sv_list were left out, so a checkpoint
taken in the second merge state couldn't be loaded (or was loaded into the
wrong cores), and training didn't resume where it stopped.
---
 torchmps/torchmps.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index ac79dcd..eda5cbb 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -420,12 +420,15 @@ class MPS(nn.Module):
             )
 
             # Initialize the list of bond dimensions, which starts out constant
-            self.bond_list = bond_dim * torch.ones(input_dim + 2, dtype=torch.long)
+            # (as buffers, to be saved together with the parameters)
+            bond_list = bond_dim * torch.ones(input_dim + 2, dtype=torch.long)
             if not periodic_bc:
-                self.bond_list[0], self.bond_list[-1] = 1, 1
+                bond_list[0], bond_list[-1] = 1, 1
+            self.register_buffer(name="bond_list", tensor=bond_list)
 
             # Initialize the list of singular values, which start out at -1
-            self.sv_list = -1.0 * torch.ones([input_dim + 2, bond_dim])
+            sv_list = -1.0 * torch.ones([input_dim + 2, bond_dim])
+            self.register_buffer(name="sv_list", tensor=sv_list)
 
         else:
             self.linear_region = LinearRegion(
@@ -772,6 +775,19 @@ class MergedLinearRegion(LinearRegion):
         else:
             return output
 
+    def get_extra_state(self):
+        """
+        Returns the merge state, to be saved together with our parameters
+        """
+        return {"offset": self.offset, "input_counter": self.input_counter}
+
+    def set_extra_state(self, state):
+        """
+        Restores the merge state, called before submodules are loaded
+        """
+        self.module_list = getattr(self, f"module_list_{state['offset']}")
+        self.input_counter = state["input_counter"]
+
     @property
     def offset(self):
         """
-- 
2.43.0


From 04c3ffc7df9f24cc8883dd2a91cf757e80ee3821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 07/29] fix: register the parameters of a TrainableEmbedding
 and keep lamb_mat current

The wrapped module was hidden in a lambda, so its parameters weren't trained or
saved, and models using it couldn't be pickled or independently copied.
lamb_mat was stored by forward, so log_norm failed before the first call, used
outdated parameters after an optimizer step, and deepcopy failed.
---
 torchmps/embeddings.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 6cd17c8..5d961f1 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -86,11 +86,23 @@ class TrainableEmbedding(nn.Module):
         super().__init__()
         assert isinstance(emb_fun, nn.Module)
 
-        # Save defining data
+        # Save defining data, registering the parameters of the embedding
         self.domain = data_domain
+        self.emb_module = emb_fun
+
+    def emb_fun(self, input_data):
+        """
+        Call the user-specified module on input data
+        """
         # Need to add on singleton dimension to agree with nn.Module format
-        self.emb_fun = lambda x: emb_fun(x[..., None])
-        # self.emb_fun = emb_fun
+        return self.emb_module(input_data[..., None])
+
+    @property
+    def lamb_mat(self):
+        """
+        The lambda matrix for the current parameters of the embedding
+        """
+        return self.make_lambda()
 
     def make_lambda(self, num_points: int = 1000):
         """
@@ -124,21 +136,19 @@ class TrainableEmbedding(nn.Module):
 
         assert lamb_mat.ndim == 2
         assert lamb_mat.shape[0] == lamb_mat.shape[1]
-        self.lamb_mat = lamb_mat
 
         # Check if the computed matrix is diagonal or multiple of the identity
         if torch.allclose(lamb_mat.diag().diag(), lamb_mat):
             lamb_mat = lamb_mat.diag()
             if torch.allclose(lamb_mat.mean(), lamb_mat):
-                self.lamb_mat = lamb_mat.mean()
-            else:
-                self.lamb_mat = lamb_mat
+                lamb_mat = lamb_mat.mean()
+
+        return lamb_mat
 
     def forward(self, input_data):
         """
         Embed input data via the user-specified embedding function
         """
-        self.make_lambda()
         return self.emb_fun(input_data)
 
 
-- 
2.43.0


From dd8d0abb7cee6b619157d91605180dd976376ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 08/29] fix: allow any feature map to replace one that is a
 Module

Once a Module was registered, a plain function could no longer be.
---
 torchmps/torchmps.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index eda5cbb..8bd5746 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -273,6 +273,9 @@ class TI_MPS(nn.Module):
                     f"values of size {list(needed_shape)}"
                 )
 
+        # Unregister the previous map, otherwise only Modules could replace it
+        if isinstance(self.feature_map, nn.Module):
+            del self.feature_map
         self.feature_map = feature_map
 
 
@@ -575,6 +578,9 @@ class MPS(nn.Module):
                     f"values of size {list(needed_shape)}"
                 )
 
+        # Unregister the previous map, otherwise only Modules could replace it
+        if isinstance(self.feature_map, nn.Module):
+            del self.feature_map
         self.feature_map = feature_map
 
     def core_len(self):
-- 
2.43.0


From 43fed28ac9ed50e48f989675f447a8b4804fb085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 09/29] fix: shuffle with own generators in joint_shuffle and
 load_HV_data

Both reseeded NumPy's global generator between two shuffles, so another thread
drawing from it separated data from their labels, and every call reset the
generator for the rest of the program.
---
 torchmps/utils.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index 506cba2..05e6a98 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -281,10 +281,8 @@ def joint_shuffle(input_data, input_labels):
     data, labels = input_data.numpy(), input_labels.numpy()
 
     # Shuffle relative to the same seed
-    np.random.seed(0)
-    np.random.shuffle(data)
-    np.random.seed(0)
-    np.random.shuffle(labels)
+    np.random.RandomState(0).shuffle(data)
+    np.random.RandomState(0).shuffle(labels)
 
     data, labels = torch.from_numpy(data), torch.from_numpy(labels)
     if use_gpu:
@@ -335,10 +333,8 @@ def load_HV_data(length):
         labels[2 * i - 1] = 1
 
     # Shuffle and partition into training and test sets
-    np.random.seed(0)
-    np.random.shuffle(images)
-    np.random.seed(0)
-    np.random.shuffle(labels)
+    np.random.RandomState(0).shuffle(images)
+    np.random.RandomState(0).shuffle(labels)
 
     train_images, train_labels = images[split:], labels[split:]
     test_images, test_labels = images[:split], labels[:split]
-- 
2.43.0


From 71c57577cb8bc251fb31a64897023b4a7f26231a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 10/29] fix: load_HV_data with current NumPy, which has no
 np.int

---
 torchmps/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index 05e6a98..5a72242 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -314,7 +314,7 @@ def load_HV_data(length):
         )
 
     images = np.empty([num_images, length, length], dtype=np.float32)
-    labels = np.empty(num_images, dtype=np.int)
+    labels = np.empty(num_images, dtype=int)
 
     # Used to generate the stripe pattern from integer i below
     template = "{:0" + str(length) + "b}"
-- 
2.43.0


From 8f095fd3ad1d90296a61683677215e0ab0f9f4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 11/29] fix: embed TI_MPS sequences before padding them

Unembedded sequences were padded first and the padding then embedded as data,
so the output for a sequence depended on the longest one in its batch.
---
 torchmps/torchmps.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 8bd5746..89ba667 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -180,11 +180,16 @@ class TI_MPS(nn.Module):
                     f"{self.use_bias}, self.fixed_bias={self.fixed_bias})"
                 )
 
+            # Embed everything (if needed). This has to precede padding, since
+            # only zero vectors (not zero inputs) leave the output unchanged
+            if num_modes == 1:
+                input_data = [self.embed_input(s[None])[0] for s in input_data]
+
             # Pad the sequences with zeros (if needed), return as batch tensor
             if can_pad:
                 batch_size = len(input_data)
                 full_size = [batch_size, max_len, feature_dim]
-                batch_input = torch.zeros(full_size[: num_modes + 1])
+                batch_input = torch.zeros(full_size)
 
                 # Copy each sequence into batch_input
                 for i, seq in enumerate(input_data):
@@ -192,10 +197,6 @@ class TI_MPS(nn.Module):
             else:
                 batch_input = torch.stack(input_data)
 
-            # Embed everything (if needed) and return the batch tensor
-            if len(batch_input.shape) == 2:
-                batch_input = self.embed_input(batch_input)
-
             return batch_input
 
         else:
-- 
2.43.0


From 951e65fb5c863fba444f15eb5daba32f52d5d082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 12/29] fix: let parallel_eval override slim_eval, as
 documented

---
 torchmps/prob_mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchmps/prob_mps.py b/torchmps/prob_mps.py
index 9f840d8..89a70d9 100644
--- a/torchmps/prob_mps.py
+++ b/torchmps/prob_mps.py
@@ -171,7 +171,7 @@ class ProbMPS(nn.Module):
         if self.embedding is not None:
             input_data = self.embedding(input_data)
 
-        if slim_eval:
+        if slim_eval and not parallel_eval:
             if self.use_bias:
                 raise ValueError("Bias matrices not supported for slim_eval")
             psi_vals, log_scales = slim_eval_fun(
@@ -399,7 +399,7 @@ class ProbUnifMPS(ProbMPS):
         if self.embedding is not None:
             input_data = self.embedding(input_data)
 
-        if slim_eval:
+        if slim_eval and not parallel_eval:
             if self.use_bias:
                 raise ValueError("Bias matrices not supported for slim_eval")
             psi_vals, log_scales = slim_eval_fun(
-- 
2.43.0


From da3b08a5f0cdd9fdc2d7d9e2a69b30906d2496a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 13/29] fix: don't need the undeclared dependency scipy in
 trig_embed

---
 torchmps/embeddings.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 5d961f1..f6c1677 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -20,7 +20,7 @@
 # CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 
 """Uniform and non-uniform probabilistic MPS classes"""
-from math import sqrt, pi
+from math import comb, sqrt, pi
 from functools import partial
 from typing import Union, Optional, Callable
 
@@ -252,15 +252,13 @@ def trig_embed(data, emb_dim=2):
 
     Written by Raphaëlle Tihon
     """
-    from scipy.special import binom
-
     emb_data = []
     for s in range(emb_dim):
         comp = (
             torch.cos(data * pi / 2) ** (emb_dim - s - 1)
             * torch.sin(data * pi / 2) ** s
         )
-        comp *= sqrt(binom(emb_dim - 1, s))
+        comp *= sqrt(comb(emb_dim - 1, s))
         emb_data.append(comp)
     emb_data = torch.stack(emb_data, dim=-1)
     assert emb_data.shape == data.shape + (emb_dim,)
-- 
2.43.0


From 0d25a8e3e2aaed31ff1dcbfdd40a47fda5718945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 14/29] fix: judge the shape of lamb_mat relative to its scale

With an embedding of small vectors the absolute tolerance of allclose made any
matrix pass as diagonal, giving probabilities which don't sum to 1.
---
 torchmps/embeddings.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index f6c1677..ac2b2c5 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -138,9 +138,11 @@ class TrainableEmbedding(nn.Module):
         assert lamb_mat.shape[0] == lamb_mat.shape[1]
 
         # Check if the computed matrix is diagonal or multiple of the identity
-        if torch.allclose(lamb_mat.diag().diag(), lamb_mat):
+        # (relative to its own scale, which can be arbitrarily small)
+        atol = 1e-8 * lamb_mat.abs().max().item()
+        if torch.allclose(lamb_mat.diag().diag(), lamb_mat, atol=atol):
             lamb_mat = lamb_mat.diag()
-            if torch.allclose(lamb_mat.mean(), lamb_mat):
+            if torch.allclose(lamb_mat.mean(), lamb_mat, atol=atol):
                 lamb_mat = lamb_mat.mean()
 
         return lamb_mat
@@ -210,9 +212,11 @@ class FixedEmbedding(nn.Module):
         self.lamb_mat = lamb_mat
 
         # Check if the computed matrix is diagonal or multiple of the identity
-        if torch.allclose(lamb_mat.diag().diag(), lamb_mat):
+        # (relative to its own scale, which can be arbitrarily small)
+        atol = 1e-8 * lamb_mat.abs().max().item()
+        if torch.allclose(lamb_mat.diag().diag(), lamb_mat, atol=atol):
             lamb_mat = lamb_mat.diag()
-            if torch.allclose(lamb_mat.mean(), lamb_mat):
+            if torch.allclose(lamb_mat.mean(), lamb_mat, atol=atol):
                 self.lamb_mat = lamb_mat.mean()
             else:
                 self.lamb_mat = lamb_mat
-- 
2.43.0


From 642797d1d3924a06fc31b0ce6dcb21cf1dc0cbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 15/29] fix: evaluate MPS and TI_MPS in the dtype of their
 parameters

After .double() (or any dtype but the default) forward calls failed, since
boundary vectors and padding were always created in the default dtype.
---
 torchmps/torchmps.py | 7 ++++---
 torchmps/utils.py    | 6 +++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 89ba667..3eb210a 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -189,7 +189,7 @@ class TI_MPS(nn.Module):
             if can_pad:
                 batch_size = len(input_data)
                 full_size = [batch_size, max_len, feature_dim]
-                batch_input = torch.zeros(full_size)
+                batch_input = torch.zeros(full_size, dtype=input_data[0].dtype)
 
                 # Copy each sequence into batch_input
                 for i, seq in enumerate(input_data):
@@ -242,7 +242,7 @@ class TI_MPS(nn.Module):
                     f"self.feature_dim = {feature_dim}, but "
                     "default feature_map requires self.feature_dim = 2"
                 )
-            embedded_data = torch.empty(embedded_shape)
+            embedded_data = torch.empty(embedded_shape, dtype=self.core_tensor.dtype)
 
             embedded_data[:, :, 0] = input_data
             embedded_data[:, :, 1] = 1 - input_data
@@ -692,7 +692,8 @@ class LinearRegion(nn.Module):
             ]
 
             # Build dummy end vectors and insert them at the ends of our list
-            end_vecs = [torch.zeros(dim).to(device) for dim in bond_dims]
+            dtype = end_items[0].tensor.dtype
+            end_vecs = [torch.zeros(dim, dtype=dtype).to(device) for dim in bond_dims]
 
             for vec in end_vecs:
                 vec[0] = 1
diff --git a/torchmps/utils.py b/torchmps/utils.py
index 5a72242..879c98f 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -93,11 +93,11 @@ def svd_flex(tensor, svd_string, max_D=None, cutoff=1e-10, sv_right=True, sv_vec
             left_mat = left_mat[:, :max_D]
             right_mat = right_mat[:max_D]
         elif max_D and len(svs) < max_D:
-            copy_svs = torch.zeros([max_D])
+            copy_svs = tensor.new_zeros([max_D])
             copy_svs[: len(svs)] = svs
-            copy_left = torch.zeros([left_mat.size(0), max_D])
+            copy_left = tensor.new_zeros([left_mat.size(0), max_D])
             copy_left[:, : left_mat.size(1)] = left_mat
-            copy_right = torch.zeros([max_D, right_mat.size(1)])
+            copy_right = tensor.new_zeros([max_D, right_mat.size(1)])
             copy_right[: right_mat.size(0)] = right_mat
             svs, left_mat, right_mat = copy_svs, copy_left, copy_right
 
-- 
2.43.0


From 61a2ffea9cc199e37befb750b897084c6e9541de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 16/29] fix: allow embeddings with non-diagonal lamb_mat in
 complex ProbMPS

Evaluating such a model raised a RuntimeError about mixed dtypes.
---
 torchmps/mps_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 849bdde..a885d67 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -427,6 +427,10 @@ def get_log_norm(
     assert not (uniform and length is None)
     fixed_len = not uniform or length != -1
 
+    # Promote lamb_mat to complex dtype if core_tensor is complex
+    if core_tensor.is_complex() and lamb_mat is not None:
+        lamb_mat = lamb_mat.to(core_tensor.dtype)
+
     # Initialize all variables needed for log norm calculation
     uniform = core_tensor.ndim == 3
     left_vec, r_vec = boundary_vecs
-- 
2.43.0


From 9502406b5cee8ee540086d41d278b9000cf6d497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:47 +0000
Subject: [PATCH 17/29] fix: judge imaginary parts relative to their scale in
 realify

Complex ProbMPS with large cores or edge vectors raised an AssertionError, as
rounding errors exceeded the absolute tolerance.
---
 torchmps/utils2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torchmps/utils2.py b/torchmps/utils2.py
index a3fb72b..521474f 100644
--- a/torchmps/utils2.py
+++ b/torchmps/utils2.py
@@ -183,7 +183,9 @@ def realify(tensor: Tensor) -> Tensor:
     Input must be approximately real, `realify` will raise error if not
     """
     if tensor.is_complex():
-        assert torch.allclose(tensor.imag, torch.zeros(()), atol=1e-4)
+        # Rounding errors in the imaginary part grow with the tensor's scale
+        atol = 1e-4 * max(1.0, tensor.detach().abs().max().item())
+        assert torch.allclose(tensor.imag, torch.zeros(()), atol=atol)
         return tensor.real
     else:
         return tensor
-- 
2.43.0


From fa716b731586114caa604fca06a428de5b1d03cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 18/29] fix: compare imaginary parts without a default-dtype
 tensor in realify

allclose raised for double precision complex tensors under a single precision
default dtype.
---
 torchmps/utils2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/utils2.py b/torchmps/utils2.py
index 521474f..67777c6 100644
--- a/torchmps/utils2.py
+++ b/torchmps/utils2.py
@@ -185,7 +185,7 @@ def realify(tensor: Tensor) -> Tensor:
     if tensor.is_complex():
         # Rounding errors in the imaginary part grow with the tensor's scale
         atol = 1e-4 * max(1.0, tensor.detach().abs().max().item())
-        assert torch.allclose(tensor.imag, torch.zeros(()), atol=atol)
+        assert torch.all(tensor.imag.abs() <= atol)
         return tensor.real
     else:
         return tensor
-- 
2.43.0


From c7be39a2d12fec36cefca1784c079cde86e3b90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 19/29] fix: normalise ProbMPS with both bias and embedding

The amplitude adds the bias once to the contracted core, while log_norm added
it to every core slice. These agree for symbols, but not for embedded vectors,
whose components don't sum to 1, so probabilities didn't integrate to 1.
---
 torchmps/embeddings.py | 33 +++++++++++++++++++++++++++++++--
 torchmps/prob_mps.py   | 24 ++++++++++++++++++++----
 2 files changed, 51 insertions(+), 6 deletions(-)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index ac2b2c5..7b61258 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -104,9 +104,19 @@ class TrainableEmbedding(nn.Module):
         """
         return self.make_lambda()
 
-    def make_lambda(self, num_points: int = 1000):
+    @property
+    def bias_lamb_mat(self):
+        """
+        The lambda matrix with a constant component for models using a bias
+        """
+        return self.make_lambda(with_bias=True)
+
+    def make_lambda(self, num_points: int = 1000, with_bias: bool = False):
         """
         Compute the lambda matrix used for normalization
+
+        With with_bias, the embedded vectors are extended by a constant 1,
+        which is what multiplies the bias matrix of a model.
         """
         # Compute the raw lambda matrix, computing number of points if needed
         if self.domain.continuous:
@@ -119,6 +129,9 @@ class TrainableEmbedding(nn.Module):
             self.emb_dim = emb_vecs.shape[1]
             assert emb_vecs.shape[0] == num_points
 
+            if with_bias:
+                emb_vecs = torch.cat((emb_vecs, torch.ones_like(emb_vecs[:, :1])), 1)
+
             # Get rank-1 matrices for each point, then numerically integrate
             emb_mats = einsum("bi,bj->bij", emb_vecs, emb_vecs.conj())
             lamb_mat = torch.trapz(emb_mats, points, dim=0)
@@ -130,6 +143,9 @@ class TrainableEmbedding(nn.Module):
             self.emb_dim = emb_vecs.shape[1]
             assert emb_vecs.shape[0] == self.domain.max_val
 
+            if with_bias:
+                emb_vecs = torch.cat((emb_vecs, torch.ones_like(emb_vecs[:, :1])), 1)
+
             # Get rank-1 matrices for each point, then sum together
             emb_mats = einsum("bi,bj->bij", emb_vecs, emb_vecs.conj())
             lamb_mat = torch.sum(emb_mats, dim=0)
@@ -174,12 +190,16 @@ class FixedEmbedding(nn.Module):
         # Save defining data, compute lambda matrix
         self.domain = data_domain
         self.emb_fun = emb_fun
+        self.make_lambda(with_bias=True)
         self.make_lambda()
 
     @torch.no_grad()
-    def make_lambda(self, num_points: int = 1000):
+    def make_lambda(self, num_points: int = 1000, with_bias: bool = False):
         """
         Compute the lambda matrix used for normalization
+
+        With with_bias, the embedded vectors are extended by a constant 1,
+        which is what multiplies the bias matrix of a model.
         """
         # Compute the raw lambda matrix, computing number of points if needed
         if self.domain.continuous:
@@ -192,6 +212,9 @@ class FixedEmbedding(nn.Module):
             self.emb_dim = emb_vecs.shape[1]
             assert emb_vecs.shape[0] == num_points
 
+            if with_bias:
+                emb_vecs = torch.cat((emb_vecs, torch.ones_like(emb_vecs[:, :1])), 1)
+
             # Get rank-1 matrices for each point, then numerically integrate
             emb_mats = einsum("bi,bj->bij", emb_vecs, emb_vecs.conj())
             lamb_mat = torch.trapz(emb_mats, points, dim=0)
@@ -203,12 +226,18 @@ class FixedEmbedding(nn.Module):
             self.emb_dim = emb_vecs.shape[1]
             assert emb_vecs.shape[0] == self.domain.max_val
 
+            if with_bias:
+                emb_vecs = torch.cat((emb_vecs, torch.ones_like(emb_vecs[:, :1])), 1)
+
             # Get rank-1 matrices for each point, then sum together
             emb_mats = einsum("bi,bj->bij", emb_vecs, emb_vecs.conj())
             lamb_mat = torch.sum(emb_mats, dim=0)
 
         assert lamb_mat.ndim == 2
         assert lamb_mat.shape[0] == lamb_mat.shape[1]
+        if with_bias:
+            self.bias_lamb_mat = lamb_mat
+            return
         self.lamb_mat = lamb_mat
 
         # Check if the computed matrix is diagonal or multiple of the identity
diff --git a/torchmps/prob_mps.py b/torchmps/prob_mps.py
index 89a70d9..905126c 100644
--- a/torchmps/prob_mps.py
+++ b/torchmps/prob_mps.py
@@ -243,14 +243,22 @@ class ProbMPS(nn.Module):
             l_norm: Scalar value giving the log squared L2 norm of the
                 n'th order prob. amp. tensor described by the MPS.
         """
+        # With an embedding, the bias matrix isn't part of the core slices but the
+        # slice for an additional, constant component of the embedded vectors
+        if self.use_bias and self.embedding is not None:
+            bias_slice = self.bias_mat.expand_as(self.core_tensors[..., :1, :, :])
+            core_tensors = torch.cat((self.core_tensors, bias_slice), dim=-3)
         # Account for bias matrices before calling log norm implementation
-        if self.use_bias:
+        elif self.use_bias:
             core_tensors = self.core_tensors + self.bias_mat[None, None]
         else:
             core_tensors = self.core_tensors
 
         # Account for non-trivial lambda function in the embedding
-        lamb_mat = None if self.embedding is None else self.embedding.lamb_mat
+        if self.use_bias and self.embedding is not None:
+            lamb_mat = self.embedding.bias_lamb_mat
+        else:
+            lamb_mat = None if self.embedding is None else self.embedding.lamb_mat
 
         return get_log_norm(core_tensors, self.edge_vecs, lamb_mat=lamb_mat)
 
@@ -446,14 +454,22 @@ class ProbUnifMPS(ProbMPS):
             l_norm: Scalar value giving the log squared L2 norm of the
                 n'th order prob. amp. tensor described by the MPS.
         """
+        # With an embedding, the bias matrix isn't part of the core slices but the
+        # slice for an additional, constant component of the embedded vectors
+        if self.use_bias and self.embedding is not None:
+            bias_slice = self.bias_mat.expand_as(self.core_tensors[..., :1, :, :])
+            core_tensors = torch.cat((self.core_tensors, bias_slice), dim=-3)
         # Account for bias matrices before calling log norm implementation
-        if self.use_bias:
+        elif self.use_bias:
             core_tensors = self.core_tensors + self.bias_mat[None]
         else:
             core_tensors = self.core_tensors
 
         # Account for non-trivial lambda function in the embedding
-        lamb_mat = None if self.embedding is None else self.embedding.lamb_mat
+        if self.use_bias and self.embedding is not None:
+            lamb_mat = self.embedding.bias_lamb_mat
+        else:
+            lamb_mat = None if self.embedding is None else self.embedding.lamb_mat
 
         return get_log_norm(
             core_tensors, self.edge_vecs, lamb_mat=lamb_mat, length=data_len
-- 
2.43.0


From 402d22650dcb99b06b8001882991981f4dc34e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 20/29] fix: don't rescale products which are exactly zero

Contracting matrices whose product is zero gave nan rather than zero, and a
ProbMPS input with probability zero made its whole batch fail.
---
 torchmps/mps_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index a885d67..a833e3e 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -106,6 +106,7 @@ def slim_eval_fun(seq_input: Tensor, core_tensor: Tensor, bound_vecs: Tensor) ->
 
         # Rescale vectors, update log_scale
         rescale = vecs.abs().sum(dim=-1, keepdim=True) / bond_dim
+        rescale = rescale.masked_fill(rescale == 0, 1)
         log_scale = log_scale + rescale.log()[:, 0, 0]
         vecs = vecs / rescale
 
@@ -293,6 +294,7 @@ def mat_reduce_par(matrices: Tensor) -> Tuple[Tensor, Tensor]:
 
         # Rescale matrices and update log_scale
         rescales = matrices.abs().sum(dim=(-2, -1), keepdim=True) / bond_dim
+        rescales = rescales.masked_fill(rescales == 0, 1)
         log_scale = log_scale + rescales.log().sum(dim=-3)
         matrices = matrices / rescales
 
@@ -326,6 +328,7 @@ def mat_reduce_seq(matrices: Sequence[Tensor]) -> Tensor:
         # Rescale and update the log scale factor
         target_norm = sqrt(product.shape[-2] * product.shape[-1])
         rescale = product.abs().sum(dim=(-2, -1), keepdim=True) / target_norm
+        rescale = rescale.masked_fill(rescale == 0, 1)
         log_scale = log_scale + torch.log(rescale)
         product = product / rescale
 
-- 
2.43.0


From d56b5b299231690831956bef841fc85475ee3d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 21/29] fix: don't turn an adaptive MPS with a zero core into
 NaN when shifting

---
 torchmps/torchmps.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 3eb210a..e6df8f9 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -956,10 +956,12 @@ class MergedLinearRegion(LinearRegion):
         log_scale = sum([sum(ns) for ns in log_norms])
         log_scale /= sum([len(ns) for ns in log_norms])
 
-        # Now rescale all cores so that their norms are roughly equal
-        scales = [[torch.exp(log_scale - n) for n in ns] for ns in log_norms]
-        for core, these_scales in zip(unmerged_list, scales):
-            core.rescale_norm(these_scales)
+        # Now rescale all cores so that their norms are roughly equal, which
+        # isn't possible when one of them is exactly zero
+        if torch.isfinite(log_scale):
+            scales = [[torch.exp(log_scale - n) for n in ns] for ns in log_norms]
+            for core, these_scales in zip(unmerged_list, scales):
+                core.rescale_norm(these_scales)
 
         # Return our unmerged modules and the updated bond dimensions
         return unmerged_list, bond_list, sv_list
-- 
2.43.0


From 63d3e499a610c4b714373891470abe2aeb03eff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 22/29] fix: keep the order and names of adaptive MPS
 parameters across shifts

---
 torchmps/torchmps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index e6df8f9..4a97ebe 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -737,9 +737,11 @@ class MergedLinearRegion(LinearRegion):
 
         # Initialize attributes self.module_list_0 and self.module_list_1
         # using the unmerged self.module_list, then redefine the latter in
-        # terms of one of the former lists
+        # terms of one of the former lists. It's registered after them, so that
+        # the order and names of our parameters don't depend on the merge state
         self._merge(self.module_list, offset=0)
         self._merge(self.module_list, offset=1)
+        del self.module_list
         self.module_list = self.module_list_0
 
         # Initialize variables used during switching
-- 
2.43.0


From a7e96f18c9751201de808c7cb2b5867d67eaeca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:18 +0000
Subject: [PATCH 23/29] fix: keep the previous feature map if replacing it is
 interrupted

---
 torchmps/torchmps.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/torchmps/torchmps.py b/torchmps/torchmps.py
index 4a97ebe..f4a9599 100644
--- a/torchmps/torchmps.py
+++ b/torchmps/torchmps.py
@@ -275,9 +275,14 @@ class TI_MPS(nn.Module):
                 )
 
         # Unregister the previous map, otherwise only Modules could replace it
-        if isinstance(self.feature_map, nn.Module):
-            del self.feature_map
-        self.feature_map = feature_map
+        previous_map = self.feature_map
+        try:
+            if isinstance(previous_map, nn.Module):
+                del self.feature_map
+            self.feature_map = feature_map
+        except BaseException:
+            self.feature_map = previous_map
+            raise
 
 
 class MPS(nn.Module):
@@ -580,9 +585,14 @@ class MPS(nn.Module):
                 )
 
         # Unregister the previous map, otherwise only Modules could replace it
-        if isinstance(self.feature_map, nn.Module):
-            del self.feature_map
-        self.feature_map = feature_map
+        previous_map = self.feature_map
+        try:
+            if isinstance(previous_map, nn.Module):
+                del self.feature_map
+            self.feature_map = feature_map
+        except BaseException:
+            self.feature_map = previous_map
+            raise
 
     def core_len(self):
         """
-- 
2.43.0


From ecb3e25c1a855b597bbbcebec1685f9b8a31f470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:57 +0000
Subject: [PATCH 24/29] fix: keep the gradient of every element of a trainable
 lamb_mat

---
 torchmps/embeddings.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/torchmps/embeddings.py b/torchmps/embeddings.py
index 7b61258..2191ae8 100644
--- a/torchmps/embeddings.py
+++ b/torchmps/embeddings.py
@@ -153,6 +153,11 @@ class TrainableEmbedding(nn.Module):
         assert lamb_mat.ndim == 2
         assert lamb_mat.shape[0] == lamb_mat.shape[1]
 
+        # Elements which happen to vanish (or to agree) for the current
+        # parameters still have gradients of their own
+        if lamb_mat.requires_grad:
+            return lamb_mat
+
         # Check if the computed matrix is diagonal or multiple of the identity
         # (relative to its own scale, which can be arbitrarily small)
         atol = 1e-8 * lamb_mat.abs().max().item()
-- 
2.43.0


From cc954e9525e123ef8f69036f775199ab226a5f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:15 +0000
Subject: [PATCH 25/29] fix: svd_flex returned wrong factors for complex
 tensors

---
 torchmps/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index 879c98f..b4e483d 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -85,7 +85,7 @@ def svd_flex(tensor, svd_string, max_D=None, cutoff=1e-10, sv_right=True, sv_vec
         # Get SVD and format so that left_mat * diag(svs) * right_mat = tensor
         left_mat, svs, right_mat = torch.svd(tensor)
         svs, _ = torch.sort(svs, descending=True)
-        right_mat = torch.t(right_mat)
+        right_mat = torch.t(right_mat).conj()
 
         # Decrease or increase our tensor sizes in the presence of max_D
         if max_D and len(svs) > max_D:
@@ -93,7 +93,7 @@ def svd_flex(tensor, svd_string, max_D=None, cutoff=1e-10, sv_right=True, sv_vec
             left_mat = left_mat[:, :max_D]
             right_mat = right_mat[:max_D]
         elif max_D and len(svs) < max_D:
-            copy_svs = tensor.new_zeros([max_D])
+            copy_svs = svs.new_zeros([max_D])
             copy_svs[: len(svs)] = svs
             copy_left = tensor.new_zeros([left_mat.size(0), max_D])
             copy_left[:, : left_mat.size(1)] = left_mat
-- 
2.43.0


From 7708790396c1c4367c939158ab8dcc6ea99d0848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:15 +0000
Subject: [PATCH 26/29] fix: init_tensor raised when init_dim exceeds one of
 two unequal bond dimensions

---
 torchmps/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index b4e483d..f23ee08 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -223,6 +223,7 @@ def init_tensor(shape, bond_str, init_method):
                 bond_dims = [init_dim, init_dim]
             else:
                 init_dim = min(bond_dims)
+                bond_dims = [init_dim, init_dim]
 
             eye_shape = [init_dim if c in bond_chars else 1 for c in bond_str]
             expand_shape = [
-- 
2.43.0


From 419ef49c57e5832e827eff8d10dbc5b8ce2f3099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:15 +0000
Subject: [PATCH 27/29] fix: normal_init ignored rel_std

---
 torchmps/mps_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index a833e3e..431e453 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -559,7 +559,7 @@ def normal_init(shape: tuple, is_complex: bool = False, rel_std: float = 1.0) ->
             )
 
     # Initialize core using size-adjusted value of variance
-    std = 1 / shape[-1]
+    std = rel_std / shape[-1]
     core_tensor = std * torch.randn(shape)
     if is_complex:
         core_tensor = phaseify(core_tensor)
-- 
2.43.0


From 7cd81f81c7e7ed40dc7a77bd0b1b3af9a3c2ceb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:15 +0000
Subject: [PATCH 28/29] fix: contract_matseq raised for a boundary vector which
 requires grad and no matrices

---
 torchmps/mps_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/torchmps/mps_base.py b/torchmps/mps_base.py
index 431e453..93d80d0 100644
--- a/torchmps/mps_base.py
+++ b/torchmps/mps_base.py
@@ -234,11 +234,11 @@ def contract_matseq(
 
     # Strip away dummy indices
     if real_vec[0]:
-        product.squeeze_(-2)
-        log_scale.squeeze_(-2)
+        product = product.squeeze(-2)
+        log_scale = log_scale.squeeze(-2)
     if real_vec[1]:
-        product.squeeze_(-1)
-        log_scale.squeeze_(-1)
+        product = product.squeeze(-1)
+        log_scale = log_scale.squeeze(-1)
 
     if log_format:
         return product, log_scale
-- 
2.43.0


From f1ace9aab0f69ad9057005dbdb7f7a7e4c8a8110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:08 +0000
Subject: [PATCH 29/29] fix: init_tensor did not give an identity when the
 right bond comes before the left one

---
 torchmps/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchmps/utils.py b/torchmps/utils.py
index f23ee08..c7ef871 100644
--- a/torchmps/utils.py
+++ b/torchmps/utils.py
@@ -211,6 +211,7 @@ def init_tensor(shape, bond_str, init_method):
     if init_method in ["random_eye", "min_random_eye"]:
         bond_chars = ["l", "r"]
         assert all([c in bond_str for c in bond_chars])
+        bond_chars.sort(key=bond_str.index)
 
         # Initialize our tensor slices as identity matrices which each fill
         # some or all of the initially allocated bond space
-- 
2.43.0

