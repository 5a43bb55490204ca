From b2a50a028596a920266cdbbbd2f1826ebb248a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:43 +0000
Subject: [PATCH 01/97] fix: sample id-list features when a single transition
 is requested

numpy treats a one-element index tensor as a scalar, so the batch and stack
dimensions were lost and sampling one transition raised.
---
 reagent/replay_memory/circular_replay_buffer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/reagent/replay_memory/circular_replay_buffer.py b/reagent/replay_memory/circular_replay_buffer.py
index ce5fabd..8f5c88f 100644
--- a/reagent/replay_memory/circular_replay_buffer.py
+++ b/reagent/replay_memory/circular_replay_buffer.py
@@ -723,7 +723,11 @@ class ReplayBuffer(object):
         stack_indices = indices.unsqueeze(1) + torch.arange(-self._stack_size + 1, 1)
         # pyre-fixme[16]: `Tensor` has no attribute `__imod__`.
         stack_indices %= self._replay_capacity
-        retval = self._store[key][stack_indices]
+        store = self._store[key]
+        if isinstance(store, np.ndarray):
+            # numpy reads a one-element tensor as a scalar index and drops the dims
+            stack_indices = stack_indices.numpy()
+        retval = store[stack_indices]
         return self._key_to_replay_elem[key].metadata.sample_to_output(retval)
 
     def _get_steps(self, multistep_indices: torch.Tensor) -> torch.Tensor:
-- 
2.43.0


From 26a075b1d594969c9275a6a780e34fbe103c07e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:12 +0000
Subject: [PATCH 02/97] fix: checkpoint which replay transitions can be sampled

save() skipped the validity bookkeeping, so a buffer restored from a checkpoint
reported size 0 and could not sample any of the transitions it had loaded.
---
 reagent/replay_memory/circular_replay_buffer.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/reagent/replay_memory/circular_replay_buffer.py b/reagent/replay_memory/circular_replay_buffer.py
index 8f5c88f..abb3df4 100644
--- a/reagent/replay_memory/circular_replay_buffer.py
+++ b/reagent/replay_memory/circular_replay_buffer.py
@@ -272,6 +272,13 @@ STORE_FILENAME_PREFIX = "$store$_"
 # This constant determines how many iterations a checkpoint is kept for.
 CHECKPOINT_DURATION = 4
 
+# Private members without which the stored transitions can't be sampled again.
+SAMPLING_STATE = [
+    "_is_index_valid",
+    "_num_valid_indices",
+    "_num_transitions_in_current_episode",
+]
+
 REQUIRED_KEYS = ["observation", "action", "reward", "terminal"]
 
 
@@ -773,14 +780,17 @@ class ReplayBuffer(object):
         """Return the dict of elements of the class for checkpointing.
         Returns:
           checkpointable_elements: dict containing all non private (starting with
-          _) members + all the arrays inside self._store.
+          _) members + all the arrays inside self._store + the bookkeeping of which
+          of the stored transitions can be sampled.
         """
         checkpointable_elements = {}
         for member_name, member in self.__dict__.items():
             if member_name == "_store":
                 for array_name, array in self._store.items():
                     checkpointable_elements[STORE_FILENAME_PREFIX + array_name] = array
-            elif not member_name.startswith("_"):
+            elif not member_name.startswith("_") or (
+                self._initialized_buffer and member_name in SAMPLING_STATE
+            ):
                 checkpointable_elements[member_name] = member
         return checkpointable_elements
 
-- 
2.43.0


From b280af2481988a29820734085aeaa2dbbace10fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:12 +0000
Subject: [PATCH 03/97] fix: checkpoint replay buffers that hold id-list
 features

Their stores are numpy object arrays, on which save() called Tensor.numpy().
---
 .../replay_memory/circular_replay_buffer.py    | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/reagent/replay_memory/circular_replay_buffer.py b/reagent/replay_memory/circular_replay_buffer.py
index abb3df4..fe28cce 100644
--- a/reagent/replay_memory/circular_replay_buffer.py
+++ b/reagent/replay_memory/circular_replay_buffer.py
@@ -819,9 +819,12 @@ class ReplayBuffer(object):
                     # self._store.
                     if attr.startswith(STORE_FILENAME_PREFIX):
                         array_name = attr[len(STORE_FILENAME_PREFIX) :]
-                        np.save(
-                            outfile, self._store[array_name].numpy(), allow_pickle=False
-                        )
+                        array = self._store[array_name]
+                        if isinstance(array, np.ndarray):
+                            # id-list features are stored as arrays of objects
+                            pickle.dump(array, outfile)
+                        else:
+                            np.save(outfile, array.numpy(), allow_pickle=False)
                     # Some numpy arrays might not be part of storage
                     elif isinstance(self.__dict__[attr], np.ndarray):
                         np.save(outfile, self.__dict__[attr], allow_pickle=False)
@@ -865,9 +868,12 @@ class ReplayBuffer(object):
                 with gzip.GzipFile(fileobj=f) as infile:
                     if attr.startswith(STORE_FILENAME_PREFIX):
                         array_name = attr[len(STORE_FILENAME_PREFIX) :]
-                        self._store[array_name] = torch.from_numpy(
-                            np.load(infile, allow_pickle=False)
-                        )
+                        if isinstance(self._store[array_name], np.ndarray):
+                            self._store[array_name] = pickle.load(infile)
+                        else:
+                            self._store[array_name] = torch.from_numpy(
+                                np.load(infile, allow_pickle=False)
+                            )
                     elif isinstance(self.__dict__[attr], np.ndarray):
                         self.__dict__[attr] = np.load(infile, allow_pickle=False)
                     else:
-- 
2.43.0


From 03c651096463d7496674039dfd41ed3e72ed4f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:12 +0000
Subject: [PATCH 04/97] fix: sample a prioritized buffer with its default batch
 size

batch_size=None is documented to mean the default, but was passed on to view().
---
 reagent/replay_memory/prioritized_replay_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/replay_memory/prioritized_replay_buffer.py b/reagent/replay_memory/prioritized_replay_buffer.py
index 62c8a39..913ff3f 100644
--- a/reagent/replay_memory/prioritized_replay_buffer.py
+++ b/reagent/replay_memory/prioritized_replay_buffer.py
@@ -137,7 +137,7 @@ class PrioritizedReplayBuffer(circular_replay_buffer.ReplayBuffer):
             if element_name == "sampling_probabilities":
                 batch = torch.from_numpy(
                     self.get_priority(transition.indices.numpy().astype(np.int32))
-                ).view(batch_size, 1)
+                ).view(-1, 1)
             else:
                 batch = getattr(transition, element_name)
             batch_arrays.append(batch)
-- 
2.43.0


From d7dfc8b546ddb5ee3026a7f4c7ddf66c77a166ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:38 +0000
Subject: [PATCH 05/97] fix: don't return an invalid index when prioritized
 sampling gives up

The attempts could run out in the retry loop, whose last draw was then returned
unchecked instead of raising the documented error.
---
 reagent/replay_memory/prioritized_replay_buffer.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/reagent/replay_memory/prioritized_replay_buffer.py b/reagent/replay_memory/prioritized_replay_buffer.py
index 913ff3f..8d7ca52 100644
--- a/reagent/replay_memory/prioritized_replay_buffer.py
+++ b/reagent/replay_memory/prioritized_replay_buffer.py
@@ -96,19 +96,19 @@ class PrioritizedReplayBuffer(circular_replay_buffer.ReplayBuffer):
         allowed_attempts = self._max_sample_attempts
         for i in range(len(indices)):
             if not self.is_valid_transition(indices[i]):
-                if allowed_attempts == 0:
-                    raise RuntimeError(
-                        "Max sample attempts: Tried {} times but only sampled {}"
-                        " valid indices. Batch size is {}".format(
-                            self._max_sample_attempts, i, batch_size
-                        )
-                    )
                 index = indices[i]
                 while not self.is_valid_transition(index) and allowed_attempts > 0:
                     # If index i is not valid keep sampling others. Note that this
                     # is not stratified.
                     index = self.sum_tree.sample()
                     allowed_attempts -= 1
+                if not self.is_valid_transition(index):
+                    raise RuntimeError(
+                        "Max sample attempts: Tried {} times but only sampled {}"
+                        " valid indices. Batch size is {}".format(
+                            self._max_sample_attempts, i, batch_size
+                        )
+                    )
                 indices[i] = index
         return torch.tensor(indices, dtype=torch.int64)
 
-- 
2.43.0


From f3d85d115e4ccbf00fa9954fe8c611abe0478fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:25 +0000
Subject: [PATCH 06/97] fix: allow CLIP_LOG features in Preprocessor

The type is listed and has a transform, but building a Preprocessor with such a
feature raised AttributeError.
---
 reagent/preprocessing/preprocessor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reagent/preprocessing/preprocessor.py b/reagent/preprocessing/preprocessor.py
index f8d3b4f..b1c23b3 100644
--- a/reagent/preprocessing/preprocessor.py
+++ b/reagent/preprocessing/preprocessor.py
@@ -214,6 +214,11 @@ class Preprocessor(Module):
         # ONNX doesn't support != yet
         return self.one_tensor - (input == self.zero_tensor).float()
 
+    def _create_parameters_CLIP_LOG(
+        self, begin_index: int, norm_params: List[NormalizationParameters]
+    ):
+        pass
+
     def _preprocess_CLIP_LOG(
         self,
         begin_index: int,
-- 
2.43.0


From 7cfee27295d94f778685d2039965fe292608b311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:25 +0000
Subject: [PATCH 07/97] fix: don't normalize with Box-Cox statistics when
 Box-Cox is skipped

With skip_box_cox the type stayed CONTINUOUS/QUANTILE, but mean, stddev and
quantiles were computed on the Box-Cox transformed values.
---
 reagent/preprocessing/normalization.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/reagent/preprocessing/normalization.py b/reagent/preprocessing/normalization.py
index cb1c07c..deee3c8 100644
--- a/reagent/preprocessing/normalization.py
+++ b/reagent/preprocessing/normalization.py
@@ -93,7 +93,7 @@ def identify_parameter(
                 k2_original, p_original, k2_boxcox, p_boxcox
             )
         )
-        if lambda_ < 0.9 or lambda_ > 1.1:
+        if not skip_box_cox and (lambda_ < 0.9 or lambda_ > 1.1):
             # Lambda is far enough from 1.0 to be worth doing boxcox
             if k2_original > k2_boxcox * 10 and k2_boxcox <= quantile_k2_threshold:
                 # The boxcox output is significantly more normally distributed
@@ -109,9 +109,8 @@ def identify_parameter(
                 ):
                     values = candidate_values
                     boxcox_lambda = float(lambda_)
-        if boxcox_lambda is None or skip_box_cox:
+        if boxcox_lambda is None:
             boxcox_shift = None
-            boxcox_lambda = None
         if boxcox_lambda is not None:
             feature_type = identify_types.BOXCOX
         if (
-- 
2.43.0


From cf65426448a4318bde512c2468daef91e5c3e715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:04 +0000
Subject: [PATCH 08/97] fix: don't change the batch's action masks when BCQ
 filters actions

---
 reagent/training/dqn_trainer.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/reagent/training/dqn_trainer.py b/reagent/training/dqn_trainer.py
index 8af4eda..9c7d08e 100644
--- a/reagent/training/dqn_trainer.py
+++ b/reagent/training/dqn_trainer.py
@@ -175,7 +175,9 @@ class DQNTrainer(DQNTrainerBaseLightning):
                     training_batch.next_state,
                     self.bcq_drop_threshold,
                 )
-                possible_next_actions_mask *= action_on_policy
+                possible_next_actions_mask = (
+                    possible_next_actions_mask * action_on_policy
+                )
             next_q_values, max_q_action_idxs = self.get_max_q_values_with_target(
                 all_next_q_values,
                 all_next_q_values_target,
@@ -220,13 +222,13 @@ class DQNTrainer(DQNTrainerBaseLightning):
         )
 
         if self.maxq_learning:
-            possible_actions_mask = training_batch.possible_actions_mask
+            possible_actions_mask = training_batch.possible_actions_mask.float()
 
-        if self.bcq:
-            action_on_policy = get_valid_actions_from_imitator(
-                self.bcq_imitator, training_batch.state, self.bcq_drop_threshold
-            )
-            possible_actions_mask *= action_on_policy
+            if self.bcq:
+                action_on_policy = get_valid_actions_from_imitator(
+                    self.bcq_imitator, training_batch.state, self.bcq_drop_threshold
+                )
+                possible_actions_mask = possible_actions_mask * action_on_policy
 
         # Do we ever use model_action_idxs computed below?
         model_action_idxs = self.get_max_q_values(
-- 
2.43.0


From 6d9af8e2d06c2f5896272e9bca62b1f9d7728f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 09/97] fix: keep C51 projection indices inside the support

---
 reagent/training/c51_trainer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reagent/training/c51_trainer.py b/reagent/training/c51_trainer.py
index 0305b2e..43c7aed 100644
--- a/reagent/training/c51_trainer.py
+++ b/reagent/training/c51_trainer.py
@@ -129,7 +129,8 @@ class C51Trainer(RLTrainerMixin, ReAgentLightningModule):
         target_Q = target_Q.clamp(self.qmin, self.qmax)
 
         # rescale to indicies [0, 1, ..., N-1]
-        b = (target_Q - self.qmin) / self.scale_support
+        # (rounding can push the top of the support past the last index)
+        b = ((target_Q - self.qmin) / self.scale_support).clamp(0, self.num_atoms - 1)
         lo = b.floor().to(torch.int64)
         up = b.ceil().to(torch.int64)
 
-- 
2.43.0


From e1bd9ab55f7c421c8d41f7139f6e7b15b441aefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 10/97] fix: learn terminal rewards with SARSA C51

---
 reagent/training/c51_trainer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/reagent/training/c51_trainer.py b/reagent/training/c51_trainer.py
index 43c7aed..85e300b 100644
--- a/reagent/training/c51_trainer.py
+++ b/reagent/training/c51_trainer.py
@@ -123,6 +123,13 @@ class C51Trainer(RLTrainerMixin, ReAgentLightningModule):
             next_dist = next_dist[range(rewards.shape[0]), next_action.reshape(-1)]
         else:
             next_dist = (next_dist * training_batch.next_action.unsqueeze(-1)).sum(1)
+            # Terminal transitions have no next action. Any distribution will do as
+            # its whole support is mapped to the reward
+            next_dist = torch.where(
+                not_terminal.bool(),
+                next_dist,
+                torch.full_like(next_dist, 1.0 / self.num_atoms),
+            )
 
         # Build target distribution
         target_Q = rewards + discount_tensor * not_terminal * self.support
-- 
2.43.0


From bbbfcbad7820bd952878e516f85cc0aee249ca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 11/97] fix: keep CRR losses in step with the optimizers when
 the policy update is delayed

---
 reagent/training/discrete_crr_trainer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/reagent/training/discrete_crr_trainer.py b/reagent/training/discrete_crr_trainer.py
index 26a4dab..88accb6 100644
--- a/reagent/training/discrete_crr_trainer.py
+++ b/reagent/training/discrete_crr_trainer.py
@@ -242,7 +242,8 @@ class DiscreteCRRTrainer(DQNTrainerBaseLightning):
         all_action_scores = all_q_values.detach()
 
         # Only update actor and target networks after a fixed number of Q updates
-        if batch_idx % self.delayed_policy_update == 0:
+        update_policy = batch_idx % self.delayed_policy_update == 0
+        if update_policy:
             # Note: action_dim (the length of each row of the actor_action
             # matrix obtained below) is assumed to be > 1.
             actor_actions = self.actor_network(state).action
@@ -280,8 +281,7 @@ class DiscreteCRRTrainer(DQNTrainerBaseLightning):
                 )
             yield actor_loss
         else:
-            # Yielding None prevents the actor and target networks from updating
-            yield None
+            # Yielding None prevents the actor network from updating
             yield None
 
         discount_tensor = torch.full_like(rewards, self.gamma)
@@ -317,5 +317,5 @@ class DiscreteCRRTrainer(DQNTrainerBaseLightning):
         # Use the soft update rule to update the target networks.
         # Note: this yield has to be the last one, since SoftUpdate is the last
         # optimizer added in the configure_optimizers() function.
-        result = self.soft_update_result()
-        yield result
+        # Yielding None prevents the target networks from updating.
+        yield self.soft_update_result() if update_policy else None
-- 
2.43.0


From ceec909ffe818abc0b1489f378e9f9b737a98002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 12/97] fix: keep SAC's learned temperature in single precision

---
 reagent/training/sac_trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/training/sac_trainer.py b/reagent/training/sac_trainer.py
index d3ff892..0e4a720 100644
--- a/reagent/training/sac_trainer.py
+++ b/reagent/training/sac_trainer.py
@@ -122,7 +122,7 @@ class SACTrainer(RLTrainerMixin, ReAgentLightningModule):
         if alpha_optimizer is not None:
             self.target_entropy = target_entropy
             self.log_alpha = torch.nn.Parameter(
-                torch.tensor([np.log(self.entropy_temperature)])
+                torch.tensor([np.log(self.entropy_temperature)]).float()
             )
 
         self.logged_action_uniform_prior = logged_action_uniform_prior
-- 
2.43.0


From 1ccb459e09eb144b9d5e0e51135bfc41a3d30fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 13/97] fix: ignore what lies past the end of a trajectory in
 n-step rewards

---
 reagent/replay_memory/circular_replay_buffer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reagent/replay_memory/circular_replay_buffer.py b/reagent/replay_memory/circular_replay_buffer.py
index fe28cce..a230c43 100644
--- a/reagent/replay_memory/circular_replay_buffer.py
+++ b/reagent/replay_memory/circular_replay_buffer.py
@@ -719,8 +719,10 @@ class ReplayBuffer(object):
     ):
         # default behavior is to sum up multi_step reward
         masks = torch.arange(self._update_horizon) < steps.unsqueeze(1)
-        rewards = self._store["reward"][multistep_indices] * self._decays * masks
-        return rewards.sum(dim=1)
+        rewards = self._store["reward"][multistep_indices] * self._decays
+        # Not multiplying by masks as 0 * NaN is NaN, and the entries past the end may
+        # not have been written yet
+        return torch.where(masks, rewards, torch.zeros_like(rewards)).sum(dim=1)
 
     def _get_stack_for_indices(self, key: str, indices: torch.Tensor) -> torch.Tensor:
         """ Get stack of transition data. """
-- 
2.43.0


From 32f4b2969b7b815882988a42033133ec740d07ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:22 +0000
Subject: [PATCH 14/97] fix: match QR-DQN's CPE optimizers with their losses

---
 reagent/training/qrdqn_trainer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reagent/training/qrdqn_trainer.py b/reagent/training/qrdqn_trainer.py
index 99b38d3..caf5b7b 100644
--- a/reagent/training/qrdqn_trainer.py
+++ b/reagent/training/qrdqn_trainer.py
@@ -98,13 +98,13 @@ class QRDQNTrainer(DQNTrainerBaseLightning):
             source_params += list(self.q_network_cpe.parameters())
             # source_params += list(self.reward_network.parameters())
             optimizers.append(
-                self.q_network_cpe_optimizer.make_optimizer(
-                    self.q_network_cpe.parameters()
+                self.reward_network_optimizer.make_optimizer(
+                    self.reward_network.parameters()
                 )
             )
             optimizers.append(
-                self.reward_network_optimizer.make_optimizer(
-                    self.reward_network.parameters()
+                self.q_network_cpe_optimizer.make_optimizer(
+                    self.q_network_cpe.parameters()
                 )
             )
 
-- 
2.43.0


From 6154158033d4ed27fe9adab2ceb6b321b5cdc8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:22 +0000
Subject: [PATCH 15/97] fix: resolve the default optimizer of SlateQTrainer

---
 reagent/training/slate_q_trainer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reagent/training/slate_q_trainer.py b/reagent/training/slate_q_trainer.py
index 815278f..1bbe941 100644
--- a/reagent/training/slate_q_trainer.py
+++ b/reagent/training/slate_q_trainer.py
@@ -8,6 +8,7 @@ import reagent.parameters as rlp
 import reagent.types as rlt
 import torch
 import torch.nn.functional as F
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.optimizer import Optimizer__Union, SoftUpdate
 from reagent.training.reagent_lightning_module import ReAgentLightningModule
@@ -17,6 +18,7 @@ logger = logging.getLogger(__name__)
 
 
 class SlateQTrainer(RLTrainerMixin, ReAgentLightningModule):
+    @resolve_defaults
     def __init__(
         self,
         q_network,
-- 
2.43.0


From cde47a74a6478cd79e37911ff7dc1249c401a1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:22 +0000
Subject: [PATCH 16/97] fix: skip the soft update when the training step yields
 None

---
 reagent/optimizer/soft_update.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reagent/optimizer/soft_update.py b/reagent/optimizer/soft_update.py
index e6819c6..0d70733 100644
--- a/reagent/optimizer/soft_update.py
+++ b/reagent/optimizer/soft_update.py
@@ -46,6 +46,9 @@ class SoftUpdate(torch.optim.Optimizer):
         if closure is not None:
             with torch.enable_grad():
                 loss = closure()
+            if loss is None:
+                # The training step asked for this update to be skipped
+                return None
 
         for group in self.param_groups:
             params = group["params"]
-- 
2.43.0


From 7e33adfe1197052bb5aeac4b688ab3f40bd52766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 17/97] fix: truncate FrechetSort's actions to topk ranks, not
 rows

---
 reagent/samplers/frechet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/samplers/frechet.py b/reagent/samplers/frechet.py
index 4f0a902..ecc8dd0 100644
--- a/reagent/samplers/frechet.py
+++ b/reagent/samplers/frechet.py
@@ -73,7 +73,7 @@ class FrechetSort(Sampler):
         log_prob = self.log_prob(scores, action)
         # Only truncate the action before returning
         if self.topk is not None:
-            action = action[: self.topk]
+            action = action[:, : self.topk]
         return rlt.ActorOutput(action, log_prob)
 
     def log_prob(self, scores: torch.Tensor, action) -> torch.Tensor:
-- 
2.43.0


From a94eaa0fae71d08180ab82bc75c57a6f7328609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 18/97] fix: keep the batch dimension of encoder scores

---
 reagent/models/seq2slate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/models/seq2slate.py b/reagent/models/seq2slate.py
index 7aea7a5..462e076 100644
--- a/reagent/models/seq2slate.py
+++ b/reagent/models/seq2slate.py
@@ -709,7 +709,7 @@ class Seq2SlateTransformerModel(nn.Module):
         # slate_encoder_output shape: batch_size, tgt_seq_len, dim_model
         slate_encoder_output = gather(encoder_output, tgt_out_idx - 2)
         # encoder_scores shape: batch_size, tgt_seq_len
-        encoder_scores = self.encoder_scorer(slate_encoder_output).squeeze()
+        encoder_scores = self.encoder_scorer(slate_encoder_output).squeeze(dim=2)
         return Seq2SlateTransformerOutput(
             ranked_per_symbol_probs=None,
             ranked_per_seq_probs=None,
-- 
2.43.0


From 1cf0f6d8984fdcc2dfffb9c16cdd15e16ab4c259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:57 +0000
Subject: [PATCH 19/97] fix: resolve the default optimizers of ranking and
 reward network trainers

---
 reagent/training/ranking/seq2slate_attn_trainer.py | 2 ++
 reagent/training/ranking/seq2slate_dr_trainer.py   | 2 ++
 reagent/training/ranking/seq2slate_sim_trainer.py  | 2 ++
 reagent/training/ranking/seq2slate_tf_trainer.py   | 2 ++
 reagent/training/ranking/seq2slate_trainer.py      | 2 ++
 reagent/training/reward_network_trainer.py         | 2 ++
 6 files changed, 12 insertions(+)

diff --git a/reagent/training/ranking/seq2slate_attn_trainer.py b/reagent/training/ranking/seq2slate_attn_trainer.py
index 1c11f26..55dd000 100644
--- a/reagent/training/ranking/seq2slate_attn_trainer.py
+++ b/reagent/training/ranking/seq2slate_attn_trainer.py
@@ -5,6 +5,7 @@ import logging
 import reagent.types as rlt
 import torch
 import torch.nn as nn
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.core.tracker import observable
 from reagent.model_utils.seq2slate_utils import Seq2SlateMode
@@ -25,6 +26,7 @@ class Seq2SlatePairwiseAttnTrainer(Trainer):
     https://arxiv.org/pdf/1904.06813.pdf )
     """
 
+    @resolve_defaults
     def __init__(
         self,
         seq2slate_net: Seq2SlateTransformerNet,
diff --git a/reagent/training/ranking/seq2slate_dr_trainer.py b/reagent/training/ranking/seq2slate_dr_trainer.py
index d63d110..7d78a4b 100644
--- a/reagent/training/ranking/seq2slate_dr_trainer.py
+++ b/reagent/training/ranking/seq2slate_dr_trainer.py
@@ -6,6 +6,7 @@ import reagent.types as rlt
 import torch
 import torch.nn as nn
 import torch.nn.functional as F
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.model_utils.seq2slate_utils import (
     Seq2SlateMode,
@@ -27,6 +28,7 @@ class Seq2SlateDifferentiableRewardTrainer(Trainer):
     https://arxiv.org/pdf/1810.02019.pdf )
     """
 
+    @resolve_defaults
     def __init__(
         self,
         seq2slate_net: Seq2SlateTransformerNet,
diff --git a/reagent/training/ranking/seq2slate_sim_trainer.py b/reagent/training/ranking/seq2slate_sim_trainer.py
index d9df4f1..f85ca02 100644
--- a/reagent/training/ranking/seq2slate_sim_trainer.py
+++ b/reagent/training/ranking/seq2slate_sim_trainer.py
@@ -7,6 +7,7 @@ from typing import List, Optional
 import numpy as np
 import reagent.types as rlt
 import torch
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.core.tracker import observable
 from reagent.models.seq2slate import BaselineNet, Seq2SlateMode, Seq2SlateTransformerNet
@@ -74,6 +75,7 @@ class Seq2SlateSimulationTrainer(Trainer):
     generated randomly and the reward computed by a reward network
     """
 
+    @resolve_defaults
     def __init__(
         self,
         seq2slate_net: Seq2SlateTransformerNet,
diff --git a/reagent/training/ranking/seq2slate_tf_trainer.py b/reagent/training/ranking/seq2slate_tf_trainer.py
index b79571c..86ba91c 100644
--- a/reagent/training/ranking/seq2slate_tf_trainer.py
+++ b/reagent/training/ranking/seq2slate_tf_trainer.py
@@ -6,6 +6,7 @@ import reagent.types as rlt
 import torch
 import torch.nn as nn
 import torch.nn.functional as F
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.model_utils.seq2slate_utils import Seq2SlateMode
 from reagent.models.seq2slate import Seq2SlateTransformerNet
@@ -23,6 +24,7 @@ class Seq2SlateTeacherForcingTrainer(Trainer):
     the ground-truth sequences are available)
     """
 
+    @resolve_defaults
     def __init__(
         self,
         seq2slate_net: Seq2SlateTransformerNet,
diff --git a/reagent/training/ranking/seq2slate_trainer.py b/reagent/training/ranking/seq2slate_trainer.py
index 09d1853..3530709 100644
--- a/reagent/training/ranking/seq2slate_trainer.py
+++ b/reagent/training/ranking/seq2slate_trainer.py
@@ -5,6 +5,7 @@ from typing import Optional, Tuple
 
 import reagent.types as rlt
 import torch
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.core.tracker import observable
 from reagent.model_utils.seq2slate_utils import Seq2SlateMode
@@ -28,6 +29,7 @@ logger = logging.getLogger(__name__)
     train_advantages=torch.Tensor,
 )
 class Seq2SlateTrainer(Trainer):
+    @resolve_defaults
     def __init__(
         self,
         seq2slate_net: Seq2SlateTransformerNet,
diff --git a/reagent/training/reward_network_trainer.py b/reagent/training/reward_network_trainer.py
index c72ec7f..065e75c 100644
--- a/reagent/training/reward_network_trainer.py
+++ b/reagent/training/reward_network_trainer.py
@@ -6,6 +6,7 @@ from typing import Optional
 
 import reagent.types as rlt
 import torch
+from reagent.core.configuration import resolve_defaults
 from reagent.core.dataclasses import field
 from reagent.models.base import ModelBase
 from reagent.optimizer.union import Optimizer__Union
@@ -54,6 +55,7 @@ def _get_loss_function(loss_fn: LossFunction, reward_ignore_threshold):
 
 
 class RewardNetTrainer(Trainer):
+    @resolve_defaults
     def __init__(
         self,
         reward_net: ModelBase,
-- 
2.43.0


From 82d75e3ee27de85ab4d32b197903dcbdc1ab5081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:57 +0000
Subject: [PATCH 20/97] fix: keep the batch shape of an unreduced GMM loss

---
 reagent/models/mdn_rnn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/models/mdn_rnn.py b/reagent/models/mdn_rnn.py
index 73057b3..caae4d9 100644
--- a/reagent/models/mdn_rnn.py
+++ b/reagent/models/mdn_rnn.py
@@ -225,7 +225,7 @@ def gmm_loss(batch, mus, sigmas, logpi, reduce=True):
     g_probs = torch.exp(g_log_probs)
     probs = torch.sum(g_probs, dim=-1)
 
-    log_prob = max_log_probs.squeeze() + torch.log(probs)
+    log_prob = max_log_probs.squeeze(-1) + torch.log(probs)
     if reduce:
         return -(torch.mean(log_prob))
     return -log_prob
-- 
2.43.0


From d57405af9f93ac1368e57dd4d0af51dec23d6137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:57 +0000
Subject: [PATCH 21/97] fix: plan with fewer than ten CEM candidates

---
 reagent/models/cem_planner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/models/cem_planner.py b/reagent/models/cem_planner.py
index dafdb30..825530c 100644
--- a/reagent/models/cem_planner.py
+++ b/reagent/models/cem_planner.py
@@ -185,7 +185,7 @@ class CEMPlannerNetwork(nn.Module):
         acc_reward_vec = np.zeros(self.cem_pop_size)
         init_state = state.float_features
         for i in range(self.cem_pop_size):
-            if i % (self.cem_pop_size // 10) == 0:
+            if i % max(1, self.cem_pop_size // 10) == 0:
                 logger.debug(f"Simulating the {i}-th solution...")
             acc_reward_vec[i] = self.acc_rewards_of_one_solution(
                 init_state, solutions[i], i
-- 
2.43.0


From e462ecd7ba84591c20ae6d9ab45c30e9c5124bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:57 +0000
Subject: [PATCH 22/97] fix: evaluate a CEM candidate with several trajectories

---
 reagent/models/cem_planner.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reagent/models/cem_planner.py b/reagent/models/cem_planner.py
index 825530c..dffe72f 100644
--- a/reagent/models/cem_planner.py
+++ b/reagent/models/cem_planner.py
@@ -187,8 +187,9 @@ class CEMPlannerNetwork(nn.Module):
         for i in range(self.cem_pop_size):
             if i % max(1, self.cem_pop_size // 10) == 0:
                 logger.debug(f"Simulating the {i}-th solution...")
-            acc_reward_vec[i] = self.acc_rewards_of_one_solution(
-                init_state, solutions[i], i
+            # a solution is as good as its trajectories are on average
+            acc_reward_vec[i] = np.mean(
+                self.acc_rewards_of_one_solution(init_state, solutions[i], i)
             )
         return acc_reward_vec
 
-- 
2.43.0


From 2a91dae6bb89273b3b44aa31366673fa8583307c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:57 +0000
Subject: [PATCH 23/97] fix: pass the process group of an evolution worker as
 the group

---
 reagent/training/gradient_free/es_worker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/training/gradient_free/es_worker.py b/reagent/training/gradient_free/es_worker.py
index 4176021..81e90ef 100644
--- a/reagent/training/gradient_free/es_worker.py
+++ b/reagent/training/gradient_free/es_worker.py
@@ -41,7 +41,7 @@ class EsWorker:
         logger.info("Pushing reward")
 
         # Sum the rewards across all machines
-        distributed.all_reduce(rewards, self.process_group)
+        distributed.all_reduce(rewards, group=self.process_group)
 
         # Divide the rewards by the number of machines.  We do this because
         # there is no "average" all_reduce operator.
-- 
2.43.0


From 678756806314c63157a26ecb99f2788feb83dca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:48 +0000
Subject: [PATCH 24/97] fix: accumulate the values of every metric, not just
 the first

---
 reagent/evaluation/evaluation_data_page.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/evaluation/evaluation_data_page.py b/reagent/evaluation/evaluation_data_page.py
index 41d88a0..0531443 100644
--- a/reagent/evaluation/evaluation_data_page.py
+++ b/reagent/evaluation/evaluation_data_page.py
@@ -514,7 +514,7 @@ class EvaluationDataPage(NamedTuple):
             if mdp_ids[x] != mdp_ids[x + 1]:
                 # Value = reward for new mdp_id
                 continue
-            values[x, 0] += values[x + 1, 0] * math.pow(
+            values[x] += values[x + 1] * math.pow(
                 gamma, float(sequence_numbers[x + 1, 0] - sequence_numbers[x, 0])
             )
 
-- 
2.43.0


From e18e6fcdfd04a7bf8975d2921c55ea6b9427c90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:48 +0000
Subject: [PATCH 25/97] fix: use the metric's own prediction for the logged
 action in metric CPE

---
 reagent/evaluation/evaluation_data_page.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/reagent/evaluation/evaluation_data_page.py b/reagent/evaluation/evaluation_data_page.py
index 0531443..66303d4 100644
--- a/reagent/evaluation/evaluation_data_page.py
+++ b/reagent/evaluation/evaluation_data_page.py
@@ -598,15 +598,21 @@ class EvaluationDataPage(NamedTuple):
         assert self.model_metrics is not None, "metrics must not be none"
         assert self.model_metrics_values is not None, "metrics must not be none"
 
+        model_rewards = self.model_metrics[:, i * num_actions : (i + 1) * num_actions]
+        model_values = self.model_metrics_values[
+            :, i * num_actions : (i + 1) * num_actions
+        ]
         return self._replace(
             logged_rewards=self.logged_metrics[:, i : i + 1],
             logged_values=self.logged_metrics_values[:, i : i + 1],
-            model_rewards=self.model_metrics[
-                :, i * num_actions : (i + 1) * num_actions
-            ],
-            model_values=self.model_metrics_values[
-                :, i * num_actions : (i + 1) * num_actions
-            ],
+            model_rewards=model_rewards,
+            model_rewards_for_logged_action=torch.sum(
+                model_rewards * self.action_mask, dim=1, keepdim=True
+            ),
+            model_values=model_values,
+            model_values_for_logged_action=torch.sum(
+                model_values * self.action_mask, dim=1, keepdim=True
+            ),
             logged_metrics=None,
             logged_metrics_values=None,
             model_metrics=None,
-- 
2.43.0


From fbe1fc2ebefdc7863067eeb14ce2fe2b511e5e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:48 +0000
Subject: [PATCH 26/97] fix: lay out parametric metric predictions metric by
 metric

---
 reagent/evaluation/evaluation_data_page.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/reagent/evaluation/evaluation_data_page.py b/reagent/evaluation/evaluation_data_page.py
index 66303d4..3fe9685 100644
--- a/reagent/evaluation/evaluation_data_page.py
+++ b/reagent/evaluation/evaluation_data_page.py
@@ -251,7 +251,13 @@ class EvaluationDataPage(NamedTuple):
         model_rewards = model_rewards.reshape(possible_actions_mask.shape)
 
         model_metrics = rewards_and_metric_rewards[:, 1:]
-        model_metrics = model_metrics.reshape(possible_actions_mask.shape[0], -1)
+        num_metrics = model_metrics.shape[1]
+        # all actions of the first metric, then of the second, ..., as in discrete DQN
+        model_metrics = (
+            model_metrics.reshape(*possible_actions_mask.shape, num_metrics)
+            .transpose(1, 2)
+            .reshape(possible_actions_mask.shape[0], -1)
+        )
 
         model_values_for_logged_action = trainer.q_network(states, actions)
         model_rewards_and_metrics_for_logged_action = trainer.reward_network(
@@ -268,7 +274,6 @@ class EvaluationDataPage(NamedTuple):
             dim=2,
         ).float()
         assert torch.all(action_mask.sum(dim=1) == 1)
-        num_metrics = model_metrics.shape[1] // max_num_actions
 
         model_metrics_values = None
         model_metrics_for_logged_action = None
-- 
2.43.0


From acb0e5992e3c256493eb0bfabc75ab465e63a4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:48 +0000
Subject: [PATCH 27/97] fix: do not score the reward as if it were a logged
 metric

---
 reagent/training/dqn_trainer_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reagent/training/dqn_trainer_base.py b/reagent/training/dqn_trainer_base.py
index 03a90c6..80e87c2 100644
--- a/reagent/training/dqn_trainer_base.py
+++ b/reagent/training/dqn_trainer_base.py
@@ -168,7 +168,8 @@ class DQNTrainerBaseLightning(DQNTrainerMixin, RLTrainerMixin, ReAgentLightningM
             self._actions,
             self.rl_parameters.gamma,
             self.trainer,
-            metrics_to_score=self.metrics_to_score,
+            # the reward, which comes last, is always scored
+            metrics_to_score=self.metrics_to_score[:-1],
         )
 
     def _calculate_cpes(
-- 
2.43.0


From e28fbd2dfedd416a2bd47c34728a785e7158296c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:42 +0000
Subject: [PATCH 28/97] fix: weigh the bias of MAGIC returns as an outer
 product

---
 .../evaluation/weighted_sequential_doubly_robust_estimator.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py b/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
index e16b9bc..e331bcf 100644
--- a/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
+++ b/reagent/evaluation/weighted_sequential_doubly_robust_estimator.py
@@ -221,7 +221,7 @@ class WeightedSequentialDoublyRobustEstimator:
         j_step_bias[where_higher] = j_step_returns[where_higher] - high_bound
 
         covariance = np.cov(j_step_return_trajectories)
-        error = covariance + j_step_bias.T * j_step_bias
+        error = covariance + np.outer(j_step_bias, j_step_bias)
 
         # minimize mse error
         constraint = {"type": "eq", "fun": lambda x: np.sum(x) - 1.0}
-- 
2.43.0


From 4ed78067353691d8edea66dc15a0986e6e10e633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 29/97] fix: keep the last transition of the longest
 trajectories in the OPE adapter

---
 reagent/evaluation/ope_adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/evaluation/ope_adapter.py b/reagent/evaluation/ope_adapter.py
index 0397fea..5fba9f1 100644
--- a/reagent/evaluation/ope_adapter.py
+++ b/reagent/evaluation/ope_adapter.py
@@ -184,7 +184,7 @@ class SequentialOPEstimatorAdapter:
                         state=State((traj, i + 1)),
                         reward=rewards[traj, i].item(),
                     )
-                    for i in range(horizon - 1)
+                    for i in range(horizon)
                     if actions[traj, i][torch.argmax(actions[traj, i]).item()] != 0.0
                 ]
             )
-- 
2.43.0


From 23384a386b39944534e2da66c4889b7db97b9ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 30/97] fix: give EpsilonGreedyRLPolicy the action space of its
 policy

---
 reagent/ope/estimators/sequential_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index 8846090..d24d470 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -123,7 +123,7 @@ class EpsilonGreedyRLPolicy(RLPolicy):
 
     def __init__(self, policy: RLPolicy, epsilon: float = 0.0):
         assert policy is not None and 0.0 <= epsilon < 1.0
-        super().__init__(policy._device)
+        super().__init__(policy.action_space, policy._device)
         self._policy = policy
         self._exploitation_prob = 1.0 - epsilon
         self._exploration_prob = epsilon / len(policy.action_space)
-- 
2.43.0


From 54889710d72a01fb52857d77218613b9a5ffac35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 31/97] fix: don't add up the values of all states of an
 episode

---
 reagent/ope/estimators/sequential_estimators.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index d24d470..45e4f79 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -201,13 +201,10 @@ class RLEstimator(Estimator):
     ) -> float:
         avg = RunningAverage()
         for mdp in mdps:
-            discount = 1.0
+            # the value of a state covers all that follows it
             r = 0.0
-            for t in mdp:
-                if t.last_state is None:
-                    break
-                r += discount * value_function(t.last_state)
-                discount *= gamma
+            if len(mdp) > 0 and mdp[0].last_state is not None:
+                r = value_function(mdp[0].last_state)
             avg.add(r)
         return avg.average
 
-- 
2.43.0


From 81bbfee70b142ffa32fc0fc3f75f1a31822bbbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 32/97] fix: discount the value after the last step of MAGIC
 returns

---
 reagent/ope/estimators/sequential_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index 45e4f79..ca1dfdb 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -437,7 +437,7 @@ class MAGICEstimator(IPSEstimator):
         wdr = wdrs[:, -1].sum(0)
         next_vs = torch.zeros((n, horizon), device=self._device)
         next_vs[:, :-1] = vs[:, 1:]
-        gs = wdrs + ws * next_vs * discount
+        gs = wdrs + ws * next_vs * discount * input.gamma
         gs_normal = gs.sub(torch.mean(gs, 0))
         assert n > 1
         omiga = (n / (n - 1.0)) * torch.einsum("ij,ik->jk", gs_normal, gs_normal)
-- 
2.43.0


From b1714d7d4106e9fbe34138780141ffeec0df3d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 33/97] fix: optimize the blending weights of the OPE MAGIC
 estimator

---
 reagent/ope/estimators/sequential_estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index ca1dfdb..33c72c8 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -475,8 +475,8 @@ class MAGICEstimator(IPSEstimator):
         optimizer = torch.optim.SGD([x], lr=lr)
         last_y = 0.0
         for i in range(100):
-            x = torch.nn.functional.softmax(x, dim=1)
-            y = torch.mm(torch.mm(x, cov), x.t())
+            weights = torch.nn.functional.softmax(x, dim=1)
+            y = torch.mm(torch.mm(weights, cov), weights.t())
             if abs(y.item() - last_y) < loss_threshold:
                 print(f"{i}: {last_y} -> {y.item()}")
                 break
-- 
2.43.0


From 3533851dfae55c434dc0bc97c699fc9513eb712e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 34/97] fix: train NeuralDualDICE in stochastic environments

---
 reagent/ope/estimators/sequential_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/sequential_estimators.py b/reagent/ope/estimators/sequential_estimators.py
index 33c72c8..4829d87 100644
--- a/reagent/ope/estimators/sequential_estimators.py
+++ b/reagent/ope/estimators/sequential_estimators.py
@@ -745,7 +745,7 @@ class NeuralDualDICE(RLEstimator):
             if self.deterministic_env:
                 v_loss = self._compute_loss(input.gamma, sample, True)
             else:
-                v_loss = self._compute_loss(*sample)
+                v_loss = self._compute_loss(input.gamma, sample, False)
             # Populate value gradients and optimize
             v_optim.zero_grad()
             v_loss.backward()
-- 
2.43.0


From bfd9e59458e40b3fce365dab2d9fe4fd9026274a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 35/97] fix: look ahead to the next state in tabular action
 values

---
 reagent/ope/trainers/rl_tabular_trainers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/trainers/rl_tabular_trainers.py b/reagent/ope/trainers/rl_tabular_trainers.py
index dbd6acc..53e3be5 100644
--- a/reagent/ope/trainers/rl_tabular_trainers.py
+++ b/reagent/ope/trainers/rl_tabular_trainers.py
@@ -88,8 +88,8 @@ class TabularValueFunction(ValueFunction):
     def state_action_value(self, state: State, action: Action) -> float:
         value = 0.0
         sr_dist = self._model.next_state_reward_dist(state, action)
-        for _, rp in sr_dist.items():
-            value += rp.prob * (rp.reward + self._gamma * self.state_value(state))
+        for s, rp in sr_dist.items():
+            value += rp.prob * (rp.reward + self._gamma * self.state_value(s))
         return value
 
     def state_value(self, state: State) -> float:
-- 
2.43.0


From e75a7bdf7e14ca8bf7ab83d9ff5905d0e1fc00ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 36/97] fix: take first-visit Monte Carlo values from first
 visits

---
 reagent/ope/trainers/rl_tabular_trainers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/trainers/rl_tabular_trainers.py b/reagent/ope/trainers/rl_tabular_trainers.py
index 53e3be5..78fba50 100644
--- a/reagent/ope/trainers/rl_tabular_trainers.py
+++ b/reagent/ope/trainers/rl_tabular_trainers.py
@@ -262,7 +262,7 @@ class MonteCarloValueFunction(TabularValueFunction):
                         continue
                     g = self._gamma * g + t.reward
                     counts = state_counts[t.last_state]
-                    if counts > 1:
+                    if counts == 1:
                         self._update_state_value(t.last_state, g)
                     counts -= 1
                     if counts == 0:
@@ -334,7 +334,7 @@ class MonteCarloTrainer(object):
                         g = gamma * g + t.reward
                         key = (t.last_state, t.action)
                         vc = vcounts[key]
-                        if vc > 1:
+                        if vc == 1:
                             self._update_state_value(
                                 value_counts, t.last_state, t.action, g
                             )
-- 
2.43.0


From d3914d5ea760c78f42ac5cf48511ac4ff64bd6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 37/97] fix: divide weighted IPS by the average weight

---
 reagent/ope/estimators/contextual_bandits_estimators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/contextual_bandits_estimators.py b/reagent/ope/estimators/contextual_bandits_estimators.py
index 70a6441..2c5afdc 100644
--- a/reagent/ope/estimators/contextual_bandits_estimators.py
+++ b/reagent/ope/estimators/contextual_bandits_estimators.py
@@ -342,6 +342,8 @@ class IPSEstimator(Estimator):
             tgt_vals.append(tgt_result)
             acc_weight.add(weight)
             gt_avg.add(sample.ground_truth_reward)
+        if self._weighted:
+            tgt_vals = [v / acc_weight.average for v in tgt_vals]
         (
             tgt_score_normalized,
             tgt_std_err,
@@ -351,7 +353,7 @@ class IPSEstimator(Estimator):
             log_reward=log_avg.average,
             estimated_reward=tgt_avg.average
             if not self._weighted
-            else tgt_avg.average / acc_weight.total,
+            else tgt_avg.average / acc_weight.average,
             ground_truth_reward=gt_avg.average,
             estimated_weight=tgt_avg.count,
             estimated_reward_normalized=tgt_score_normalized,
-- 
2.43.0


From fd9ec9b69ccd770f54c52c29ac916e26239a2e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:51 +0000
Subject: [PATCH 38/97] fix: count the model's rewards once in SwitchDR

---
 reagent/ope/estimators/contextual_bandits_estimators.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/reagent/ope/estimators/contextual_bandits_estimators.py b/reagent/ope/estimators/contextual_bandits_estimators.py
index 2c5afdc..1483ebe 100644
--- a/reagent/ope/estimators/contextual_bandits_estimators.py
+++ b/reagent/ope/estimators/contextual_bandits_estimators.py
@@ -653,12 +653,10 @@ class SwitchDREstimator(SwitchEstimator):
         tgt_props: torch.Tensor,
     ) -> torch.Tensor:
         ips_scores = (weights * actions).sum(dim=1, keepdim=True)
-        dr = ips_scores * (logged_rewards - est_rewards_for_logged_action) + (
+        correction = ips_scores * (logged_rewards - est_rewards_for_logged_action)
+        return correction * (ips_scores <= threshold).float() + (
             tgt_props * est_rewards
         ).sum(dim=1, keepdim=True)
-        return dr * (ips_scores <= threshold).float() + (
-            est_rewards * tgt_props * (weights > threshold).float()
-        ).sum(dim=1, keepdim=True)
 
     def __repr__(self):
         return (
-- 
2.43.0


From 0f1e1c96a68afd4c8506dd79d5df196ad62972b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:24 +0000
Subject: [PATCH 39/97] fix: forget what was cached when replacing OPE values

---
 reagent/ope/estimators/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reagent/ope/estimators/types.py b/reagent/ope/estimators/types.py
index dbd7b85..7efc675 100644
--- a/reagent/ope/estimators/types.py
+++ b/reagent/ope/estimators/types.py
@@ -315,6 +315,7 @@ class Values(Objects[KeyType, float]):
                     copy._values[copy._key_to_index[k]] = v
         else:
             raise TypeError(f"Unsupported values type {type(values)}")
+        copy._reset()
         return copy
 
     def _normalize(self):
-- 
2.43.0


From c143b95d5ca1dd0ba1287b7127e207d9eafc479c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:24 +0000
Subject: [PATCH 40/97] fix: sort OPE values in the order that was asked for

---
 reagent/ope/estimators/types.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/reagent/ope/estimators/types.py b/reagent/ope/estimators/types.py
index 7efc675..1d91dc5 100644
--- a/reagent/ope/estimators/types.py
+++ b/reagent/ope/estimators/types.py
@@ -241,7 +241,7 @@ class Values(Objects[KeyType, float]):
         super()._reset()
         self._probabilities = None
         self._is_normalized = False
-        self._sorted = None
+        self._sorted = {}
 
     def __getitem__(self, key: KeyType) -> float:
         return super().__getitem__(key).item()
@@ -264,17 +264,20 @@ class Values(Objects[KeyType, float]):
             Tuple of sorted indices and values
         """
         # pyre-fixme[16]: `Values` has no attribute `_sorted`.
-        if self._sorted is None:
+        if descending not in self._sorted:
             # pyre-fixme[16]: `Values` has no attribute `_values`.
             rs, ids = torch.sort(self._values, descending=descending)
             if self._index_to_key is not None:
-                self._sorted = (
+                self._sorted[descending] = (
                     [self._index_to_key[i.item()] for i in ids],
                     rs.detach(),
                 )
             else:
-                self._sorted = ([self._to_key(i.item()) for i in ids], rs.detach())
-        return self._sorted
+                self._sorted[descending] = (
+                    [self._to_key(i.item()) for i in ids],
+                    rs.detach(),
+                )
+        return self._sorted[descending]
 
     @property
     def _values_copy(self) -> Tensor:
-- 
2.43.0


From e9db64ca05eba5907a80504e5d05730ecc1383b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:24 +0000
Subject: [PATCH 41/97] fix: look up the items of slates with named slots

---
 reagent/ope/estimators/slate_estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index cfe6caa..0c53cea 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -221,7 +221,7 @@ class Slate(SlateSlotObjects[SlateItem]):
             # pyre-fixme[16]: `Slate` has no attribute `_values`.
             return SlateSlotValues([item_values[i] for i in self._values])
         else:
-            return SlateSlotValues({k: item_values[i] for k, i in self._key_to_index})
+            return SlateSlotValues({k: item_values[i] for k, i in self})
 
     def slot_features(self, item_features: SlateItemFeatures) -> SlateSlotFeatures:
         """
@@ -239,7 +239,7 @@ class Slate(SlateSlotObjects[SlateItem]):
             )
         else:
             return SlateSlotFeatures(
-                {k: item_features[i].detach().clone() for k, i in self._key_to_index}
+                {k: item_features[i].detach().clone() for k, i in self}
             )
 
     def __repr__(self):
-- 
2.43.0


From 2d8028b2be7caa7a4c99113f7e2a814cf9610d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:24 +0000
Subject: [PATCH 42/97] fix: list all slates and name their items in
 slate_space

---
 reagent/ope/estimators/slate_estimators.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 0c53cea..acb6871 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -516,29 +516,31 @@ class SlateItemProbabilities(SlateItemValues):
             items = super().greedy(slate_size)
             return [(items, 1.0)]
         else:
-            buffer = [([], 1.0, 0.0)]
+            self._normalize()
+            buffer = [([], 1.0)]
             # pyre-fixme[16]: `SlateItemProbabilities` has no attribute
             #  `_probabilities`.
             probs = self._probabilities.tolist()
             for _ in range(slate_size):
                 next_buffer = []
-                for b0, b1, b2 in buffer:
+                for b0, b1 in buffer:
                     # memory buffer for all ordered combinations so far, list of tuples of
                     #   b0: all the items in this ordered combination
                     #   b1: cumulative probability of b0
-                    #   b2: sum of the probabilities of b0
+                    left = sum(p for i, p in enumerate(probs) if i not in b0)
+                    # no slate starts with b0 if no other item can be selected
+                    if left <= 0.0:
+                        continue
                     for i, i_prob in enumerate(probs):
                         if i in b0:
                             continue
-                        nb2 = b2 + i_prob
-                        if nb2 < 1.0:
-                            nb1 = b1 * i_prob / (1.0 - b2)
-                            next_buffer.append(([*b0, i], nb1, nb2))
+                        next_buffer.append(([*b0, i], b1 * i_prob / left))
                 if max_size <= 0 or max_size > len(next_buffer):
                     buffer = next_buffer
                 else:
                     buffer = random.sample(next_buffer, max_size)
-            return [([SlateItem(i) for i in b[0]], b[1]) for b in buffer]
+            keys = self.keys
+            return [([keys[i] for i in b[0]], b[1]) for b in buffer]
 
 
 class SlateSlotItemProbabilities(SlateSlotItemValues):
-- 
2.43.0


From eda432ba5f2805432beae3e758d8c5836ba5a03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:24 +0000
Subject: [PATCH 43/97] fix: use each slot's own item probabilities for slate
 expectations

---
 reagent/ope/estimators/slate_estimators.py | 25 ++++++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index acb6871..93eddf9 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -334,30 +334,39 @@ def _calculate_slot_expectation(
     d_out: Tensor,
     probs: Sequence[float],
     buffer: Iterable[Tuple[Set[int], float, float, float]],
+    next_probs: Optional[Sequence[float]] = None,
 ) -> Iterable[Tuple[Set[int], float, float, float]]:
     """
     A helper function to calculate items' expectations for a slot
+    Args:
+        d_out: output, expectations of the items at the slot
+        probs: item probabilities of the previous slot
+        buffer: ordered combinations of the slots before the previous slot
+        next_probs: item probabilities of the slot, if they are not probs
     """
     assert d_out.shape[0] == len(probs)
+    if next_probs is None:
+        next_probs = probs
     next_buffer = []
     for b0, b1, b2, _ in buffer:
         # memory buffer for all ordered combinations so far, list of tuples of
         #   b0: all the items in this ordered combination
         #   b1: cumulative probability of b0
-        #   b2: sum of the probabilities of b0
+        #   b2: sum of the probabilities of b0 at the next slot
         #   b3: = b1 / (1.0 - b2) cached value for faster computation
         for i, i_prob in enumerate(probs):
             # only add i if it's not already in
             if i in b0:
                 continue
             # nb* are next buffer values
-            nb2 = b2 + i_prob
+            nb0 = {*b0, i}
+            nb2 = sum(next_probs[j] for j in nb0)
             # due to precision errors, sometimes nb2 becomes 1, in this
             # case, discard the combination
             if nb2 < 1.0:
                 nb1 = b1 * i_prob / (1.0 - b2)
-                next_buffer.append(({*b0, i}, nb1, nb2, nb1 / (1.0 - nb2)))
-    for i, i_prob in enumerate(probs):
+                next_buffer.append((nb0, nb1, nb2, nb1 / (1.0 - nb2)))
+    for i, i_prob in enumerate(next_probs):
         p = 0.0
         for b0, _, _, b3 in next_buffer:
             if i in b0:
@@ -644,9 +653,11 @@ class SlateSlotItemProbabilities(SlateSlotItemValues):
             v._normalize()
             prob_list.append(v._probabilities.detach().clone())
         dm[0] = prob_list[0]
-        buffer = [({}, 1.0, 0.0, 1.0)]
-        for d, probs in zip(dm[1:], prob_list[1:]):
-            buffer = _calculate_slot_expectation(d, probs.tolist(), buffer)
+        buffer = [(set(), 1.0, 0.0, 1.0)]
+        for d, probs, next_probs in zip(dm[1:], prob_list, prob_list[1:]):
+            buffer = _calculate_slot_expectation(
+                d, probs.tolist(), buffer, next_probs.tolist()
+            )
         self._slot_item_expectations = make_slot_item_distributions(
             self.slots, [its.replace(vs) for its, vs in zip(self._values, dm)]
         )
-- 
2.43.0


From a8af2f4bf4011d5b38aa8d0680fde21de31e006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:24 +0000
Subject: [PATCH 44/97] fix: take the items of earlier slots out of greedy
 slate probabilities

---
 reagent/ope/estimators/slate_estimators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 93eddf9..128c300 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -576,11 +576,13 @@ class SlateSlotItemProbabilities(SlateSlotItemValues):
         """
         assert len(slate) <= len(self)
         if self._greedy:
+            last_items = []
             for slot, item in slate:
                 probs = self[slot]
                 its, _ = probs.sort()
-                if its[0] != item:
+                if next(it for it in its if it not in last_items) != item:
                     return 0.0
+                last_items.append(item)
             return 1.0
         else:
             p = 1.0
-- 
2.43.0


From f47f477226e5aa3f0fb3260409e18552ac9cec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:24 +0000
Subject: [PATCH 45/97] fix: keep the slot dimension of expected rewards

---
 reagent/ope/estimators/slate_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 128c300..351fd3d 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -292,7 +292,7 @@ class SlateSlotItemExpectations(SlateSlotItemValues):
         """
         dist = self.values_tensor(device)
         rewards = item_rewards.values.to(device=device)
-        rewards = torch.mm(dist, rewards.unsqueeze(0).t()).squeeze()
+        rewards = torch.mm(dist, rewards.unsqueeze(0).t()).squeeze(1)
         if self.is_sequence:
             return SlateSlotValues(rewards)
         else:
-- 
2.43.0


From 94315657d6bbae073426986b1990dfd0e4a2ca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:24 +0000
Subject: [PATCH 46/97] fix: scale ERR grades by 2 to the maximum grade

---
 reagent/ope/estimators/slate_estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 351fd3d..35f1e40 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -904,7 +904,7 @@ class ERRSlateMetric(SlateMetric):
         return slots.fill([1.0 / (r + 1) for r in range(len(slots))])
 
     def slot_values(self, rewards: SlateSlotValues) -> SlateSlotValues:
-        d = torch.tensor(self._max_reward, device=self._device).pow(2.0)
+        d = torch.pow(2.0, torch.tensor(self._max_reward, device=self._device))
         r = (torch.pow(2.0, rewards.values.clamp(0.0, self._max_reward)) - 1.0) / d
         p = 1.0
         err = torch.zeros(len(rewards), dtype=torch.double, device=self._device)
-- 
2.43.0


From c1029c25f5d43d17cc13c0c04bcdcc8d7636bbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:24 +0000
Subject: [PATCH 47/97] fix: evaluate slates with trainers that predict floats

---
 reagent/ope/estimators/slate_estimators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/estimators/slate_estimators.py b/reagent/ope/estimators/slate_estimators.py
index 35f1e40..0a3b40d 100644
--- a/reagent/ope/estimators/slate_estimators.py
+++ b/reagent/ope/estimators/slate_estimators.py
@@ -1151,7 +1151,8 @@ class DMEstimator(SlateEstimator):
             probs.append(prob)
         preds = self._trainer.predict(torch.stack(features), device=self._device)
         tgt_reward = torch.dot(
-            preds.scores, torch.tensor(probs, dtype=torch.double, device=self._device)
+            preds.scores.to(dtype=torch.double),
+            torch.tensor(probs, dtype=torch.double, device=self._device),
         )
         return EstimatorSampleResult(
             sample.log_reward,
@@ -1293,7 +1294,7 @@ class DoublyRobustEstimator(DMEstimator):
                 probs.append(prob)
             preds = self._trainer.predict(torch.stack(features), device=self._device)
             dm_reward = torch.dot(
-                preds.scores,
+                preds.scores.to(dtype=torch.double),
                 torch.tensor(probs, dtype=torch.double, device=self._device),
             ).item()
             assert sample.item_features is not None
-- 
2.43.0


From ce8d1efde3cc88682f33c4f91f3e90b89a38723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:30 +0000
Subject: [PATCH 48/97] fix: run all experiments of a worker in the OPE
 evaluator

---
 reagent/ope/estimators/estimator.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/reagent/ope/estimators/estimator.py b/reagent/ope/estimators/estimator.py
index f53db8a..d5efbac 100644
--- a/reagent/ope/estimators/estimator.py
+++ b/reagent/ope/estimators/estimator.py
@@ -198,19 +198,18 @@ def run_evaluation(
     logger.info(f"received filename {file_name}")
     try:
         with open(file_name, "rb") as fp:
-            estimators, inputs = pickle.load(fp)
+            experiments = pickle.load(fp)
     except Exception as err:
         return None
     results = {}
-    for estimator in estimators:
-        estimator_name = repr(estimator)
-        estimator_results = []
-        for input in inputs:
+    for estimators, input in experiments:
+        for estimator in estimators:
+            estimator_name = repr(estimator)
+            estimator_results = results.setdefault(estimator_name, [])
             try:
                 estimator_results.append(estimator.evaluate(input))
             except Exception as err:
                 logger.error(f"{estimator_name} error {err}")
-        results[repr(estimator)] = estimator_results
     return results
 
 
-- 
2.43.0


From 2dce448421b05ff3c4358457bfeb819e4fc57e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:30 +0000
Subject: [PATCH 49/97] fix: skip OPE estimates that are not available

---
 reagent/ope/estimators/estimator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reagent/ope/estimators/estimator.py b/reagent/ope/estimators/estimator.py
index d5efbac..93d1a9a 100644
--- a/reagent/ope/estimators/estimator.py
+++ b/reagent/ope/estimators/estimator.py
@@ -75,12 +75,15 @@ class EstimatorResults:
     results: List[EstimatorResult] = field(default_factory=list)
     device = None
 
-    def append(self, result: EstimatorResult):
+    def append(self, result: Optional[EstimatorResult]):
         """Append a data point
 
         Args:
             result: result from an experimental run
         """
+        if result is None:
+            logging.warning("  Estimate not available")
+            return
         er = result.estimated_reward
         if math.isnan(er) or math.isinf(er):
             logging.warning(f"  Invalid estimate: {er}")
-- 
2.43.0


From 4c0892a719f86c05b862cc354eeacdd85614075b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:08 +0000
Subject: [PATCH 50/97] fix: explore as saved with a loaded tabular policy

---
 reagent/ope/trainers/rl_tabular_trainers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reagent/ope/trainers/rl_tabular_trainers.py b/reagent/ope/trainers/rl_tabular_trainers.py
index 78fba50..61c517b 100644
--- a/reagent/ope/trainers/rl_tabular_trainers.py
+++ b/reagent/ope/trainers/rl_tabular_trainers.py
@@ -65,6 +65,10 @@ class TabularPolicy(RLPolicy):
         try:
             with open(path, "rb") as f:
                 self._action_space, self._epsilon, self._state_space = pickle.load(f)
+            as_size = len(self._action_space)
+            self._exploitation_prob = 1.0 - self._epsilon
+            self._exploration_prob = self._epsilon / as_size
+            self._uniform_probs = as_size * [1.0 / as_size]
         except Exception:
             return False
         else:
-- 
2.43.0


From bf1f1a2bf8e81843f51f31c867d85693a2dc59bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:42 +0000
Subject: [PATCH 51/97] fix: report unweighted sequential estimates apart from
 weighted ones

---
 reagent/evaluation/ope_adapter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/evaluation/ope_adapter.py b/reagent/evaluation/ope_adapter.py
index 5fba9f1..75933cd 100644
--- a/reagent/evaluation/ope_adapter.py
+++ b/reagent/evaluation/ope_adapter.py
@@ -260,7 +260,9 @@ class OPEvaluator(Evaluator):
         )
 
         self.ope_seq_dr_estimator = SequentialOPEstimatorAdapter(
-            SeqDREstimator(device=self._device), gamma, device=self._device
+            SeqDREstimator(weighted=False, device=self._device),
+            gamma,
+            device=self._device,
         )
         self.ope_seq_weighted_dr_estimator = SequentialOPEstimatorAdapter(
             SeqDREstimator(weighted=True, device=self._device),
-- 
2.43.0


From db41000742e67d5428fa7b99aa8986c2473c38e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:18 +0000
Subject: [PATCH 52/97] fix: run MAGIC on evaluation pages

---
 reagent/evaluation/ope_adapter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/evaluation/ope_adapter.py b/reagent/evaluation/ope_adapter.py
index 75933cd..9ecab40 100644
--- a/reagent/evaluation/ope_adapter.py
+++ b/reagent/evaluation/ope_adapter.py
@@ -166,7 +166,7 @@ class SequentialOPEstimatorAdapter:
             target_propensities,
             estimated_q_values,
         ) = (
-            torch.tensor(x, dtype=torch.double, device=device, requires_grad=True)
+            torch.tensor(x, dtype=torch.double, device=device)
             for x in eq_len
         )
 
-- 
2.43.0


From 497237585a24d482ede3ad9e4b16afa2ac08cea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:04 +0000
Subject: [PATCH 53/97] fix: rank in evaluation mode when evaluating listwise
 ranking

---
 reagent/evaluation/ranking_listwise_evaluator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/evaluation/ranking_listwise_evaluator.py b/reagent/evaluation/ranking_listwise_evaluator.py
index c375181..1b45913 100644
--- a/reagent/evaluation/ranking_listwise_evaluator.py
+++ b/reagent/evaluation/ranking_listwise_evaluator.py
@@ -79,9 +79,8 @@ class RankingListwiseEvaluator:
             self.log_softmax(encoder_scores), eval_tdp.position_reward
         ).item()
 
-        self.seq2slate_net.train(seq2slate_net_prev_mode)
-
         if not self.calc_cpe:
+            self.seq2slate_net.train(seq2slate_net_prev_mode)
             # pyre-fixme[16]: `RankingListwiseEvaluator` has no attribute
             #  `notify_observers`.
             self.notify_observers(cross_entropy_loss=ce_loss)
@@ -91,6 +90,7 @@ class RankingListwiseEvaluator:
         ranking_output = self.seq2slate_net(
             eval_tdp, mode=Seq2SlateMode.RANK_MODE, greedy=True
         )
+        self.seq2slate_net.train(seq2slate_net_prev_mode)
         # pyre-fixme[16]: `int` has no attribute `cpu`.
         ranked_idx = (ranking_output.ranked_tgt_out_idx - 2).cpu().numpy()
         # pyre-fixme[58]: `-` is not supported for operand types
-- 
2.43.0


From ef2148ece27ec4e5740a7bb163840ddc4a99ee68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:04 +0000
Subject: [PATCH 54/97] fix: make evaluation pages of ranking policies in
 evaluation mode

---
 reagent/evaluation/ranking_policy_gradient_evaluator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reagent/evaluation/ranking_policy_gradient_evaluator.py b/reagent/evaluation/ranking_policy_gradient_evaluator.py
index 87e2b27..12f2284 100644
--- a/reagent/evaluation/ranking_policy_gradient_evaluator.py
+++ b/reagent/evaluation/ranking_policy_gradient_evaluator.py
@@ -88,9 +88,8 @@ class RankingPolicyGradientEvaluator:
         )
         ranked_slate_rank_prob = ranked_slate_output.ranked_per_seq_probs.cpu()
 
-        seq2slate_net.train(seq2slate_net_prev_mode)
-
         if not self.calc_cpe:
+            seq2slate_net.train(seq2slate_net_prev_mode)
             return
 
         edp_g = EvaluationDataPage.create_from_tensors_seq2slate(
@@ -116,6 +115,8 @@ class RankingPolicyGradientEvaluator:
         else:
             self.eval_data_pages_ng = self.eval_data_pages_ng.append(edp_ng)
 
+        seq2slate_net.train(seq2slate_net_prev_mode)
+
         # pyre-fixme[16]: `RankingPolicyGradientEvaluator` has no attribute
         #  `notify_observers`.
         self.notify_observers(
-- 
2.43.0


From 493a036dad792284d138d20b2afaa4e71bb494e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:19 +0000
Subject: [PATCH 55/97] fix: predict slate rewards of any batch size once
 traced

---
 reagent/prediction/predictor_wrapper.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/reagent/prediction/predictor_wrapper.py b/reagent/prediction/predictor_wrapper.py
index 20ab21b..5a2ba52 100644
--- a/reagent/prediction/predictor_wrapper.py
+++ b/reagent/prediction/predictor_wrapper.py
@@ -691,14 +691,6 @@ class Seq2SlateRewardWithPreprocessor(ModelBase):
         max_tgt_seq_len = self.model.max_tgt_seq_len
         max_src_seq_len = self.model.max_src_seq_len
 
-        # we use a fake slate_idx_with_presence to retrive the first
-        # max_tgt_seq_len candidates from
-        # len(slate_idx_with presence) == batch_size
-        # component: 1d tensor with length max_tgt_seq_len
-        slate_idx_with_presence = [
-            (torch.arange(max_tgt_seq_len), torch.ones(max_tgt_seq_len))
-        ] * batch_size
-
         preprocessed_state = self.state_preprocessor(
             state_with_presence[0], state_with_presence[1]
         )
@@ -714,9 +706,8 @@ class Seq2SlateRewardWithPreprocessor(ModelBase):
 
         src_src_mask = torch.ones(batch_size, max_src_seq_len, max_src_seq_len)
 
-        tgt_out_idx = torch.cat(
-            [slate_idx[0] for slate_idx in slate_idx_with_presence]
-        ).view(batch_size, max_tgt_seq_len)
+        # the slate is made of the first max_tgt_seq_len candidates
+        tgt_out_idx = torch.arange(max_tgt_seq_len).repeat(batch_size, 1)
 
         tgt_out_seq = gather(preprocessed_candidates, tgt_out_idx)
 
-- 
2.43.0


From 56e94586c75f9d9744fb35c7b4339db07b9d569a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:19 +0000
Subject: [PATCH 56/97] fix: import the ranking actor predictor wrapper

---
 reagent/net_builder/continuous_actor_net_builder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reagent/net_builder/continuous_actor_net_builder.py b/reagent/net_builder/continuous_actor_net_builder.py
index 49c72b0..02b2dee 100644
--- a/reagent/net_builder/continuous_actor_net_builder.py
+++ b/reagent/net_builder/continuous_actor_net_builder.py
@@ -21,7 +21,10 @@ if IS_FB_ENVIRONMENT:
         FbRankingActorPredictorWrapper as RankingActorPredictorWrapper,
     )
 else:
-    from reagent.prediction.predictor_wrapper import ActorPredictorWrapper
+    from reagent.prediction.predictor_wrapper import (
+        ActorPredictorWrapper,
+        RankingActorPredictorWrapper,
+    )
 
 
 class ContinuousActorNetBuilder(metaclass=RegistryMeta):
-- 
2.43.0


From 291a08d9cfc5dd4b605f54b05066ffb143d51e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:19 +0000
Subject: [PATCH 57/97] fix: concatenate embeddings in the order of the feature
 config

---
 reagent/models/embedding_bag_concat.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/reagent/models/embedding_bag_concat.py b/reagent/models/embedding_bag_concat.py
index bfb1a8c..b0d93a7 100644
--- a/reagent/models/embedding_bag_concat.py
+++ b/reagent/models/embedding_bag_concat.py
@@ -77,16 +77,21 @@ class EmbeddingBagConcat(ModelBase):
     def forward(self, state: rlt.FeatureData):
         # id_list is (offset, value); sum pooling
         id_list_embeddings = [
-            self.embedding_bags[self.feat2table[feature_name]](input=v[1], offsets=v[0])
-            for feature_name, v in state.id_list_features.items()
+            self.embedding_bags[self.feat2table[feature_name]](
+                input=state.id_list_features[feature_name][1],
+                offsets=state.id_list_features[feature_name][0],
+            )
+            for feature_name in self._id_list_feature_names
         ]
 
         # id_score_list is (offset, key, value); weighted sum pooling
         id_score_list_embeddings = [
             self.embedding_bags[self.feat2table[feature_name]](
-                input=v[1], offsets=v[0], per_sample_weights=v[2]
+                input=state.id_score_list_features[feature_name][1],
+                offsets=state.id_score_list_features[feature_name][0],
+                per_sample_weights=state.id_score_list_features[feature_name][2],
             )
-            for feature_name, v in state.id_score_list_features.items()
+            for feature_name in self._id_score_list_feature_names
         ]
         return torch.cat(
             id_list_embeddings + id_score_list_embeddings + [state.float_features],
-- 
2.43.0


From a96441b9edc3fe9e414b50bc7d1b36da841a8934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:19 +0000
Subject: [PATCH 58/97] fix: apply layer norm in fully connected actors when
 asked to

---
 reagent/models/actor.py                                 | 2 ++
 reagent/net_builder/continuous_actor/fully_connected.py | 1 +
 reagent/net_builder/discrete_actor/fully_connected.py   | 1 +
 3 files changed, 4 insertions(+)

diff --git a/reagent/models/actor.py b/reagent/models/actor.py
index 0660e0a..6d0f91a 100644
--- a/reagent/models/actor.py
+++ b/reagent/models/actor.py
@@ -41,6 +41,7 @@ class FullyConnectedActor(ModelBase):
         use_batch_norm: bool = False,
         action_activation: str = "tanh",
         exploration_variance: Optional[float] = None,
+        use_layer_norm: bool = False,
     ):
         super().__init__()
         assert state_dim > 0, "state_dim must be > 0, got {}".format(state_dim)
@@ -57,6 +58,7 @@ class FullyConnectedActor(ModelBase):
             [state_dim] + sizes + [action_dim],
             activations + [self.action_activation],
             use_batch_norm=use_batch_norm,
+            use_layer_norm=use_layer_norm,
         )
 
         # Gaussian noise for exploration.
diff --git a/reagent/net_builder/continuous_actor/fully_connected.py b/reagent/net_builder/continuous_actor/fully_connected.py
index 4b11355..4b6d026 100644
--- a/reagent/net_builder/continuous_actor/fully_connected.py
+++ b/reagent/net_builder/continuous_actor/fully_connected.py
@@ -52,4 +52,5 @@ class FullyConnected(ContinuousActorNetBuilder):
             use_batch_norm=self.use_batch_norm,
             action_activation=self.action_activation,
             exploration_variance=self.exploration_variance,
+            use_layer_norm=self.use_layer_norm,
         )
diff --git a/reagent/net_builder/discrete_actor/fully_connected.py b/reagent/net_builder/discrete_actor/fully_connected.py
index 4191b7b..7937bda 100644
--- a/reagent/net_builder/discrete_actor/fully_connected.py
+++ b/reagent/net_builder/discrete_actor/fully_connected.py
@@ -44,4 +44,5 @@ class FullyConnected(DiscreteActorNetBuilder):
             use_batch_norm=self.use_batch_norm,
             action_activation=self.action_activation,
             exploration_variance=self.exploration_variance,
+            use_layer_norm=self.use_layer_norm,
         )
-- 
2.43.0


From 100583e256ae4644f1947cb9608acb413311e751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:19 +0000
Subject: [PATCH 59/97] fix: mask the impossible actions of distributional
 networks

---
 reagent/models/dqn.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reagent/models/dqn.py b/reagent/models/dqn.py
index 1b9b257..c1bfacf 100644
--- a/reagent/models/dqn.py
+++ b/reagent/models/dqn.py
@@ -54,6 +54,9 @@ class FullyConnectedDQN(ModelBase):
         if self.num_atoms is not None:
             x = x.view(float_features.shape[0], self.action_dim, self.num_atoms)
         if possible_actions_mask is not None:
+            mask = possible_actions_mask.float()
+            if self.num_atoms is not None:
+                mask = mask.unsqueeze(2)
             # subtract huge value from impossible actions to force their probabilities to 0
-            x = x - (1 - possible_actions_mask.float()) * 1e10
+            x = x - (1 - mask) * 1e10
         return x
-- 
2.43.0


From 5a7767415697e086284d7d0d90b78d74ff356c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:23 +0000
Subject: [PATCH 60/97] fix: use batch norm in parametric dueling networks when
 asked to

---
 reagent/models/dueling_q_network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reagent/models/dueling_q_network.py b/reagent/models/dueling_q_network.py
index 3681a9f..0c16498 100644
--- a/reagent/models/dueling_q_network.py
+++ b/reagent/models/dueling_q_network.py
@@ -153,6 +153,7 @@ class ParametricDuelingQNetwork(ModelBase):
             sizes=layers[:-1],
             activations=activations[:-1],
             normalized_output=True,
+            use_batch_norm=use_batch_norm,
         )
         advantage_network = FullyConnectedCritic(
             state_embedding_dim,
-- 
2.43.0


From 30029b664784d9f339c8cbae1555ce0561d507c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:08 +0000
Subject: [PATCH 61/97] fix: report the greedy sampler's log-probabilities

---
 reagent/gym/policies/samplers/discrete_sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/gym/policies/samplers/discrete_sampler.py b/reagent/gym/policies/samplers/discrete_sampler.py
index ac895ec..667eb8a 100644
--- a/reagent/gym/policies/samplers/discrete_sampler.py
+++ b/reagent/gym/policies/samplers/discrete_sampler.py
@@ -85,7 +85,7 @@ class GreedyActionSampler(Sampler):
         action = F.one_hot(raw_action, num_actions)
         assert action.shape == (batch_size, num_actions)
         return rlt.ActorOutput(
-            action=action, log_prob=torch.ones_like(raw_action, dtype=torch.float)
+            action=action, log_prob=torch.zeros_like(raw_action, dtype=torch.float)
         )
 
     # pyre-fixme[56]: Decorator `torch.no_grad(...)` could not be called, because
@@ -96,7 +96,7 @@ class GreedyActionSampler(Sampler):
         # pyre-fixme[16]: `Tensor` has no attribute `argmax`.
         match = greedy_indices == action.argmax(-1)
         lp = torch.zeros(scores.shape[0]).float()
-        lp[match] = -float("inf")
+        lp[~match] = -float("inf")
         return lp
 
 
-- 
2.43.0


From 97256dffa2e5a8ea8c0453528a145d4131cdff91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:08 +0000
Subject: [PATCH 62/97] fix: sample and score epsilon-greedy actions

---
 reagent/gym/policies/samplers/discrete_sampler.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/reagent/gym/policies/samplers/discrete_sampler.py b/reagent/gym/policies/samplers/discrete_sampler.py
index 667eb8a..c02191b 100644
--- a/reagent/gym/policies/samplers/discrete_sampler.py
+++ b/reagent/gym/policies/samplers/discrete_sampler.py
@@ -131,7 +131,7 @@ class EpsilonGreedyActionSampler(Sampler):
         argmax = F.one_hot(scores.argmax(dim=1), num_actions).bool()
 
         rand_prob = self.epsilon / num_actions
-        p = torch.full_like(rand_prob, scores)
+        p = torch.full_like(scores, rand_prob)
 
         greedy_prob = 1 - self.epsilon + rand_prob
         p[argmax] = greedy_prob
@@ -145,13 +145,13 @@ class EpsilonGreedyActionSampler(Sampler):
         return rlt.ActorOutput(action=action, log_prob=log_prob)
 
     def log_prob(self, scores: torch.Tensor, action: torch.Tensor) -> torch.Tensor:
-        max_index = self.sample_action(scores).argmax(-1)
         # pyre-fixme[16]: `Tensor` has no attribute `argmax`.
-        opt = max_index == action.argmax(-1)
-        n = len(scores)
-        lp = torch.ones(n) * self.epsilon / n
-        lp[opt] = 1 - self.epsilon + self.epsilon / n
-        return lp
+        opt = scores.argmax(dim=1) == action.argmax(-1)
+        batch_size, num_actions = scores.shape
+        rand_prob = self.epsilon / num_actions
+        p = torch.full((batch_size,), rand_prob)
+        p[opt] = 1 - self.epsilon + rand_prob
+        return p.log()
 
     def update(self) -> None:
         self.epsilon *= self.epsilon_decay
-- 
2.43.0


From aa94c0adc83be105385a5996e4250f1634a9ff93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:08 +0000
Subject: [PATCH 63/97] fix: score Gaussian samples with the actor's density

---
 reagent/gym/policies/samplers/continuous_sampler.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/reagent/gym/policies/samplers/continuous_sampler.py b/reagent/gym/policies/samplers/continuous_sampler.py
index 0775e39..9ce952f 100644
--- a/reagent/gym/policies/samplers/continuous_sampler.py
+++ b/reagent/gym/policies/samplers/continuous_sampler.py
@@ -15,7 +15,7 @@ class GaussianSampler(Sampler):
         # pyre-fixme[16]: `Tensor` has no attribute `exp`.
         action = torch.tanh(loc + r * scale_log.exp())
         # Since each dim are independent, log-prob is simply sum
-        log_prob = self.actor_network._log_prob(r, scale_log)
+        log_prob = self.actor_network._normal_log_prob(r, scale_log)
         squash_correction = self.actor_network._squash_correction(action)
         log_prob = torch.sum(log_prob - squash_correction, dim=1)
         return action, log_prob
@@ -36,7 +36,7 @@ class GaussianSampler(Sampler):
         # This is not getting exported; we can use it
         # pyre-fixme[16]: `Tensor` has no attribute `exp`.
         n = torch.distributions.Normal(loc, scale_log.exp())
-        raw_action = self.actor_network._atanh(squashed_action)
+        raw_action = torch.atanh(squashed_action)
         log_prob = n.log_prob(raw_action)
         squash_correction = self.actor_network._squash_correction(squashed_action)
         log_prob = torch.sum(log_prob - squash_correction, dim=1)
@@ -49,7 +49,6 @@ class GaussianSampler(Sampler):
         self, scores: GaussianSamplerScore, squashed_action: torch.Tensor
     ) -> torch.Tensor:
         self.actor_network.eval()
-        # pyre-fixme[20]: Argument `squashed_action` expected.
-        log_prob = self._log_prob(scores.loc, scores.scale_log)
+        log_prob = self._log_prob(scores.loc, scores.scale_log, squashed_action)
         self.actor_network.train()
         return log_prob
-- 
2.43.0


From 9d2ee2266f59287166fa76fb765706b326c6a359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:08 +0000
Subject: [PATCH 64/97] fix: end episodes after max_steps steps

---
 reagent/gym/datasets/replay_buffer_dataset.py | 2 +-
 reagent/gym/runners/gymrunner.py              | 2 +-
 reagent/gym/utils.py                          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/reagent/gym/datasets/replay_buffer_dataset.py b/reagent/gym/datasets/replay_buffer_dataset.py
index 466bafe..6856f50 100644
--- a/reagent/gym/datasets/replay_buffer_dataset.py
+++ b/reagent/gym/datasets/replay_buffer_dataset.py
@@ -93,7 +93,7 @@ class ReplayBufferDataset(torch.utils.data.IterableDataset):
                 action, log_prob = self._agent.act(obs, possible_actions_mask)
                 next_obs, reward, terminal, _ = self._env.step(action)
                 next_possible_actions_mask = self._env.possible_actions_mask
-                if self._max_steps is not None and num_steps >= self._max_steps:
+                if self._max_steps is not None and num_steps + 1 >= self._max_steps:
                     terminal = True
 
                 # Only partially filled. Agent can fill in more fields.
diff --git a/reagent/gym/runners/gymrunner.py b/reagent/gym/runners/gymrunner.py
index 73a58f0..495e8ad 100644
--- a/reagent/gym/runners/gymrunner.py
+++ b/reagent/gym/runners/gymrunner.py
@@ -37,7 +37,7 @@ def run_episode(
         action, log_prob = agent.act(obs, possible_actions_mask)
         next_obs, reward, terminal, _ = env.step(action)
         next_possible_actions_mask = env.possible_actions_mask
-        if max_steps is not None and num_steps >= max_steps:
+        if max_steps is not None and num_steps + 1 >= max_steps:
             terminal = True
 
         # Only partially filled. Agent can fill in more fields.
diff --git a/reagent/gym/utils.py b/reagent/gym/utils.py
index 513b18a..ecfb8c4 100644
--- a/reagent/gym/utils.py
+++ b/reagent/gym/utils.py
@@ -55,7 +55,7 @@ def fill_replay_buffer(env, replay_buffer: ReplayBuffer, desired_size: int):
         mdp_id = 0
         while replay_buffer.size < desired_size:
             last_size = replay_buffer.size
-            max_steps = desired_size - replay_buffer.size - 1
+            max_steps = desired_size - replay_buffer.size
             if max_episode_steps is not None:
                 max_steps = min(max_episode_steps, max_steps)
             run_episode(env=env, agent=agent, mdp_id=mdp_id, max_steps=max_steps)
-- 
2.43.0


From 2d4da821635cd81432166e27da1a98a8d5386502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:08 +0000
Subject: [PATCH 65/97] fix: keep the step dimension of policy gradient actions

---
 reagent/gym/preprocessors/trainer_preprocessor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reagent/gym/preprocessors/trainer_preprocessor.py b/reagent/gym/preprocessors/trainer_preprocessor.py
index 247242d..e64cdb9 100644
--- a/reagent/gym/preprocessors/trainer_preprocessor.py
+++ b/reagent/gym/preprocessors/trainer_preprocessor.py
@@ -454,8 +454,9 @@ class PolicyGradientInputMaker:
         return _stack([_stack_slate(slate) for slate in observation])
 
     def __call__(self, trajectory: Trajectory):
-        action = torch.from_numpy(np.stack(trajectory.action).squeeze())
+        action = torch.from_numpy(np.stack(trajectory.action))
         if self.num_actions is not None:
+            action = action.reshape(len(trajectory))
             action = F.one_hot(action, self.num_actions).float()
             assert len(action.shape) == 2, f"{action.shape}"
             # one hot makes shape (batch_size, num_actions)
-- 
2.43.0


From 8337dbc42f9b808469b35b1335b6e1e06ab12c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:08 +0000
Subject: [PATCH 66/97] fix: keep all legal arms of the last state that has any

---
 reagent/gym/envs/changing_arms.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/reagent/gym/envs/changing_arms.py b/reagent/gym/envs/changing_arms.py
index 17afeea..04a2e35 100644
--- a/reagent/gym/envs/changing_arms.py
+++ b/reagent/gym/envs/changing_arms.py
@@ -164,8 +164,7 @@ class ChangingArms(EnvWrapper):
             else:
                 assert batch_idx == prev_batch_idx
         # handle the case of trailing empty batches
-        if batch_idx < batch_size - 1:
-            offsets.extend([i] * (batch_size - 1 - batch_idx))
+        offsets.extend([len(batch_indices)] * (batch_size - 1 - prev_batch_idx))
         assert len(offsets) == batch_size, f"{len(offsets)} != {batch_size}."
         id_list_offsets = torch.tensor(offsets)
 
-- 
2.43.0


From bbf99e9a1730025e7a8c5cf037146854adc8a5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:08 +0000
Subject: [PATCH 67/97] fix: write every transition of the replay buffer to the
 timeline input

---
 reagent/replay_memory/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/replay_memory/utils.py b/reagent/replay_memory/utils.py
index dce70a3..1758548 100644
--- a/reagent/replay_memory/utils.py
+++ b/reagent/replay_memory/utils.py
@@ -26,8 +26,8 @@ def replay_buffer_to_pre_timeline_df(
     is_discrete_action: bool, replay_buffer: ReplayBuffer
 ) -> pd.DataFrame:
     """ Format needed for uploading dataset to Hive, and then run timeline. """
-    n = replay_buffer.size
-    batch = replay_buffer.sample_transition_batch(batch_size=n)
+    batch = replay_buffer.sample_all_valid_transitions()
+    n = batch.reward.shape[0]
 
     # actions is inconsistent between models, so let's infer them.
     possible_actions_mask = getattr(batch, "possible_actions_mask", None)
-- 
2.43.0


From acd6373ffd9d34f49048f1c6e2ea24aaf37c1b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:42 +0000
Subject: [PATCH 68/97] fix: find the tensorboard writer of a single logger

---
 reagent/training/reagent_lightning_module.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/training/reagent_lightning_module.py b/reagent/training/reagent_lightning_module.py
index cf6b4df..caf76d0 100644
--- a/reagent/training/reagent_lightning_module.py
+++ b/reagent/training/reagent_lightning_module.py
@@ -86,8 +86,8 @@ class ReAgentLightningModule(pl.LightningModule):
                 if isinstance(logger, pl.loggers.tensorboard.TensorBoardLogger):
                     self._summary_writer = logger.experiment
                     break
-        elif isinstance(logger, pl.loggers.tensorboard.TensorBoardLogger):
-            self._summary_writer = logger.experiment
+        elif isinstance(self.logger, pl.loggers.tensorboard.TensorBoardLogger):
+            self._summary_writer = self.logger.experiment
 
         return self._summary_writer
 
-- 
2.43.0


From 585bb540a62c5c945f8d130e2fbaa3653743d4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:42 +0000
Subject: [PATCH 69/97] fix: recognise named tuples in JSON serialization

---
 reagent/json_serialize.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reagent/json_serialize.py b/reagent/json_serialize.py
index 7169308..82292e0 100644
--- a/reagent/json_serialize.py
+++ b/reagent/json_serialize.py
@@ -5,7 +5,7 @@ import collections
 import json
 import logging
 from dataclasses import asdict, dataclass, fields, is_dataclass
-from typing import Any, NamedTuple, Type, Union
+from typing import Any, Type, Union
 
 
 logger = logging.getLogger(__name__)
@@ -17,7 +17,7 @@ def object_to_json(o: Any) -> str:
 
 
 def prepare_for_json(o: Any) -> Any:
-    if isinstance(o, NamedTuple):
+    if isinstance(o, tuple) and hasattr(o, "_fields"):
         d = {}
         for field_name in o._fields:
             d[field_name] = prepare_for_json(getattr(o, field_name))
@@ -40,7 +40,7 @@ def from_json(j_obj: Any, to_type: Type) -> Any:
     logger.debug("TYPE: ")
     logger.debug(j_obj)
     logger.debug(to_type)
-    if getattr(to_type, "_field_types", None) is not None:
+    if getattr(to_type, "_fields", None) is not None:
         # Type is a NamedTuple, dive in
         field_data = {}
         for field_name in j_obj.keys():
@@ -48,7 +48,7 @@ def from_json(j_obj: Any, to_type: Type) -> Any:
                 field_name in to_type._fields
             ), "Item in dict missing from {}: {}".format(str(to_type), field_name)
             field_value = j_obj[field_name]
-            object_type = to_type._field_types[field_name]
+            object_type = to_type.__annotations__[field_name]
             if getattr(object_type, "__origin__", None) is Union:
                 assert len(object_type.__args__) == 2 and object_type.__args__[
                     1
-- 
2.43.0


From c5a7572f9ab6c373d3c12afad49f73185c9b3413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 70/97] fix: give sampled datasets the columns of the whole
 table

---
 reagent/workflow/data_fetcher.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/reagent/workflow/data_fetcher.py b/reagent/workflow/data_fetcher.py
index 306a5c8..45d180b 100644
--- a/reagent/workflow/data_fetcher.py
+++ b/reagent/workflow/data_fetcher.py
@@ -449,12 +449,17 @@ def query_data(
         multi_steps=multi_steps,
         gamma=gamma,
     )
+    # names come from the whole table, so that all samples have the same columns
+    states = infer_states_names(df, multi_steps)
+    metrics = infer_metrics_names(df, multi_steps)
+    if not discrete_action:
+        actions = infer_action_names(df, multi_steps)
     df = hash_mdp_id_and_subsample(df, sample_range=sample_range)
     df = misc_column_preprocessing(df, multi_steps=multi_steps)
     df = state_and_metrics_sparse2dense(
         df,
-        states=infer_states_names(df, multi_steps),
-        metrics=infer_metrics_names(df, multi_steps),
+        states=states,
+        metrics=metrics,
         multi_steps=multi_steps,
     )
     if discrete_action:
@@ -462,7 +467,6 @@ def query_data(
         assert actions is not None, "in discrete case, actions must be given."
         df = discrete_action_preprocessing(df, actions=actions, multi_steps=multi_steps)
     else:
-        actions = infer_action_names(df, multi_steps)
         df = parametric_action_preprocessing(
             df,
             actions=actions,
-- 
2.43.0


From 4becccc276590d3a7e5c9550d158dcd7d4419a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 71/97] fix: save every serving module a manager builds, each
 to its own file

---
 reagent/workflow/model_managers/model_manager.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/reagent/workflow/model_managers/model_manager.py b/reagent/workflow/model_managers/model_manager.py
index 31b7250..560e7b2 100644
--- a/reagent/workflow/model_managers/model_manager.py
+++ b/reagent/workflow/model_managers/model_manager.py
@@ -271,8 +271,7 @@ class ModelManager(metaclass=RegistryMeta):
         output_paths = {}
         for module_name, serving_module in self.build_serving_modules().items():
             # TODO: make this a parameter
-            torchscript_output_path = f"model_{round(time.time())}.torchscript"
-            serving_module = self.build_serving_module()
+            torchscript_output_path = f"{module_name}_{round(time.time())}.torchscript"
             torch.jit.save(serving_module, torchscript_output_path)
             logger.info(f"Saved {module_name} to {torchscript_output_path}")
             output_paths[module_name] = torchscript_output_path
-- 
2.43.0


From e964fe4b6c8d8b2f4b01682f7a43ad1760419c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 72/97] fix: let discrete DQN managers save a checkpoint that
 training can resume from

---
 reagent/workflow/model_managers/discrete_dqn_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/workflow/model_managers/discrete_dqn_base.py b/reagent/workflow/model_managers/discrete_dqn_base.py
index 53f9d9b..1413f03 100644
--- a/reagent/workflow/model_managers/discrete_dqn_base.py
+++ b/reagent/workflow/model_managers/discrete_dqn_base.py
@@ -162,7 +162,7 @@ class DiscreteDQNBase(ModelManager):
         self.trainer.set_reporter(reporter)
         assert data_module
 
-        train_eval_lightning(
+        self._lightning_trainer = train_eval_lightning(
             train_dataset=train_dataset,
             eval_dataset=eval_dataset,
             trainer_module=self.trainer,
-- 
2.43.0


From 6ce7c9c438b56e702f795a30e637c6b527dfe47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 73/97] fix: train actor-critic models with the workflow's
 reader options

---
 reagent/workflow/model_managers/actor_critic_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reagent/workflow/model_managers/actor_critic_base.py b/reagent/workflow/model_managers/actor_critic_base.py
index f93c25a..d6c2a83 100644
--- a/reagent/workflow/model_managers/actor_critic_base.py
+++ b/reagent/workflow/model_managers/actor_critic_base.py
@@ -257,7 +257,7 @@ class ActorCriticBase(ModelManager):
             num_epochs=num_epochs,
             use_gpu=self.use_gpu,
             batch_preprocessor=batch_preprocessor,
-            reader_options=self.reader_options,
+            reader_options=self.reader_options or reader_options,
             checkpoint_path=self._lightning_checkpoint_path,
             resource_options=resource_options or ResourceOptions(),
         )
-- 
2.43.0


From 56c89a9fb9a7d8d6733e609c40d33faac922cd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:17 +0000
Subject: [PATCH 74/97] fix: keep trainer checkpoints saved at the same time
 apart

---
 reagent/workflow/model_managers/model_manager.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/reagent/workflow/model_managers/model_manager.py b/reagent/workflow/model_managers/model_manager.py
index 560e7b2..e8bdc07 100644
--- a/reagent/workflow/model_managers/model_manager.py
+++ b/reagent/workflow/model_managers/model_manager.py
@@ -3,6 +3,8 @@
 import abc
 import dataclasses
 import logging
+import os
+import tempfile
 import time
 from typing import Dict, List, Optional, Tuple
 
@@ -320,10 +322,11 @@ class ModelManager(metaclass=RegistryMeta):
             # HACK: since lightning_trainer.save_checkpoint can only deal with
             # local file paths (not even file handlers), we save to local file
             # first, and then use PathManager
-            local_path = "/tmp/lightning_save_checkpoint_local_copy"
-            lightning_trainer.save_checkpoint(local_path)
-            with open(local_path, "rb") as local_f:
-                checkpoint_contents = local_f.read()
+            with tempfile.TemporaryDirectory() as local_dir:
+                local_path = os.path.join(local_dir, "lightning_checkpoint")
+                lightning_trainer.save_checkpoint(local_path)
+                with open(local_path, "rb") as local_f:
+                    checkpoint_contents = local_f.read()
             with PathManager.open(output_path, "wb") as output_f:
                 output_f.write(checkpoint_contents)
         else:
-- 
2.43.0


From b85305fb3b2003a6894804509d23a69f28a7c1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 75/97] fix: report which result was already set instead of
 failing on a missing attribute

---
 reagent/workflow/training.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reagent/workflow/training.py b/reagent/workflow/training.py
index 8103c65..8ad2ee2 100644
--- a/reagent/workflow/training.py
+++ b/reagent/workflow/training.py
@@ -225,7 +225,7 @@ def run_validator(
 ) -> RLTrainingOutput:
     assert (
         training_output.validation_result is None
-    ), f"validation_output was set to f{training_output.validation_output}"
+    ), f"validation_result was set to {training_output.validation_result}"
     model_validator = validator.value
     validation_result = model_validator.validate(training_output)
     return dataclasses.replace(training_output, validation_result=validation_result)
@@ -241,7 +241,7 @@ def run_publisher(
 ) -> RLTrainingOutput:
     assert (
         training_output.publishing_result is None
-    ), f"publishing_output was set to f{training_output.publishing_output}"
+    ), f"publishing_result was set to {training_output.publishing_result}"
     model_publisher = publisher.value
     model_manager = model_chooser.value
     publishing_result = model_publisher.publish(
-- 
2.43.0


From 84d51f1d118adbc6c1cec58bc211be6edf365ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 76/97] fix: match the planner's action bounds to the order of
 the action features

---
 .../model_based/cross_entropy_method.py              | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/reagent/workflow/model_managers/model_based/cross_entropy_method.py b/reagent/workflow/model_managers/model_based/cross_entropy_method.py
index 3efee16..edc03c1 100644
--- a/reagent/workflow/model_managers/model_based/cross_entropy_method.py
+++ b/reagent/workflow/model_managers/model_based/cross_entropy_method.py
@@ -11,7 +11,10 @@ from reagent.gym.policies.policy import Policy
 from reagent.models.cem_planner import CEMPlannerNetwork
 from reagent.parameters import CEMTrainerParameters, param_hash
 from reagent.preprocessing.identify_types import CONTINUOUS_ACTION
-from reagent.preprocessing.normalization import get_num_output_features
+from reagent.preprocessing.normalization import (
+    get_num_output_features,
+    sort_features_by_normalization,
+)
 from reagent.training.cem_trainer import CEMTrainer
 from reagent.workflow.model_managers.model_based.world_model import WorldModel
 from reagent.workflow.model_managers.world_model_base import WorldModelBase
@@ -79,7 +82,12 @@ class CrossEntropyMethod(WorldModelBase):
         action_normalization_parameters = (
             self.action_normalization_data.dense_normalization_parameters
         )
-        sorted_action_norm_vals = list(action_normalization_parameters.values())
+        sorted_action_features, _ = sort_features_by_normalization(
+            action_normalization_parameters
+        )
+        sorted_action_norm_vals = [
+            action_normalization_parameters[f] for f in sorted_action_features
+        ]
         discrete_action = sorted_action_norm_vals[0].feature_type != CONTINUOUS_ACTION
         action_upper_bounds, action_lower_bounds = None, None
         if not discrete_action:
-- 
2.43.0


From 4591919f8b25087277592d69b413a4f83a69572d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 77/97] fix: let a process train one model after another

---
 reagent/workflow/model_managers/model_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/workflow/model_managers/model_manager.py b/reagent/workflow/model_managers/model_manager.py
index e8bdc07..f9504a8 100644
--- a/reagent/workflow/model_managers/model_manager.py
+++ b/reagent/workflow/model_managers/model_manager.py
@@ -13,7 +13,7 @@ import torch
 from fvcore.common.file_io import PathManager
 from reagent.core.registry_meta import RegistryMeta
 from reagent.parameters import NormalizationData
-from reagent.tensorboardX import summary_writer_context
+from reagent.tensorboardX import SummaryWriterContext, summary_writer_context
 from reagent.training import ReAgentLightningModule, Trainer
 from reagent.workflow.data import ReAgentDataModule
 from reagent.workflow.types import (
@@ -226,6 +226,8 @@ class ModelManager(metaclass=RegistryMeta):
         resource_options: Optional[ResourceOptions] = None,
         warmstart_path: Optional[str] = None,
     ) -> RLTrainingOutput:
+        # Charts & steps of an earlier training in this process don't apply to this writer
+        SummaryWriterContext._reset_globals()
         writer = SummaryWriter()
         logger.info("TensorBoard logging location is: {}".format(writer.log_dir))
 
-- 
2.43.0


From dc7859419678a30cfe6e03a86e2ffa0b2682f396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 78/97] fix: score no actions at all with a softmax

---
 serving/reagent/serving/operators/Softmax.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serving/reagent/serving/operators/Softmax.cpp b/serving/reagent/serving/operators/Softmax.cpp
index b0e91f1..d67a17b 100644
--- a/serving/reagent/serving/operators/Softmax.cpp
+++ b/serving/reagent/serving/operators/Softmax.cpp
@@ -13,6 +13,9 @@ OperatorData Softmax::run(const DecisionRequest&,
 }
 
 StringDoubleMap Softmax::run(const StringDoubleMap& input, double temperature) {
+  if (input.empty()) {
+    return StringDoubleMap();
+  }
   Eigen::ArrayXd v(input.size());
   StringList names;
   for (auto& it : input) {
-- 
2.43.0


From 3bf08ef7ba886da517878b51ff23374907fcdd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 79/97] fix: refuse bandit requests without actions

---
 serving/reagent/serving/operators/Ucb.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serving/reagent/serving/operators/Ucb.cpp b/serving/reagent/serving/operators/Ucb.cpp
index ebbac84..0674032 100644
--- a/serving/reagent/serving/operators/Ucb.cpp
+++ b/serving/reagent/serving/operators/Ucb.cpp
@@ -36,6 +36,9 @@ OperatorData Ucb::run(const DecisionRequest& request,
 RankedActionList Ucb::runInternal(const DecisionRequest& request,
                                   const std::string& method) {
   auto arms = Operator::getActionNamesFromRequest(request);
+  if (arms.empty()) {
+    LOG_AND_THROW("The request has no actions to choose from");
+  }
 
   int64_t totalPulls = 0;
   Eigen::ArrayXd armPulls(arms.size());
-- 
2.43.0


From 58a11dcc6d555f13d3591e3d9d902fbb3a7416ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:58 +0000
Subject: [PATCH 80/97] fix: report the probabilities of epsilon-greedy
 rankings

---
 .../serving/operators/EpsilonGreedyRanker.cpp    | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/serving/reagent/serving/operators/EpsilonGreedyRanker.cpp b/serving/reagent/serving/operators/EpsilonGreedyRanker.cpp
index d747445..960af15 100644
--- a/serving/reagent/serving/operators/EpsilonGreedyRanker.cpp
+++ b/serving/reagent/serving/operators/EpsilonGreedyRanker.cpp
@@ -28,16 +28,18 @@ RankedActionList EpsilonGreedyRanker::runInternal(
 
   while (names.size() > 0) {
     double r = (double(std::rand()) / RAND_MAX);
-    int idx;
-
+    int greedyIdx = std::distance(
+        tmpValues.begin(), max_element(tmpValues.begin(), tmpValues.end()));
+    int idx = greedyIdx;
     if (r < epsilon) {
       idx = std::rand() % names.size();
-      rollingPropensity *= epsilon;
-    } else {
-      idx = std::distance(
-          tmpValues.begin(), max_element(tmpValues.begin(), tmpValues.end()));
-      rollingPropensity *= (1.0 - epsilon);
     }
+    // Exploration picks any remaining action, the best one included
+    double propensity = epsilon / names.size();
+    if (idx == greedyIdx) {
+      propensity += 1.0 - epsilon;
+    }
+    rollingPropensity *= propensity;
 
     rankedList.push_back({names[idx], rollingPropensity});
     names.erase(names.begin() + idx);
-- 
2.43.0


From 1850ff8cf1582d59ceffadac5f31e886e3e2dc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:58 +0000
Subject: [PATCH 81/97] fix: report zero for counters that were cleared

---
 serving/reagent/serving/core/LocalRealTimeCounter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serving/reagent/serving/core/LocalRealTimeCounter.cpp b/serving/reagent/serving/core/LocalRealTimeCounter.cpp
index 8e28826..ac83ee5 100644
--- a/serving/reagent/serving/core/LocalRealTimeCounter.cpp
+++ b/serving/reagent/serving/core/LocalRealTimeCounter.cpp
@@ -12,7 +12,7 @@ int64_t LocalRealTimeCounter::getNumSamples(const std::string& key) {
 
 double LocalRealTimeCounter::getMean(const std::string& key) {
   auto it = counts_.find(key);
-  if (it == counts_.end()) {
+  if (it == counts_.end() || it->second.empty()) {
     return 0;
   }
   auto& v = it->second;
@@ -25,7 +25,7 @@ double LocalRealTimeCounter::getMean(const std::string& key) {
 
 double LocalRealTimeCounter::getVariance(const std::string& key) {
   auto it = counts_.find(key);
-  if (it == counts_.end()) {
+  if (it == counts_.end() || it->second.empty()) {
     return 0;
   }
   auto& v = it->second;
-- 
2.43.0


From 89ba575e4217b05157eec58ec2b934d9e6ad2856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 82/97] fix: skip directories when reading decision plans

---
 serving/reagent/serving/core/DiskConfigProvider.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serving/reagent/serving/core/DiskConfigProvider.cpp b/serving/reagent/serving/core/DiskConfigProvider.cpp
index 0f9a161..fd61d39 100644
--- a/serving/reagent/serving/core/DiskConfigProvider.cpp
+++ b/serving/reagent/serving/core/DiskConfigProvider.cpp
@@ -9,7 +9,9 @@ void DiskConfigProvider::initialize(DecisionService* decisionService) {
   LOG(INFO) << "READING CONFIGS FROM " << configDir_;
   for (auto& file :
        boost::filesystem::recursive_directory_iterator(configDir_)) {
-    readConfig(file.path().string());
+    if (boost::filesystem::is_regular_file(file.path())) {
+      readConfig(file.path().string());
+    }
   }
 }
 
-- 
2.43.0


From 8b0d7461b7a0460a1d98d0a1486e074f29ad3806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 83/97] fix: open decision logs in any directory

---
 serving/reagent/serving/core/InMemoryLogJoiner.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serving/reagent/serving/core/InMemoryLogJoiner.h b/serving/reagent/serving/core/InMemoryLogJoiner.h
index 20d86a2..5d3fb58 100644
--- a/serving/reagent/serving/core/InMemoryLogJoiner.h
+++ b/serving/reagent/serving/core/InMemoryLogJoiner.h
@@ -14,8 +14,8 @@ class InMemoryLogJoiner : public LogJoiner {
       return;
     }
     auto log_dir = boost::filesystem::path(log_path).parent_path();
-    if (!boost::filesystem::exists(log_dir)) {
-      boost::filesystem::create_directory(log_dir.string());
+    if (!log_dir.empty() && !boost::filesystem::exists(log_dir)) {
+      boost::filesystem::create_directories(log_dir);
       LOG(INFO) << "Log directory : " << log_dir << " does not exist. Created";
     }
 
-- 
2.43.0


From 18e539c803fecd400dd098fb14044640be59d43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 84/97] fix: aggregate negative rewards by their maximum

---
 serving/reagent/serving/core/DecisionService.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/serving/reagent/serving/core/DecisionService.cpp b/serving/reagent/serving/core/DecisionService.cpp
index 8869204..9a389d9 100644
--- a/serving/reagent/serving/core/DecisionService.cpp
+++ b/serving/reagent/serving/core/DecisionService.cpp
@@ -64,6 +64,7 @@ void DecisionService::computeRewardAndLogFeedback(Feedback feedback) {
 
   // Turn metrics -> rewards
   double aggregateReward = 0.0;
+  bool firstAction = true;
   for (auto& it : feedback.actions) {
     double reward = 0.0;
     if (!plan->getConfig().reward_function.empty()) {
@@ -73,7 +74,8 @@ void DecisionService::computeRewardAndLogFeedback(Feedback feedback) {
     it.computed_reward = reward;
     switch (plan->getConfig().reward_aggregator) {
       case DRA_MAX:
-        aggregateReward = std::max(aggregateReward, reward);
+        aggregateReward =
+            firstAction ? reward : std::max(aggregateReward, reward);
         break;
       case DRA_SUM:
         aggregateReward = aggregateReward + reward;
@@ -81,6 +83,7 @@ void DecisionService::computeRewardAndLogFeedback(Feedback feedback) {
       default:
         LOG_AND_THROW("Invalid reward aggregator");
     }
+    firstAction = false;
   }
   feedback.computed_reward = aggregateReward;
 
-- 
2.43.0


From 446ec6d73e3d8b53a65e794b54c22aac8c0ee273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 85/97] fix: refuse decision plans that use a name twice

---
 serving/reagent/serving/core/DecisionService.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/serving/reagent/serving/core/DecisionService.cpp b/serving/reagent/serving/core/DecisionService.cpp
index 9a389d9..1c2ef4d 100644
--- a/serving/reagent/serving/core/DecisionService.cpp
+++ b/serving/reagent/serving/core/DecisionService.cpp
@@ -137,6 +137,17 @@ std::shared_ptr<DecisionPlan> DecisionService::createPlan(
   if (operators.empty()) {
     LOG_AND_THROW("Plan has no operators");
   }
+  std::set<std::string> names = {"input"};
+  for (const auto& it : config.operators) {
+    if (!names.insert(it.name).second) {
+      LOG_AND_THROW("Plan uses a name twice: " << it.name);
+    }
+  }
+  for (const auto& it : config.constants) {
+    if (!names.insert(it.name).second) {
+      LOG_AND_THROW("Plan uses a name twice: " << it.name);
+    }
+  }
   // Create constants
   StringOperatorDataMap constants;
   for (const auto& it : config.constants) {
-- 
2.43.0


From 810df37f3622bcfdb28824133e5e8b03c15bcb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:09 +0000
Subject: [PATCH 86/97] fix: let the log conversion script start

---
 serving/scripts/rasp_to_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serving/scripts/rasp_to_model.py b/serving/scripts/rasp_to_model.py
index 97862ab..0ee57cf 100644
--- a/serving/scripts/rasp_to_model.py
+++ b/serving/scripts/rasp_to_model.py
@@ -10,7 +10,7 @@ import pandas as pd
 
 logging.basicConfig(level=logging.INFO)
 logger = logging.getLogger(__name__)
-logger.setLevel(logging.info)
+logger.setLevel(logging.INFO)
 
 
 def keys_to_int(d: Dict[str, Any]) -> Dict[int, Any]:
-- 
2.43.0


From e2b7d6ed60f158ae8582a38b3a7708209c83c860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:16 +0000
Subject: [PATCH 87/97] fix: export reward aggregators by name

---
 serving/reagent/serving/config/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/serving/reagent/serving/config/config.py b/serving/reagent/serving/config/config.py
index 34205f9..a18e364 100644
--- a/serving/reagent/serving/config/config.py
+++ b/serving/reagent/serving/config/config.py
@@ -106,9 +106,9 @@ class Constant(ConfigBase):
 
 
 class DecisionRewardAggreation(Enum):
-    DRA_INVALID = (None,)
-    DRA_SUM = ("sum",)
-    DRA_MAX = ("max",)
+    DRA_INVALID = None
+    DRA_SUM = "sum"
+    DRA_MAX = "max"
 
 
 class DecisionConfig(ConfigBase):
-- 
2.43.0


From bd0c43d46ef6dfa44259c02935442a82e711e4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:16 +0000
Subject: [PATCH 88/97] fix: export one application's plans under their names

---
 serving/reagent/serving/config/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serving/reagent/serving/config/main.py b/serving/reagent/serving/config/main.py
index 5abb909..0585d2a 100644
--- a/serving/reagent/serving/config/main.py
+++ b/serving/reagent/serving/config/main.py
@@ -40,7 +40,7 @@ def export(app_id, config_dir):
         if not os.path.exists(sub_config_dir):
             os.makedirs(sub_config_dir)
         for config_name, config in configs.items():
-            config_file = os.path.join(sub_config_dir, config_name, ".json")
+            config_file = os.path.join(sub_config_dir, config_name + ".json")
             print(f"{app_id}:{config_name} exported to {config_file}")
             with open(config_file, "w") as f:
                 json.dump(config, f, indent=2)
-- 
2.43.0


From 65709af4e81be9acd40da9bf5009ce13e7456daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:16 +0000
Subject: [PATCH 89/97] fix: export bandit operators under the service's name

---
 serving/reagent/serving/config/operators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/serving/reagent/serving/config/operators.py b/serving/reagent/serving/config/operators.py
index 2a4e368..045f6f0 100644
--- a/serving/reagent/serving/config/operators.py
+++ b/serving/reagent/serving/config/operators.py
@@ -82,7 +82,7 @@ def SoftmaxRanker(temperature: float, values: Dict, seed: int = None):
     pass
 
 
-def UCB(method: str, batch_size: int = 1):
+def Ucb(method: str, batch_size: int = 1):
     """The operator that implements UCB algorithms
 
     Args:
@@ -95,3 +95,6 @@ def UCB(method: str, batch_size: int = 1):
 for op in set(globals()) - __globals - {"__globals"}:
     globals()[op] = namespace.DecisionOperation(globals()[op])
 del __globals
+
+# The service calls the operator Ucb
+UCB = Ucb
-- 
2.43.0


From 0c68cd1bc4b27c694675261e7ba1f8d5029b8816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:16 +0000
Subject: [PATCH 90/97] fix: give the same plan when it is built again

---
 serving/reagent/serving/config/builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serving/reagent/serving/config/builder.py b/serving/reagent/serving/config/builder.py
index 7f8a512..1d5e615 100644
--- a/serving/reagent/serving/config/builder.py
+++ b/serving/reagent/serving/config/builder.py
@@ -42,6 +42,8 @@ class DecisionPlanBuilder(object):
         return self
 
     def serialize(self):
+        self.operators = []
+        self.constants = []
         visited = set()
         next_id = [0]
 
-- 
2.43.0


From 1cdb7ec667110a778ce93e909ddf47c7d77b200b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:16 +0000
Subject: [PATCH 91/97] fix: export constants by the kind of all their values

---
 serving/reagent/serving/config/serialize.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/serving/reagent/serving/config/serialize.py b/serving/reagent/serving/config/serialize.py
index 780c1d2..72cdd46 100644
--- a/serving/reagent/serving/config/serialize.py
+++ b/serving/reagent/serving/config/serialize.py
@@ -57,12 +57,11 @@ def _value_to_json(cls, value):
                 raise TypeError(
                     f"Can not properly decide the type of {value} since it is empty"
                 )
-            real_cls = type(value[0])
-            if issubclass(real_cls, str):
+            if all(isinstance(v, str) for v in value):
                 name = "list_string_value"
-            elif issubclass(real_cls, int):
+            elif all(isinstance(v, int) for v in value):
                 name = "list_int_value"
-            elif issubclass(real_cls, float):
+            elif all(isinstance(v, (int, float)) for v in value):
                 name = "list_double_value"
             else:
                 raise TypeError(f"{real_cls} type not supported")
@@ -71,15 +70,13 @@ def _value_to_json(cls, value):
                 raise TypeError(
                     f"Can not properly decide the type of {value} since it is empty"
                 )
-            items = list(value.items())
-            key_real_cls, value_real_cls = type(items[0][0]), type(items[0][1])
-            if not issubclass(key_real_cls, str):
+            if not all(isinstance(k, str) for k in value):
                 raise TypeError(f"{value} type not supported")
-            if issubclass(value_real_cls, str):
+            if all(isinstance(v, str) for v in value.values()):
                 name = "map_string_value"
-            elif issubclass(value_real_cls, int):
+            elif all(isinstance(v, int) for v in value.values()):
                 name = "map_int_value"
-            elif issubclass(value_real_cls, float):
+            elif all(isinstance(v, (int, float)) for v in value.values()):
                 name = "map_double_value"
             else:
                 raise TypeError(f"{real_cls} type not supported")
-- 
2.43.0


From 6a7d970ba6d4a716cc1fe30b6a6d3b0068524d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:26 +0000
Subject: [PATCH 92/97] fix: never descend into an empty branch of the sum tree

---
 reagent/replay_memory/sum_tree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reagent/replay_memory/sum_tree.py b/reagent/replay_memory/sum_tree.py
index f50afd0..dcd9d3e 100644
--- a/reagent/replay_memory/sum_tree.py
+++ b/reagent/replay_memory/sum_tree.py
@@ -116,7 +116,10 @@ class SumTree(object):
 
             left_sum = nodes_at_this_depth[left_child]
             # Each subtree describes a range [0, a), where a is its value.
-            if query_value < left_sum:  # Recurse into left subtree.
+            right_sum = nodes_at_this_depth[left_child + 1]
+            # A query at the very end of the range (1.0, or a rounding error below
+            # it) must not end in an empty right subtree.
+            if query_value < left_sum or right_sum <= 0.0:  # Recurse into left subtree.
                 node_index = left_child
             else:  # Recurse into right subtree.
                 node_index = left_child + 1
-- 
2.43.0


From 087576c6caecf021c456251d4a410531beb55e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:37 +0000
Subject: [PATCH 93/97] fix: toy VM environment declares the shape its
 documents have and uses a zero seed

---
 reagent/gym/envs/toy_vm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reagent/gym/envs/toy_vm.py b/reagent/gym/envs/toy_vm.py
index 54df69a..0304290 100644
--- a/reagent/gym/envs/toy_vm.py
+++ b/reagent/gym/envs/toy_vm.py
@@ -55,7 +55,7 @@ class ToyVMEnv(gym.Env):
                 "doc": gym.spaces.Dict(
                     {
                         str(k): gym.spaces.Box(
-                            low=0, high=1, shape=(self.slate_size, 3)
+                            low=0, high=1, shape=(3,)
                         )
                         for k in range(self.slate_size)
                     }
@@ -114,13 +114,13 @@ class ToyVM(EnvWrapper):
             ),
             zero_augment,
         )
-        if self.initial_seed:
+        if self.initial_seed is not None:
             env.seed(self.initial_seed)
         return env
 
     def action_extractor(self, actor_output):
         # Extract action from actor output
-        return actor_output.action.squeeze()
+        return actor_output.action.squeeze(0)
 
     def obs_preprocessor(self, obs):
         preprocessor = RecsimObsPreprocessor.create_from_env(self)
-- 
2.43.0


From 7233293d6b131744af3a9487e62779e990e7d999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:23 +0000
Subject: [PATCH 94/97] fix: OPE classifiers predict the labels they were
 trained on

---
 reagent/ope/trainers/linear_trainers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/reagent/ope/trainers/linear_trainers.py b/reagent/ope/trainers/linear_trainers.py
index 715dc7d..ef2e1c1 100644
--- a/reagent/ope/trainers/linear_trainers.py
+++ b/reagent/ope/trainers/linear_trainers.py
@@ -25,8 +25,12 @@ class LinearTrainer(Trainer):
                 proba = torch.as_tensor(
                     self._model.predict_proba(x), dtype=torch.float, device=device
                 )
-                score = (proba * torch.arange(proba.shape[1])).sum(dim=1)
-                return PredictResults(torch.argmax(proba, 1), score, proba)
+                # columns of proba follow the labels seen in training
+                labels = torch.as_tensor(
+                    self._model.classes_, dtype=torch.long, device=device
+                )
+                score = (proba * labels).sum(dim=1)
+                return PredictResults(labels[torch.argmax(proba, 1)], score, proba)
             elif hasattr(self._model, "predict"):
                 return PredictResults(
                     None,
-- 
2.43.0


From b920466b211086cebfe135b46a530bba9249413d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:23 +0000
Subject: [PATCH 95/97] fix: OPE neural network trainer scores its predictions

---
 reagent/ope/trainers/linear_trainers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/ope/trainers/linear_trainers.py b/reagent/ope/trainers/linear_trainers.py
index ef2e1c1..6118cb5 100644
--- a/reagent/ope/trainers/linear_trainers.py
+++ b/reagent/ope/trainers/linear_trainers.py
@@ -349,6 +349,8 @@ class NNTrainer(Trainer):
     def score(self, x: Tensor, y: Tensor, weight: Optional[Tensor] = None) -> float:
         if self._loss_fn is not None:
             # pyre-fixme[29]: `Optional[torch.nn.MSELoss]` is not a function.
-            return self._loss_fn(y, x).item()
+            y_pred = self.predict(x).scores
+            y = torch.as_tensor(y, dtype=torch.float).reshape(y_pred.shape)
+            return self._loss_fn(y_pred, y.to(y_pred.device)).item()
         else:
             raise Exception("mode not trained")
-- 
2.43.0


From 44a6917a2d81de055b58fe0699e440af79e79ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:46 +0000
Subject: [PATCH 96/97] fix: loss reporter writes its epoch summary at that
 epoch

---
 reagent/training/loss_reporter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reagent/training/loss_reporter.py b/reagent/training/loss_reporter.py
index 458eb32..15306af 100644
--- a/reagent/training/loss_reporter.py
+++ b/reagent/training/loss_reporter.py
@@ -345,7 +345,9 @@ class LossReporter(object):
             ("Training/reward_loss", self.get_recent_reward_loss()),
             ("Training/imitator_loss", self.get_recent_imitator_loss()),
         ]:
-            SummaryWriterContext.add_scalar(name, none_to_zero(value), epoch)
+            SummaryWriterContext.add_scalar(
+                name, none_to_zero(value), global_step=epoch
+            )
 
     @staticmethod
     def calculate_recent_window_average(arr, window_size, num_entries):
-- 
2.43.0


From ef88487343b4ba248d0f4a61e9fc40136e3f8817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:02 +0000
Subject: [PATCH 97/97] fix: REINFORCE and PPO name warm start components they
 have

---
 reagent/training/ppo_trainer.py | 5 ++++-
 reagent/training/reinforce.py   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/reagent/training/ppo_trainer.py b/reagent/training/ppo_trainer.py
index 67a80cb..99ace7b 100644
--- a/reagent/training/ppo_trainer.py
+++ b/reagent/training/ppo_trainer.py
@@ -176,4 +176,7 @@ class PPOTrainer(Trainer):
         """
         The trainer should specify what members to save and load
         """
-        return ["scorer", "policy"]
+        components = ["scorer"]
+        if self.value_net is not None:
+            components.append("value_net")
+        return components
diff --git a/reagent/training/reinforce.py b/reagent/training/reinforce.py
index 3ba0ae2..632ebf6 100644
--- a/reagent/training/reinforce.py
+++ b/reagent/training/reinforce.py
@@ -117,4 +117,7 @@ class Reinforce(Trainer):
         """
         The trainer should specify what members to save and load
         """
-        return ["scorer", "actor"]
+        components = ["scorer"]
+        if self.value_net is not None:
+            components.append("value_net")
+        return components
-- 
2.43.0

