From 348b3b914c6644cf7928379d0fe78cba8233b079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:28 +0000
Subject: [PATCH 01/32] fix: categorical GWG scores each chain's move with its
 own index only

---
 discs/samplers/gwg.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/discs/samplers/gwg.py b/discs/samplers/gwg.py
index 656201c..e657d80 100644
--- a/discs/samplers/gwg.py
+++ b/discs/samplers/gwg.py
@@ -163,11 +163,7 @@ class CategoricalGWGSampler(GibbsWithGradSampler):
     return y, {'x2y': idx, 'y2x': idx_y2x}
 
   def get_ll_onestep(self, dist, aux, src_to_dst):
-    ll = dist[
-        jnp.expand_dims(jnp.arange(dist.shape[0]), axis=1), aux[src_to_dst]
-    ]
-    ll = jnp.sum(ll, axis=-1)
-    return ll
+    return dist[jnp.arange(dist.shape[0]), aux[src_to_dst]]
 
 
 def build_sampler(config):
-- 
2.43.0


From d36d832c2f9793003a539b508be80ce76ec873ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:28 +0000
Subject: [PATCH 02/32] fix: PAFS fixed-length categorical proposal counts the
 drawn values in ll_x2y

---
 discs/samplers/path_auxiliary.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/discs/samplers/path_auxiliary.py b/discs/samplers/path_auxiliary.py
index 36307ac..0d1fdac 100644
--- a/discs/samplers/path_auxiliary.py
+++ b/discs/samplers/path_auxiliary.py
@@ -125,6 +125,7 @@ class PAFSNoReplacement(PathAuxiliarySampler):
         rng, _ = jax.random.split(rng)
         new_val = jax.random.categorical(rng, val_logprob)
         new_val = jax.nn.one_hot(new_val, self.num_categories)
+        ll_selected = ll_selected + jnp.sum(new_val * val_logprob, axis=-1)
       else:
         new_val = 1 - x[rows, selected_idx]
       y = x.at[rows, selected_idx].set(new_val)
-- 
2.43.0


From 9a151080412e864ab9a006035f1c7deb75d7fd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:28 +0000
Subject: [PATCH 03/32] fix: hamming ball draws its auxiliary point uniformly
 over the ball

---
 discs/samplers/hammingball.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/discs/samplers/hammingball.py b/discs/samplers/hammingball.py
index 464d45c..987adf7 100644
--- a/discs/samplers/hammingball.py
+++ b/discs/samplers/hammingball.py
@@ -29,7 +29,9 @@ class HammingBallSampler(abstractsampler.AbstractSampler):
           * (self.num_categories - 1) ** (j + 1)
           for j in range(self.hamming)
       ]
-    self.hamming_logit = jnp.array(self.hamming_logit + num_samples_per_hamming)
+    self.hamming_logit = jnp.log(
+        jnp.array(self.hamming_logit + num_samples_per_hamming)
+    )
     self.choose_index_vmapped = jax.vmap(self.choose_index, in_axes=[0, None])
 
   def choose_index(self, rng, arr):
-- 
2.43.0


From 8344fab5b84171991791e86845edb342a527bf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:20 +0000
Subject: [PATCH 04/32] fix: locally balanced sampler returns the full state
 and an acceptance value

---
 discs/samplers/locallybalanced.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/discs/samplers/locallybalanced.py b/discs/samplers/locallybalanced.py
index 22fe2e1..f022052 100644
--- a/discs/samplers/locallybalanced.py
+++ b/discs/samplers/locallybalanced.py
@@ -71,10 +71,10 @@ class LocallyBalancedSampler(abstractsampler.AbstractSampler):
     logits = self.apply_weight_function_logscale(logratio)
     sampled_idx = jax.random.categorical(rng, logits)
     new_x = fn_get_neighbor(model_param, x, sampled_idx)
-    new_state = {
-        'num_ll_calls': state['num_ll_calls'] + num_calls,
-    }
-    return new_x, new_state
+    new_state = utils.copy_pytree(state)
+    new_state['num_ll_calls'] += num_calls
+    new_state = self.update_sampler_state(new_state)
+    return new_x, new_state, 1
 
 
 def build_sampler(config):
-- 
2.43.0


From 43c1f91517e2ef1bd23d6817db30ebf860551416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:20 +0000
Subject: [PATCH 05/32] fix: random walk sampler counts its steps and declares
 its whole state

---
 discs/samplers/randomwalk.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discs/samplers/randomwalk.py b/discs/samplers/randomwalk.py
index 7d06d76..e6aeb0c 100644
--- a/discs/samplers/randomwalk.py
+++ b/discs/samplers/randomwalk.py
@@ -21,6 +21,7 @@ class RandomWalkSampler(abstractsampler.AbstractSampler):
     """Returns expected number of flips(hamming distance) and the number ."""
     state = super().make_init_state(rng)
     state['radius'] = jnp.ones(shape=(), dtype=jnp.float32)
+    state['acceptance_rate'] = jnp.zeros(shape=(), dtype=jnp.float32)
     return state
 
   def step(self, model, rng, x, model_param, state, x_mask=None):
@@ -55,6 +56,7 @@ class RWSampler(RandomWalkSampler):
       self, rng, log_acc, current_sample, new_sample, sampler_state
   ):
     y, acc = math.mh_step(rng, log_acc, current_sample, new_sample)
+    sampler_state = self.update_sampler_state(sampler_state)
     sampler_state['num_ll_calls'] += 2
     sampler_state['acceptance_rate'] = jnp.mean(acc.astype(jnp.float32))
     return y.astype(jnp.int32), sampler_state
-- 
2.43.0


From 601caf1522d5a4ae235097d8fdefc55a4dfb0b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:07 +0000
Subject: [PATCH 06/32] fix: path auxiliary categorical proposal draws values
 with a key of their own

---
 discs/samplers/path_auxiliary.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/discs/samplers/path_auxiliary.py b/discs/samplers/path_auxiliary.py
index 0d1fdac..9848cb0 100644
--- a/discs/samplers/path_auxiliary.py
+++ b/discs/samplers/path_auxiliary.py
@@ -103,14 +103,14 @@ class PAFSNoReplacement(PathAuxiliarySampler):
       log_prob = special.logsumexp(log_prob_all, axis=-1)
       log_prob_all = jax.nn.log_softmax(log_prob_all, axis=-1)
       x = jnp.reshape(x, log_prob_all.shape)
+    rng, rng_val = jax.random.split(rng)
     selected_idx, ll_selected = math.multinomial(
         rng, log_prob, num_samples, replacement=False, return_ll=True,
         is_nsample_const=not self.adaptive, need_ordering_info=True)
     if self.adaptive:
       mask = selected_idx['selected_mask']
       if self.num_categories > 2:
-        rng, _ = jax.random.split(rng)
-        new_val = jax.random.categorical(rng, log_prob_all)
+        new_val = jax.random.categorical(rng_val, log_prob_all)
         new_val = jax.nn.one_hot(new_val, self.num_categories)
         ll_val = jnp.sum(new_val * log_prob_all, axis=-1) * mask
         mask = jnp.expand_dims(mask, axis=-1)
@@ -122,8 +122,7 @@ class PAFSNoReplacement(PathAuxiliarySampler):
       rows = jnp.expand_dims(jnp.arange(x.shape[0]), axis=1)
       if self.num_categories > 2:
         val_logprob = log_prob_all[rows, selected_idx]
-        rng, _ = jax.random.split(rng)
-        new_val = jax.random.categorical(rng, val_logprob)
+        new_val = jax.random.categorical(rng_val, val_logprob)
         new_val = jax.nn.one_hot(new_val, self.num_categories)
         ll_selected = ll_selected + jnp.sum(new_val * val_logprob, axis=-1)
       else:
-- 
2.43.0


From 87d614d5b0aa71e97ab29bebb57e9a0075ce0750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:25 +0000
Subject: [PATCH 07/32] fix: Ising energy of integer samples does not truncate
 the messages

---
 discs/models/ising.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/ising.py b/discs/models/ising.py
index 2a7aa0e..229fe6e 100644
--- a/discs/models/ising.py
+++ b/discs/models/ising.py
@@ -48,7 +48,7 @@ class Ising(abstractmodel.AbstractModel):
     w_h = params[0][:, :-1]
     w_v = params[1][:-1, :]
     w_b = params[2]
-    message = jnp.zeros_like(x)
+    message = jnp.zeros(x.shape, dtype=params.dtype)
     message = message.at[:, :-1, :].set(
         message[:, :-1, :] + (2 * x[:, 1:, :] - 1) * w_v
     )
-- 
2.43.0


From 869ce17343df3015720612249eccf5e3eb0c33e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:25 +0000
Subject: [PATCH 08/32] fix: FHMM parameter generation draws every quantity
 with its own key

---
 discs/models/fhmm.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/discs/models/fhmm.py b/discs/models/fhmm.py
index 281ea16..d4029cf 100644
--- a/discs/models/fhmm.py
+++ b/discs/models/fhmm.py
@@ -50,11 +50,12 @@ class BinaryFHMM(FHMM):
 
   def sample_X(self, rng):
     x = jnp.ones([self.l, self.k])
-    x = x.at[0].set(jax.random.bernoulli(rng, p=x[0] * self.alpha))
+    rng, cur_rng = jax.random.split(rng)
+    x = x.at[0].set(jax.random.bernoulli(cur_rng, p=x[0] * self.alpha))
     for l in range(1, self.l):
-      rng, _ = jax.random.split(rng)
+      rng, cur_rng = jax.random.split(rng)
       p = self.beta * x[l - 1] + (1 - self.beta) * (1 - x[l - 1])
-      x = x.at[l].set(jax.random.bernoulli(rng, p))
+      x = x.at[l].set(jax.random.bernoulli(cur_rng, p))
     return x
 
   def sample_Y(self, rng, x, w, b):
@@ -112,8 +113,8 @@ class CategFHMM(FHMM):
 
   def make_init_params(self, rnd):
     rnd = rnd.reshape(-1)
-    rng1, rng2, rng3, rng4 = jax.random.split(rnd, 4)
-    alpha = jax.random.uniform(rng1, [self.num_categories])
+    rng0, rng1, rng2, rng3, rng4 = jax.random.split(rnd, 5)
+    alpha = jax.random.uniform(rng0, [self.num_categories])
     alpha = alpha.at[0].set(1 - self.alpha)
     alpha = alpha.at[1:].set(self.alpha * alpha[1:] / jnp.sum(alpha[1:]))
     alpha_logits = jnp.log(alpha)
@@ -131,15 +132,16 @@ class CategFHMM(FHMM):
 
   def sample_X(self, rng):
     x = jnp.ones([self.l, self.k, self.num_categories])
-    val = self.p_x0(rng, shape=(self.k,))
+    rng, cur_rng = jax.random.split(rng)
+    val = self.p_x0(cur_rng, shape=(self.k,))
     val = jax.nn.one_hot(val, self.num_categories)
     x = x.at[0].set(val)
     for l in range(1, self.l):
-      rng, _ = jax.random.split(rng)
+      rng, cur_rng = jax.random.split(rng)
       dist0 = functools.partial(
           jax.random.categorical, logits=jnp.log(x[l - 1] @ self.beta)
       )
-      val = dist0(rng, shape=(self.k,))
+      val = dist0(cur_rng, shape=(self.k,))
       val = jax.nn.one_hot(val, self.num_categories)
       x = x.at[l].set(val)
     return x
-- 
2.43.0


From 7c258a3809cfbad013811dd280c7a851448f3f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:25 +0000
Subject: [PATCH 09/32] fix: categorical FHMM recognises one-hot samples by
 size, not by the last dimension

---
 discs/models/fhmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/fhmm.py b/discs/models/fhmm.py
index d4029cf..fff05c0 100644
--- a/discs/models/fhmm.py
+++ b/discs/models/fhmm.py
@@ -165,7 +165,7 @@ class CategFHMM(FHMM):
     y = params['y']
     alpha = params['alpha']
 
-    if x.shape[-1] != self.num_categories:
+    if x.size == x.shape[0] * self.l * self.k:
       x = jax.nn.one_hot(x, self.num_categories)
     x = x.reshape(-1, self.l, self.k, self.num_categories)
     x_0 = x[:, 0]
-- 
2.43.0


From f0793beadc751921dee74218a355248acc4b45e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:25 +0000
Subject: [PATCH 10/32] fix: Bernoulli logratio_in_neighborhood follows the
 interface its callers use

---
 discs/models/bernoulli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discs/models/bernoulli.py b/discs/models/bernoulli.py
index 79ffe46..f322e16 100644
--- a/discs/models/bernoulli.py
+++ b/discs/models/bernoulli.py
@@ -46,7 +46,7 @@ class Bernoulli(abstractmodel.AbstractModel):
     (_, loglikelihood), grad = jax.value_and_grad(fun, has_aux=True)(x)
     return loglikelihood, grad
 
-  def get_neighbor_fn(self, x, neighbhor_idx):
+  def get_neighbor_fn(self, _, x, neighbhor_idx):
     x_shape = x.shape
     x = jnp.reshape(x, (x.shape[0], -1))
     brange = jnp.arange(x.shape[0])
@@ -55,10 +55,11 @@ class Bernoulli(abstractmodel.AbstractModel):
     return jnp.reshape(y, x_shape)
 
   def logratio_in_neighborhood(self, params, x):
+    loglikelihood = self.forward(params, x)
     params = params['params']
     params = jnp.expand_dims(params, axis=0)
     diff = (1 - 2 * x) * params
-    return diff, 1, self.get_neighbor_fn
+    return loglikelihood, diff, 1, self.get_neighbor_fn
 
   def get_expected_val(self, params):
     params = params['params']
-- 
2.43.0


From 7c045a2807a993ad08a48c0a1b21f56e7f60ddbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:25 +0000
Subject: [PATCH 11/32] fix: MIS logratio_in_neighborhood returns the energy
 and ignores padded edges

---
 discs/models/mis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/discs/models/mis.py b/discs/models/mis.py
index 24123c9..206f6aa 100644
--- a/discs/models/mis.py
+++ b/discs/models/mis.py
@@ -42,8 +42,9 @@ class MIS(comb_ebm.BinaryNodeCombEBM):
   def logratio_in_neighborhood(self, params, x):
     edge_from = params['bidir_edge_from']
     edge_to = params['bidir_edge_to']
+    edge_mask = jnp.concatenate((params['edge_mask'], params['edge_mask']))
 
-    gather2dst = x[:, edge_to]
+    gather2dst = x[:, edge_to] * edge_mask
     diff_penalty = self.penalty_coeff * gather2dst
     diff_arr = jnp.zeros(x.shape, dtype=diff_penalty.dtype)
     diff_arr = diff_arr.at[jnp.expand_dims(jnp.arange(x.shape[0]), axis=1),
@@ -52,7 +53,7 @@ class MIS(comb_ebm.BinaryNodeCombEBM):
     sign = (1 - x * 2) * params['mask']
     logratio = (sign - sign * diff_arr) / params['temperature']
     logratio = logratio * params['mask'] + -1e9 * (1 - params['mask'])
-    return logratio, 1, self.get_neighbor_fn
+    return self.forward(params, x), logratio, 1, self.get_neighbor_fn
 
 
 def build_model(config):
-- 
2.43.0


From 47f6d80b5d6c97fc8bed78ca33d83b35da658c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:25 +0000
Subject: [PATCH 12/32] fix: categorical RBM builds its uniform initial
 distribution with a shape tuple

---
 discs/models/rbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/rbm.py b/discs/models/rbm.py
index ce23179..d45fd27 100644
--- a/discs/models/rbm.py
+++ b/discs/models/rbm.py
@@ -194,7 +194,7 @@ class CategoricalRBM(RBM):
     if data_mean is None:
       return functools.partial(
           jax.random.categorical,
-          logits=jnp.log(jnp.ones(self.num_visible, self.num_categories)),
+          logits=jnp.log(jnp.ones((self.num_visible, self.num_categories))),
       )
     else:
       logits = jnp.log(data_mean)
-- 
2.43.0


From 21e53e3ad3c52d233d3b5fbf8c35b3580593eefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:25 +0000
Subject: [PATCH 13/32] fix: text infilling scores positions with the mask
 token actually set

---
 discs/models/text_infilling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/text_infilling.py b/discs/models/text_infilling.py
index ef769eb..c909a1a 100644
--- a/discs/models/text_infilling.py
+++ b/discs/models/text_infilling.py
@@ -122,7 +122,7 @@ class TextInfilling(abstractmodel.AbstractModel):
     x = jnp.where(x.shape[0] == len(self.infill_pos), jnp.array([x]), x)
 
     mask_dummy_array = jnp.zeros([1, self.num_categories])
-    mask_dummy_array = mask_dummy_array.at[1, self.mask_token].set(1.0)
+    mask_dummy_array = mask_dummy_array.at[0, self.mask_token].set(1.0)
     loglikelihood = 0.0
     for i in range(0, len(self.infill_pos)):
       x_new = x.at[:, i, :].set(mask_dummy_array)
-- 
2.43.0


From 9a5feecd2e165e619233ca6d3dc06202a1af7f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:25 +0000
Subject: [PATCH 14/32] fix: normcut node degrees are indexed by node and
 padded to the common size

---
 discs/graph_loader/normcut_loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/discs/graph_loader/normcut_loader.py b/discs/graph_loader/normcut_loader.py
index 9bea225..8765db8 100644
--- a/discs/graph_loader/normcut_loader.py
+++ b/discs/graph_loader/normcut_loader.py
@@ -26,7 +26,10 @@ class NormCutGen(data_common.GraphGenerator):
     )
     num_nodes = len(g)
     params['num_nodes'] = num_nodes
-    params['node_degrees'] = np.array(g.degree)[:, 1].astype(np.float32)
+    node_degrees = np.zeros((self.max_num_nodes,), dtype=np.float32)
+    for node, degree in g.degree:
+      node_degrees[node] = degree
+    params['node_degrees'] = node_degrees
     params['mask'] = np.arange(self.max_num_nodes) < num_nodes
     return params
 
-- 
2.43.0


From 23042fffcc8b5dc4fa7c900e3b52f12ef5f6c962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:16 +0000
Subject: [PATCH 15/32] fix: categorical RBM initialises its network on one-hot
 samples

---
 discs/models/rbm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/discs/models/rbm.py b/discs/models/rbm.py
index d45fd27..6aa18e6 100644
--- a/discs/models/rbm.py
+++ b/discs/models/rbm.py
@@ -130,6 +130,8 @@ class RBM(deep_ebm.DeepEBM):
       return self.params
     model_rng, sample_rng = jax.random.split(rng)
     v = self.get_init_samples(sample_rng, 1)
+    if self.num_categories != 2:
+      v = jax.nn.one_hot(v, self.num_categories)
     return self.net.init({'params': model_rng}, v=v)['params']
 
   def forward(self, params, x):
-- 
2.43.0


From 7d3d4b1030148dfe2051ed1c300a170f8cadc51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:36 +0000
Subject: [PATCH 16/32] fix: categorical FHMM transition matrix has rows that
 sum to one

---
 discs/models/fhmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/models/fhmm.py b/discs/models/fhmm.py
index fff05c0..f7df980 100644
--- a/discs/models/fhmm.py
+++ b/discs/models/fhmm.py
@@ -98,7 +98,7 @@ class CategFHMM(FHMM):
     beta = jnp.eye(self.num_categories) * (
         self.beta - (1 - self.beta) / (self.num_categories - 1)
     )
-    beta += (1 - beta) / (self.num_categories - 1)
+    beta += (1 - self.beta) / (self.num_categories - 1)
     self.beta = beta
     self.log_beta = jnp.log(beta)
 
-- 
2.43.0


From 43322dbbf5a4ca53a921fe76da64d3b581118755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:40 +0000
Subject: [PATCH 17/32] fix: normcut neighbourhood log ratios include the
 balance penalty

---
 discs/models/normcut.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/discs/models/normcut.py b/discs/models/normcut.py
index d94e908..d351428 100644
--- a/discs/models/normcut.py
+++ b/discs/models/normcut.py
@@ -54,6 +54,15 @@ class NormCut(comb_ebm.CombEBM):
     cut_sizes = jnp.sum(-edge_sum ** 2 + 2 * edge_sum, axis=1)
     return cut_sizes
 
+  def get_balance_cost(self, partition_sizes):
+    if self.stype == 'quad':
+      return jnp.sum((partition_sizes - self.avg_partition_size) ** 2, -1)
+    ub_cost = jax.nn.relu(
+        partition_sizes - self.avg_partition_size - self.tolerance) ** 2
+    lb_cost = jax.nn.relu(
+        self.avg_partition_size - self.tolerance - partition_sizes) ** 2
+    return jnp.sum(ub_cost + lb_cost, axis=-1)
+
   def objective(self, params, x):
     if x.ndim < 3:
       x = jax.nn.one_hot(x, self.num_categories, dtype=jnp.float32)
@@ -61,14 +70,7 @@ class NormCut(comb_ebm.CombEBM):
 
     if self.penalty > 0:
       partition_sizes = jnp.sum(x, axis=1)
-      if self.stype == 'quad':
-        ncost = jnp.sum((partition_sizes - self.avg_partition_size) ** 2, -1)
-      else:
-        ub_cost = jax.nn.relu(
-            partition_sizes - self.avg_partition_size - self.tolerance) ** 2
-        lb_cost = jax.nn.relu(
-            self.avg_partition_size - self.tolerance - partition_sizes) ** 2
-        ncost = jnp.sum(ub_cost + lb_cost, axis=-1)
+      ncost = self.get_balance_cost(partition_sizes)
       cost = jnp.sum(cut_sizes, axis=-1) + self.penalty * ncost
     else:
       volume = jnp.sum(x * jnp.expand_dims(params['node_degrees'], 1), axis=1)
@@ -105,6 +107,19 @@ class NormCut(comb_ebm.CombEBM):
                            jnp.arange(self.num_categories)].add(edge_delta)
     new_cut_sizes = jnp.expand_dims(cur_cut_sizes, (1, 2)) + diff_arr
 
+    if self.penalty > 0:
+      cur_sizes = jnp.sum(x, axis=1)
+      new_sizes = jnp.expand_dims(cur_sizes, (1, 2)) + (
+          new_choices - jnp.expand_dims(x, axis=-2))
+      new_cost = jnp.sum(new_cut_sizes, axis=-1) + (
+          self.penalty * self.get_balance_cost(new_sizes))
+      cur_cost = jnp.sum(cur_cut_sizes, axis=-1) + (
+          self.penalty * self.get_balance_cost(cur_sizes))
+      cur_obj = -cur_cost / params['temperature']
+      log_ratio = (-new_cost / params['temperature']
+                   - jnp.expand_dims(cur_obj, axis=(1, 2)))
+      return cur_obj, log_ratio, 1, None
+
     diff_volume = (new_choices - jnp.expand_dims(x, axis=-2)) * jnp.expand_dims(
         node_degrees, axis=-1)
     cur_volume = jnp.sum(x * node_degrees, axis=1)
-- 
2.43.0


From 00bfd5df8db696509ff6369fa04bd87460e94713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:37 +0000
Subject: [PATCH 18/32] fix: experiments use the random seed they are given

---
 discs/experiment/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 9976209..8c20c65 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -188,7 +188,7 @@ class Experiment:
   ):
     """Sets up the model and the samlping alg and gets the chain of samples."""
     preprocessed_info = self.preprocess(
-        model, sampler, evaluator, saver, rnd_key=0
+        model, sampler, evaluator, saver, rnd_key=rnd_key
     )
     if not preprocessed_info:
       return False
@@ -377,7 +377,7 @@ class Text_Infilling_Experiment(Sampling_Experiment):
       self, model, sampler, evaluator, saver, rnd_key=0
   ):
     preprocessed_info = self.preprocess(
-        model, sampler, evaluator, saver, rnd_key=0
+        model, sampler, evaluator, saver, rnd_key=rnd_key
     )
     if not preprocessed_info:
       return False, None, None
-- 
2.43.0


From c1472fb48993cfa6939685b69acb89a351a08eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:37 +0000
Subject: [PATCH 19/32] fix: chain selection no longer replaces the random key
 of the run

---
 discs/experiment/sampling.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 8c20c65..f050052 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -229,9 +229,8 @@ class Sampling_Experiment(Experiment):
     x0_ess = model.get_init_samples(rng_x0_ess, 1)
     stp_burnin, stp_mixing, get_hop, obj_fn, _ = compiled_fns
     get_mapped_samples, eval_metric = self._compile_additional_fns(evaluator)
-    rng = jax.random.PRNGKey(10)
     selected_chains = jax.random.choice(
-        rng,
+        jax.random.PRNGKey(10),
         jnp.arange(self.config.batch_size),
         shape=(self.num_saved_samples,),
         replace=False,
-- 
2.43.0


From 5155fcac55872304f5b412d7b0b9ab73b0d51b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:37 +0000
Subject: [PATCH 20/32] fix: text infilling strips the whole resample prefix
 from its sentences

---
 discs/experiment/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index f050052..34199d2 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -401,9 +401,9 @@ class Text_Infilling_Experiment(Sampling_Experiment):
       }
       topk_sentences = list(sorted_sent.keys())[-self.config.topk_num :]
       for i, sent in enumerate(topk_sentences):
-        topk_sentences[i] = sent[2:]
+        topk_sentences[i] = sent.split(' ', 1)[1]
       for i, sent in enumerate(sentences):
-        sentences[i] = sent[2:]
+        sentences[i] = sent.split(' ', 1)[1]
 
     return True, sentences, topk_sentences
 
-- 
2.43.0


From d2de419fd7cd6da5f05340a8cc53f1af5c1f9c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:37 +0000
Subject: [PATCH 21/32] fix: text infilling evaluates its sentences outside of
 jit

---
 discs/experiment/sampling.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 34199d2..295d21c 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -349,7 +349,6 @@ class Text_Infilling_Experiment(Sampling_Experiment):
   """Class used to sample sentences for text infilling."""
 
   def get_results(self, model, sampler, evaluator, saver):
-    obj_fn = jax.jit(evaluator.evaluate)
     infill_sents = []
     infill_sents_topk = []
     rnd_key = 0
@@ -363,7 +362,7 @@ class Text_Infilling_Experiment(Sampling_Experiment):
       infill_sents.extend(sents)
       if self.config.use_topk:
         infill_sents_topk.extend(sents_topk)
-    res = obj_fn(infill_sents, self.config_model.data_root)
+    res = evaluator.evaluate(infill_sents, self.config_model.data_root)
     if self.config.use_topk:
       res_topk = evaluator.evaluate(
           infill_sents_topk, self.config_model.data_root
-- 
2.43.0


From 1604938aab4273e03b5900002a3b381478dfac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:37 +0000
Subject: [PATCH 22/32] fix: sample indices stay one per model when chains are
 spread over devices

---
 discs/experiment/sampling.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 295d21c..c8bfc67 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -55,11 +55,6 @@ class Experiment:
         bshape = (jax.local_device_count(),)
         x_shape = bshape + (mini_batch,) + self.config_model.shape
         use_put_replicated = True
-        if self.sample_idx:
-          self.sample_idx = jnp.array(
-              [self.sample_idx]
-              * (jax.local_device_count() // self.config.num_models)
-          )
       else:
         reshape_all = False
         bshape = ()
@@ -81,11 +76,6 @@ class Experiment:
           use_put_replicated = True
           bshape = (jax.local_device_count(), self.config.num_models)
           x_shape = bshape + (batch_size_per_device,) + self.config_model.shape
-          if self.sample_idx:
-            self.sample_idx = jnp.array(
-                [self.sample_idx]
-                * (jax.local_device_count() // self.config.num_models)
-            )
       else:
         bshape = (self.config.num_models,)
         x_shape = bshape + (self.config.batch_size,) + self.config_model.shape
-- 
2.43.0


From d893582537dc685ef16d9f2f5cc11cce6bda0a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:37 +0000
Subject: [PATCH 23/32] fix: estimation error saves the parameters of the
 single model

---
 discs/experiment/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index c8bfc67..0bf5cd1 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -303,7 +303,7 @@ class Sampling_Experiment(Experiment):
       ):
         saver.dump_samples(samples, visualize=False)
         # samples= np.array(samples)
-        params = params['params'][0].reshape(self.config_model.shape)
+        params = params['params'].reshape((-1,) + self.config_model.shape)[0]
         saver.dump_params(params)
         # saver.plot_estimation_error(model, params, samples)
 
-- 
2.43.0


From 2388015eb37994cbdca4b912eb6c30b2c918e35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:37 +0000
Subject: [PATCH 24/32] fix: results are labelled adaptive only when the
 sampler adapts

---
 discs/common/experiment_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/common/experiment_saver.py b/discs/common/experiment_saver.py
index ea7c0d2..2d4a9be 100644
--- a/discs/common/experiment_saver.py
+++ b/discs/common/experiment_saver.py
@@ -53,7 +53,7 @@ class Saver:
 
     results = {}
     results['sampler'] = self.config.sampler.name
-    if 'adaptive' in self.config.sampler.keys():
+    if self.config.sampler.get('adaptive', False):
       results['sampler'] = f'a_{self.config.sampler.name}'
 
     if 'solver' in self.config.sampler.keys():
-- 
2.43.0


From fd4a96dac5bbee001df061d6d6aca5c8e0c749b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:37 +0000
Subject: [PATCH 25/32] fix: sample images are written to the save directory

---
 discs/common/experiment_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/common/experiment_saver.py b/discs/common/experiment_saver.py
index 2d4a9be..aa67f1b 100644
--- a/discs/common/experiment_saver.py
+++ b/discs/common/experiment_saver.py
@@ -114,7 +114,7 @@ class Saver:
         for chain in range(samples.shape[0]):
           img = samples[chain]
           image_path = os.path.join(
-              root_path, f'sample_{step}_of_chain_{chain}.jpeg'
+              self.save_dir, f'sample_{step}_of_chain_{chain}.jpeg'
           )
           plt.imsave(image_path, np.array(img), cmap=cm.gray)
 
-- 
2.43.0


From f7914a3438d55af99a0d3d91a4c016f8f6185b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:00 +0000
Subject: [PATCH 26/32] fix: combinatorial runs use a fresh key for every batch
 of instances

---
 discs/experiment/sampling.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 0bf5cd1..267f2e1 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -467,9 +467,11 @@ class CO_Experiment(Experiment):
   """Class used to run annealing schedule for CO problems."""
 
   def get_results(self, model, sampler, evaluator, saver):
-    while True:
-      if not self._get_chains_and_evaluations(model, sampler, evaluator, saver):
-        break
+    rnd_key = 0
+    while self._get_chains_and_evaluations(
+        model, sampler, evaluator, saver, rnd_key=rnd_key
+    ):
+      rnd_key += 1
 
   def _initialize_model_and_sampler(self, rnd, model, sampler):
     data_list, x0, state = super()._initialize_model_and_sampler(
-- 
2.43.0


From 95ed78a051b4b37c34070e59e1c11dd80957f090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:00 +0000
Subject: [PATCH 27/32] fix: combinatorial results file keeps all batches of
 instances

---
 discs/common/experiment_saver.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/discs/common/experiment_saver.py b/discs/common/experiment_saver.py
index aa67f1b..5356c32 100644
--- a/discs/common/experiment_saver.py
+++ b/discs/common/experiment_saver.py
@@ -18,6 +18,7 @@ class Saver:
   def __init__(self, config: ml_collections.ConfigDict):
     self.config = config
     self.save_dir = config.experiment.save_root
+    self.co_batches = []
     if not os.path.isdir(self.save_dir):
       os.makedirs(self.save_dir)
 
@@ -119,13 +120,21 @@ class Saver:
           plt.imsave(image_path, np.array(img), cmap=cm.gray)
 
   def save_co_resuts(self, trajectory, best_ratio, running_time, best_samples):
+    # Called once per batch of instances: the results cover all batches so far.
+    self.co_batches.append((
+        np.array(trajectory),
+        np.array(best_ratio),
+        running_time,
+        np.array(best_samples),
+    ))
+    trajectories, ratios, times, samples = zip(*self.co_batches)
     results = {}
-    results['trajectory'] = np.array(trajectory)
-    results['best_ratio'] = np.array(best_ratio)
-    results['running_time'] = running_time
-    results['best_ratio_mean'] = np.mean(np.array(best_ratio))
+    results['trajectory'] = np.concatenate(trajectories, axis=-1)
+    results['best_ratio'] = np.concatenate(ratios)
+    results['running_time'] = sum(times)
+    results['best_ratio_mean'] = np.mean(results['best_ratio'])
     if len(best_samples) != 0:
-      results['best_samples'] = np.array(best_samples)
+      results['best_samples'] = np.concatenate(samples)
     self._dump_dict(results, 'results')
 
   def dump_params(self, params):
-- 
2.43.0


From 473f60035b7f3c0ab0676866e46b132961bb8d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:37 +0000
Subject: [PATCH 28/32] fix: combinatorial results keep instances apart when
 devices outnumber them

---
 discs/experiment/sampling.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/discs/experiment/sampling.py b/discs/experiment/sampling.py
index 267f2e1..780c486 100644
--- a/discs/experiment/sampling.py
+++ b/discs/experiment/sampling.py
@@ -491,6 +491,16 @@ class CO_Experiment(Experiment):
     obj_fn = jax.vmap(functools.partial(evaluator.evaluate, model=model))
     return obj_fn
 
+  def _group_by_model(self, values):
+    """Brings values of all chains to shape (num_models, batch_size, ...)."""
+    if self.parallel and self.config.num_models < jax.local_device_count():
+      # (devices, models, chains): the chains of a model span the devices.
+      values = jnp.swapaxes(values, 0, 1)
+    tail = values.shape[3 if self.parallel else 2 :]
+    return values.reshape(
+        (self.config.num_models, self.config.batch_size) + tail
+    )
+
   def _build_temperature_schedule(self, config):
     """Temperature schedule."""
 
@@ -557,7 +567,7 @@ class CO_Experiment(Experiment):
 
       if step % self.config.log_every_steps == 0:
         eval_val = obj_fn(samples=new_x, params=params)
-        eval_val = eval_val.reshape(self.config.num_models, -1)
+        eval_val = self._group_by_model(eval_val)
         ratio = jnp.max(eval_val, axis=-1).reshape(-1) / self.ref_obj
         is_better = ratio > best_ratio
         best_ratio = jnp.maximum(ratio, best_ratio)
@@ -569,11 +579,7 @@ class CO_Experiment(Experiment):
 
         if self.config.save_samples or self.config_model.name == 'normcut':
           step_chosen = jnp.argmax(eval_val, axis=-1, keepdims=True)
-          rnew_x = jnp.reshape(
-              new_x,
-              (self.config.num_models, self.config.batch_size)
-              + self.config_model.shape,
-          )
+          rnew_x = self._group_by_model(new_x)
           chosen_samples = jnp.take_along_axis(
               rnew_x, jnp.expand_dims(step_chosen, -1), axis=-2
           )
@@ -606,7 +612,7 @@ class CO_Experiment(Experiment):
       running_time += time.time() - start
       if step % self.config.log_every_steps == 0:
         eval_val = obj_fn(samples=new_x, params=params)
-        eval_val = eval_val.reshape(self.config.num_models, -1)
+        eval_val = self._group_by_model(eval_val)
         ratio = jnp.max(eval_val, axis=-1).reshape(-1) / self.ref_obj
         is_better = ratio > best_ratio
         best_ratio = jnp.maximum(ratio, best_ratio)
@@ -618,11 +624,7 @@ class CO_Experiment(Experiment):
 
         if self.config.save_samples or self.config_model.name == 'normcut':
           step_chosen = jnp.argmax(eval_val, axis=-1, keepdims=True)
-          rnew_x = jnp.reshape(
-              new_x,
-              (self.config.num_models, self.config.batch_size)
-              + self.config_model.shape,
-          )
+          rnew_x = self._group_by_model(new_x)
           chosen_samples = jnp.take_along_axis(
               rnew_x, jnp.expand_dims(step_chosen, -1), axis=-2
           )
-- 
2.43.0


From 8258987dd37826450c6212059e0552a2fa522e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:43 +0000
Subject: [PATCH 29/32] fix: optsicom sweep only overrides settings of its
 experiment config

---
 discs/run_configs/co/maxcut/optsicom_sampler_sweep.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/discs/run_configs/co/maxcut/optsicom_sampler_sweep.py b/discs/run_configs/co/maxcut/optsicom_sampler_sweep.py
index e66ae1a..b7d96e1 100644
--- a/discs/run_configs/co/maxcut/optsicom_sampler_sweep.py
+++ b/discs/run_configs/co/maxcut/optsicom_sampler_sweep.py
@@ -20,11 +20,9 @@ def get_config():
                       'r-b',
                   ],
                   'config.experiment.log_every_steps': [100],
-                  'config.experiment.num_models': [10],
                   'config.experiment.batch_size': [16],
               },
               {
-                  'config.experiment.num_models': [10],
                   'config.experiment.batch_size': [16], 
                   'sampler_config.name': [
                       'dmala',
@@ -39,7 +37,6 @@ def get_config():
                   ],
               },
               {
-                  'config.experiment.num_models': [10],
                   'config.experiment.batch_size': [16], 
                   'sampler_config.name': [
                       'gwg',
@@ -54,7 +51,6 @@ def get_config():
                   'sampler_config.adaptive': [False],
               },
               {
-                  'config.experiment.num_models': [10],
                   'config.experiment.batch_size': [16], 
                   'sampler_config.name': [
                       'dlmc',
-- 
2.43.0


From b3b2d21565ae6a03466e13efcdbdd465b214123a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:18 +0000
Subject: [PATCH 30/32] fix: results of single-device runs are read without
 losing digits

---
 discs/plot_results/plot_results.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/discs/plot_results/plot_results.py b/discs/plot_results/plot_results.py
index ba7a051..1abf4e4 100644
--- a/discs/plot_results/plot_results.py
+++ b/discs/plot_results/plot_results.py
@@ -370,7 +370,8 @@ def save_result_as_csv(all_mapped_names, dir_name):
         writer.writerow(data)
 
 def extract_floats(string_of_numbers):
-  string_of_numbers = string_of_numbers[2:-2].strip()
+  # One pair of brackets, or two if the chains were spread over devices.
+  string_of_numbers = string_of_numbers.strip('[ ]')
   gap = string_of_numbers.find(' ')
   f1 = float(string_of_numbers[0:gap])
   f2 = float(string_of_numbers[gap + 1 :])
-- 
2.43.0


From 8fb06981516aedcd5718cb013408fb49cdc59297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:18 +0000
Subject: [PATCH 31/32] fix: training programs import the plotting module where
 it is

---
 discs/learning/binary_ebm/main_binary_training.py | 2 +-
 discs/learning/rbm/main_rbm_training.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discs/learning/binary_ebm/main_binary_training.py b/discs/learning/binary_ebm/main_binary_training.py
index 3219d7a..a713f49 100644
--- a/discs/learning/binary_ebm/main_binary_training.py
+++ b/discs/learning/binary_ebm/main_binary_training.py
@@ -9,7 +9,7 @@ from flax import jax_utils
 from flax.core.frozen_dict import unfreeze
 
 from discs.common import data_loader
-from discs.common import plot
+from discs.plot_results import plot
 from discs.common import utils
 from discs.learning import replay_buffer
 from discs.learning import train
diff --git a/discs/learning/rbm/main_rbm_training.py b/discs/learning/rbm/main_rbm_training.py
index dc42db2..c72595b 100644
--- a/discs/learning/rbm/main_rbm_training.py
+++ b/discs/learning/rbm/main_rbm_training.py
@@ -8,7 +8,7 @@ from absl import flags
 
 from discs.common import data_loader
 from discs.common import utils
-from discs.common import plot
+from discs.plot_results import plot
 from discs.learning import train
 from discs.models import rbm
 from discs.samplers.blockgibbs import RBMBlockGibbsSampler
-- 
2.43.0


From 544c3dd387e8a6ca611bc2be9ac84b43e9536e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:54 +0000
Subject: [PATCH 32/32] fix: estimation error plot passes the lists of runs its
 evaluator expects

---
 discs/common/experiment_saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discs/common/experiment_saver.py b/discs/common/experiment_saver.py
index 5356c32..4424a06 100644
--- a/discs/common/experiment_saver.py
+++ b/discs/common/experiment_saver.py
@@ -93,7 +93,7 @@ class Saver:
   def plot_estimation_error(self, model, params, samples):
     ber_eval = b_eval.build_evaluator(self.config)
     ber_eval.plot_mixing_time_graph_over_chain(
-        self.save_dir, model, params, samples
+        self.save_dir, model, [params], [samples], [self.config.sampler.name]
     )
 
   def save_results(self, acc_ratio, hops, metrcis, running_time):
-- 
2.43.0

