From 4abbf722dd6fb07681f83220163abc55fb42062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 01/16] fix: forward sample_prepend through boxed and shared
 samplers

The wrappers inherited the no-op default, so a chain (which stores boxed
samplers) never delivered sample_prepend to anything.
---
 src/configure/building.rs |  4 ++++
 src/types.rs              | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/configure/building.rs b/src/configure/building.rs
index da45e69..5e5e987 100644
--- a/src/configure/building.rs
+++ b/src/configure/building.rs
@@ -40,6 +40,10 @@ where
 }
 
 impl<UI, F> Sampler for Box<dyn BuildableSampler<UI, F>> {
+    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
+        (**self).sample_prepend(res)
+    }
+
     fn sampled_token_id(&self) -> Option<TID> {
         (**self).sampled_token_id()
     }
diff --git a/src/types.rs b/src/types.rs
index 69c3df6..0396812 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -315,6 +315,10 @@ pub trait Sampler: Debug + Send + Sync {
 }
 
 impl Sampler for Box<dyn Sampler> {
+    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
+        (**self).sample_prepend(res)
+    }
+
     fn sampled_token_id(&self) -> Option<TID> {
         (**self).sampled_token_id()
     }
@@ -337,6 +341,12 @@ impl Sampler for Box<dyn Sampler> {
 }
 
 impl Sampler for Arc<Mutex<dyn Sampler>> {
+    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
+        if let Ok(sampler) = self.lock() {
+            sampler.sample_prepend(res)
+        }
+    }
+
     fn sampled_token_id(&self) -> Option<TID> {
         self.lock().ok()?.sampled_token_id()
     }
-- 
2.43.0


From 08f196bc1496f50a488e4388745934f628b1865f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 02/16] fix: tail free sampling of exactly two logits is not an
 error

Two logits have no second derivative, so there is nothing to cut.
---
 src/samplers/tail_free.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/tail_free.rs b/src/samplers/tail_free.rs
index 230c56a..7abcb95 100644
--- a/src/samplers/tail_free.rs
+++ b/src/samplers/tail_free.rs
@@ -54,7 +54,7 @@ impl Sampler for SampleTailFree {
 
         let Self { z, min_keep } = *self;
 
-        if z >= 1f32 || logits.len() < 2 {
+        if z >= 1f32 || logits.len() <= 2 {
             return Ok(logits);
         }
 
-- 
2.43.0


From 63daeead11e29f76f896b536a220afd3333c551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 03/16] fix: locally typical sampling with zero probability
 tokens

A banned (-inf) or underflowed token made the entropy NaN and the sampler
fail with "Impossible: logit comparison failed?".
---
 src/samplers/locally_typical.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/samplers/locally_typical.rs b/src/samplers/locally_typical.rs
index df0ef2c..87473a1 100644
--- a/src/samplers/locally_typical.rs
+++ b/src/samplers/locally_typical.rs
@@ -67,8 +67,11 @@ impl Sampler for SampleLocallyTypical {
             ))
         })?;
 
+        // Zero probability tokens do not contribute to the entropy (the limit of
+        // `p * ln(p)` is 0, but `0 * ln(0)` is NaN).
         let ent = logits
             .iter()
+            .filter(|l| l.prob != 0f32)
             .fold(0f32, |ent, l| ent + -l.prob * l.prob.ln());
 
         let mut shifted = logits
-- 
2.43.0


From 563b2196e0d5b9679a3c11286f8c02407994ef2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 04/16] fix: mirostat v2 keeps every token when none exceeds mu

When no token's surprise was above mu the list was cut to one token instead
of being left alone.
---
 src/samplers/mirostat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/mirostat.rs b/src/samplers/mirostat.rs
index ae78bf2..764a625 100644
--- a/src/samplers/mirostat.rs
+++ b/src/samplers/mirostat.rs
@@ -326,7 +326,7 @@ impl Sampler for SampleMirostat2 {
             .iter()
             .enumerate()
             .find_map(|(idx, l)| (-l.prob.log2() > mu).then_some(idx))
-            .unwrap_or_default()
+            .unwrap_or(logits.len())
             .max(1);
         if new_size != logits.len() {
             logits.truncate(new_size);
-- 
2.43.0


From b156b7d53442f7035912395266289a3845a49c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 05/16] fix: mirostat v1 k estimate follows the referenced
 paper

The Zipf exponent is estimated from log probability ratios, and
k = (eps * 2^mu / (1 - N^-eps))^(1/s). The logarithm and the parentheses were
missing and 2^mu was written as mu^2, so flat distributions were cut to one
token.
---
 src/samplers/mirostat.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/samplers/mirostat.rs b/src/samplers/mirostat.rs
index 764a625..8619d83 100644
--- a/src/samplers/mirostat.rs
+++ b/src/samplers/mirostat.rs
@@ -134,7 +134,7 @@ impl Sampler for SampleMirostat1 {
                 .take((m - 1).min(logits.len() - 1))
                 .fold((0f32, 0f32), |(sum_ti_bi, sum_ti_sq), (l, l_next)| {
                     let t_i = ((idx + 2f32) / (idx + 1f32)).ln();
-                    let b_i = l.prob / l_next.prob;
+                    let b_i = (l.prob / l_next.prob).ln();
                     let result = (sum_ti_bi + t_i * b_i, sum_ti_sq + t_i * t_i);
                     idx += 1f32;
                     result
@@ -142,8 +142,8 @@ impl Sampler for SampleMirostat1 {
         };
         let s_hat = sum_ti_bi / sum_ti_sq;
         let epsilon_hat = s_hat - 1f32;
-        let k =
-            (epsilon_hat * mu.powf(2f32) / 1f32 - n_vocab.powf(-epsilon_hat)).powf(1f32 / s_hat);
+        let k = (epsilon_hat * 2f32.powf(mu) / (1f32 - n_vocab.powf(-epsilon_hat)))
+            .powf(1f32 / s_hat);
         logits.sample(res, &mut SampleTopK::new(k.as_(), 1))?;
 
         if let Some(tid) = self.rd_sampler.sample_token(res, logits)? {
-- 
2.43.0


From c092f3d92e14298651319ad1554115cdc8f942aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 06/16] fix: an option's full name is not an ambiguous key

Mirostat v1's "m" is a prefix of "mu", which made the option unreachable.
---
 src/configure/metadata.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/configure/metadata.rs b/src/configure/metadata.rs
index dfdf698..b47b7ce 100644
--- a/src/configure/metadata.rs
+++ b/src/configure/metadata.rs
@@ -71,6 +71,17 @@ impl<T> SamplerOptions<T> {
         key: &str,
     ) -> Result<(SamplerOptionMetadata, Option<usize>)> {
         let key = key.trim();
+
+        // An exact match is never ambiguous, even when it is also a prefix of
+        // another option's name.
+        if let Some((idx, (omd, acc))) = self
+            .iter()
+            .enumerate()
+            .find(|(_idx, (omd, _acc))| omd.key == key)
+        {
+            return Ok((omd.clone(), acc.is_some().then_some(idx)));
+        }
+
         let mut it = self.iter().enumerate().filter(|&(_idx, (omd, _acc))| omd.key
                 .starts_with(key)).map(|(idx, (omd, acc))| (omd.clone(), acc.is_some().then_some(idx)));
         let Some((optdef, optidx)) = it.next() else {
-- 
2.43.0


From b32e52284abd884a8c8790bb50ac2064b9d12caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 07/16] fix: negative temperature invalidates sorted order

---
 src/samplers/temperature.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/samplers/temperature.rs b/src/samplers/temperature.rs
index f2f1127..6e6b622 100644
--- a/src/samplers/temperature.rs
+++ b/src/samplers/temperature.rs
@@ -42,6 +42,10 @@ impl Sampler for SampleTemperature {
         if temp != 0f32 {
             logits.iter_mut().for_each(|l| l.logit /= temp);
             logits.set_softmax(false);
+            if temp < 0f32 {
+                // Dividing by a negative value reverses the order.
+                logits.set_sorted(false);
+            }
         }
         Ok(logits)
     }
-- 
2.43.0


From 46dd1aafb272f963513a84d10df375e1f0f28c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 08/16] fix: report NaN logits as an error instead of panicking
 in sort

The comparison fallback was not a total order, which slice::sort_by may
answer with a panic before the error is reported.
---
 src/samplers/locally_typical.rs | 5 ++---
 src/types.rs                    | 3 ++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/samplers/locally_typical.rs b/src/samplers/locally_typical.rs
index 87473a1..00bf572 100644
--- a/src/samplers/locally_typical.rs
+++ b/src/samplers/locally_typical.rs
@@ -1,5 +1,3 @@
-use std::cmp::Ordering;
-
 use crate::{configure::*, types::*};
 
 // FIXME: Complete documentation.
@@ -85,7 +83,8 @@ impl Sampler for SampleLocallyTypical {
                     sort_err = Err(SamplerError::InternalError(String::from(
                         "Impossible: logit comparison failed?",
                     )));
-                    Ordering::Less
+                    // Sorting may panic unless this is a total order.
+                    a.1.total_cmp(&b.1)
                 })
             });
             sort_err?;
diff --git a/src/types.rs b/src/types.rs
index 0396812..5ea10df 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -236,7 +236,8 @@ impl Logits {
                 sort_err = Err(LogitsError::InternalError(String::from(
                     "Impossible: logit comparison failed?",
                 )));
-                std::cmp::Ordering::Less
+                // Sorting may panic unless this is a total order.
+                b.logit.total_cmp(&a.logit)
             })
         });
         sort_err?;
-- 
2.43.0


From 0fdc892bc729b1747444b170a27dcb3109a0054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 09/16] fix: try_from_iter_top_k does not allocate k entries up
 front

A k larger than the input (such as usize::MAX to keep everything) panicked
with a capacity overflow or aborted.
---
 src/types.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 5ea10df..4c53d55 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -163,6 +163,8 @@ impl Logits {
         if k == 0 {
             return Ok(Self::default());
         }
+        let it = it.into_iter();
+        let capacity = k.min(it.size_hint().0);
 
         Ok(Logits {
             sorted: true,
@@ -170,7 +172,7 @@ impl Logits {
             logits: (0u32..)
                 .zip(it)
                 .filter(|(_tid, logit)| logit.is_finite())
-                .fold(Vec::with_capacity(k), |mut logits, (tid, logit)| {
+                .fold(Vec::with_capacity(capacity), |mut logits, (tid, logit)| {
                     if logits.len() == k {
                         // The Vec is guaranteed not to be empty at this point.
                         if logit > unsafe { logits.last().unwrap_unchecked().logit } {
-- 
2.43.0


From acc5397c660a185827a9d847004f797f1f352708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 10/16] fix: sequence repetition max_merge off by one

max_merge is the number of consecutive non-matching tokens one wildcard may
cover and 0 or 1 deactivates it; 1 merged two tokens, 2 merged three.
---
 src/samplers/sequence_repetition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/sequence_repetition.rs b/src/samplers/sequence_repetition.rs
index b97df01..9f290b8 100644
--- a/src/samplers/sequence_repetition.rs
+++ b/src/samplers/sequence_repetition.rs
@@ -189,7 +189,7 @@ fn fuzzy_match<T: PartialEq + std::fmt::Debug>(
             break;
         }
         tolerance -= 1;
-        window = merge_limit + 1;
+        window = merge_limit.max(1);
     }
 
     result
-- 
2.43.0


From 4251af60a61a6e932d46d7eb669459454faaa2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 11/16] fix: overflow for very large sequence repetition
 min_length

---
 src/samplers/sequence_repetition.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/samplers/sequence_repetition.rs b/src/samplers/sequence_repetition.rs
index 9f290b8..03cadd2 100644
--- a/src/samplers/sequence_repetition.rs
+++ b/src/samplers/sequence_repetition.rs
@@ -122,7 +122,7 @@ fn find_seqs<T: PartialEq + Copy + std::fmt::Debug>(
     max_merge: usize,
 ) -> Vec<SeqMatchResult<'_, T>> {
     let seqlen = seq.len();
-    if seqlen < min_len * 2 {
+    if seqlen < min_len.saturating_mul(2) {
         return Vec::default();
     }
 
@@ -220,7 +220,7 @@ impl Sampler for SampleSeqRepetition {
         let mut penalize: HashMap<TID, usize> = HashMap::with_capacity(64);
 
         res.with_last_tokens(&mut |orig_tokens| {
-            if orig_tokens.len() < min_length * 2 {
+            if orig_tokens.len() < min_length.saturating_mul(2) {
                 return;
             }
             let tokens = if last_n > orig_tokens.len() {
-- 
2.43.0


From 7e3f5780f98e15c5a3c12eee761e1aa94955f7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 12/16] fix: top-a sampler metadata name

---
 src/samplers/top_a.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/top_a.rs b/src/samplers/top_a.rs
index 63942fc..1e0e894 100644
--- a/src/samplers/top_a.rs
+++ b/src/samplers/top_a.rs
@@ -93,7 +93,7 @@ impl ConfigurableSampler<usize, L> for SampleTopA {}
 impl HasSamplerMetadata<usize, L> for SampleTopA {
     fn sampler_metadata(&self) -> SamplerMetadata {
         SamplerMetadata {
-            name: "top-p",
+            name: "top-a",
             description: Some(concat!(
                 "This sampler prunes tokens that don't meet a threshold based",
                 " on the most probable token. The formula is `a1 * pow(max_prob, a2)`",
-- 
2.43.0


From 93c205089a407a6d09b7384678661aa9410a20c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:39 +0000
Subject: [PATCH 13/16] fix: ensure_softmax sorts logits that are not marked
 sorted

With probabilities already computed but the order changed (set_sorted(false)),
the list was marked sorted without sorting it and filters cut the wrong end.
---
 src/types.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 4c53d55..2916d6b 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -249,12 +249,15 @@ impl Logits {
 
     /// Ensure the softmax function has been applied to the [Logits].
     pub fn ensure_softmax(&mut self) -> Result<&mut Self> {
-        if self.is_empty() || self.has_softmax {
+        if self.is_empty() {
             self.has_softmax = true;
             self.sorted = true;
             return Ok(self);
         }
         self.ensure_sorted()?;
+        if self.has_softmax {
+            return Ok(self);
+        }
         let max_l = self[0].logit;
         let cum_sum = self.iter_mut().fold(0f32, |cs, l| {
             l.prob = (l.logit - max_l).exp();
-- 
2.43.0


From d28db4a0629afde3543f13eed04ddb9b67dc97d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:18 +0000
Subject: [PATCH 14/16] fix: a failed chain does not report an earlier
 sampler's token

---
 src/chain.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chain.rs b/src/chain.rs
index 8c2c8db..d8f1438 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -47,6 +47,8 @@ impl Sampler for SamplerChain {
         self.samplers
             .iter_mut()
             .try_fold(logits, |logits, sampler| {
+                // If this sampler fails then the chain has no token.
+                self.token = None;
                 let new_logits = sampler.sample(res, logits)?;
                 self.token = sampler.sampled_token_id();
                 Ok(new_logits)
-- 
2.43.0


From a9208e8ef3e083f406956594728153b3f13117d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:52 +0000
Subject: [PATCH 15/16] fix: random selection refuses weights whose total is
 not finite

---
 src/samplers/rand_distrib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/samplers/rand_distrib.rs b/src/samplers/rand_distrib.rs
index be6b0ef..71ab3d1 100644
--- a/src/samplers/rand_distrib.rs
+++ b/src/samplers/rand_distrib.rs
@@ -1,6 +1,6 @@
 use std::fmt::Debug;
 
-use rand::distributions::{Distribution, WeightedIndex};
+use rand::distributions::{Distribution, WeightedError, WeightedIndex};
 
 use crate::{configure::*, types::*};
 
@@ -41,6 +41,12 @@ impl Sampler for SampleRandDistrib {
         logits.ensure_softmax().map_err(|e| {
             SamplerError::InternalError(format!("Failed to ensure softmax before sampling: {}", e))
         })?;
+        // WeightedIndex panics when the total isn't finite.
+        if logits.iter().map(|l| l.prob).sum::<L>().is_infinite() {
+            Err(SamplerError::RandWeightedError(
+                WeightedError::InvalidWeight,
+            ))?
+        }
         let dist = WeightedIndex::new(logits.iter().map(|l| l.prob))
             .map_err(SamplerError::RandWeightedError)?;
         res.with_rng_mut(&mut |r| {
-- 
2.43.0


From b01f0f33657570937a052fd5603de84231844d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 16/16] fix: document the defaults temperature, min-p and
 sequence repetition really have

---
 src/samplers/min_p.rs               | 2 +-
 src/samplers/sequence_repetition.rs | 2 +-
 src/samplers/temperature.rs         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/samplers/min_p.rs b/src/samplers/min_p.rs
index 9b15999..580b519 100644
--- a/src/samplers/min_p.rs
+++ b/src/samplers/min_p.rs
@@ -15,7 +15,7 @@ use crate::{configure::*, types::*};
 ///
 /// **Parameters**:
 /// - `min_keep`: Minimum number of entries to keep. (default: `1`)
-/// - `p`: Threshold value. Use `0.0` to disable. (default: `0.9`)
+/// - `p`: Threshold value. Use `0.0` to disable. (default: `0.05`)
 #[derive(Debug, Clone, Copy, PartialEq)]
 pub struct SampleMinP {
     pub(crate) p: L,
diff --git a/src/samplers/sequence_repetition.rs b/src/samplers/sequence_repetition.rs
index 03cadd2..66c5fb5 100644
--- a/src/samplers/sequence_repetition.rs
+++ b/src/samplers/sequence_repetition.rs
@@ -24,7 +24,7 @@ use crate::{configure::*, types::*};
 ///
 /// **Parameters**:
 /// - `last_n`: Number of last tokens to consider. (default: `64`)
-/// - `min_length`: The minimum length for a sequence to match. (default: `0`)
+/// - `min_length`: The minimum length for a sequence to match. (default: `4`)
 /// - `flat_penalty`: Flat penalty to apply to the token that would continue the matched sequence. (default: `0.0`)
 /// - `stacking_penalty`: Stacking penalty to the token that would continue the matched sequence,
 ///     it is multiplied by the sequence length. (default: `0.0`)
diff --git a/src/samplers/temperature.rs b/src/samplers/temperature.rs
index 6e6b622..3d2dfdf 100644
--- a/src/samplers/temperature.rs
+++ b/src/samplers/temperature.rs
@@ -9,7 +9,7 @@ use crate::{configure::*, types::*};
 /// - Modifies logits
 ///
 /// **Parameters**:
-/// - `temperature`: Temperature value. (default: `0.8`)
+/// - `temperature`: Temperature value. (default: `1.0`)
 #[derive(Debug, Clone, Copy, PartialEq)]
 pub struct SampleTemperature {
     pub(crate) temperature: L,
-- 
2.43.0

