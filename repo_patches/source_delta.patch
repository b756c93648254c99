From 091ac26d042680d53a1475d1f548935a3f4c0b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:18 +0000
Subject: [PATCH 01/16] fix: Mirostat 1 used mu^2 and a misplaced division
 instead of the paper's k formula

---
 src/samplers/mirostat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/mirostat.rs b/src/samplers/mirostat.rs
index ae78bf2..ee2756f 100644
--- a/src/samplers/mirostat.rs
+++ b/src/samplers/mirostat.rs
@@ -143,7 +143,7 @@ impl Sampler for SampleMirostat1 {
         let s_hat = sum_ti_bi / sum_ti_sq;
         let epsilon_hat = s_hat - 1f32;
         let k =
-            (epsilon_hat * mu.powf(2f32) / 1f32 - n_vocab.powf(-epsilon_hat)).powf(1f32 / s_hat);
+            ((epsilon_hat * mu.exp2()) / (1f32 - n_vocab.powf(-epsilon_hat))).powf(1f32 / s_hat);
         logits.sample(res, &mut SampleTopK::new(k.as_(), 1))?;
 
         if let Some(tid) = self.rd_sampler.sample_token(res, logits)? {
-- 
2.43.0


From c877704f621aad72146bc89242c1c6fd98e14073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:18 +0000
Subject: [PATCH 02/16] fix: Mirostat 2 kept a single token when no token's
 surprise exceeded mu

---
 src/samplers/mirostat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/mirostat.rs b/src/samplers/mirostat.rs
index ee2756f..37120f1 100644
--- a/src/samplers/mirostat.rs
+++ b/src/samplers/mirostat.rs
@@ -326,7 +326,7 @@ impl Sampler for SampleMirostat2 {
             .iter()
             .enumerate()
             .find_map(|(idx, l)| (-l.prob.log2() > mu).then_some(idx))
-            .unwrap_or_default()
+            .unwrap_or(logits.len())
             .max(1);
         if new_size != logits.len() {
             logits.truncate(new_size);
-- 
2.43.0


From 724aaa0a2e4e9624a05433b58d10077f5681dcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:18 +0000
Subject: [PATCH 03/16] fix: tail free failed on lists of exactly two
 candidates

---
 src/samplers/tail_free.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/tail_free.rs b/src/samplers/tail_free.rs
index 230c56a..2fe90c0 100644
--- a/src/samplers/tail_free.rs
+++ b/src/samplers/tail_free.rs
@@ -54,7 +54,7 @@ impl Sampler for SampleTailFree {
 
         let Self { z, min_keep } = *self;
 
-        if z >= 1f32 || logits.len() < 2 {
+        if z >= 1f32 || logits.len() < 3 {
             return Ok(logits);
         }
 
-- 
2.43.0


From 54f72063a9610372785dae4420af6d01469c6fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:18 +0000
Subject: [PATCH 04/16] fix: locally typical failed when a token had zero
 probability

---
 src/samplers/locally_typical.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/samplers/locally_typical.rs b/src/samplers/locally_typical.rs
index df0ef2c..5770023 100644
--- a/src/samplers/locally_typical.rs
+++ b/src/samplers/locally_typical.rs
@@ -69,6 +69,7 @@ impl Sampler for SampleLocallyTypical {
 
         let ent = logits
             .iter()
+            .filter(|l| l.prob != 0f32)
             .fold(0f32, |ent, l| ent + -l.prob * l.prob.ln());
 
         let mut shifted = logits
-- 
2.43.0


From c5b817365fe12f8e1c738fec20dd7c519cdd022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:18 +0000
Subject: [PATCH 05/16] fix: top-a described itself as top-p

---
 src/samplers/top_a.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/top_a.rs b/src/samplers/top_a.rs
index 63942fc..1e0e894 100644
--- a/src/samplers/top_a.rs
+++ b/src/samplers/top_a.rs
@@ -93,7 +93,7 @@ impl ConfigurableSampler<usize, L> for SampleTopA {}
 impl HasSamplerMetadata<usize, L> for SampleTopA {
     fn sampler_metadata(&self) -> SamplerMetadata {
         SamplerMetadata {
-            name: "top-p",
+            name: "top-a",
             description: Some(concat!(
                 "This sampler prunes tokens that don't meet a threshold based",
                 " on the most probable token. The formula is `a1 * pow(max_prob, a2)`",
-- 
2.43.0


From 1bacc4369c3b68c12c5d87aeb83bed4f2fa15bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:18 +0000
Subject: [PATCH 06/16] fix: an exact option name that prefixes another option
 was reported as ambiguous

---
 src/configure/metadata.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/configure/metadata.rs b/src/configure/metadata.rs
index dfdf698..acae3ff 100644
--- a/src/configure/metadata.rs
+++ b/src/configure/metadata.rs
@@ -71,6 +71,10 @@ impl<T> SamplerOptions<T> {
         key: &str,
     ) -> Result<(SamplerOptionMetadata, Option<usize>)> {
         let key = key.trim();
+        if let Some(idx) = self.iter().position(|(omd, _acc)| omd.key == key) {
+            let (omd, acc) = &self[idx];
+            return Ok((omd.clone(), acc.is_some().then_some(idx)));
+        }
         let mut it = self.iter().enumerate().filter(|&(_idx, (omd, _acc))| omd.key
                 .starts_with(key)).map(|(idx, (omd, acc))| (omd.clone(), acc.is_some().then_some(idx)));
         let Some((optdef, optidx)) = it.next() else {
-- 
2.43.0


From c1bae48752d01ac8ebca27a0f8205c6da73a5b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:18 +0000
Subject: [PATCH 07/16] fix: a negative temperature left the sorted flag set on
 a reversed list

---
 src/samplers/temperature.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/samplers/temperature.rs b/src/samplers/temperature.rs
index f2f1127..8058e6c 100644
--- a/src/samplers/temperature.rs
+++ b/src/samplers/temperature.rs
@@ -42,6 +42,9 @@ impl Sampler for SampleTemperature {
         if temp != 0f32 {
             logits.iter_mut().for_each(|l| l.logit /= temp);
             logits.set_softmax(false);
+            if temp < 0f32 {
+                logits.set_sorted(false);
+            }
         }
         Ok(logits)
     }
-- 
2.43.0


From 6f602ad7205028b887648fdcb8c58405e7111354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:18 +0000
Subject: [PATCH 08/16] fix: ensure_softmax marked an unsorted list as sorted
 when probabilities were already present

---
 src/types.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 69c3df6..925bfe7 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -248,8 +248,7 @@ impl Logits {
     pub fn ensure_softmax(&mut self) -> Result<&mut Self> {
         if self.is_empty() || self.has_softmax {
             self.has_softmax = true;
-            self.sorted = true;
-            return Ok(self);
+            return self.ensure_sorted();
         }
         self.ensure_sorted()?;
         let max_l = self[0].logit;
-- 
2.43.0


From b79fda8495a540461560ae957955faa762693e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:18 +0000
Subject: [PATCH 09/16] fix: sorting a list containing NaN could panic instead
 of returning an error

---
 src/samplers/locally_typical.rs | 4 +---
 src/types.rs                    | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/samplers/locally_typical.rs b/src/samplers/locally_typical.rs
index 5770023..0b1ee8a 100644
--- a/src/samplers/locally_typical.rs
+++ b/src/samplers/locally_typical.rs
@@ -1,5 +1,3 @@
-use std::cmp::Ordering;
-
 use crate::{configure::*, types::*};
 
 // FIXME: Complete documentation.
@@ -83,7 +81,7 @@ impl Sampler for SampleLocallyTypical {
                     sort_err = Err(SamplerError::InternalError(String::from(
                         "Impossible: logit comparison failed?",
                     )));
-                    Ordering::Less
+                    a.1.total_cmp(&b.1)
                 })
             });
             sort_err?;
diff --git a/src/types.rs b/src/types.rs
index 925bfe7..2754926 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -236,7 +236,7 @@ impl Logits {
                 sort_err = Err(LogitsError::InternalError(String::from(
                     "Impossible: logit comparison failed?",
                 )));
-                std::cmp::Ordering::Less
+                b.logit.total_cmp(&a.logit)
             })
         });
         sort_err?;
-- 
2.43.0


From c522336fc75a05f4deff057697e4ab845ae05b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:18 +0000
Subject: [PATCH 10/16] fix: sequence repetition treated max_merge = 1 as 2 and
 overflowed on huge settings

---
 src/samplers/sequence_repetition.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/samplers/sequence_repetition.rs b/src/samplers/sequence_repetition.rs
index b97df01..3003748 100644
--- a/src/samplers/sequence_repetition.rs
+++ b/src/samplers/sequence_repetition.rs
@@ -189,7 +189,7 @@ fn fuzzy_match<T: PartialEq + std::fmt::Debug>(
             break;
         }
         tolerance -= 1;
-        window = merge_limit + 1;
+        window = merge_limit.max(1);
     }
 
     result
@@ -220,7 +220,7 @@ impl Sampler for SampleSeqRepetition {
         let mut penalize: HashMap<TID, usize> = HashMap::with_capacity(64);
 
         res.with_last_tokens(&mut |orig_tokens| {
-            if orig_tokens.len() < min_length * 2 {
+            if orig_tokens.len() < min_length.saturating_mul(2) {
                 return;
             }
             let tokens = if last_n > orig_tokens.len() {
-- 
2.43.0


From 3b8088f4f2ab40e481ab16618e113ae8de1af58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:18 +0000
Subject: [PATCH 11/16] fix: try_from_iter_top_k panicked or aborted for huge k

---
 src/types.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 2754926..32bf3ae 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -164,13 +164,15 @@ impl Logits {
             return Ok(Self::default());
         }
 
+        let it = it.into_iter();
+        let capacity = k.min(it.size_hint().0);
         Ok(Logits {
             sorted: true,
             has_softmax: false,
             logits: (0u32..)
                 .zip(it)
                 .filter(|(_tid, logit)| logit.is_finite())
-                .fold(Vec::with_capacity(k), |mut logits, (tid, logit)| {
+                .fold(Vec::with_capacity(capacity), |mut logits, (tid, logit)| {
                     if logits.len() == k {
                         // The Vec is guaranteed not to be empty at this point.
                         if logit > unsafe { logits.last().unwrap_unchecked().logit } {
-- 
2.43.0


From e30a804a62d959fe9efc0240be6d2b13a7b4cafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:18 +0000
Subject: [PATCH 12/16] fix: sample_prepend was not forwarded through boxed,
 shared and built samplers

---
 src/configure/building.rs |  4 ++++
 src/types.rs              | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/configure/building.rs b/src/configure/building.rs
index da45e69..5e5e987 100644
--- a/src/configure/building.rs
+++ b/src/configure/building.rs
@@ -40,6 +40,10 @@ where
 }
 
 impl<UI, F> Sampler for Box<dyn BuildableSampler<UI, F>> {
+    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
+        (**self).sample_prepend(res)
+    }
+
     fn sampled_token_id(&self) -> Option<TID> {
         (**self).sampled_token_id()
     }
diff --git a/src/types.rs b/src/types.rs
index 32bf3ae..f47e380 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -316,6 +316,10 @@ pub trait Sampler: Debug + Send + Sync {
 }
 
 impl Sampler for Box<dyn Sampler> {
+    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
+        (**self).sample_prepend(res)
+    }
+
     fn sampled_token_id(&self) -> Option<TID> {
         (**self).sampled_token_id()
     }
@@ -338,6 +342,12 @@ impl Sampler for Box<dyn Sampler> {
 }
 
 impl Sampler for Arc<Mutex<dyn Sampler>> {
+    fn sample_prepend(&self, res: &mut dyn HasSamplerResources) {
+        if let Ok(sampler) = self.lock() {
+            sampler.sample_prepend(res)
+        }
+    }
+
     fn sampled_token_id(&self) -> Option<TID> {
         self.lock().ok()?.sampled_token_id()
     }
-- 
2.43.0


From 9448bb69dcd9b0069258921d558f2b70b7436bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:38 +0000
Subject: [PATCH 13/16] fix: a chain could report another thread's token from a
 shared sampler

---
 src/chain.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 8c2c8db..6da3587 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -47,9 +47,8 @@ impl Sampler for SamplerChain {
         self.samplers
             .iter_mut()
             .try_fold(logits, |logits, sampler| {
-                let new_logits = sampler.sample(res, logits)?;
-                self.token = sampler.sampled_token_id();
-                Ok(new_logits)
+                self.token = sampler.sample_token(res, logits)?;
+                Ok(logits)
             })
     }
 
-- 
2.43.0


From ad89b76b59f0f54ef4e1786e263e4b49fd5adf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 14/16] fix: Mirostat 1 estimated the Zipf exponent from
 probability ratios instead of their logarithms

---
 src/samplers/mirostat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/mirostat.rs b/src/samplers/mirostat.rs
index 37120f1..51918a5 100644
--- a/src/samplers/mirostat.rs
+++ b/src/samplers/mirostat.rs
@@ -134,7 +134,7 @@ impl Sampler for SampleMirostat1 {
                 .take((m - 1).min(logits.len() - 1))
                 .fold((0f32, 0f32), |(sum_ti_bi, sum_ti_sq), (l, l_next)| {
                     let t_i = ((idx + 2f32) / (idx + 1f32)).ln();
-                    let b_i = l.prob / l_next.prob;
+                    let b_i = (l.prob / l_next.prob).ln();
                     let result = (sum_ti_bi + t_i * b_i, sum_ti_sq + t_i * t_i);
                     idx += 1f32;
                     result
-- 
2.43.0


From 7fbbe267e600fd217287feb9877ee7d5f4407945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 15/16] fix: sequence repetition missed a repeat followed by
 the newest history token

---
 src/samplers/sequence_repetition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/samplers/sequence_repetition.rs b/src/samplers/sequence_repetition.rs
index 3003748..17e004a 100644
--- a/src/samplers/sequence_repetition.rs
+++ b/src/samplers/sequence_repetition.rs
@@ -137,7 +137,7 @@ fn find_seqs<T: PartialEq + Copy + std::fmt::Debug>(
             if hay[0] == needle[0] {
                 fuzzy_match(hay, needle, needle.len(), tolerance, max_merge)
                     .into_iter()
-                    .filter(|(hidx, _)| hay.len() > needle.len() && hay.len() > hidx + 1)
+                    .filter(|(hidx, _)| hay.len() > needle.len() && hay.len() > *hidx)
                     .for_each(|(hidx, mlen)| {
                         let mi = SeqMatchResult {
                             h_offs: seqlen - hay.len(),
-- 
2.43.0


From 5dd86b2938b1d0b465e9eb4e1046742669a5c76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 16/16] fix: random distribution panicked when probabilities
 add up to infinity

---
 src/samplers/rand_distrib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/samplers/rand_distrib.rs b/src/samplers/rand_distrib.rs
index be6b0ef..e3d9649 100644
--- a/src/samplers/rand_distrib.rs
+++ b/src/samplers/rand_distrib.rs
@@ -1,6 +1,6 @@
 use std::fmt::Debug;
 
-use rand::distributions::{Distribution, WeightedIndex};
+use rand::distributions::{Distribution, WeightedError, WeightedIndex};
 
 use crate::{configure::*, types::*};
 
@@ -41,6 +41,12 @@ impl Sampler for SampleRandDistrib {
         logits.ensure_softmax().map_err(|e| {
             SamplerError::InternalError(format!("Failed to ensure softmax before sampling: {}", e))
         })?;
+        // `WeightedIndex` panics when the weights add up to infinity.
+        if logits.iter().map(|l| l.prob).sum::<f32>() == f32::INFINITY {
+            return Err(SamplerError::RandWeightedError(
+                WeightedError::InvalidWeight,
+            ));
+        }
         let dist = WeightedIndex::new(logits.iter().map(|l| l.prob))
             .map_err(SamplerError::RandWeightedError)?;
         res.with_rng_mut(&mut |r| {
-- 
2.43.0

