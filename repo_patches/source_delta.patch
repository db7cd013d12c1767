From 3c7024611af5d75f6ba827214afbc37538a7dc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:34 +0000
Subject: [PATCH 01/13] fix: MockProver panicked when a failing constraint also
 queries an unconstrained poisoned cell

---
 halo2_proofs/src/dev/util.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/halo2_proofs/src/dev/util.rs b/halo2_proofs/src/dev/util.rs
index ee3b7cb..68d9b24 100644
--- a/halo2_proofs/src/dev/util.rs
+++ b/halo2_proofs/src/dev/util.rs
@@ -123,7 +123,9 @@ fn cell_value<'a, F: Field, Q: Into<AnyQuery> + Copy>(
                     cell.clone().into(),
                     match load(query) {
                         Value::Real(v) => format_value(v),
-                        Value::Poison => unreachable!(),
+                        // The constraint can still evaluate to a real value if this cell
+                        // is multiplied by zero.
+                        Value::Poison => "<poisoned>".into(),
                     },
                 )
             })
-- 
2.43.0


From 39150213cd452e72a8b70c57918a6314e545e62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:34 +0000
Subject: [PATCH 02/13] fix: MockProver panicked on a gate activated in a
 region without assigned cells

---
 halo2_proofs/src/dev.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/halo2_proofs/src/dev.rs b/halo2_proofs/src/dev.rs
index 067ffd2..b2c3a33 100644
--- a/halo2_proofs/src/dev.rs
+++ b/halo2_proofs/src/dev.rs
@@ -629,7 +629,8 @@ impl<F: Field + Ord> MockProver<F> {
                                                 gate_offset: *selector_row,
                                                 column: cell.column,
                                                 offset: cell_row as isize
-                                                    - r.rows.unwrap().0 as isize,
+                                                    - r.rows.map_or(*selector_row, |(start, _)| start)
+                                                        as isize,
                                             })
                                         }
                                     }
-- 
2.43.0


From 303a5017c915bde9e23ea5545eccfbcab28641f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:51 +0000
Subject: [PATCH 03/13] fix: MockProver::assert_satisfied panicked while
 rendering a lookup failure near row 0 or the blinding rows

---
 halo2_proofs/src/dev/failure.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/halo2_proofs/src/dev/failure.rs b/halo2_proofs/src/dev/failure.rs
index c6c5aec..65e08e3 100644
--- a/halo2_proofs/src/dev/failure.rs
+++ b/halo2_proofs/src/dev/failure.rs
@@ -409,7 +409,9 @@ fn render_lookup<F: Field>(
             prover.regions[region.index].rows.unwrap().0 + offset
         }
         FailureLocation::OutsideRegion { row } => *row,
-    } as i32;
+    } as i32
+        // Keep the queried row non-negative for negative rotations (it is taken modulo n).
+        + n;
 
     // Recover the fixed columns from the table expressions. We don't allow composite
     // expressions for the table side of lookups.
@@ -441,7 +443,7 @@ fn render_lookup<F: Field>(
                 ((column_type, column_index).into(), rotation.0).into(),
                 match load(query) {
                     Value::Real(v) => util::format_value(v),
-                    Value::Poison => unreachable!(),
+                    Value::Poison => "<poisoned>".into(),
                 },
             ))
             .into_iter()
-- 
2.43.0


From 2457e38500f36d8f5b15e9500ffb6012093d92c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:09 +0000
Subject: [PATCH 04/13] fix: create_proof refused to query an instance row past
 the supplied (zero-padded) values

---
 halo2_proofs/src/plonk/prover.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/halo2_proofs/src/plonk/prover.rs b/halo2_proofs/src/plonk/prover.rs
index e54f212..e234208 100644
--- a/halo2_proofs/src/plonk/prover.rs
+++ b/halo2_proofs/src/plonk/prover.rs
@@ -181,10 +181,10 @@ pub fn create_proof<
                         return Err(Error::not_enough_rows_available(self.k));
                     }
 
+                    // Instance columns are padded with zeroes.
                     self.instances
                         .get(column.index())
-                        .and_then(|column| column.get(row))
-                        .map(|v| Value::known(*v))
+                        .map(|column| Value::known(column.get(row).copied().unwrap_or(F::ZERO)))
                         .ok_or(Error::BoundsFailure)
                 }
 
-- 
2.43.0


From 158c8f44cf5983022d7ac45715d8c33336ec03a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:36 +0000
Subject: [PATCH 05/13] fix: CircuitCost counted point sets of lookup and
 permutation arguments the circuit does not have

---
 halo2_proofs/src/dev/cost.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/halo2_proofs/src/dev/cost.rs b/halo2_proofs/src/dev/cost.rs
index 0c3c7ef..ee9756f 100644
--- a/halo2_proofs/src/dev/cost.rs
+++ b/halo2_proofs/src/dev/cost.rs
@@ -301,15 +301,22 @@ impl<G: PrimeGroup, ConcreteCircuit: Circuit<G::Scalar>> CircuitCost<G, Concrete
             point_sets.insert(query_set);
         }
 
+        // The vanishing argument always opens at the current row.
+        point_sets.insert(vec![0]);
+
         // Include lookup polynomials in point sets:
-        point_sets.insert(vec![0, 1]); // product_poly
-        point_sets.insert(vec![-1, 0]); // permuted_input_poly
-        point_sets.insert(vec![0]); // permuted_table_poly
+        if !cs.lookups.is_empty() {
+            point_sets.insert(vec![0, 1]); // product_poly
+            point_sets.insert(vec![-1, 0]); // permuted_input_poly
+            point_sets.insert(vec![0]); // permuted_table_poly
+        }
 
         // Include permutation polynomials in point sets.
-        point_sets.insert(vec![0, 1]); // permutation_product_poly
         let max_deg = cs.degree();
         let permutation_cols = cs.permutation.get_columns().len();
+        if permutation_cols > 0 {
+            point_sets.insert(vec![0, 1]); // permutation_product_poly
+        }
         if permutation_cols > max_deg - 2 {
             // permutation_product_poly for chaining chunks.
             point_sets.insert(vec![-((cs.blinding_factors() + 1) as i32), 0, 1]);
-- 
2.43.0


From dc7dcea80cd67f2d7825082ed7988de6bf1c00b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:56 +0000
Subject: [PATCH 06/13] fix: accept Sinsemilla messages of exactly MAX_WORDS
 words

---
 halo2_gadgets/src/sinsemilla/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/halo2_gadgets/src/sinsemilla/message.rs b/halo2_gadgets/src/sinsemilla/message.rs
index f8ba67d..fbb5f71 100644
--- a/halo2_gadgets/src/sinsemilla/message.rs
+++ b/halo2_gadgets/src/sinsemilla/message.rs
@@ -12,7 +12,7 @@ impl<F: PrimeFieldBits, const K: usize, const MAX_WORDS: usize> From<Vec<Message
 {
     fn from(pieces: Vec<MessagePiece<F, K>>) -> Self {
         // A message cannot contain more than `MAX_WORDS` words.
-        assert!(pieces.iter().map(|piece| piece.num_words()).sum::<usize>() < MAX_WORDS);
+        assert!(pieces.iter().map(|piece| piece.num_words()).sum::<usize>() <= MAX_WORDS);
         Message(pieces)
     }
 }
-- 
2.43.0


From 0434d0989c4ea8716bba39ac3041010ea26afaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:50 +0000
Subject: [PATCH 07/13] fix: constrain the one-bit pieces of SHA-256 schedule
 words to be boolean

---
 .../src/sha256/table16/message_schedule/schedule_gates.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/halo2_gadgets/src/sha256/table16/message_schedule/schedule_gates.rs b/halo2_gadgets/src/sha256/table16/message_schedule/schedule_gates.rs
index c088205..8f2446e 100644
--- a/halo2_gadgets/src/sha256/table16/message_schedule/schedule_gates.rs
+++ b/halo2_gadgets/src/sha256/table16/message_schedule/schedule_gates.rs
@@ -95,15 +95,19 @@ impl<F: PrimeField> ScheduleGate<F> {
             + b * F::from(1 << 3)
             + c * F::from(1 << 7)
             + d * F::from(1 << 10)
-            + e * F::from(1 << 17)
-            + f * F::from(1 << 18)
+            + e.clone() * F::from(1 << 17)
+            + f.clone() * F::from(1 << 18)
             + g * F::from(1 << 19)
             + word * (-F::ONE);
         let range_check_tag_d = Gate::range_check(tag_d, 0, 0);
         let range_check_tag_g = Gate::range_check(tag_g, 0, 3);
+        let range_check_e = Gate::range_check(e, 0, 1);
+        let range_check_f = Gate::range_check(f, 0, 1);
 
         [
             ("decompose_check", decompose_check),
+            ("range_check_e", range_check_e),
+            ("range_check_f", range_check_f),
             ("range_check_tag_g", range_check_tag_g),
             ("range_check_tag_d", range_check_tag_d),
         ]
-- 
2.43.0


From b97f6c34e1ba185b303b03cc2ef5afa65d2c468c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:50 +0000
Subject: [PATCH 08/13] fix: tie each SHA-256 schedule word to the recurrence
 that computes it

---
 .../src/sha256/table16/message_schedule/subregion2.rs          | 3 ++-
 .../src/sha256/table16/message_schedule/subregion3.rs          | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/halo2_gadgets/src/sha256/table16/message_schedule/subregion2.rs b/halo2_gadgets/src/sha256/table16/message_schedule/subregion2.rs
index 0480d04..87b08e5 100644
--- a/halo2_gadgets/src/sha256/table16/message_schedule/subregion2.rs
+++ b/halo2_gadgets/src/sha256/table16/message_schedule/subregion2.rs
@@ -251,7 +251,7 @@ impl MessageScheduleConfig {
             ]);
 
             // Assign W_i, carry_i
-            region.assign_advice(
+            let scheduled_word = region.assign_advice(
                 || format!("W_{}", new_word_idx),
                 a_5,
                 get_word_row(new_word_idx - 16) + 1,
@@ -264,6 +264,7 @@ impl MessageScheduleConfig {
                 || carry.map(pallas::Base::from),
             )?;
             let (word, halves) = self.assign_word_and_halves(region, word, new_word_idx)?;
+            region.constrain_equal(scheduled_word.cell(), word.cell())?;
             w.push(MessageWord(word));
             w_halves.push(halves);
 
diff --git a/halo2_gadgets/src/sha256/table16/message_schedule/subregion3.rs b/halo2_gadgets/src/sha256/table16/message_schedule/subregion3.rs
index ddb36eb..ca7908c 100644
--- a/halo2_gadgets/src/sha256/table16/message_schedule/subregion3.rs
+++ b/halo2_gadgets/src/sha256/table16/message_schedule/subregion3.rs
@@ -167,7 +167,7 @@ impl MessageScheduleConfig {
             ]);
 
             // Assign W_i, carry_i
-            region.assign_advice(
+            let scheduled_word = region.assign_advice(
                 || format!("W_{}", new_word_idx),
                 a_5,
                 get_word_row(new_word_idx - 16) + 1,
@@ -180,6 +180,7 @@ impl MessageScheduleConfig {
                 || carry.map(pallas::Base::from),
             )?;
             let (word, halves) = self.assign_word_and_halves(region, word, new_word_idx)?;
+            region.constrain_equal(scheduled_word.cell(), word.cell())?;
             w.push(MessageWord(word));
             w_halves.push(halves);
 
-- 
2.43.0


From feb0942316312d77d1bfe0390e37f7c5d130a212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:50 +0000
Subject: [PATCH 09/13] fix: range-check the carries of the SHA-256 compression
 rounds

---
 .../table16/compression/compression_gates.rs  | 42 +++++++++++++++----
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/halo2_gadgets/src/sha256/table16/compression/compression_gates.rs b/halo2_gadgets/src/sha256/table16/compression/compression_gates.rs
index dada6bb..36e5a1d 100644
--- a/halo2_gadgets/src/sha256/table16/compression/compression_gates.rs
+++ b/halo2_gadgets/src/sha256/table16/compression/compression_gates.rs
@@ -351,16 +351,24 @@ impl<F: PrimeField> CompressionGate<F> {
         k_hi: Expression<F>,
         w_lo: Expression<F>,
         w_hi: Expression<F>,
-    ) -> Option<(&'static str, Expression<F>)> {
+    ) -> impl IntoIterator<Item = Constraint<F>> {
         let lo = h_lo + ch_lo + ch_neg_lo + sigma_e_lo + k_lo + w_lo;
         let hi = h_hi + ch_hi + ch_neg_hi + sigma_e_hi + k_hi + w_hi;
 
         let sum = lo + hi * F::from(1 << 16);
         let h_prime = h_prime_lo + h_prime_hi * F::from(1 << 16);
 
-        let check = sum - (h_prime_carry * F::from(1 << 32)) - h_prime;
+        let check = sum - (h_prime_carry.clone() * F::from(1 << 32)) - h_prime;
+
+        let range_check_carry = Gate::range_check(h_prime_carry, 0, 5);
 
-        Some(("s_h_prime", s_h_prime * check))
+        Constraints::with_selector(
+            s_h_prime,
+            [
+                ("s_h_prime", check),
+                ("range_check_carry", range_check_carry),
+            ],
+        )
     }
 
     // s_a_new to get A_new = H' + Maj(A, B, C) + s_upper_sigma_0(A)
@@ -376,15 +384,23 @@ impl<F: PrimeField> CompressionGate<F> {
         maj_abc_hi: Expression<F>,
         h_prime_lo: Expression<F>,
         h_prime_hi: Expression<F>,
-    ) -> Option<(&'static str, Expression<F>)> {
+    ) -> impl IntoIterator<Item = Constraint<F>> {
         let lo = sigma_a_lo + maj_abc_lo + h_prime_lo;
         let hi = sigma_a_hi + maj_abc_hi + h_prime_hi;
         let sum = lo + hi * F::from(1 << 16);
         let a_new = a_new_lo + a_new_hi * F::from(1 << 16);
 
-        let check = sum - (a_new_carry * F::from(1 << 32)) - a_new;
+        let check = sum - (a_new_carry.clone() * F::from(1 << 32)) - a_new;
 
-        Some(("s_a_new", s_a_new * check))
+        let range_check_carry = Gate::range_check(a_new_carry, 0, 2);
+
+        Constraints::with_selector(
+            s_a_new,
+            [
+                ("s_a_new", check),
+                ("range_check_carry", range_check_carry),
+            ],
+        )
     }
 
     // s_e_new to get E_new = H' + D
@@ -398,15 +414,23 @@ impl<F: PrimeField> CompressionGate<F> {
         d_hi: Expression<F>,
         h_prime_lo: Expression<F>,
         h_prime_hi: Expression<F>,
-    ) -> Option<(&'static str, Expression<F>)> {
+    ) -> impl IntoIterator<Item = Constraint<F>> {
         let lo = h_prime_lo + d_lo;
         let hi = h_prime_hi + d_hi;
         let sum = lo + hi * F::from(1 << 16);
         let e_new = e_new_lo + e_new_hi * F::from(1 << 16);
 
-        let check = sum - (e_new_carry * F::from(1 << 32)) - e_new;
+        let check = sum - (e_new_carry.clone() * F::from(1 << 32)) - e_new;
 
-        Some(("s_e_new", s_e_new * check))
+        let range_check_carry = Gate::range_check(e_new_carry, 0, 1);
+
+        Constraints::with_selector(
+            s_e_new,
+            [
+                ("s_e_new", check),
+                ("range_check_carry", range_check_carry),
+            ],
+        )
     }
 
     // s_digest on final round
-- 
2.43.0


From 60d477b8661f1c3a4a42c52ef11e3fe1729b155c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:50 +0000
Subject: [PATCH 10/13] fix: initialize the SHA-256 state before every block
 after the first in update

---
 halo2_gadgets/src/sha256.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/halo2_gadgets/src/sha256.rs b/halo2_gadgets/src/sha256.rs
index 3e4cdaf..30eec51 100644
--- a/halo2_gadgets/src/sha256.rs
+++ b/halo2_gadgets/src/sha256.rs
@@ -88,6 +88,7 @@ impl<F: Field, Sha256Chip: Sha256Instructions<F>> Sha256<F, Sha256Chip> {
         mut layouter: impl Layouter<F>,
         mut data: &[Sha256Chip::BlockWord],
     ) -> Result<(), Error> {
+        let processed = self.length / (BLOCK_SIZE * 32) > 0;
         self.length += data.len() * 32;
 
         // Fill the current block, if possible.
@@ -101,7 +102,11 @@ impl<F: Field, Sha256Chip: Sha256Instructions<F>> Sha256<F, Sha256Chip> {
             return Ok(());
         }
 
-        // Process the now-full current block.
+        // Process the now-full current block. If it is not the first one, the state is
+        // the output of a previous compression and needs to be initialized.
+        if processed {
+            self.state = self.chip.initialization(&mut layouter, &self.state)?;
+        }
         self.state = self.chip.compress(
             &mut layouter,
             &self.state,
-- 
2.43.0


From 64240c167932aa28b1ec5a8cb6ca9562b69a53d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:08 +0000
Subject: [PATCH 11/13] fix: tie the final SHA-256 words A and E to the last
 round and range-check them

---
 .../table16/compression/compression_util.rs       | 15 +++++++++++++++
 .../sha256/table16/compression/subregion_main.rs  | 15 ++++++---------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/halo2_gadgets/src/sha256/table16/compression/compression_util.rs b/halo2_gadgets/src/sha256/table16/compression/compression_util.rs
index 75f6e0b..72abbe4 100644
--- a/halo2_gadgets/src/sha256/table16/compression/compression_util.rs
+++ b/halo2_gadgets/src/sha256/table16/compression/compression_util.rs
@@ -890,6 +890,21 @@ impl CompressionConfig {
         Ok(a_new_dense)
     }
 
+    pub fn range_check_halves(
+        &self,
+        region: &mut Region<'_, pallas::Base>,
+        row: usize,
+        word: &RoundWordDense,
+    ) -> Result<(), Error> {
+        for (offset, half) in [&word.0, &word.1].iter().enumerate() {
+            let spread = half.value().map(|half| SpreadWord::<16, 32>::new(**half));
+            let looked_up = SpreadVar::with_lookup(region, &self.lookup, row + offset, spread)?;
+            region.constrain_equal(looked_up.dense.cell(), half.cell())?;
+        }
+        Ok(())
+    }
+
+    // Assign hi and lo halves for the dense version of a word
     pub fn assign_word_halves_dense(
         &self,
         region: &mut Region<'_, pallas::Base>,
diff --git a/halo2_gadgets/src/sha256/table16/compression/subregion_main.rs b/halo2_gadgets/src/sha256/table16/compression/subregion_main.rs
index 2a0f433..3ebfb96 100644
--- a/halo2_gadgets/src/sha256/table16/compression/subregion_main.rs
+++ b/halo2_gadgets/src/sha256/table16/compression/subregion_main.rs
@@ -11,8 +11,6 @@ impl CompressionConfig {
         state: State,
         schedule_word: &(AssignedBits<16>, AssignedBits<16>),
     ) -> Result<State, Error> {
-        let a_3 = self.extras[0];
-        let a_4 = self.extras[1];
         let a_7 = self.extras[3];
 
         let (a, b, c, d, e, f, g, h) = match_state(state);
@@ -105,18 +103,17 @@ impl CompressionConfig {
             let abcd_row = get_digest_abcd_row();
             let efgh_row = get_digest_efgh_row();
 
-            let a_final =
-                self.assign_word_halves_dense(region, abcd_row, a_3, abcd_row, a_4, a_new_val)?;
-
-            let e_final =
-                self.assign_word_halves_dense(region, efgh_row, a_3, efgh_row, a_4, e_new_val)?;
+            // A_new and E_new are not decomposed in a further round, so their halves are
+            // range-checked here.
+            self.range_check_halves(region, abcd_row, &a_new_dense)?;
+            self.range_check_halves(region, efgh_row, &e_new_dense)?;
 
             Ok(State::new(
-                StateWord::A(RoundWordA::new_dense(a_final)),
+                StateWord::A(RoundWordA::new_dense(a_new_dense)),
                 StateWord::B(RoundWord::new(a.dense_halves, a.spread_halves.unwrap())),
                 StateWord::C(b),
                 StateWord::D(c.dense_halves),
-                StateWord::E(RoundWordE::new_dense(e_final)),
+                StateWord::E(RoundWordE::new_dense(e_new_dense)),
                 StateWord::F(RoundWord::new(e.dense_halves, e.spread_halves.unwrap())),
                 StateWord::G(f),
                 StateWord::H(g.dense_halves),
-- 
2.43.0


From 4d2da22874c8501c7c4b5232d82c7f69c0fde26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:28 +0000
Subject: [PATCH 12/13] fix: tie the initial state of each further SHA-256
 block to the previous state

---
 .../table16/compression/subregion_initial.rs  | 53 +++++++++++++------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/halo2_gadgets/src/sha256/table16/compression/subregion_initial.rs b/halo2_gadgets/src/sha256/table16/compression/subregion_initial.rs
index 56e7dc6..9d559e3 100644
--- a/halo2_gadgets/src/sha256/table16/compression/subregion_initial.rs
+++ b/halo2_gadgets/src/sha256/table16/compression/subregion_initial.rs
@@ -1,4 +1,4 @@
-use super::super::{RoundWord, StateWord, STATE};
+use super::super::{RoundWord, RoundWordDense, StateWord, STATE};
 use super::{compression_util::*, CompressionConfig, State};
 use halo2_proofs::{
     circuit::{Region, Value},
@@ -61,34 +61,42 @@ impl CompressionConfig {
         let (a, b, c, d, e, f, g, h) = match_state(state);
 
         // Decompose E into (6, 5, 14, 7)-bit chunks
-        let e = e.dense_halves.value();
-        let e = self.decompose_e(region, RoundIdx::Init, e)?;
+        let prev_e = e.dense_halves;
+        let e = self.decompose_e(region, RoundIdx::Init, prev_e.value())?;
+        self.constrain_equal_halves(region, &prev_e, &e.dense_halves)?;
 
         // Decompose F, G
-        let f = f.dense_halves.value();
-        let f = self.decompose_f(region, InitialRound, f)?;
-        let g = g.dense_halves.value();
-        let g = self.decompose_g(region, InitialRound, g)?;
+        let prev_f = f.dense_halves;
+        let f = self.decompose_f(region, InitialRound, prev_f.value())?;
+        self.constrain_equal_halves(region, &prev_f, &f.dense_halves)?;
+        let prev_g = g.dense_halves;
+        let g = self.decompose_g(region, InitialRound, prev_g.value())?;
+        self.constrain_equal_halves(region, &prev_g, &g.dense_halves)?;
 
         // Assign H
-        let h = h.value();
+        let prev_h = h;
         let h_row = get_h_row(RoundIdx::Init);
-        let h = self.assign_word_halves_dense(region, h_row, a_7, h_row + 1, a_7, h)?;
+        let h = self.assign_word_halves_dense(region, h_row, a_7, h_row + 1, a_7, prev_h.value())?;
+        self.constrain_equal_halves(region, &prev_h, &h)?;
 
         // Decompose A into (2, 11, 9, 10)-bit chunks
-        let a = a.dense_halves.value();
-        let a = self.decompose_a(region, RoundIdx::Init, a)?;
+        let prev_a = a.dense_halves;
+        let a = self.decompose_a(region, RoundIdx::Init, prev_a.value())?;
+        self.constrain_equal_halves(region, &prev_a, &a.dense_halves)?;
 
         // Decompose B, C
-        let b = b.dense_halves.value();
-        let b = self.decompose_b(region, InitialRound, b)?;
-        let c = c.dense_halves.value();
-        let c = self.decompose_c(region, InitialRound, c)?;
+        let prev_b = b.dense_halves;
+        let b = self.decompose_b(region, InitialRound, prev_b.value())?;
+        self.constrain_equal_halves(region, &prev_b, &b.dense_halves)?;
+        let prev_c = c.dense_halves;
+        let c = self.decompose_c(region, InitialRound, prev_c.value())?;
+        self.constrain_equal_halves(region, &prev_c, &c.dense_halves)?;
 
         // Assign D
-        let d = d.value();
+        let prev_d = d;
         let d_row = get_d_row(RoundIdx::Init);
-        let d = self.assign_word_halves_dense(region, d_row, a_7, d_row + 1, a_7, d)?;
+        let d = self.assign_word_halves_dense(region, d_row, a_7, d_row + 1, a_7, prev_d.value())?;
+        self.constrain_equal_halves(region, &prev_d, &d)?;
 
         Ok(State::new(
             StateWord::A(a),
@@ -102,6 +110,17 @@ impl CompressionConfig {
         ))
     }
 
+    // Tie a word of the new initial state to the word of the state it continues.
+    fn constrain_equal_halves(
+        &self,
+        region: &mut Region<'_, pallas::Base>,
+        prev: &RoundWordDense,
+        word: &RoundWordDense,
+    ) -> Result<(), Error> {
+        region.constrain_equal(prev.0.cell(), word.0.cell())?;
+        region.constrain_equal(prev.1.cell(), word.1.cell())
+    }
+
     fn decompose_b(
         &self,
         region: &mut Region<'_, pallas::Base>,
-- 
2.43.0


From 0865c00e7a57ae0ac0fff42569913219c414ca66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:32 +0000
Subject: [PATCH 13/13] fix: constrain the SHA-256 initialization vector and
 round constants

---
 halo2_gadgets/src/sha256/table16.rs           |  4 +++
 .../table16/compression/compression_gates.rs  | 10 ++----
 .../table16/compression/compression_util.rs   | 13 +++++--
 .../table16/compression/subregion_initial.rs  | 34 +++++++++++++++++--
 4 files changed, 49 insertions(+), 12 deletions(-)

diff --git a/halo2_gadgets/src/sha256/table16.rs b/halo2_gadgets/src/sha256/table16.rs
index 9e56c78..e04046a 100644
--- a/halo2_gadgets/src/sha256/table16.rs
+++ b/halo2_gadgets/src/sha256/table16.rs
@@ -304,6 +304,10 @@ impl Table16Chip {
             meta.enable_equality(*column);
         }
 
+        // - One fixed column for the initialization vector and the round constants.
+        let constants = meta.fixed_column();
+        meta.enable_constant(constants);
+
         let compression =
             CompressionConfig::configure(meta, lookup_inputs.clone(), message_schedule, extras);
 
diff --git a/halo2_gadgets/src/sha256/table16/compression/compression_gates.rs b/halo2_gadgets/src/sha256/table16/compression/compression_gates.rs
index 36e5a1d..6b0b1af 100644
--- a/halo2_gadgets/src/sha256/table16/compression/compression_gates.rs
+++ b/halo2_gadgets/src/sha256/table16/compression/compression_gates.rs
@@ -396,10 +396,7 @@ impl<F: PrimeField> CompressionGate<F> {
 
         Constraints::with_selector(
             s_a_new,
-            [
-                ("s_a_new", check),
-                ("range_check_carry", range_check_carry),
-            ],
+            [("s_a_new", check), ("range_check_carry", range_check_carry)],
         )
     }
 
@@ -426,10 +423,7 @@ impl<F: PrimeField> CompressionGate<F> {
 
         Constraints::with_selector(
             s_e_new,
-            [
-                ("s_e_new", check),
-                ("range_check_carry", range_check_carry),
-            ],
+            [("s_e_new", check), ("range_check_carry", range_check_carry)],
         )
     }
 
diff --git a/halo2_gadgets/src/sha256/table16/compression/compression_util.rs b/halo2_gadgets/src/sha256/table16/compression/compression_util.rs
index 72abbe4..e2a3ff6 100644
--- a/halo2_gadgets/src/sha256/table16/compression/compression_util.rs
+++ b/halo2_gadgets/src/sha256/table16/compression/compression_util.rs
@@ -750,8 +750,17 @@ impl CompressionConfig {
         let k_lo: [bool; 16] = k[..16].try_into().unwrap();
         let k_hi: [bool; 16] = k[16..].try_into().unwrap();
         {
-            AssignedBits::<16>::assign_bits(region, || "k_lo", a_6, row - 1, Value::known(k_lo))?;
-            AssignedBits::<16>::assign_bits(region, || "k_hi", a_6, row, Value::known(k_hi))?;
+            let k_lo_cell = AssignedBits::<16>::assign_bits(
+                region,
+                || "k_lo",
+                a_6,
+                row - 1,
+                Value::known(k_lo),
+            )?;
+            let k_hi_cell =
+                AssignedBits::<16>::assign_bits(region, || "k_hi", a_6, row, Value::known(k_hi))?;
+            region.constrain_constant(k_lo_cell.cell(), pallas::Base::from(lebs2ip(&k_lo)))?;
+            region.constrain_constant(k_hi_cell.cell(), pallas::Base::from(lebs2ip(&k_hi)))?;
         }
 
         // Assign and copy w
diff --git a/halo2_gadgets/src/sha256/table16/compression/subregion_initial.rs b/halo2_gadgets/src/sha256/table16/compression/subregion_initial.rs
index 9d559e3..7bbcf90 100644
--- a/halo2_gadgets/src/sha256/table16/compression/subregion_initial.rs
+++ b/halo2_gadgets/src/sha256/table16/compression/subregion_initial.rs
@@ -39,6 +39,23 @@ impl CompressionConfig {
         let d =
             self.assign_word_halves_dense(region, d_row, a_7, d_row + 1, a_7, Value::known(iv[3]))?;
 
+        // Fix all words to the initialization vector
+        for (word, iv) in [
+            &a.dense_halves,
+            &b.dense_halves,
+            &c.dense_halves,
+            &d,
+            &e.dense_halves,
+            &f.dense_halves,
+            &g.dense_halves,
+            &h,
+        ]
+        .iter()
+        .zip(iv.iter())
+        {
+            self.constrain_constant_halves(region, word, *iv)?;
+        }
+
         Ok(State::new(
             StateWord::A(a),
             StateWord::B(b),
@@ -76,7 +93,8 @@ impl CompressionConfig {
         // Assign H
         let prev_h = h;
         let h_row = get_h_row(RoundIdx::Init);
-        let h = self.assign_word_halves_dense(region, h_row, a_7, h_row + 1, a_7, prev_h.value())?;
+        let h =
+            self.assign_word_halves_dense(region, h_row, a_7, h_row + 1, a_7, prev_h.value())?;
         self.constrain_equal_halves(region, &prev_h, &h)?;
 
         // Decompose A into (2, 11, 9, 10)-bit chunks
@@ -95,7 +113,8 @@ impl CompressionConfig {
         // Assign D
         let prev_d = d;
         let d_row = get_d_row(RoundIdx::Init);
-        let d = self.assign_word_halves_dense(region, d_row, a_7, d_row + 1, a_7, prev_d.value())?;
+        let d =
+            self.assign_word_halves_dense(region, d_row, a_7, d_row + 1, a_7, prev_d.value())?;
         self.constrain_equal_halves(region, &prev_d, &d)?;
 
         Ok(State::new(
@@ -110,6 +129,17 @@ impl CompressionConfig {
         ))
     }
 
+    // Constrain a word to a constant.
+    fn constrain_constant_halves(
+        &self,
+        region: &mut Region<'_, pallas::Base>,
+        word: &RoundWordDense,
+        constant: u32,
+    ) -> Result<(), Error> {
+        region.constrain_constant(word.0.cell(), pallas::Base::from(constant as u16 as u64))?;
+        region.constrain_constant(word.1.cell(), pallas::Base::from((constant >> 16) as u64))
+    }
+
     // Tie a word of the new initial state to the word of the state it continues.
     fn constrain_equal_halves(
         &self,
-- 
2.43.0

