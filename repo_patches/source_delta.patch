From fd3a810bd7a2e4637df06be7129372af8ad54c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:51 +0000
Subject: [PATCH 01/19] fix: BitsNeeded counts every element of a tuple mixing
 IntModN and other types

BitsNeeded indexed elements 0..num_other-1 instead of the elements that are not
of type IntModN, and ignored that sampling such tuples fills up the block after
every element but the last.  For example Tuple<IntModN<u32>, Tuple<u64, u64,
u64>> was given two blocks although sampling reads 36 bytes, so that key
generation and evaluation crashed.
---
 dpf/internal/value_type_helpers.cc | 47 +++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/dpf/internal/value_type_helpers.cc b/dpf/internal/value_type_helpers.cc
index 0704cce..a478cd6 100644
--- a/dpf/internal/value_type_helpers.cc
+++ b/dpf/internal/value_type_helpers.cc
@@ -16,6 +16,7 @@
 
 #include <stdint.h>
 
+#include <algorithm>
 #include <cmath>
 #include <string>
 
@@ -30,6 +31,34 @@
 namespace distributed_point_functions {
 namespace dpf_internal {
 
+namespace {
+
+// Adds the bit sizes of all elements of `value_type` (including the elements of
+// nested tuples) to `total_bits`, and sets `last_bits` to the size of the last
+// one. Returns whether any of the elements is of type IntModN.
+bool AddElementBits(const ValueType& value_type, int& total_bits,
+                    int& last_bits) {
+  if (value_type.type_case() == ValueType::kTuple) {
+    bool has_int_mod_n = false;
+    for (const ValueType& el : value_type.tuple().elements()) {
+      has_int_mod_n |= AddElementBits(el, total_bits, last_bits);
+    }
+    return has_int_mod_n;
+  }
+  const bool is_int_mod_n = value_type.type_case() == ValueType::kIntModN;
+  if (is_int_mod_n) {
+    last_bits = value_type.int_mod_n().base_integer().bitsize();
+  } else if (value_type.type_case() == ValueType::kXorWrapper) {
+    last_bits = value_type.xor_wrapper().bitsize();
+  } else {
+    last_bits = value_type.integer().bitsize();
+  }
+  total_bits += last_bits;
+  return is_int_mod_n;
+}
+
+}  // namespace
+
 absl::StatusOr<bool> ValueTypesAreEqual(const ValueType& lhs,
                                         const ValueType& rhs) {
   if (lhs.type_case() == ValueType::TypeCase::TYPE_NOT_SET ||
@@ -103,12 +132,14 @@ absl::StatusOr<int> BitsNeeded(const ValueType& value_type,
       }
     }
     if (num_other > 0) {
-      for (int i = 0; i < num_other; ++i) {
+      for (const ValueType& el : value_type.tuple().elements()) {
+        if (el.type_case() == ValueType::kIntModN) {
+          continue;  // Accounted for below.
+        }
         double per_element_security_parameter =
             security_parameter + std::log2(static_cast<double>(num_other));
         DPF_ASSIGN_OR_RETURN(int el_bitsize,
-                             BitsNeeded(value_type.tuple().elements(i),
-                                        per_element_security_parameter));
+                             BitsNeeded(el, per_element_security_parameter));
         bitsize_other += el_bitsize;
       }
     }
@@ -123,7 +154,15 @@ absl::StatusOr<int> BitsNeeded(const ValueType& value_type,
               modulus, security_parameter));
       bitsize_ints_mod_n = bytes_needed_ints_mod_n * 8;
     }
-    return bitsize_ints_mod_n + bitsize_other;
+    int bitsize = bitsize_ints_mod_n + bitsize_other;
+    // Tuples containing elements of type IntModN are sampled from a 128-bit
+    // block, which is filled up with as many bits as were used after every
+    // element but the last. See `ValueTypeHelper::SampleAndUpdateBytes`.
+    int total_bits = 0, last_bits = 0;
+    if (AddElementBits(value_type, total_bits, last_bits)) {
+      bitsize = std::max(bitsize, 128 + total_bits - last_bits);
+    }
+    return bitsize;
   } else if (value_type.type_case() == ValueType::kIntModN) {
     DPF_ASSIGN_OR_RETURN(
         absl::uint128 modulus,
-- 
2.43.0


From fe2e4b1cdb4b364697ad409755721680e727c7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 02/19] fix: EvaluateAndApply accepts an empty list of keys

hwy::AllocateAligned aborts the process when asked for zero elements, so
evaluating an empty batch of (DPF or DCF) keys crashed instead of doing nothing.
---
 dpf/distributed_point_function.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index 6cd1c56..47cd193 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -1093,6 +1093,9 @@ absl::Status DistributedPointFunction::EvaluateAndApply(
   }
 
   const int64_t num_keys = keys.size();
+  if (num_keys == 0) {
+    return absl::OkStatus();  // Nothing to do.
+  }
   const int num_hierarchy_levels = parameters_.size();
   DpfExpansion eval;
   eval.control_bits.resize(num_keys);
-- 
2.43.0


From 77155e7701ab72349da357ce9f98e59a33fe4de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 03/19] fix: DCF key generation zeroes XorWrapper values

SetToZero had no case for XorWrapper values, so every level carried beta and the
two keys of a DCF over XorWrapper values did not share the comparison function.
---
 dcf/distributed_comparison_function.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dcf/distributed_comparison_function.cc b/dcf/distributed_comparison_function.cc
index 40f9c36..db0250b 100644
--- a/dcf/distributed_comparison_function.cc
+++ b/dcf/distributed_comparison_function.cc
@@ -34,6 +34,8 @@ void SetToZero(Value& value) {
     value.mutable_integer()->set_value_uint64(0);
   } else if (value.value_case() == Value::kIntModN) {
     value.mutable_int_mod_n()->set_value_uint64(0);
+  } else if (value.value_case() == Value::kXorWrapper) {
+    value.mutable_xor_wrapper()->set_value_uint64(0);
   } else if (value.value_case() == Value::kTuple) {
     for (int i = 0; i < value.tuple().elements_size(); ++i) {
       SetToZero(*(value.mutable_tuple()->mutable_elements(i)));
-- 
2.43.0


From 01754e1e7d9d7ba66a3aae5e19eb53bcad2f3cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 04/19] fix: DCF creation rejects log_domain_size 129

The hierarchy levels of the underlying DPF have log domain sizes 0 to
log_domain_size - 1, so its validation accepted 129, for which GenerateKeys and
BatchEvaluate shift a 128-bit integer by 128.
---
 dcf/distributed_comparison_function.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dcf/distributed_comparison_function.cc b/dcf/distributed_comparison_function.cc
index db0250b..2450b06 100644
--- a/dcf/distributed_comparison_function.cc
+++ b/dcf/distributed_comparison_function.cc
@@ -55,6 +55,9 @@ DistributedComparisonFunction::Create(const DcfParameters& parameters) {
   if (parameters.parameters().log_domain_size() < 1) {
     return absl::InvalidArgumentError("A DCF must have log_domain_size >= 1");
   }
+  if (parameters.parameters().log_domain_size() > 128) {
+    return absl::InvalidArgumentError("A DCF must have log_domain_size <= 128");
+  }
 
   // Create parameter vector for the incremental DPF.
   std::vector<DpfParameters> dpf_parameters(
-- 
2.43.0


From 4c562ccb5f3c3a26413da8674f878e4edb7e7e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 05/19] fix: interval bounds given as 64-bit integers are not
 read as zero

Interval bounds are of type Value.Integer, but only value_uint128 was read, so
that bounds set as value_uint64 silently became 0.
---
 .../multiple_interval_containment.cc          | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/dcf/fss_gates/multiple_interval_containment.cc b/dcf/fss_gates/multiple_interval_containment.cc
index 174d546..019f839 100644
--- a/dcf/fss_gates/multiple_interval_containment.cc
+++ b/dcf/fss_gates/multiple_interval_containment.cc
@@ -29,6 +29,7 @@
 #include "dcf/fss_gates/prng/basic_rng.h"
 #include "dpf/distributed_point_function.pb.h"
 #include "dpf/internal/maybe_deref_span.h"
+#include "dpf/internal/value_type_helpers.h"
 #include "dpf/status_macros.h"
 
 namespace distributed_point_functions {
@@ -56,13 +57,14 @@ MultipleIntervalContainmentGate::Create(const MicParameters& mic_parameters) {
       return absl::InvalidArgumentError("Intervals should be non-empty");
     }
 
-    absl::uint128 p = absl::MakeUint128(
-        mic_parameters.intervals(i).lower_bound().value_uint128().high(),
-        mic_parameters.intervals(i).lower_bound().value_uint128().low());
+    // The bounds may be given as 64-bit or 128-bit integers.
+    DPF_ASSIGN_OR_RETURN(absl::uint128 p,
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters.intervals(i).lower_bound()));
 
-    absl::uint128 q = absl::MakeUint128(
-        mic_parameters.intervals(i).upper_bound().value_uint128().high(),
-        mic_parameters.intervals(i).upper_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(absl::uint128 q,
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters.intervals(i).upper_bound()));
 
     // Return error if the intervals are not valid group elements.
     if (p < 0 || p >= N) {
@@ -154,13 +156,13 @@ absl::StatusOr<std::pair<MicKey, MicKey>> MultipleIntervalContainmentGate::Gen(
 
   // Line 3
   for (int i = 0; i < mic_parameters_.intervals_size(); i++) {
-    absl::uint128 p = absl::MakeUint128(
-        mic_parameters_.intervals(i).lower_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).lower_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(absl::uint128 p,
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters_.intervals(i).lower_bound()));
 
-    absl::uint128 q = absl::MakeUint128(
-        mic_parameters_.intervals(i).upper_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).upper_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(absl::uint128 q,
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters_.intervals(i).upper_bound()));
 
     // Line 4
     absl::uint128 q_prime = (q + 1) % N;
@@ -243,13 +245,11 @@ MultipleIntervalContainmentGate::BatchEval(
   // https://eprint.iacr.org/2020/1392 Fig. 14 Eval procedure.
   for (int i = 0; i < num_intervals; ++i) {
     // Line 2
-    p[i] = absl::MakeUint128(
-        mic_parameters_.intervals(i).lower_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).lower_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(p[i], dpf_internal::ValueIntegerToUint128(
+                                   mic_parameters_.intervals(i).lower_bound()));
 
-    q[i] = absl::MakeUint128(
-        mic_parameters_.intervals(i).upper_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).upper_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(q[i], dpf_internal::ValueIntegerToUint128(
+                                   mic_parameters_.intervals(i).upper_bound()));
 
     // Line 3
     q_prime[i] = (q[i] + 1) % N;
-- 
2.43.0


From 6e68dad123be7fe32b1de02a9e2ff466b29a8019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 06/19] fix: MIC gate evaluation checks mask shares and accepts
 empty batches

A key without an output mask share for every interval made BatchEval read past
the end of a repeated field although invalid keys are to be rejected, and an
empty list of keys or intervals aborted in hwy::AllocateAligned.
---
 dcf/fss_gates/multiple_interval_containment.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dcf/fss_gates/multiple_interval_containment.cc b/dcf/fss_gates/multiple_interval_containment.cc
index 019f839..83abfd7 100644
--- a/dcf/fss_gates/multiple_interval_containment.cc
+++ b/dcf/fss_gates/multiple_interval_containment.cc
@@ -231,6 +231,19 @@ MultipleIntervalContainmentGate::BatchEval(
   }
 
   int num_intervals = mic_parameters_.intervals_size();
+
+  // Checking whether all keys have an output mask share for every interval.
+  for (int i = 0; i < keys.size(); i++) {
+    if (keys[i].output_mask_share_size() != num_intervals) {
+      return absl::InvalidArgumentError(
+          "Count of output mask shares should be equal to the number of "
+          "intervals");
+    }
+  }
+  if (keys.size() == 0 || num_intervals == 0) {
+    return std::vector<absl::uint128>();  // Nothing to do.
+  }
+
   std::vector<absl::uint128> p(num_intervals), q(num_intervals),
       q_prime(num_intervals), s_p(keys.size() * num_intervals),
       s_q_prime(keys.size() * num_intervals);
-- 
2.43.0


From 9d99237878b1de89311f14ca122ea4f7fe422c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:40 +0000
Subject: [PATCH 07/19] fix: sampling IntModN with 128-bit base uses only fresh
 bytes after the first sample

---
 dpf/int_mod_n.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dpf/int_mod_n.h b/dpf/int_mod_n.h
index 0f61ed0..adb11d9 100644
--- a/dpf/int_mod_n.h
+++ b/dpf/int_mod_n.h
@@ -175,6 +175,9 @@ class IntModNImpl : public IntModNBase {
         r /= kModulus;
         if (sizeof(BaseInteger) < sizeof(absl::uint128)) {
           r <<= (sizeof(BaseInteger) * 8);
+        } else {
+          // All 128 bits are replaced by fresh randomness.
+          r = 0;
         }
         r |= randomness[i];
       }
-- 
2.43.0


From 7e1513b5a47750acb7d54dcd0021426981e7926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:40 +0000
Subject: [PATCH 08/19] fix: GetNumBytesRequired does not overflow for large
 sample counts

---
 dpf/int_mod_n.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dpf/int_mod_n.cc b/dpf/int_mod_n.cc
index 3b5d992..3c4e16b 100644
--- a/dpf/int_mod_n.cc
+++ b/dpf/int_mod_n.cc
@@ -15,6 +15,8 @@
 #include "dpf/int_mod_n.h"
 
 #include <cmath>
+#include <cstdint>
+#include <limits>
 #include <string>
 
 #include "absl/numeric/int128.h"
@@ -30,7 +32,7 @@ double IntModNBase::GetSecurityLevel(int num_samples, absl::uint128 modulus) {
   return 128 + 3 -
          (std::log2(static_cast<double>(modulus)) +
           std::log2(static_cast<double>(num_samples)) +
-          std::log2(static_cast<double>(num_samples + 1)));
+          std::log2(static_cast<double>(num_samples) + 1));
 }
 
 absl::Status IntModNBase::CheckParameters(int num_samples,
@@ -80,7 +82,15 @@ absl::StatusOr<int> IntModNBase::GetNumBytesRequired(
   const int base_integer_bytes = ((base_integer_bitsize + 7) / 8);
   // We start the sampling by requiring a 128-bit (16 bytes) block, see
   // function `SampleFromBytes`.
-  return 16 + base_integer_bytes * (num_samples - 1);
+  const int64_t num_bytes =
+      16 + int64_t{base_integer_bytes} * (num_samples - 1);
+  if (num_bytes > std::numeric_limits<int>::max()) {
+    return absl::InvalidArgumentError(
+        absl::StrFormat("The number of bytes required for num_samples = %d "
+                        "does not fit in an int",
+                        num_samples));
+  }
+  return static_cast<int>(num_bytes);
 }
 
 }  // namespace dpf_internal
-- 
2.43.0


From 90077e946492f693b4d7cb50cc8f4750ac1aa6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:40 +0000
Subject: [PATCH 09/19] fix: values given as 128-bit integers are range-checked
 against the whole value

---
 dpf/internal/value_type_helpers.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dpf/internal/value_type_helpers.h b/dpf/internal/value_type_helpers.h
index 1e28348..4c62120 100644
--- a/dpf/internal/value_type_helpers.h
+++ b/dpf/internal/value_type_helpers.h
@@ -168,12 +168,11 @@ Value::Integer Uint128ToValueInteger(absl::uint128 input);
 template <typename T, typename = absl::enable_if_t<is_unsigned_integer_v<T>>>
 absl::StatusOr<T> Uint128To(absl::uint128 in) {
   // Check whether value is in range if it's smaller than 128 bits.
-  if (!std::is_same<T, absl::uint128>::value &&
-      absl::Uint128Low64(in) >
-          static_cast<uint64_t>(std::numeric_limits<T>::max())) {
-    return absl::InvalidArgumentError(absl::StrCat(
-        "Value (= ", absl::Uint128Low64(in),
-        ") too large for the given type T (size ", sizeof(T), ")"));
+  if (sizeof(T) < sizeof(absl::uint128) &&
+      in > absl::uint128{std::numeric_limits<T>::max()}) {
+    return absl::InvalidArgumentError(
+        absl::StrFormat("Value (= %d) too large for the given type T (size %d)",
+                        in, sizeof(T)));
   }
   return static_cast<T>(in);
 }
-- 
2.43.0


From a533174f6fbcc632b885b2c7ec894af122ebfb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:06 +0000
Subject: [PATCH 10/19] fix: 128-bit integer values and moduli without a value
 are rejected

---
 dpf/internal/proto_validator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dpf/internal/proto_validator.cc b/dpf/internal/proto_validator.cc
index 678b3de..cff27c9 100644
--- a/dpf/internal/proto_validator.cc
+++ b/dpf/internal/proto_validator.cc
@@ -88,8 +88,8 @@ absl::Status ValidateIntegerType(const ValueType::Integer& type) {
 
 absl::Status ValidateIntegerValue(const Value::Integer& value,
                                   const ValueType::Integer& type) {
+  DPF_ASSIGN_OR_RETURN(absl::uint128 value_128, ValueIntegerToUint128(value));
   if (type.bitsize() < 128) {
-    DPF_ASSIGN_OR_RETURN(absl::uint128 value_128, ValueIntegerToUint128(value));
     if (value_128 >= absl::uint128{1} << type.bitsize()) {
       return absl::InvalidArgumentError(absl::StrFormat(
           "Value (= %d) too large for ValueType with bitsize = %d", value_128,
-- 
2.43.0


From 5b8bddce9c55709ce80b9706ea93b75e39064c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:06 +0000
Subject: [PATCH 11/19] fix: an empty tuple type does not convert -infinity to
 int

---
 dpf/internal/proto_validator.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dpf/internal/proto_validator.cc b/dpf/internal/proto_validator.cc
index cff27c9..aef946a 100644
--- a/dpf/internal/proto_validator.cc
+++ b/dpf/internal/proto_validator.cc
@@ -135,7 +135,11 @@ absl::StatusOr<std::unique_ptr<ProtoValidator>> ProtoValidator::Create(
     DPF_ASSIGN_OR_RETURN(int bits_needed,
                          BitsNeeded(parameters[i].value_type(),
                                     parameters[i].security_parameter()));
-    log_bits_needed = static_cast<int>(std::ceil(std::log2(bits_needed)));
+    // A tuple without elements needs no bits.
+    log_bits_needed =
+        bits_needed > 0
+            ? static_cast<int>(std::ceil(std::log2(bits_needed)))
+            : 0;
 
     // The tree level depends on the domain size and the element size. A single
     // AES block can fit 128 = 2^7 bits, so usually tree_level ==
-- 
2.43.0


From 553b2913c4d88bc6a563959f12001ef60b92b714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:06 +0000
Subject: [PATCH 12/19] fix: partial_evaluations_level of a context is not used
 as an index unchecked

---
 dpf/distributed_point_function.cc | 7 ++++++-
 dpf/internal/proto_validator.cc   | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/dpf/distributed_point_function.cc b/dpf/distributed_point_function.cc
index a3c42d0..934bd31 100644
--- a/dpf/distributed_point_function.cc
+++ b/dpf/distributed_point_function.cc
@@ -381,7 +381,12 @@ DistributedPointFunction::ComputePartialEvaluations(
   int64_t num_prefixes = static_cast<int64_t>(prefixes.size());
 
   DpfExpansion partial_evaluations;
-  int start_level = hierarchy_to_tree_[ctx.partial_evaluations_level()];
+  // `ctx.partial_evaluations_level` is ignored when there are no partial
+  // evaluations.
+  int start_level =
+      ctx.partial_evaluations_size() > 0
+          ? hierarchy_to_tree_[ctx.partial_evaluations_level()]
+          : 0;
   int stop_level = hierarchy_to_tree_[hierarchy_level];
   if (ctx.partial_evaluations_size() > 0 && start_level <= stop_level) {
     // We have partial evaluations from a tree level before the current one.
diff --git a/dpf/internal/proto_validator.cc b/dpf/internal/proto_validator.cc
index aef946a..5574418 100644
--- a/dpf/internal/proto_validator.cc
+++ b/dpf/internal/proto_validator.cc
@@ -267,6 +267,11 @@ absl::Status ProtoValidator::ValidateEvaluationContext(
         "ctx.partial_evaluations_level must be less than or equal to "
         "ctx.previous_hierarchy_level");
   }
+  if (!ctx.partial_evaluations().empty() &&
+      ctx.partial_evaluations_level() < 0) {
+    return absl::InvalidArgumentError(
+        "ctx.partial_evaluations_level must be non-negative");
+  }
   return absl::OkStatus();
 }
 
-- 
2.43.0


From 265a7661be6ae63a8f77ea2792d1f43e59eeccc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 13/19] fix: SimpleHashTable respects max_bucket_size when hash
 functions collide

---
 pir/hashing/simple_hash_table.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pir/hashing/simple_hash_table.cc b/pir/hashing/simple_hash_table.cc
index b03c19e..c652d5a 100644
--- a/pir/hashing/simple_hash_table.cc
+++ b/pir/hashing/simple_hash_table.cc
@@ -14,6 +14,7 @@
 
 #include "pir/hashing/simple_hash_table.h"
 
+#include <algorithm>
 #include <memory>
 #include <string>
 #include <utility>
@@ -56,7 +57,12 @@ absl::Status SimpleHashTable::Insert(absl::string_view input) {
   std::vector<int> hashes(hash_functions_.size());
   for (int i = 0; i < hash_functions_.size(); i++) {
     hashes[i] = hash_functions_[i](input, num_buckets_);
-    if (max_bucket_size_ && table_[hashes[i]].size() >= *max_bucket_size_) {
+    // Several hash functions may assign the same bucket, so count the copies
+    // that are already going to be inserted there.
+    const int num_copies =
+        std::count(hashes.begin(), hashes.begin() + i, hashes[i]);
+    if (max_bucket_size_ &&
+        table_[hashes[i]].size() + num_copies >= *max_bucket_size_) {
       return absl::InternalError(
           "Cannot insert element: maximum bucket size reached");
     }
-- 
2.43.0


From f2ba9546e2cf4c12359ae932f3ab3688181e950d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:20 +0000
Subject: [PATCH 14/19] fix: cuckoo-hashed databases do not lose keys on the
 stash

Keys that could not be placed went to the cuckoo table's unlimited stash,
which is not part of the database, so they silently disappeared.
---
 pir/cuckoo_hashed_dpf_pir_database.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pir/cuckoo_hashed_dpf_pir_database.cc b/pir/cuckoo_hashed_dpf_pir_database.cc
index 8331377..2eb015e 100644
--- a/pir/cuckoo_hashed_dpf_pir_database.cc
+++ b/pir/cuckoo_hashed_dpf_pir_database.cc
@@ -16,6 +16,7 @@
 
 #include <stdint.h>
 
+#include <algorithm>
 #include <cstddef>
 #include <memory>
 #include <string>
@@ -136,12 +137,17 @@ CuckooHashedDpfPirDatabase::Builder::Build() {
     value_database_builder_ = std::make_unique<DenseDpfPirDatabase::Builder>();
   }
 
-  // Cuckoo hash all the keys.
+  // Cuckoo hash all the keys. Elements on the stash would not be part of the
+  // database, so we don't allow one and fail if a key cannot be placed. Use a
+  // minimum number of relocations to make that unlikely for few records.
+  constexpr int64_t kMinRelocations = 128;
   int64_t num_records = records_.size();
   DPF_ASSIGN_OR_RETURN(
       auto cuckoo_hasher,
       CuckooHashTable::Create(std::move(hash_family), params_.num_buckets(),
-                              params_.num_hash_functions(), num_records));
+                              params_.num_hash_functions(),
+                              std::max(num_records, kMinRelocations),
+                              /*max_stash_size=*/0));
   for (const auto& [key, _] : records_) {
     if (key.empty()) {
       return absl::InvalidArgumentError("Key cannot be empty");
-- 
2.43.0


From 28cc27e7072fc176d2463eb8a546f483668d763a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:20 +0000
Subject: [PATCH 15/19] fix: a cuckoo client does not take a shorter stored key
 for the queried key

A response shorter than the query matched if it was a prefix of the query.
---
 pir/cuckoo_hashing_sparse_dpf_pir_client.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
index 9ed0d3b..51aadc3 100644
--- a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
+++ b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
@@ -44,6 +44,7 @@ namespace {
 // zero bytes.
 bool IsPrefixPaddedWithZeros(absl::string_view input,
                              absl::string_view prefix) {
+  if (input.size() < prefix.size()) return false;
   for (int i = 0; i < input.size(); ++i) {
     if (i < prefix.size()) {
       if (input[i] != prefix[i]) return false;
-- 
2.43.0


From 08e04d57301b547f19858b18ff0c2ce4fe98b62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:20 +0000
Subject: [PATCH 16/19] fix: a simple-hashing client rejects buckets with keys
 without values

Such responses were indexed out of bounds.
---
 pir/simple_hashing_sparse_dpf_pir_client.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pir/simple_hashing_sparse_dpf_pir_client.cc b/pir/simple_hashing_sparse_dpf_pir_client.cc
index 33f571c..5cfb08e 100644
--- a/pir/simple_hashing_sparse_dpf_pir_client.cc
+++ b/pir/simple_hashing_sparse_dpf_pir_client.cc
@@ -198,6 +198,10 @@ SimpleHashingSparseDpfPirClient::HandleResponse(
         reinterpret_cast<const uint8_t*>(raw_responses[i].data()),
         raw_responses[i].size());
     bucket.ParseFromCodedStream(&coded_stream);
+    if (bucket.keys_size() != bucket.values_size()) {
+      return absl::InvalidArgumentError(
+          "Bucket in response must have the same number of keys and values");
+    }
     absl::string_view query =
         request_client_state
             .simple_hashing_sparse_dpf_pir_request_client_state()
-- 
2.43.0


From e4317dfb08d37e3907df80a0af9755d8a122b9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:46 +0000
Subject: [PATCH 17/19] fix: simple-hashed databases reject bucket counts
 beyond int

A larger num_buckets was truncated and the wrong number of buckets built.
---
 pir/simple_hashed_dpf_pir_database.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pir/simple_hashed_dpf_pir_database.cc b/pir/simple_hashed_dpf_pir_database.cc
index 903801c..c5845b9 100644
--- a/pir/simple_hashed_dpf_pir_database.cc
+++ b/pir/simple_hashed_dpf_pir_database.cc
@@ -15,6 +15,7 @@
 #include "pir/simple_hashed_dpf_pir_database.h"
 
 #include <cstddef>
+#include <limits>
 #include <memory>
 #include <string>
 #include <utility>
@@ -94,12 +95,15 @@ absl::StatusOr<std::unique_ptr<SimpleHashedDpfPirDatabase::Interface>>
 SimpleHashedDpfPirDatabase::Builder::Build() {
   DPF_RETURN_IF_ERROR(CheckHasNotBeenBuilt(has_been_built_));
   has_been_built_ = true;
+  if (params_.num_buckets() <= 0) {
+    return absl::InvalidArgumentError("`num_buckets` must be positive");
+  }
+  if (params_.num_buckets() > std::numeric_limits<int>::max()) {
+    return absl::InvalidArgumentError("`num_buckets` is too large");
+  }
   int num_buckets = params_.num_buckets();
   int num_records = records_.size();
 
-  if (num_buckets <= 0) {
-    return absl::InvalidArgumentError("`num_buckets` must be positive");
-  }
   DPF_ASSIGN_OR_RETURN(
       HashFamily hash_family,
       CreateHashFamilyFromConfig(params_.hash_family_config()));
-- 
2.43.0


From c73137306177125b1f012789aafbfaa11d482f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:46 +0000
Subject: [PATCH 18/19] fix: sparse clients reject bucket counts beyond int

A larger num_buckets was truncated, so that queries went to wrong buckets or
divided by zero.
---
 pir/cuckoo_hashing_sparse_dpf_pir_client.cc | 4 ++++
 pir/simple_hashing_sparse_dpf_pir_client.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
index 51aadc3..7b15a2a 100644
--- a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
+++ b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
@@ -93,6 +93,10 @@ CuckooHashingSparseDpfPirClient::Create(
   if (params.cuckoo_hashing_sparse_dpf_pir_server_params().num_buckets() <= 0) {
     return absl::InvalidArgumentError("`num_buckets` must be positive");
   }
+  if (params.cuckoo_hashing_sparse_dpf_pir_server_params().num_buckets() >
+      std::numeric_limits<int>::max()) {
+    return absl::InvalidArgumentError("`num_buckets` is too large");
+  }
   if (params.cuckoo_hashing_sparse_dpf_pir_server_params()
           .num_hash_functions() <= 0) {
     return absl::InvalidArgumentError("`num_hash_functions` must be positive");
diff --git a/pir/simple_hashing_sparse_dpf_pir_client.cc b/pir/simple_hashing_sparse_dpf_pir_client.cc
index 5cfb08e..f899a8c 100644
--- a/pir/simple_hashing_sparse_dpf_pir_client.cc
+++ b/pir/simple_hashing_sparse_dpf_pir_client.cc
@@ -93,6 +93,10 @@ SimpleHashingSparseDpfPirClient::Create(
   if (params.simple_hashing_sparse_dpf_pir_server_params().num_buckets() <= 0) {
     return absl::InvalidArgumentError("`num_buckets` must be positive");
   }
+  if (params.simple_hashing_sparse_dpf_pir_server_params().num_buckets() >
+      std::numeric_limits<int>::max()) {
+    return absl::InvalidArgumentError("`num_buckets` is too large");
+  }
 
   DPF_ASSIGN_OR_RETURN(HashFamily hash_family,
                        CreateHashFamilyFromConfig(
-- 
2.43.0


From dda604be0a2239f069093964f8965b2762138738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:46 +0000
Subject: [PATCH 19/19] fix: dense clients do not truncate the number of
 elements to int

In-range indices were rejected for databases of more than 2^31 - 1 elements.
---
 pir/dense_dpf_pir_client.cc | 2 +-
 pir/dense_dpf_pir_client.h  | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pir/dense_dpf_pir_client.cc b/pir/dense_dpf_pir_client.cc
index 12cdb08..7708d12 100644
--- a/pir/dense_dpf_pir_client.cc
+++ b/pir/dense_dpf_pir_client.cc
@@ -42,7 +42,7 @@ namespace distributed_point_functions {
 DenseDpfPirClient::DenseDpfPirClient(
     std::unique_ptr<DistributedPointFunction> dpf,
     EncryptHelperRequestFn encrypter, std::string encryption_context_info,
-    int database_size)
+    int64_t database_size)
     : DpfPirClient(std::move(encrypter), std::move(encryption_context_info)),
       dpf_(std::move(dpf)),
       database_size_(database_size) {}
diff --git a/pir/dense_dpf_pir_client.h b/pir/dense_dpf_pir_client.h
index 3ee4dec..b307f48 100644
--- a/pir/dense_dpf_pir_client.h
+++ b/pir/dense_dpf_pir_client.h
@@ -17,6 +17,8 @@
 #ifndef DISTRIBUTED_POINT_FUNCTIONS_PIR_DENSE_DPF_PIR_CLIENT_H_
 #define DISTRIBUTED_POINT_FUNCTIONS_PIR_DENSE_DPF_PIR_CLIENT_H_
 
+#include <stdint.h>
+
 #include <memory>
 #include <string>
 #include <tuple>
@@ -78,10 +80,10 @@ class DenseDpfPirClient
 
   DenseDpfPirClient(std::unique_ptr<DistributedPointFunction> dpf,
                     EncryptHelperRequestFn encrypter,
-                    std::string encryption_context_info, int database_size);
+                    std::string encryption_context_info, int64_t database_size);
 
   std::unique_ptr<DistributedPointFunction> dpf_;
-  int database_size_;
+  int64_t database_size_;
 };
 
 }  // namespace distributed_point_functions
-- 
2.43.0

