#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})

p("P01", "DPF keys share the point function at every domain point",
  "For every domain size, every alpha inside it and every valid beta, the two keys produced by key generation evaluate, at every point x of the domain, to two values whose sum in the value group is beta if x equals alpha and zero otherwise. This holds at every hierarchy level of an incremental DPF with the level's beta and the level's prefix of alpha, for every value the random seeds may take.",
  ["inputs", "configurations"], "all log domain sizes 0..128, alpha, beta, evaluation points, hierarchies and random seeds",
  "Tests evaluate a few fixed alphas, domain sizes and betas; the statement quantifies over 2^128 points, all seeds and all level configurations, and the off-path cancellation is exponential in the depth.",
  ["dpf/distributed_point_function.cc", "dpf/distributed_point_function.h", "dpf/internal/value_type_helpers.h"],
  [("correction-word computation per tree level", "DistributedPointFunction::GenerateNext"),
   ("value correction", "dpf_internal::ComputeValueCorrectionFor, DistributedPointFunction::ComputeValueCorrection"),
   ("tree walk", "DistributedPointFunction::EvaluateAtImpl, EvaluateSeeds")],
  [("seeds/control_bits", "the per-party (seed, control bit) pair of the current tree node: equal for both parties off the path of alpha, with differing control bits on it", "GenerateNext")],
  ["GenerateKeys", "GenerateKeysIncremental", "EvaluateAt", "EvaluateUntil"])
p("P02", "All DPF evaluation entry points agree with the tree semantics",
  "Full expansion, prefix-wise incremental expansion, point evaluation with or without a context, and multi-key evaluation return, for every key, hierarchy level, set of prefixes or points, exactly the value the DPF tree assigns to that leaf, in the order of the request. Results never depend on batching, on how many levels are evaluated per call, or on duplicated or unsorted prefixes.",
  ["inputs", "histories"], "all keys, all sequences of context calls, all prefix/point lists",
  "Tests compare a handful of level-step sequences and prefix sets; equality must hold for every list length, order, duplication and level history.",
  ["dpf/distributed_point_function.cc", "dpf/distributed_point_function.h"],
  [("breadth-first expansion", "DistributedPointFunction::ExpandSeeds"), ("partial evaluations", "ComputePartialEvaluations"), ("prefix de-duplication", "EvaluateUntil"), ("multi-key evaluation", "EvaluateAndApply")],
  [("EvaluationContext", "previous level, saved partial evaluations and their prefixes", "dpf/distributed_point_function.proto")],
  ["EvaluateUntil", "EvaluateNext", "EvaluateAt", "EvaluateAndApply"])
p("P03", "Batched seed evaluation equals the one-seed-at-a-time tree walk",
  "Evaluating any number of seeds along any paths through any number of levels gives, for each seed independently, the same seed and control bit as walking the levels one at a time with the correction words that belong to that seed, whether the correction words are shared by all seeds or given per seed. The vectorised and the portable implementation agree, output may overlap input, and mismatching correction-word counts are rejected.",
  ["inputs", "configurations"], "all batch sizes (including partial batches), level counts, paths, path shifts, and both correction-word layouts",
  "Tests sample a few batch sizes and random paths; remainders, level/bit indexing and layouts interact for every size.",
  ["dpf/internal/evaluate_prg_hwy.cc", "dpf/internal/evaluate_prg_hwy.h"],
  [("portable loop", "EvaluateSeedsNoHwy"), ("SIMD loop", "EvaluateSeedsHwy"), ("dispatch and validation", "EvaluateSeeds")], (), ["dpf_internal::EvaluateSeeds"])
p("P04", "The fixed-key hash is AES-based, length-agnostic and positionwise",
  "For every key and every input sequence of any length, output block i equals AES(sigma(x_i)) xor sigma(x_i) with sigma(hi,lo) = (hi xor lo, hi), independent of the other blocks and of batching, also when input and output are the same buffer. Inputs and outputs of different lengths are rejected and nothing outside the output range is written.",
  ["inputs"], "all keys, all lengths, all block values, aliased and distinct buffers",
  "Tests use a few fixed lengths around one batch; batching remainders must be right for all lengths.",
  ["dpf/aes_128_fixed_key_hash.cc", "dpf/aes_128_fixed_key_hash.h"],
  [("batching loop", "Aes128FixedKeyHash::Evaluate"), ("key setup", "Aes128FixedKeyHash::Create")], (), ["Aes128FixedKeyHash::Evaluate"])
p("P05", "IntModN is arithmetic modulo N and always reduced",
  "For every supported base integer and modulus N, constructing, assigning, adding, subtracting and negating IntModN values yields the mathematical result modulo N, and the stored representative is always in [0, N). No intermediate overflow of the base type may change the result.",
  ["inputs", "configurations"], "all base integer widths, all moduli N representable in them, all operand values",
  "Tests use one or two moduli and random operands; overflow appears only near the top of the base type.",
  ["dpf/int_mod_n.h", "dpf/int_mod_n.cc"],
  [("modular add/sub", "IntModN::AddBaseInteger, SubtractBaseInteger"), ("reduction on construction", "IntModN::IntModN")],
  [("value_", "canonical representative, < N", "IntModN")], ["IntModN operators"])
p("P06", "IntModN sampling is the documented base-N decomposition with checks",
  "Sampling n elements from a byte string returns the successive remainders modulo N of the running 128-bit block with fresh bytes shifted in between samples, each sample being in [0, N), and consumes exactly the advertised number of bytes. The advertised byte count is accepted, and fewer bytes or a too small security level are rejected, and parameters violating sigma = security_parameter conditions are refused.",
  ["inputs", "configurations"], "all byte strings, sample counts and moduli",
  "Tests check a few fixed vectors; the recurrence must hold for every block content and count.",
  ["dpf/int_mod_n.h", "dpf/int_mod_n.cc", "dpf/internal/value_type_helpers.h"],
  [("sampling recurrence", "IntModN::UnsafeSampleFromBytes, IntModN::SampleFromBytes"), ("parameter checks", "IntModNBase::CheckParameters, GetNumBytesRequired")], (), ["IntModN::SampleFromBytes"])
p("P07", "Values survive the Value-message and byte encodings unchanged",
  "For every supported value type and every value v, decoding the encoded message of v returns v; decoding a message whose kind, arity or range does not fit the type is rejected instead of truncated. Converting PRG bytes to elements reads little-endian, element k of a block coming from the k-th group of bytes, for every element width.",
  ["inputs", "configurations"], "all values of integer, 128-bit, tuple, XOR and modular types; all message contents",
  "Tests round-trip a few numbers per type; out-of-range messages with high bits set are not enumerated.",
  ["dpf/internal/value_type_helpers.h", "dpf/internal/value_type_helpers.cc"],
  [("per-type helpers", "ValueTypeHelper<T>::FromValue, ToValue"), ("integer packing", "Uint128ToValueInteger, ValueIntegerToUint128, Uint128To"), ("block decoding", "ConvertBytesTo, ConvertBytesToArrayOf")], (), ["FromValue", "ToValue"])
p("P08", "Tuple and XOR value types form groups elementwise",
  "For every component type and all values, addition of XOR-wrapped values is bitwise exclusive-or and each value is its own negative; tuple addition, subtraction and negation act on every component independently with that component's operation. Hence addition is associative and commutative, a + (-a) is zero, and a - b equals a + (-b).",
  ["inputs", "configurations"], "all operand values, tuples of the component types",
  "Tests check single examples; the group laws quantify over all operands.",
  ["dpf/tuple.h", "dpf/xor_wrapper.h"],
  [("elementwise operators", "Tuple::operator+=, -=, unary -"), ("xor operators", "XorWrapper operators")], (), ["operator+", "operator-", "operator=="])
p("P09", "Invalid parameters, keys, values and contexts are rejected, valid ones pass",
  "Parameter lists are accepted exactly when non-empty, every log domain size is in 0..128 and strictly increasing, value types are well formed and security parameters lie in [0,128] and are not NaN. A key is accepted exactly when its seed is present, it has one correction word per tree level, every hierarchy level below the last has its value correction present in the correction word of its tree level, and the last level's is present. An evaluation context is accepted only if its parameters equal the generator's, its key is accepted, its previous hierarchy level lies below the last one (the context is not finished) and its partial evaluations, if any, belong to a level in 0..previous level. Values are accepted exactly when they match the level's type and range.",
  ["inputs", "configurations"], "all parameter lists, keys, contexts and values",
  "Tests try single mutations; the boundary conditions combine over all messages.",
  ["dpf/internal/proto_validator.cc", "dpf/internal/proto_validator.h", "dpf/internal/value_type_helpers.cc"],
  [("validator", "ProtoValidator::Create, ValidateParameters, ValidateDpfKey, ValidateEvaluationContext, ValidateValue, ValidateValueType")], (), ["DistributedPointFunction::CreateIncremental", "CreateEvaluationContext"])
p("P10", "Tree geometry: levels, block packing and index splitting are consistent",
  "For every accepted parameter list each hierarchy level is assigned a tree level, strictly increasing and deep enough that all its elements fit, the two level maps are mutually inverse, and the tree has exactly one more level than the last assigned one. Splitting a domain index into tree index and block index loses nothing: every index is recovered uniquely and its block index is below the number of elements per block.",
  ["inputs", "configurations"], "all accepted parameter lists, all domain indices",
  "Tests check a few configurations; geometry interacts across all level/bit-size combinations.",
  ["dpf/internal/proto_validator.cc", "dpf/distributed_point_function.cc", "dpf/internal/value_type_helpers.cc"],
  [("level assignment", "ProtoValidator::Create"), ("index split", "DomainToTreeIndex, DomainToBlockIndex"), ("bit sizes", "BitsNeeded")],
  [("tree_to_hierarchy/hierarchy_to_tree", "mutually inverse level maps", "ProtoValidator")], ["EvaluateAt"])
p("P11", "DCF keys share the comparison function at every domain point",
  "For every domain size, alpha and beta, the two distributed comparison function keys evaluate at every point x to shares of beta if x is less than alpha and of zero otherwise, for every supported value type. Evaluating many keys and points in one batch gives the same results as evaluating each alone.",
  ["inputs", "configurations"], "all domain sizes, alpha, beta, points, batch compositions and value types",
  "Tests sweep only small domains with one value type family.",
  ["dcf/distributed_comparison_function.cc", "dcf/distributed_comparison_function.h"],
  [("per-level betas", "DistributedComparisonFunction::GenerateKeys"), ("prefix accumulation", "DistributedComparisonFunction::BatchEvaluate")], (), ["GenerateKeys", "Evaluate", "BatchEvaluate"])
p("P12", "Interval-containment gate outputs shares of containment for all inputs",
  "For every group size, interval list, input mask and output masks, the two parties' outputs on a masked input, minus the output mask, sum modulo the group size to 1 for each interval that contains the unmasked input and 0 for each that does not. Malformed intervals, masks and inputs outside the group are rejected.",
  ["inputs", "configurations"], "all group sizes, intervals, masks and inputs",
  "Tests sweep few intervals and masks; wrap-around cases depend on the order of mask, bounds and input.",
  ["dcf/fss_gates/multiple_interval_containment.cc", "dcf/fss_gates/multiple_interval_containment.h"],
  [("key generation", "MultipleIntervalContainmentGate::Gen"), ("batched evaluation", "MultipleIntervalContainmentGate::BatchEval")], (), ["Gen", "Eval", "BatchEval"])
p("P13", "Cuckoo table keeps every inserted element reachable and loses none",
  "After any sequence of successful insertions the table buckets and the stash together hold exactly the inserted elements with their multiplicity, every bucketed element sits in a bucket one of the hash functions assigns to it, and the stash never exceeds its limit. Invalid construction parameters are rejected and bucket indices always stay inside the table.",
  ["histories", "inputs"], "all insertion sequences, hash functions, table sizes, relocation and stash limits, and random eviction choices",
  "Tests insert a few fixed elements; evictions depend on random choices and long relocation chains.",
  ["pir/hashing/cuckoo_hash_table.cc", "pir/hashing/cuckoo_hash_table.h"],
  [("insert with eviction", "CuckooHashTable::Insert"), ("validation", "CuckooHashTable::Create")],
  [("buckets_, stash_", "the stored elements", "CuckooHashTable")], ["GetTable", "GetStash"])
p("P14", "Simple hash table inserts into all assigned buckets or none, within limits",
  "Each successful insertion appends the element once per hash function, to exactly the bucket that function assigns, leaving everything else unchanged, and a failed insertion changes nothing. If a maximum bucket size is configured no bucket ever exceeds it; invalid construction parameters are rejected.",
  ["histories", "inputs"], "all insertion sequences, hash functions (including colliding ones), bucket counts and limits",
  "Tests use few elements and no colliding hash functions at the limit.",
  ["pir/hashing/simple_hash_table.cc", "pir/hashing/simple_hash_table.h"],
  [("two-phase insert", "SimpleHashTable::Insert"), ("validation", "SimpleHashTable::Create")],
  [("table_", "bucket contents", "SimpleHashTable")], ["GetTable"])
p("P15", "Multiple-choice table puts each element into one least-full candidate bucket",
  "Each successful insertion appends the element exactly once, to a candidate bucket of minimal current size among those the hash functions assign, leaving all other buckets unchanged. If a maximum bucket size is configured no bucket exceeds it and an insertion that would do so fails without effect; invalid construction parameters are rejected.",
  ["histories", "inputs"], "all insertion sequences, hash functions, bucket counts and limits",
  "Tests sample few insertions and never check minimality for all size profiles.",
  ["pir/hashing/multiple_choice_hash_table.cc", "pir/hashing/multiple_choice_hash_table.h"],
  [("choice of bucket", "MultipleChoiceHashTable::Insert"), ("validation", "MultipleChoiceHashTable::Create")],
  [("table_", "bucket contents", "MultipleChoiceHashTable")], ["GetTable"])
p("P16", "Hash functions are deterministic, in range, and independent of the caller",
  "Every hash function obtained from any family maps every input and every positive bound into [0, bound), depends only on seed, input and bound, and equals the documented reduction of the seeded digest. Creating k functions from a family yields the family applied to the k successive index seeds, and wrapping a family with a seed prefixes that seed; family configurations with no seed or unknown family are rejected.",
  ["inputs", "configurations"], "all seeds, inputs, bounds, counts and configurations",
  "Tests use small bounds and a few inputs; the reduction of a 256-bit digest must be right for every digest.",
  ["pir/hashing/sha256_hash_family.cc", "pir/hashing/farm_hash_family.cc", "pir/hashing/hash_family.cc", "pir/hashing/hash_family_config.cc"],
  [("digest reduction", "SHA256HashFunction::operator()"), ("farmhash reduction", "FarmHashFunction::operator()"), ("function lists and seed wrapping", "CreateHashFunctions, WrapWithSeed"), ("configuration", "CreateHashFamilyFromConfig")], (), ["HashFunction"])
p("P17", "Seeded generators give a reproducible stream independent of chunking",
  "Two generators created from the same seed and nonce produce the same byte stream, which is the AES-128-CTR key stream of that seed and nonce, no matter how the stream is split into requests; every request returns exactly the requested number of bytes. Seeds or nonces of the wrong length are rejected.",
  ["histories", "inputs"], "all seeds, nonces and request-length sequences",
  "Tests request a few fixed lengths; carried-over counter state matters for all split points.",
  ["pir/prng/aes_128_ctr_seeded_prng.cc", "pir/prng/aes_128_ctr_seeded_prng.h"],
  [("key-stream state", "Aes128CtrSeededPrng::GetRandomBytes"), ("construction", "Aes128CtrSeededPrng::CreateWithNonce")],
  [("ivec_, ecount_buf_, num_", "position in the key stream", "Aes128CtrSeededPrng")], ["GetRandomBytes"])
p("P18", "The PIR inner product is the XOR of exactly the selected records",
  "For every list of byte strings and every list of bit-packed selection vectors the inner product returns, per selection vector, the XOR of exactly those records whose selection bit is set (record i is bit i mod 128 of block i / 128), each zero-padded to the maximum record size. Selection vectors too short for the records are rejected, and the vectorised and portable implementations agree.",
  ["inputs"], "all record counts and sizes (including empty and odd sizes), all selection vectors",
  "Tests use a few sizes; tail bytes and tail blocks must be right for every size.",
  ["pir/internal/inner_product_hwy.cc", "pir/internal/inner_product_hwy.h"],
  [("validation and dispatch", "InnerProduct"), ("portable loop", "InnerProductNoHwy"), ("SIMD loop", "InnerProductHwy")], (), ["InnerProduct"])
p("P19", "A dense database holds exactly the inserted records, aligned, and builds once",
  "After inserting any records the built database lists exactly those records in insertion order with unchanged bytes, reports their number and maximum size, and stores non-empty records at 16-byte aligned, non-overlapping places that stay valid. A builder builds at most once until cleared, a cleared builder is empty, and a cloned builder is independent of the original.",
  ["histories", "inputs"], "all record lists and all interleavings of insert, clear, clone and build",
  "Tests insert fixed record lists; buffer arithmetic must be right for all size sequences.",
  ["pir/dense_dpf_pir_database.cc", "pir/dense_dpf_pir_database.h"],
  [("aligned append", "DenseDpfPirDatabase::Append"), ("builder", "DenseDpfPirDatabase::Builder::Insert, Clear, Clone, Build")],
  [("total_database_bytes_", "sum of aligned record sizes", "Builder"), ("content_views_", "views into the buffer", "DenseDpfPirDatabase")], ["content", "InnerProductWith"])
p("P20", "Hashed databases place every record in the bucket a client will query",
  "A cuckoo-hashed database stores each key and its value at the same index, that index being the key's place in the cuckoo table, and empty strings elsewhere; a simple-hashed database stores each key with its value in the bucket its hash function assigns, so that a query for any stored key can find it and nothing is lost. Empty keys, repeated builds and non-positive bucket or hash counts are rejected, sizes are reported truthfully, and building twice from the same records and parameters gives the same layout.",
  ["histories", "inputs", "configurations"], "all record sets, hashing configurations and builder histories",
  "Tests build small databases with one family.",
  ["pir/cuckoo_hashed_dpf_pir_database.cc", "pir/simple_hashed_dpf_pir_database.cc"],
  [("cuckoo build", "CuckooHashedDpfPirDatabase::Builder::Build"), ("simple build", "SimpleHashedDpfPirDatabase::Builder::Build")], (), ["Build", "InnerProductWith"])
p("P21", "PIR requests select exactly the queried index and responses decode to it",
  "For every database size and every in-range index list, the keys a dense client sends to the two servers are DPF shares, over the domain of selection blocks, of the block that has only the queried bit set; out-of-range indices are rejected. Handling the response with the saved client state removes the one-time pad and returns the records for the indices in request order; malformed responses and states are rejected. The sparse clients return, for every queried key not ending in a NUL byte, exactly the value stored with that key or nothing if it is not stored.",
  ["inputs", "configurations"], "all database sizes, index lists, seeds and responses",
  "Tests query few indices in small databases.",
  ["pir/dense_dpf_pir_client.cc", "pir/cuckoo_hashing_sparse_dpf_pir_client.cc", "pir/simple_hashing_sparse_dpf_pir_client.cc"],
  [("request creation", "DenseDpfPirClient::CreatePlainRequests, CreateRequest"), ("response handling", "DenseDpfPirClient::HandleResponse")], (), ["CreateRequest", "HandleResponse"])
p("P22", "PIR server roles combine, mask and validate responses correctly",
  "A leader's response is the bytewise XOR of its own and the helper's masked response, a helper's response is its plain response XORed with the one-time pad expanded from the client's seed in order, and a plain server answers only plain requests. Requests of the wrong kind for the role, mismatching response counts or sizes, an unexecuted callback, wrong key counts and missing fields are rejected.",
  ["inputs", "histories", "configurations"], "all requests, roles, response counts and lengths",
  "Tests use few responses of equal length with cooperating callbacks.",
  ["pir/dpf_pir_server.cc", "pir/dense_dpf_pir_server.cc", "pir/cuckoo_hashing_sparse_dpf_pir_server.cc", "pir/simple_hashing_sparse_dpf_pir_server.cc"],
  [("leader", "DpfPirServer::HandleLeaderRequest"), ("helper", "DpfPirServer::HandleHelperRequest"), ("plain", "DenseDpfPirServer::HandlePlainRequest")], (), ["HandleRequest"])
p("P23", "Random integers use all and only fresh bytes of the requested width",
  "Each call for an 8, 64 or 128-bit random integer returns exactly that many bits taken from that many newly drawn bytes of the underlying source, so that every value of the type can occur and no byte is used twice.",
  ["inputs"], "all outcomes of the random source, all widths",
  "Tests only check that a few draws differ.",
  ["dcf/fss_gates/prng/basic_rng.h"],
  [("draw", "BasicRng::Rand8, Rand16, Rand32, Rand64, Rand128")], (), ["SecurePrng"])
p("P24", "Spans over values or pointers index the same elements",
  "A view over a sequence of values or over a sequence of pointers to values reports the sequence's size and at every index refers to the very element of the underlying sequence, for every length and both constructions.",
  ["inputs"], "all sequence lengths and indices, both representations",
  "Tests use short fixed sequences.",
  ["dpf/internal/maybe_deref_span.h"],
  [("dispatch on representation", "MaybeDerefSpan::operator[], size")], (), ["MaybeDerefSpan"])
p("P25", "The reference inner product matches the XOR definition on unpacked bits",
  "For every list of records and selection bits the unpacked inner product returns the XOR of exactly the selected records, padded to the longest record, and rejects lists of different lengths. Packing selection bits sets, for every index, bit index mod 128 of block index / 128 and no other bit.",
  ["inputs"], "all record lists, selection vectors and lengths",
  "Tests cover a few short vectors.",
  ["pir/testing/pir_selection_bits.cc", "pir/testing/pir_selection_bits.h"],
  [("reference product", "InnerProductWithUnpacked"), ("packing", "PackSelectionBits")], (), ["InnerProductWithUnpacked", "PackSelectionBits"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
