"""What each check runs.  files: contract files; per: options for one file;
secs: seconds of native replay search per harness (quick)."""
HWY = ["dpf/internal/evaluate_prg_hwy.cc", "dpf/internal/get_hwy_mode.cc"]
DPF = ["dpf/int_mod_n.cc", "dpf/aes_128_fixed_key_hash.cc", "dpf/internal/value_type_helpers.cc", "dpf/internal/proto_validator.cc"] + HWY
HASH = ["pir/hashing/hash_family.cc", "pir/hashing/hash_family_config.cc", "pir/hashing/sha256_hash_family.cc"]
DPFS = DPF + ["dpf/distributed_point_function.cc"]
DBS = ["pir/dense_dpf_pir_database.cc", "pir/cuckoo_hashed_dpf_pir_database.cc", "pir/simple_hashed_dpf_pir_database.cc", "pir/internal/inner_product_hwy.cc",
       "pir/hashing/cuckoo_hash_table.cc", "pir/prng/aes_128_ctr_seeded_prng.cc"] + HASH
CLIENTS = ["pir/cuckoo_hashing_sparse_dpf_pir_client.cc", "pir/simple_hashing_sparse_dpf_pir_client.cc"]
PIR = DBS + CLIENTS + ["pir/dpf_pir_server.cc", "pir/dense_dpf_pir_server.cc", "pir/cuckoo_hashing_sparse_dpf_pir_server.cc", "pir/simple_hashing_sparse_dpf_pir_server.cc"]
PIRC = DBS + CLIENTS + ["pir/dense_dpf_pir_client.cc", "pir/dense_dpf_pir_server.cc", "pir/cuckoo_hashing_sparse_dpf_pir_server.cc", "pir/simple_hashing_sparse_dpf_pir_server.cc"]
BOUNDED = "Bounded stand-in, nothing proved: the contract clauses are evaluated on the real code (sanitizers on) for drawn inputs within the time limit: "
EXPL = "contract clauses evaluated on the real code for drawn inputs (bounded stand-in for obligations outside the verifier's reach)"
PROOF = "contract-based deductive verification of the real code (LLVM IR verification conditions, z3); bounded native evaluation of the remaining clauses"
NB = dict(noprove=True, pb=True)
PROPS = {
    "P01": dict(files=["p01_native.cc"], per={"p01_native.cc": dict(NB, extra=DPF)}, technique=EXPL, level="exploration",
                level_note=BOUNDED + 'parameters of up to 4 hierarchy levels, 18 value types, domains up to 2^128, all evaluation entry points.'),
    "P02": dict(files=["p02_native.cc"], per={"p02_native.cc": dict(NB, extra=DPF)}, technique=EXPL, level="exploration",
                level_note=BOUNDED + 'hierarchies of up to 4 levels, prefix sets, batches and repeated evaluation against a map-based reference.'),
    "P11": dict(files=["p11_native.cc"], per={"p11_native.cc": dict(NB, extra=DPF)}, technique=EXPL, level="exploration",
                level_note=BOUNDED + 'DCF instances over the listed value types against the comparison it is defined as.'),
    "P12": dict(files=["p12_native.cc"], per={"p12_native.cc": dict(NB, extra=DPF)}, technique=EXPL, level="exploration",
                level_note=BOUNDED + 'interval gates of up to 64 bits with random intervals and masks.'),
    "P03": dict(files=["p03_native.cc"], per={"p03_native.cc": dict(NB, extra=["dpf/internal/evaluate_prg_hwy.cc"])}, technique=EXPL, level="exploration",
                level_note=BOUNDED + "batches of seeds, paths and correction words compared with the tree defined by AES from OpenSSL's own block function."),
    "P04": dict(files=["p04_aes.cc", "p04_native.cc"], per={"p04_native.cc": dict(NB, extra=[])}, technique=PROOF, level="proof",
                level_note="Proved for every key, every input and every length, the AES batch loop by induction: output block i is AES(sigma(x_i)) xor sigma(x_i), lengths must agree, nothing outside is written, keys of wrong length are refused. AES itself is OpenSSL's (uninterpreted function per block, trusted). Bounded only: input and output in the same buffer (p04_native)."),
    "P06": dict(files=["p06_sampling.cc", "p06_security.cc", "p06_native.cc"], per={"p06_native.cc": dict(NB, extra=["dpf/aes_128_fixed_key_hash.cc", "dpf/internal/value_type_helpers.cc", "dpf/internal/proto_validator.cc", "dpf/distributed_point_function.cc"] + HWY)}, technique=PROOF, level="proof",
                level_note="Proved for any number of samples and byte strings of any length (8 to 128-bit bases, one modulus each), loops by induction, and for all parameters of the checks; log2 is an uninterpreted function, double arithmetic is IEEE. Bounded only: sampling element by element through ValueTypeHelper, other moduli and inline sizes (p06_native)."),
    "P07": dict(files=["p07_native.cc"], per={"p07_native.cc": dict(NB, extra=["dpf/int_mod_n.cc", "dpf/aes_128_fixed_key_hash.cc", "dpf/internal/proto_validator.cc", "dpf/distributed_point_function.cc"] + HWY)}, technique=EXPL, level="exploration",
                level_note=BOUNDED + 'encoding and decoding of values of all types and of malformed value and type messages.'),
    "P09": dict(files=["p09_native.cc"], per={"p09_native.cc": dict(NB, extra=["dpf/int_mod_n.cc", "dpf/aes_128_fixed_key_hash.cc", "dpf/internal/value_type_helpers.cc", "dpf/distributed_point_function.cc"] + HWY)}, technique=EXPL, level="exploration",
                level_note=BOUNDED + 'valid, mutated and malformed parameters, keys and contexts; accepted exactly when valid.'),
    "P10": dict(files=["p10_native.cc"], per={"p10_native.cc": dict(NB, extra=["dpf/int_mod_n.cc", "dpf/aes_128_fixed_key_hash.cc", "dpf/internal/value_type_helpers.cc", "dpf/distributed_point_function.cc"] + HWY)}, technique=EXPL, level="exploration",
                level_note=BOUNDED + 'parameters of random hierarchies: tree levels, blocks, value positions.'),
    "P13": dict(files=["p13_native.cc"], per={"p13_native.cc": dict(NB, pb=False, extra=["pir/hashing/hash_family.cc"])}, technique=EXPL, level="exploration", level_note=BOUNDED + 'insertion histories of cuckoo tables with arbitrary hash functions.'),
    "P14": dict(files=["p14_insert.cc", "p14_native.cc"], per={"p14_insert.cc": dict(nonative=True), "p14_native.cc": dict(NB, pb=False, extra=["pir/hashing/hash_family.cc"])}, technique=PROOF, level="exploration",
                level_note="Proved for any table, any number of hash functions (below 2^30), any element and any limit: Create accepts exactly the documented parameters and gives an empty table; a bucket gains one copy of the element per function assigning it when the insertion succeeds and none when it fails; old entries keep their bytes; without a limit every insertion succeeds. A hash function is an arbitrary function into [0, buckets). Bounded only: that with a limit an insertion fails exactly when a bucket would exceed it (a nested count, beyond the induction), and insertion histories of tables with arbitrary hash functions (p14_native)."),
    "P15": dict(files=["p15_insert.cc", "p15_native.cc"], per={"p15_insert.cc": dict(nonative=True), "p15_native.cc": dict(NB, pb=False, extra=["pir/hashing/hash_family.cc"])}, technique=PROOF, level="proof",
                level_note="Proved for any table, any number of hash functions (at least two, below 2^30), any element and any limit: Create accepts exactly the documented parameters and gives an empty table; Insert adds the element once, to a least-full candidate bucket, keeps every old entry, respects the limit and fails exactly when it must, without effect. A hash function is an arbitrary function into [0, buckets). Histories follow by induction over insertions."),
    "P16": dict(files=["p16_sha.cc", "p16_farm.cc", "p16_native.cc"], per={"p16_native.cc": dict(NB, extra=[])}, technique=PROOF, level="exploration",
                level_note="Proved for every seed, input and bound: both hash functions feed exactly the seed and the input to their digest, reduce it as documented into [0, bound) and do not change between calls (SHA-256 and farmhash stand under contracts). Bounded only: the families, WrapWithSeed, CreateHashFunctions and CreateHashFamilyFromConfig (type-erased callables)."),
    "P17": dict(files=["p17_stream.cc", "p17_native.cc"], per={"p17_native.cc": dict(NB, pb=False, extra=[])}, technique=PROOF, level="proof",
                level_note="Proved for every seed, nonce, stream position below 2^62 and request of up to 2^30 bytes: creation establishes the invariant (position 0 of the stream), a request returns the next bytes and re-establishes it, so every split into requests gives the same stream; wrong sizes are refused. The block cipher is an uninterpreted function; OpenSSL's AES_ctr128_encrypt and AES_set_encrypt_key stand under a contract (counter mode as defined). Bounded only: that OpenSSL meets that contract, GenerateSeed."),
    "P18": dict(files=["p18_inner.cc", "p18_native.cc"], per={"p18_inner.cc": dict(pb=True), "p18_native.cc": dict(NB, extra=[])}, technique=PROOF, level="exploration",
                level_note="Proved for values of any length: the portable XOR kernel (XorStringInPlaceNoHwy) changes exactly the bytes the value covers. Bounded only: the selection walk of the portable inner product and the whole SIMD version; records of any size and alignment, selections of any density."),
    "P19": dict(files=["p19_native.cc"], per={"p19_native.cc": dict(NB, extra=["pir/internal/inner_product_hwy.cc"])}, technique=EXPL, level="exploration", level_note=BOUNDED + 'builder histories of inserts, clears, clones and builds.'),
    "P20": dict(files=["p20_native.cc"], per={"p20_native.cc": dict(NB, extra=["pir/dense_dpf_pir_database.cc", "pir/internal/inner_product_hwy.cc"] + HASH + ["pir/hashing/cuckoo_hash_table.cc"])}, technique=EXPL, level="exploration", level_note=BOUNDED + 'record sets and hash configurations for both hashed databases.'),
    "P21": dict(files=["p21_native.cc"], per={"p21_native.cc": dict(NB, extra=PIR + DPFS)}, technique=EXPL, level="exploration", level_note=BOUNDED + 'database sizes, index lists, key lists, responses and client states for the three clients.'),
    "P22": dict(files=["p22_native.cc"], per={"p22_native.cc": dict(NB, extra=PIRC + DPFS)}, technique=EXPL, level="exploration", level_note=BOUNDED + 'requests, answers, callbacks and decryptions for the three roles and the three servers, and end-to-end runs.'),
    "P25": dict(files=["p25_product.cc", "p25_native.cc"], per={"p25_native.cc": dict(NB, extra=["pir/dense_dpf_pir_database.cc", "pir/internal/inner_product_hwy.cc"])}, technique=PROOF, level="proof",
                level_note="Proved for any number of records and selection bits of any length (up to 2^20 records of up to 2^20 bytes, 2^30 bits), loops by induction: the unpacked product and both packings used. Bounded only: the agreement of the packed bits with the packed products (p25_native)."),
    "P05": dict(files=["p05_int_mod_n.cc"],
                level_note="All values of every operation are covered by proof for the listed base types and moduli; other moduli are not instantiated."),
    "P08": dict(files=["p08_groups.cc"],
                level_note="All values are covered by proof for the listed component types (8 to 128-bit integers, XOR-wrapped and modular components); other tuples are not instantiated."),
    "P23": dict(files=["p23_basic_rng.cc"],
                level_note="Proved for an arbitrary byte source in place of RAND_bytes (a contract-level stand-in)."),
    "P24": dict(files=["p24_maybe_deref_span.cc"],
                level_note="Proved for all span lengths, with the loop over pointers cut at an inferred invariant; element types 32-bit integer and std::string-like are instantiated."),
}
NOTES = {}
