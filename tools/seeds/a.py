seed("p05_add_overflow", "P05", "dpf/int_mod_n.h",
"    SubtractBaseInteger(kModulus - a);\n",
"    // Add first, then reduce.\n    value_ += a;\n    if (value_ >= kModulus) value_ -= kModulus;\n",
"a modulus above half the range of the base integer and two operands whose sum exceeds that range",
"the sum wraps in the base integer before it is reduced, so the result is wrong modulo N",
r'''
#include "dpf/int_mod_n.h"
using namespace distributed_point_functions;
template <class B, class M> int Run(B n) {
  for (B d = 1; d < 6; ++d) {
    M a(B(n - 1)), b(B(n - d));
    EXPECT((a + b).value() == B(n - 1 - d));
    EXPECT((M(B(2)) + M(B(3))).value() == B(5));
  }
  return 0;
}
int main() {
  if (Run<uint8_t, IntModN<uint8_t, 251>>(251)) return 1;
  if (Run<uint32_t, IntModN<uint32_t, 4294967291u>>(4294967291u)) return 1;
  return Run<uint64_t, IntModN<uint64_t, 18446744073709551557ull>>(18446744073709551557ull);
}
''', srcs="dpf/int_mod_n.cc", pb=False)

seed("p02_context_step_back", "P02", "dpf/distributed_point_function.cc",
"        num_prefixes, static_cast<bool>(ctx.key().party()));\n    start_level = 0;\n",
"        num_prefixes, static_cast<bool>(ctx.key().party()));\n",
"a context evaluated at a deep hierarchy level with EvaluateAt and then again at an earlier one",
"the walk restarts from the root seed but with the correction words of the deeper level, so the shares are wrong",
r'''
#include "dpf/distributed_point_function.h"
using namespace distributed_point_functions;
int main() {
  std::vector<DpfParameters> p(3);
  for (int i = 0; i < 3; ++i) {
    p[i].set_log_domain_size(8 + 4 * i);
    p[i].mutable_value_type()->mutable_integer()->set_bitsize(64);
  }
  auto dpf = *DistributedPointFunction::CreateIncremental(p);
  absl::uint128 alpha = 0xabcd;
  auto keys = *dpf->GenerateKeysIncremental(alpha, std::vector<Value>{ToValue<uint64_t>(3), ToValue<uint64_t>(5), ToValue<uint64_t>(7)});
  uint64_t sum[2] = {0, 0}, direct[2] = {0, 0};
  for (int party = 0; party < 2; ++party) {
    const DpfKey& k = party ? keys.second : keys.first;
    auto ctx = *dpf->CreateEvaluationContext(k);
    absl::uint128 deep[1] = {0xabc}, shallow[1] = {0xab};
    auto r1 = dpf->EvaluateAt<uint64_t>(1, absl::MakeConstSpan(deep), ctx);
    EXPECT(r1.ok());
    sum[0] += (*r1)[0];
    auto r0 = dpf->EvaluateAt<uint64_t>(0, absl::MakeConstSpan(shallow), ctx);
    EXPECT(r0.ok());
    sum[1] += (*r0)[0];
    direct[0] += (*dpf->EvaluateAt<uint64_t>(k, 1, absl::MakeConstSpan(deep)))[0];
    direct[1] += (*dpf->EvaluateAt<uint64_t>(k, 0, absl::MakeConstSpan(shallow)))[0];
  }
  EXPECT(direct[0] == 5 && direct[1] == 3);
  EXPECT(sum[0] == 5 && sum[1] == 3);
  return 0;
}
''', srcs=DPF)

seed("p01_top_bit", "P01", "dpf/distributed_point_function.cc",
"  if (parameters_.back().log_domain_size() - tree_level < 128) {\n    current_bit =",
"  if (parameters_.back().log_domain_size() - tree_level < 127) {\n    current_bit =",
"a domain of 2^128 elements and an alpha with the most significant bit set",
"the first bit of alpha is taken as zero, so the keys share the point function of a different alpha",
r'''
#include "dpf/distributed_point_function.h"
using namespace distributed_point_functions;
int main() {
  for (int log : {64, 127, 128}) {
    DpfParameters p;
    p.set_log_domain_size(log);
    p.mutable_value_type()->mutable_integer()->set_bitsize(128);
    auto dpf = *DistributedPointFunction::Create(p);
    absl::uint128 top = absl::uint128{1} << (log - 1);
    for (absl::uint128 alpha : {top | 5, absl::uint128{5}}) {
      auto keys = dpf->GenerateKeys(alpha, absl::uint128{42});
      EXPECT(keys.ok());
      std::vector<absl::uint128> x = {alpha, alpha ^ top, alpha ^ 1};
      auto a = *dpf->EvaluateAt<absl::uint128>(keys->first, 0, x);
      auto b = *dpf->EvaluateAt<absl::uint128>(keys->second, 0, x);
      EXPECT(a[0] + b[0] == 42);
      EXPECT(a[1] + b[1] == 0);
      EXPECT(a[2] + b[2] == 0);
    }
  }
  return 0;
}
''', srcs=DPF)

seed("p11_stale_output", "P11", "dcf/distributed_comparison_function.h",
"  std::fill(output.begin(), output.end(), T{});\n",
"",
"the overload writing to a caller's buffer, called with a buffer that is not all zero (for instance used twice)",
"shares are added to what the buffer held before",
r'''
#include "dcf/distributed_comparison_function.h"
using namespace distributed_point_functions;
int main() {
  DcfParameters p;
  p.mutable_parameters()->set_log_domain_size(10);
  p.mutable_parameters()->mutable_value_type()->mutable_integer()->set_bitsize(64);
  auto dcf = *DistributedComparisonFunction::Create(p);
  auto keys = *dcf->GenerateKeys(500, uint64_t{9});
  std::vector<uint64_t> a(1), b(1);
  for (absl::uint128 x : {0, 1, 499, 500, 501, 1023, 3}) {
    std::vector<absl::uint128> xs = {x};
    EXPECT((dcf->BatchEvaluate<uint64_t>(absl::MakeConstSpan(&keys.first, 1), xs, absl::MakeSpan(a)).ok()));
    EXPECT((dcf->BatchEvaluate<uint64_t>(absl::MakeConstSpan(&keys.second, 1), xs, absl::MakeSpan(b)).ok()));
    EXPECT(a[0] + b[0] == (x < 500 ? 9 : 0));
  }
  return 0;
}
''', srcs=DPF + " dcf/distributed_comparison_function.cc")

seed("p12_wraparound_term", "P12", "dcf/fss_gates/multiple_interval_containment.cc",
"        (alpha_q_prime > q_prime ? 1 : 0) + (alpha_q == (N - 1) ? 1 : 0);",
"        (alpha_q_prime > q_prime ? 1 : 0);",
"an input mask with upper bound + mask congruent to -1 modulo the group size",
"the correction term is off by one for that interval, so every output of the gate is wrong",
r'''
#include "dcf/fss_gates/multiple_interval_containment.h"
using namespace distributed_point_functions;
using namespace distributed_point_functions::fss_gates;
int main() {
  const int log = 6;
  const uint64_t N = 64;
  MicParameters p;
  p.set_log_group_size(log);
  auto* iv = p.add_intervals();
  iv->mutable_lower_bound()->mutable_value_uint128()->set_low(10);
  iv->mutable_upper_bound()->mutable_value_uint128()->set_low(20);
  auto gate = *MultipleIntervalContainmentGate::Create(p);
  for (uint64_t rin = 0; rin < N; ++rin) {
    auto keys = *gate->Gen(rin, {7});
    for (uint64_t x : {0, 9, 10, 15, 20, 21, 63}) {
      absl::uint128 m = (x + rin) % N;
      auto a = *gate->Eval(keys.first, m), b = *gate->Eval(keys.second, m);
      EXPECT((a[0] + b[0]) % N == (7 + (x >= 10 && x <= 20)) % N);
    }
  }
  return 0;
}
''', srcs=DPF + " dcf/distributed_comparison_function.cc dcf/fss_gates/multiple_interval_containment.cc")

seed("p14_embedded_nul", "P14", "pir/hashing/simple_hash_table.cc",
"    table_[hashes[i]].push_back(std::string(input));",
"    const absl::string_view element = input.substr(0, input.find('\\0'));\n    table_[hashes[i]].emplace_back(element.data(), element.size());",
"an element that contains a NUL byte (binary keys)",
"the table stores only the part before the NUL byte, not the element",
r'''
#include "pir/hashing/simple_hash_table.h"
using namespace distributed_point_functions;
int main() {
  std::vector<HashFunction> fs;
  for (int i = 0; i < 2; ++i) fs.push_back([i](absl::string_view x, int n) { return int((x.size() * (i + 1)) % n); });
  auto t = *SimpleHashTable::Create(std::move(fs), 5, absl::nullopt);
  for (const std::string& s : {std::string("abc"), std::string("a\0c", 3), std::string(1, '\0')}) {
    EXPECT(t->Insert(s).ok());
    for (int i = 0; i < 2; ++i) EXPECT(t->GetTable()[(s.size() * (i + 1)) % 5].back() == s);
  }
  return 0;
}
''', srcs="pir/hashing/simple_hash_table.cc pir/hashing/hash_family.cc", pb=False)

seed("p13_dedup", "P13", "pir/hashing/cuckoo_hash_table.cc",
"    if (table_[hash]) {\n      // If",
"    if (table_[hash] && *table_[hash] == current_element) {\n      // Already stored.\n      return absl::OkStatus();\n    }\n    if (table_[hash]) {\n      // If",
"an element inserted more than once",
"the second copy is dropped although its insertion is reported as successful",
r'''
#include "pir/hashing/cuckoo_hash_table.h"
using namespace distributed_point_functions;
int main() {
  std::vector<HashFunction> fs;
  for (int i = 0; i < 3; ++i) fs.push_back([i](absl::string_view x, int n) { return int((x.size() * 7 + i * 3 + (unsigned char)x[0]) % n); });
  auto t = *CuckooHashTable::Create(std::move(fs), 11, 50, absl::nullopt);
  size_t ok = 0;
  for (const char* s : {"a", "b", "a", "cc", "a", "b", "cc"}) {
    EXPECT(t->Insert(s).ok());
    ++ok;
    size_t n = t->GetStash().size();
    for (auto& b : t->GetTable()) n += b.has_value();
    EXPECT(n == ok);
  }
  return 0;
}
''', srcs="pir/hashing/cuckoo_hash_table.cc pir/hashing/hash_family.cc", pb=False)

seed("p17_nonce_prefix", "P17", "pir/prng/aes_128_ctr_seeded_prng.cc",
"  std::copy_n(nonce.begin(), AES_BLOCK_SIZE, ivec.begin());",
"  // The last four bytes are the block counter.\n  std::copy_n(nonce.begin(), AES_BLOCK_SIZE - 4, ivec.begin());",
"a nonce with a non-zero byte among its last four",
"the stream is not the AES-CTR key stream of that nonce, and nonces differing only there give the same stream",
r'''
#include <string>
#include "pir/prng/aes_128_ctr_seeded_prng.h"
#include "openssl/aes.h"
using namespace distributed_point_functions;
int main() {
  for (int t = 0; t < 20; ++t) {
    std::string seed(16, 0), nonce(16, 0);
    for (int i = 0; i < 16; ++i) seed[i] = char(i * 7 + t), nonce[i] = char(t == 0 ? 0 : i * 31 + t * 5);
    auto p = *Aes128CtrSeededPrng::CreateWithNonce(seed, nonce);
    std::string got = p->GetRandomBytes(5);
    got += p->GetRandomBytes(40);
    AES_KEY k;
    AES_set_encrypt_key((const uint8_t*)seed.data(), 128, &k);
    std::string want, ctr = nonce;
    while (want.size() < 45) {
      uint8_t b[16];
      AES_encrypt((const uint8_t*)ctr.data(), b, &k);
      want.append((char*)b, 16);
      for (int i = 15; i >= 0 && ++ctr[i] == 0; --i) {}
    }
    EXPECT(got == want.substr(0, 45));
  }
  return 0;
}
''', srcs="pir/prng/aes_128_ctr_seeded_prng.cc", pb=False)

seed("p18_unaligned_second_selection", "P18", "pir/internal/inner_product_hwy.cc",
"              values[index], reinterpret_cast<char*>(aligned_results[k].get()));\n          continue;\n",
"              values[index], reinterpret_cast<char*>(aligned_results[k].get()));\n          break;\n",
"a record at an unaligned address and at least two selection vectors selecting it",
"only the first of the selection vectors gets the record",
r'''
#include <string>
#include "pir/internal/inner_product_hwy.h"
using namespace distributed_point_functions;
using namespace distributed_point_functions::pir_internal;
int main() {
  std::string buf(4096, 0);
  for (size_t i = 0; i < buf.size(); ++i) buf[i] = char(i * 37 + (i >> 5));
  for (int off = 0; off < 20; ++off) {
    std::vector<absl::string_view> v;
    for (int i = 0; i < 9; ++i) v.push_back(absl::string_view(buf).substr(off + i * 64, 40 + i));
    std::vector<std::vector<BlockType>> sel(3);
    for (int k = 0; k < 3; ++k) sel[k].push_back(BlockType(absl::uint128(0x1ab >> k)));
    auto r = InnerProduct(v, sel, 48);
    EXPECT(r.ok());
    for (int k = 0; k < 3; ++k) {
      std::string w(48, 0);
      for (int i = 0; i < 9; ++i) if ((0x1ab >> k) >> i & 1) for (size_t j = 0; j < v[i].size(); ++j) w[j] ^= v[i][j];
      EXPECT((*r)[k] == w);
    }
  }
  return 0;
}
''', srcs="pir/internal/inner_product_hwy.cc")

seed("p19_clone_of_built", "P19", "pir/dense_dpf_pir_database.cc",
"  result->has_been_built_ = has_been_built_;\n",
"",
"a builder cloned after it has built its database",
"the clone builds again, giving an empty database, although neither was cleared",
r'''
#include "pir/dense_dpf_pir_database.h"
using namespace distributed_point_functions;
int main() {
  DenseDpfPirDatabase::Builder b;
  b.Insert("one").Insert("three");
  auto before = b.Clone();
  EXPECT(b.Build().ok());
  auto after = b.Clone();
  EXPECT(!b.Build().ok());
  EXPECT(!after->Build().ok());
  auto d = before->Build();
  EXPECT(d.ok() && (*d)->size() == 2);
  return 0;
}
''', srcs="pir/dense_dpf_pir_database.cc pir/internal/inner_product_hwy.cc")

seed("p21_index_equal_size", "P21", "pir/dense_dpf_pir_client.cc",
"    if (query >= database_size_) {",
"    if (query > database_size_) {",
"a query index equal to the number of elements",
"the index one past the end is accepted instead of rejected",
r'''
#include "pir/dense_dpf_pir_client.h"
using namespace distributed_point_functions;
int main() {
  for (int n : {1, 5, 127, 128, 129, 300}) {
    PirConfig c;
    c.mutable_dense_dpf_pir_config()->set_num_elements(n);
    auto cl = DenseDpfPirClient::Create(c, [](absl::string_view s, absl::string_view) -> absl::StatusOr<std::string> { return std::string(s); });
    EXPECT(cl.ok());
    EXPECT(((*cl)->CreateRequest({n - 1})).ok());
    EXPECT(!((*cl)->CreateRequest({n})).ok());
    EXPECT(!((*cl)->CreateRequest({0, n})).ok());
    EXPECT(!((*cl)->CreateRequest({n + 1})).ok());
  }
  return 0;
}
''', srcs=DPF + " " + DBS + " " + SRV)

seed("p22_short_helper_response", "P22", "pir/dpf_pir_server.cc",
"    if (current_helper_response.size() != current_leader_response.size()) {",
"    if (current_helper_response.size() > current_leader_response.size()) {",
"a helper whose masked response is shorter than the leader's",
"the leader answers with a response that is only partly combined instead of reporting the mismatch",
r'''
#include "pir/dense_dpf_pir_server.h"
#include "pir/dense_dpf_pir_database.h"
#include "pir/dense_dpf_pir_client.h"
using namespace distributed_point_functions;
int main() {
  for (int delta = -2; delta <= 2; ++delta) {
    PirConfig c;
    c.mutable_dense_dpf_pir_config()->set_num_elements(10);
    auto cl = *DenseDpfPirClient::Create(c, [](absl::string_view s, absl::string_view) -> absl::StatusOr<std::string> { return std::string(s); });
    auto req = *cl->CreateRequest({3});
    DenseDpfPirDatabase::Builder b;
    for (int i = 0; i < 10; ++i) b.Insert(std::string(8, char('a' + i)));
    auto db = *b.Build();
    auto server = DenseDpfPirServer::CreateLeader(c, std::move(db),
        [delta](const PirRequest&, absl::AnyInvocable<void()> run) -> absl::StatusOr<PirResponse> {
          run();
          PirResponse r;
          r.mutable_dpf_pir_response()->add_masked_response(std::string(8 + delta, 'z'));
          return r;
        });
    EXPECT(server.ok());
    EXPECT((*server)->HandleRequest(req.first).ok() == (delta == 0));
  }
  return 0;
}
''', srcs=DPF + " " + DBS + " " + SRV)

seed("p04_in_place", "P04", "dpf/aes_128_fixed_key_hash.cc",
"      out[start_block + i] ^= sigma_in[i];",
"      const absl::uint128 x = in[start_block + i];\n      out[start_block + i] ^=\n          absl::MakeUint128(absl::Uint128High64(x) ^ absl::Uint128Low64(x),\n                            absl::Uint128High64(x));",
"evaluation with the output written over the input",
"the input is already overwritten by the cipher text when it is added, so in-place hashing gives different values",
r'''
#include <vector>
#include "dpf/aes_128_fixed_key_hash.h"
using namespace distributed_point_functions;
int main() {
  auto h = *Aes128FixedKeyHash::Create(absl::MakeUint128(3, 77));
  for (int n : {1, 2, 7, 64, 65, 200}) {
    std::vector<absl::uint128> a(n), o(n);
    for (int i = 0; i < n; ++i) a[i] = absl::MakeUint128(i * 0x9e3779b97f4a7c15ull, ~(uint64_t)i);
    EXPECT(h.Evaluate(a, absl::MakeSpan(o)).ok());
    EXPECT(h.Evaluate(a, absl::MakeSpan(a)).ok());
    for (int i = 0; i < n; ++i) EXPECT(a[i] == o[i]);
  }
  return 0;
}
''', srcs="dpf/aes_128_fixed_key_hash.cc", pb=False)

seed("p09_context_finished", "P09", "dpf/internal/proto_validator.cc",
"  if (ctx.previous_hierarchy_level() >= ctx.parameters_size() - 1) {",
"  if (ctx.previous_hierarchy_level() > ctx.parameters_size() - 1) {",
"an evaluation context that has already been evaluated at the last hierarchy level",
"the exhausted context is accepted as valid",
r'''
#include "dpf/internal/proto_validator.h"
#include "dpf/distributed_point_function.h"
using namespace distributed_point_functions;
int main() {
  std::vector<DpfParameters> p(2);
  for (int i = 0; i < 2; ++i) {
    p[i].set_log_domain_size(3 + 4 * i);
    p[i].mutable_value_type()->mutable_integer()->set_bitsize(64);
  }
  auto dpf = *DistributedPointFunction::CreateIncremental(p);
  auto keys = *dpf->GenerateKeysIncremental(5, std::vector<Value>{ToValue<uint64_t>(3), ToValue<uint64_t>(5)});
  auto ctx = *dpf->CreateEvaluationContext(keys.first);
  auto v = *dpf_internal::ProtoValidator::Create(p);
  EXPECT(v->ValidateEvaluationContext(ctx).ok());
  ctx.set_previous_hierarchy_level(0);
  EXPECT(v->ValidateEvaluationContext(ctx).ok());
  ctx.set_previous_hierarchy_level(1);
  EXPECT(!v->ValidateEvaluationContext(ctx).ok());
  ctx.set_previous_hierarchy_level(2);
  EXPECT(!v->ValidateEvaluationContext(ctx).ok());
  return 0;
}
''', srcs=DPF)

seed("p23_reused_bytes", "P23", "dcf/fss_gates/prng/basic_rng.h",
"    int success = RAND_bytes(rand.data(), rand.size());",
"    constexpr size_t kFresh = sizeof(T) == 16 ? 15 : sizeof(T);\n    int success = RAND_bytes(rand.data(), kFresh);\n    if (kFresh < rand.size()) rand[kFresh] = rand[kFresh / 2] ^ rand[0];",
"128-bit requests, compared over many draws (any single draw looks random)",
"the top byte of a 128-bit value is computed from two others, so most values cannot occur",
r'''
#include "dcf/fss_gates/prng/basic_rng.h"
#include <cstring>
#include <vector>
static uint64_t st = 1;
static std::vector<uint8_t> drawn;
extern "C" int RAND_bytes(uint8_t* b, size_t n) {
  for (size_t i = 0; i < n; ++i) { st = st * 6364136223846793005ull + 1442695040888963407ull; b[i] = st >> 56; drawn.push_back(b[i]); }
  return 1;
}
using namespace distributed_point_functions;
int main() {
  auto r = *BasicRng::Create("");
  for (int t = 0; t < 50; ++t) {
    drawn.clear();
    absl::uint128 v = *r->Rand128();
    EXPECT(drawn.size() == 16);
    for (int i = 0; i < 16; ++i) EXPECT(uint8_t(absl::Uint128Low64(v >> (8 * i))) == drawn[i]);
    drawn.clear();
    uint64_t w = *r->Rand64();
    EXPECT(drawn.size() == 8 && std::memcmp(&w, drawn.data(), 8) == 0);
    drawn.clear();
    uint8_t x = *r->Rand8();
    EXPECT(drawn.size() == 1 && x == drawn[0]);
  }
  return 0;
}
''', pb=False)

seed("p08_tuple_subtract", "P08", "dpf/tuple.h",
"      T(-std::get<I>(t.value()))...};",
"      T(I == 0 || sizeof(T) > 1 ? -std::get<I>(t.value())\n                                : std::get<I>(t.value()))...};",
"a tuple with a one-byte component in second or later position",
"negation leaves such components unchanged, so a + (-a) is not zero",
r'''
#include <cstdint>
#include "dpf/tuple.h"
using namespace distributed_point_functions;
int main() {
  for (int v = 0; v < 256; ++v) {
    Tuple<uint32_t, uint8_t, uint64_t> t{uint32_t(v), uint8_t(v), uint64_t(v)};
    auto n = -t;
    EXPECT(uint32_t(std::get<0>(n.value()) + v) == 0);
    EXPECT(uint8_t(std::get<1>(n.value()) + v) == 0);
    EXPECT(uint64_t(std::get<2>(n.value()) + v) == 0);
  }
  return 0;
}
''', pb=False)
