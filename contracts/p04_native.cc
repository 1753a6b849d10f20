// P04, bounded companion of p04_hash.cc: the same clauses against real AES.
#include "dpf/aes_128_fixed_key_hash.cc"
#include "dpf_common.h"
using namespace vpd;
VP_HARNESS(positionwise) {
  uint128 key = Draw128();
  auto h = Aes128FixedKeyHash::Create(key);
  vp::check(h.ok(), "hash is created");
  vp::check(h->key() == key, "the hash reports its key");
  RefHash ref(key);
  size_t n = vp::draw_below(vp::draw_below(3) ? 20 : 300);
  std::vector<uint128> in(n), out(n + 4, uint128{5});
  for (auto& x : in) x = Draw128();
  for (auto& x : in) vp::note("in", Hex(x));
  bool same = vp::draw64() & 1;
  std::vector<uint128> buf = in;
  absl::Status s = same ? h->Evaluate(buf, absl::MakeSpan(buf)) : h->Evaluate(in, absl::MakeSpan(out).subspan(0, n));
  vp::check(s.ok(), "evaluation succeeds for equal lengths");
  for (size_t i = 0; i < n; ++i) vp::check((same ? buf[i] : out[i]) == ref(in[i]), "output block i is AES(sigma(x_i)) xor sigma(x_i)");
  for (size_t i = n; i < n + 4; ++i) vp::check(out[i] == uint128{5}, "nothing outside the output range is written");
  Aes128FixedKeyHash moved = std::move(*h);
  std::vector<uint128> out2(n);
  vp::check(moved.Evaluate(in, absl::MakeSpan(out2)).ok(), "a moved hash evaluates");
  for (size_t i = 0; i < n; ++i) vp::check(out2[i] == ref(in[i]), "a moved hash is the same function");
}
VP_HARNESS(lengths) {
  auto h = Aes128FixedKeyHash::Create(Draw128());
  size_t n = vp::draw_below(100), m = vp::draw64() & 1 ? n + 1 - vp::draw_below(3) : vp::draw_below(200);
  vp::assume(m < 1000);
  std::vector<uint128> in(n), out(m);
  vp::check(h->Evaluate(in, absl::MakeSpan(out)).ok() == (n == m), "inputs and outputs of different lengths are rejected");
}
