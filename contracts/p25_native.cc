// P25, bounded: reference inner product and packing of selection bits.
#include "pir/testing/pir_selection_bits.cc"
#include "pir/testing/pir_selection_bits.h"
#include "pir_common.h"
using namespace vpp;
using namespace distributed_point_functions;
VP_HARNESS(reference_product) {
  size_t n = vp::draw_below(20), m = vp::draw_below(6) ? n : vp::draw_below(20);
  std::vector<std::string> v;
  std::vector<bool> s;
  for (size_t i = 0; i < n; ++i) v.push_back(AnyStr(10));
  for (size_t i = 0; i < m; ++i) s.push_back(vp::draw64() & 1);
  for (auto& x : v) vp::note("record", vp::hex(x.data(), x.size()));
  auto r = pir_testing::InnerProductWithUnpacked(s, v);
  vp::check(r.ok() == (n == m), "lists of different lengths are rejected");
  if (!r.ok()) return;
  size_t len = 0;
  for (auto& x : v) len = std::max(len, x.size());
  std::string want(len, '\0');
  for (size_t i = 0; i < n; ++i) if (s[i]) for (size_t j = 0; j < v[i].size(); ++j) want[j] ^= v[i][j];
  vp::check(*r == want, "the result is the XOR of the selected records, padded to the longest record");
}
namespace {
template <class W> void Pack() {
  size_t n = vp::draw_below(300);
  std::vector<bool> s;
  for (size_t i = 0; i < n; ++i) s.push_back(vp::draw64() & 1);
  auto b = pir_testing::PackSelectionBits<XorWrapper<W>>(s);
  const size_t w = 8 * sizeof(W);
  vp::check(b.size() == (n + w - 1) / w, "as many blocks as the bits need");
  for (size_t i = 0; i < b.size() * w; ++i) {
    bool bit = (absl::Uint128Low64(absl::uint128(b[i / w].value()) >> (int)(i % w)) & 1) != 0;
    vp::check(bit == (i < n && s[i]), "bit i mod the block size of block i / the block size is selection bit i, and no other bit is set");
  }
}
}  // namespace
VP_HARNESS(packing) { vp::draw64() & 1 ? Pack<absl::uint128>() : Pack<uint64_t>(); }
