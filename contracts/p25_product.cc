// P25: the unpacked reference inner product, for any number of records of any
// lengths.  The defining sums are folds over the records.
#include "vp.h"
#include "pir/testing/pir_selection_bits.cc"
using namespace distributed_point_functions;
VP_HARNESS(product) {
  std::vector<bool> sel;
  std::vector<std::string> v;
  vp::havoc(v, "records");
  vp::havoc(sel, "selections");
  size_t n = v.size();
  vp::assume(n <= 1u << 20 && sel.size() <= 1u << 20);
  vp::assume_forall(0, n, [&](size_t i) { return v[i].size() <= (1u << 20); });
  size_t p = vp::any<size_t>("position");
  auto r = pir_testing::InnerProductWithUnpacked(sel, v);
  vp::check(r.ok() == (sel.size() == n), "lists of different lengths are rejected");
  if (!r.ok()) return;
  char acc = 0;
  size_t len = 0;
  for (size_t i = 0; i < n; ++i) {
    if (len < v[i].size()) len = v[i].size();
    if (sel[i] && p < v[i].size()) acc ^= v[i][p];
  }
  vp::check(r->size() == len, "the result is as long as the longest record");
  vp::check((p < r->size()) | (acc == 0), "no record reaches past the end of the result");
  vp::check((p < r->size() ? (*r)[p] : 0) == acc, "the byte at every position is the XOR of the selected records' bytes there");
}

namespace {
template <class W> void Pack() {
  constexpr size_t w = 8 * sizeof(W);
  std::vector<bool> sel;
  vp::havoc(sel, "selections");
  size_t n = sel.size();
  vp::assume(n <= 1u << 30);
  auto b = pir_testing::PackSelectionBits<XorWrapper<W>>(sel);
  vp::check(b.size() == (n + w - 1) / w, "as many blocks as the bits need");
  size_t q = vp::any<size_t>("bit index");
  vp::assume(q < b.size() * w);
  bool want = false;
  size_t base = q / w * w;
  for (size_t j = 0; (j < w) & (base + j < n); ++j)
    want |= (j == q % w) & sel[base + j];
  vp::check(((b[q / w].value() >> (q % w)) & 1) == (want ? 1 : 0), "bit i mod the block size of block i / the block size is selection bit i");
}
}  // namespace
VP_HARNESS(pack_128) { Pack<absl::uint128>(); }
VP_HARNESS(pack_64) { Pack<uint64_t>(); }
