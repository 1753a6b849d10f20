// P18, bounded: the PIR inner product is the XOR of the selected records.
#include "pir/internal/inner_product_hwy.cc"
#include "pir_common.h"
using namespace vpp;
using namespace distributed_point_functions;
using pir_internal::BlockType;
VP_HARNESS(inner_product) {
  size_t n = vp::draw_below(6) ? vp::draw_below(12) : vp::draw_below(400);
  size_t maxlen = vp::draw_below(3) ? 1 + vp::draw_below(20) : 1 + vp::draw_below(200);
  // one buffer, each record at an aligned or unaligned place, guarded by the sanitizer
  std::vector<std::unique_ptr<char[]>> store;
  std::vector<absl::string_view> v;
  std::vector<hwy::AlignedFreeUniquePtr<uint8_t[]>> hs;
  int align = (int)vp::draw_below(3);
  for (size_t i = 0; i < n; ++i) {
    std::string s = AnyBytes(vp::draw_below(3) ? vp::draw_below(maxlen + 1) : maxlen);
    if (align == 0 || (align == 2 && vp::draw64() & 1)) {
      size_t off = vp::draw_below(9);
      store.emplace_back(new char[s.size() + off]);
      memcpy(store.back().get() + off, s.data(), s.size());
      v.push_back(absl::string_view(store.back().get() + off, s.size()));
    } else {
      size_t off = vp::draw_below(4) ? 0 : 16 * vp::draw_below(8);
      hs.push_back(hwy::AllocateAligned<uint8_t>(s.size() + off + 1));
      memcpy(hs.back().get() + off, s.data(), s.size());
      v.push_back(absl::string_view((char*)hs.back().get() + off, s.size()));
    }
  }
  int64_t maxsize = (int64_t)maxlen;
  if (vp::draw_below(10) == 0) maxsize = (int64_t)maxlen + (int64_t)vp::draw_below(20) - 10;
  size_t q = vp::draw_below(5), blocks = (n + 127) / 128;
  if (vp::draw_below(5) == 0) blocks += vp::draw_below(3);
  if (blocks && vp::draw_below(12) == 0) --blocks;
  std::vector<std::vector<BlockType>> sel(q);
  bool good = true;
  for (auto& s : sel) {
    size_t b = blocks;
    if (vp::draw_below(20) == 0) b += 1;
    uint64_t m = vp::draw_below(4);
    for (size_t i = 0; i < b; ++i) s.push_back(BlockType(m == 0 ? absl::uint128(0) : m == 1 ? absl::Uint128Max() : m == 2 ? absl::uint128(1) << (int)vp::draw_below(128) : absl::MakeUint128(vp::draw64(), vp::draw64())));
    if (b * 128 < n || b != sel[0].size()) good = false;
  }
  if (q && maxsize <= 0) good = false;
  if (q) for (auto& s : v) if ((int64_t)s.size() > maxsize) good = false;
  vp::note("records, selections, max size", std::to_string(n) + " " + std::to_string(q) + " " + std::to_string(maxsize));
  auto r = pir_internal::InnerProduct(v, sel, maxsize);
  vp::check(r.ok() == good, "too short or mismatching selections, a non-positive maximum and too large records are rejected");
  if (!r.ok()) { vp::check(r.status().code() == absl::StatusCode::kInvalidArgument, "rejections are INVALID_ARGUMENT"); return; }
  vp::check(r->size() == q, "one result per selection vector");
  for (size_t k = 0; k < q; ++k) {
    std::string want((size_t)maxsize, '\0');
    for (size_t i = 0; i < n; ++i) {
      absl::uint128 b = sel[k][i / 128].value();
      if (absl::Uint128Low64(b >> (int)(i % 128)) & 1) for (size_t j = 0; j < v[i].size(); ++j) want[j] ^= v[i][j];
    }
    vp::check((*r)[k] == want, "the inner product is the XOR of exactly the selected records");
  }
  if (q) {
    auto r2 = pir_internal::InnerProductNoHwy(v, sel, maxsize);
    vp::check(r2.ok() && *r2 == *r, "the vectorised and the portable implementation agree");
  }
}
