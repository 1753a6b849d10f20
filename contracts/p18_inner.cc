// P18: the portable inner product, for records and selections of any length.
#include "vp.h"
#include "pir/internal/inner_product_hwy.cc"
using namespace distributed_point_functions;
VP_HARNESS(xor_string) {
  std::string v, r;
  vp::havoc(v, "value");
  vp::havoc(r, "result");
  size_t off = vp::any<size_t>("offset in value"), at = vp::any<size_t>("offset in result"), p = vp::any<size_t>("position");
  vp::assume(v.size() <= 1u << 30 && r.size() <= 1u << 30 && off <= v.size() && at <= r.size() && v.size() - off <= r.size() - at);
  vp::assume(p < r.size());
  char old = r[p];
  absl::string_view x(v.data() + off, v.size() - off);
  pir_internal::XorStringInPlaceNoHwy(x, &r[0] + at);
  bool in = (p >= at) & (p - at < x.size());
  vp::check(r[p] == (char)(old ^ (in ? v[off + (in ? p - at : 0)] : 0)), "exactly the bytes covered by the value are XORed with it");
}
