// P24: spans over values or pointers index the same elements.
#include "dpf/internal/maybe_deref_span.h"
#include "absl/numeric/int128.h"
#include "vp.h"
namespace {
using distributed_point_functions::dpf_internal::MaybeDerefSpan;
struct Big { uint64_t a; uint32_t b; uint8_t c; };

template <class T> void Values() {
  size_t n = vp::size(0, 12);
  std::vector<T> v(n);
  vp::havoc(v);
  vp::assume(v.size() >= 0);
  n = v.size();
  MaybeDerefSpan<const T> s{absl::Span<const T>(v)};
  vp::check(s.size() == n, "size of a span over values");
  vp::forall(0, n, "element of a span over values is the element itself", [&](size_t i) { return &s[i] == &v[i]; });
  MaybeDerefSpan<const T> copy = s;
  vp::check(copy.size() == n, "size of a copied span");
  vp::forall(0, n, "element of a copied span is the element itself", [&](size_t i) { return &copy[i] == &v[i]; });
}
}  // namespace
VP_HARNESS(values_u64) { Values<uint64_t>(); }
VP_HARNESS(values_u8) { Values<uint8_t>(); }
VP_HARNESS(values_u128) { Values<absl::uint128>(); }

VP_HARNESS(pointers) {
  size_t n = vp::size(0, 12);
  std::vector<uint64_t> store(n + 1);
  std::vector<size_t> perm(n);
  vp::havoc(perm);
  n = perm.size();
  std::vector<const uint64_t*> p;
  store.resize(n + 1);
  for (size_t i = 0; i < n; ++i) {
    p.push_back(&store[perm[i] % (n + 1)]);
  }
  MaybeDerefSpan<const uint64_t> s{absl::Span<const uint64_t* const>(p)};
  vp::check(s.size() == n, "size of a span over pointers");
  vp::forall(0, n, "element of a span over pointers is the object pointed to", [&](size_t i) { return &s[i] == p[i]; });
}
