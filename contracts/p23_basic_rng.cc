// P23: every random integer is an injective function of its own fresh bytes.
#include "dcf/fss_gates/prng/basic_rng.h"
#include "vp.h"
namespace {
// stand-in for the external byte source: the bytes are arbitrary, reads are recorded
struct Source {
  uint8_t a[64];
  size_t pos;
  int result;
};
Source* g;
}  // namespace
extern "C" int RAND_bytes(uint8_t* buf, size_t len) {
  if (g->result == 0) return 0;
  vp::check(g->pos + len <= 64, "no more bytes are drawn than the requests need");
  for (size_t i = 0; i < len; ++i) buf[i] = g->a[g->pos + i];
  g->pos += len;
  return g->result;
}
namespace {
using namespace distributed_point_functions;
bool Same(const Source& x, const Source& y, size_t lo, size_t n) {
  bool r = true;
  for (size_t i = 0; i < n; ++i) r &= x.a[lo + i] == y.a[lo + i];
  return r;
}
template <class T> absl::StatusOr<T> Draw(SecurePrng& p);
template <> absl::StatusOr<uint8_t> Draw<uint8_t>(SecurePrng& p) { return p.Rand8(); }
template <> absl::StatusOr<uint64_t> Draw<uint64_t>(SecurePrng& p) { return p.Rand64(); }
template <> absl::StatusOr<absl::uint128> Draw<absl::uint128>(SecurePrng& p) { return p.Rand128(); }

template <class A, class B, class D> void Sequence() {
  Source s1, s2;
  vp::havoc(s1, "first source");
  vp::havoc(s2, "second source");
  size_t k = vp::any<uint8_t>("which byte differs") % 34;
  if (vp::any<bool>("sources differ in one byte only")) { for (int i = 0; i < 64; ++i) if (size_t(i) != k) s2.a[i] = s1.a[i]; }
  s1.pos = s2.pos = 0;
  s1.result = s2.result = 1;
  BasicRng rng;
  g = &s1;
  auto a1 = Draw<A>(rng);
  vp::check(s1.pos == sizeof(A), "first draw takes exactly its width in bytes");
  auto b1 = Draw<B>(rng);
  vp::check(s1.pos == sizeof(A) + sizeof(B), "second draw takes exactly its width in fresh bytes");
  auto d1 = Draw<D>(rng);
  vp::check(s1.pos == sizeof(A) + sizeof(B) + sizeof(D), "third draw takes exactly its width in fresh bytes");
  g = &s2;
  auto a2 = Draw<A>(rng);
  auto b2 = Draw<B>(rng);
  auto d2 = Draw<D>(rng);
  vp::check(a1.ok() && b1.ok() && d1.ok() && a2.ok() && b2.ok() && d2.ok(), "draws succeed when the source does");
  vp::check((*a1 == *a2) == Same(s1, s2, 0, sizeof(A)), "first value determines and is determined by its bytes");
  vp::check((*b1 == *b2) == Same(s1, s2, sizeof(A), sizeof(B)), "second value determines and is determined by its bytes");
  vp::check((*d1 == *d2) == Same(s1, s2, sizeof(A) + sizeof(B), sizeof(D)), "third value determines and is determined by its bytes");
}
template <class T> void Fail() {
  Source s;
  s.pos = 0;
  s.result = 0;
  g = &s;
  BasicRng rng;
  auto r = Draw<T>(rng);
  vp::check(!r.ok() && r.status().code() == absl::StatusCode::kInternal, "failure of the source is reported");
}
}  // namespace
VP_HARNESS(seq_64_8_128) { Sequence<uint64_t, uint8_t, absl::uint128>(); }
VP_HARNESS(seq_8_128_64) { Sequence<uint8_t, absl::uint128, uint64_t>(); }
VP_HARNESS(seq_8_8_64) { Sequence<uint8_t, uint8_t, uint64_t>(); }
VP_HARNESS(seq_128_64_64) { Sequence<absl::uint128, uint64_t, uint64_t>(); }
VP_HARNESS(fail_8) { Fail<uint8_t>(); }
VP_HARNESS(fail_64) { Fail<uint64_t>(); }
VP_HARNESS(fail_128) { Fail<absl::uint128>(); }
VP_HARNESS(create) {
  Source s;
  vp::havoc(s, "source");
  s.pos = 0;
  s.result = 1;
  g = &s;
  auto r = BasicRng::Create("");
  vp::check(r.ok(), "Create succeeds");
  auto v = (*r)->Rand64();
  vp::check(v.ok() && s.pos == 8, "the created generator draws 8 bytes for 64 bits");
}
