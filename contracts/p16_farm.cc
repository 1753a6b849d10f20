// P16: FarmHashFunction is the 128-bit hash of the input under the seed's hash,
// modulo the bound; util::Hash128* stand under "an arbitrary function of the bytes".
#include "vp.h"
#include "absl/numeric/int128.h"
#include "pir/hashing/farm_hash_family.cc"
namespace {
using absl::uint128;
using namespace distributed_point_functions;
struct Call { const char* p; size_t n; uint64_t lo, hi; } g;
uint64_t g_lo, g_hi;
}  // namespace
//@stub ^util::Hash128WithSeed\( => vp_farm_seeded
extern "C" util::uint128_t vp_farm_seeded(const char* p, size_t n, util::uint128_t seed) {
  g = Call{p, n, seed.first, seed.second};
  return util::uint128_t(g_lo, g_hi);
}
//@stub ^util::Hash128\( => vp_farm_plain
//@stub ^.*\butil::Hash128<.*>\( => vp_farm_plain_str
extern "C" util::uint128_t vp_farm_plain(const char*, size_t) { return util::uint128_t(0, 0); }
extern "C" util::uint128_t vp_farm_plain_str(const absl::string_view&) { return util::uint128_t(0, 0); }
VP_HARNESS(farm) {
  std::string x;
  vp::havoc(x, "input");
  int bound = vp::any<int>("upper bound");
  vp::assume(bound > 0);
  util::uint128_t seed(vp::any<uint64_t>("seed"), vp::any<uint64_t>("seed"));
  g_lo = vp::any<uint64_t>("low word");
  g_hi = vp::any<uint64_t>("high word");
  FarmHashFunction f{absl::string_view()};
  f.seed_ = seed;
  size_t q = vp::any<size_t>("position");
  int r = f(x, bound);
  vp::check(0 <= r && r < bound, "the hash is in [0, upper bound)");
  if (vp::kNative) {
    util::uint128_t h = util::Hash128WithSeed(x.data(), x.size(), seed);
    g = Call{x.data(), x.size(), seed.first, seed.second};
    g_lo = h.first;
    g_hi = h.second;
  }
  vp::check(g.n == x.size() && (q >= g.n || g.p[q] == x[q]) && g.lo == seed.first && g.hi == seed.second, "the whole input is hashed under the seed");
  vp::check((uint64_t)r == absl::Uint128Low64(absl::MakeUint128(g_hi, g_lo) % (uint128)(uint64_t)bound), "the hash is the 128-bit hash modulo the bound");
}
