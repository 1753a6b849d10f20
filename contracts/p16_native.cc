// P16, bounded: hash functions and families.
#include "pir/hashing/sha256_hash_family.cc"
#include "pir/hashing/hash_family.cc"
#include "pir/hashing/hash_family_config.cc"
#include "pir/hashing/farm_hash_family.cc"
#include "pir_common.h"
using namespace vpp;
using namespace distributed_point_functions;
namespace {
int AnyBound() {
  switch (vp::draw_below(5)) {
    case 0: return 1 + (int)vp::draw_below(4);
    case 1: return 2147483647 - (int)vp::draw_below(4);
    case 2: return 1 << (int)vp::draw_below(31);
    default: return 1 + (int)(vp::draw64() % 2147483647ull);
  }
}
int RefFarm(const std::string& seed, const std::string& in, int bound) {
  auto h = util::Hash128WithSeed(in.data(), in.size(), util::Hash128(seed.data(), seed.size()));
  u128 x = ((u128)h.second << 64) | h.first;
  return (int)(x % (u128)bound);
}
}  // namespace
VP_HARNESS(functions) {
  std::string seed = AnyStr(40), in = AnyStr(vp::draw_below(5) ? 20 : 200);
  int bound = AnyBound();
  vp::note("seed", vp::hex(seed.data(), seed.size()));
  vp::note("input", vp::hex(in.data(), in.size()));
  vp::note("bound", std::to_string(bound));
  HashFunction f = SHA256HashFamily()(seed), g = FarmHashFamily()(seed), f2 = SHA256HashFamily()(seed);
  int a = f(in, bound), b = g(in, bound);
  vp::check(a >= 0 && a < bound && b >= 0 && b < bound, "hashes are below the bound");
  vp::check(a == RefSha(seed, in, bound), "a SHA-256 hash is the seeded digest reduced modulo the bound");
  vp::check(b == RefFarm(seed, in, bound), "a farm hash is the seeded 128-bit hash reduced modulo the bound");
  // no state, no dependence on the caller's memory
  std::string other = AnyStr(30);
  f(other, AnyBound());
  g(other, AnyBound());
  std::string copy = "x" + in;
  vp::check(f(absl::string_view(copy).substr(1), bound) == a && g(absl::string_view(copy).substr(1), bound) == b && f2(in, bound) == a, "hashes depend only on seed, input and bound");
  HashFunction moved = std::move(f);
  vp::check(moved(in, bound) == a, "hashes depend only on seed, input and bound");
}
VP_HARNESS(families) {
  std::string seed = AnyStr(20), fs = AnyStr(20), in = AnyStr(20);
  int bound = AnyBound(), k = (int)vp::draw_below(25) - 2;
  vp::note("k", std::to_string(k));
  auto v = CreateHashFunctions(SHA256HashFamily(), k);
  vp::check(v.ok() == (k >= 0), "a negative number of functions is rejected");
  if (v.ok()) {
    vp::check((int)v->size() == k, "as many functions as requested");
    for (int i = 0; i < k; ++i) vp::check((*v)[i](in, bound) == RefSha(std::to_string(i), in, bound), "function i is the family applied to the seed i");
  }
  WrapWithSeed w(SHA256HashFamily(), fs);
  std::string was = fs;
  for (auto& c : fs) c = 'q';
  std::string orig = was;
  vp::check(w(seed)(in, bound) == RefSha(orig + seed, in, bound), "wrapping prefixes the seed");
  auto v2 = CreateHashFunctions(WrapWithSeed(FarmHashFamily(), orig), 3);
  vp::check(v2.ok() && (*v2)[2](in, bound) == RefFarm(orig + "2", in, bound), "wrapping works for every family");
}
VP_HARNESS(configurations) {
  HashFamilyConfig c;
  std::string seed = AnyStr(20), in = AnyStr(20), s2 = AnyStr(5);
  c.set_seed(seed);
  int fam = (int)vp::draw_below(5) - 1;
  c.set_hash_family((HashFamilyConfig::HashFamily)fam);
  auto f = CreateHashFamilyFromConfig(c);
  vp::check(f.ok() == (!seed.empty() && fam == 1), "configurations are accepted exactly with a seed and a known family");
  if (!f.ok()) { vp::check(f.status().code() == absl::StatusCode::kInvalidArgument, "rejections are INVALID_ARGUMENT"); return; }
  int bound = AnyBound();
  c.Clear();
  vp::check((*f)(s2)(in, bound) == RefSha(seed + s2, in, bound), "the configured family is seeded SHA-256");
}
