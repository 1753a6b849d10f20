// P16: SHA256HashFunction feeds exactly seed || input to the digest and reduces
// it as documented.  The digest calls stand under a contract that records, for
// one arbitrary position of the message, the byte fed there.
#include <cstring>
#include "vp.h"
#include "absl/numeric/int128.h"
#include "pir/hashing/sha256_hash_family.cc"
namespace {
using absl::uint128;
using namespace distributed_point_functions;
// contents of a digest state: how many bytes were fed, and which one at position g_q
struct Fed { uint64_t length, byte; };
uint64_t g_q, g_length;
uint8_t g_byte;
uint8_t g_digest[32];
Fed Get(const SHA256_CTX* c) { Fed f; f.length = (uint64_t)c->h[1] << 32 | c->h[0]; f.byte = c->h[2]; return f; }
void Put(SHA256_CTX* c, Fed f) { c->h[0] = (uint32_t)f.length; c->h[1] = (uint32_t)(f.length >> 32); c->h[2] = (uint32_t)f.byte; }
}  // namespace
extern "C" {
int SHA256_Init(SHA256_CTX* c) {
  c->md_len = 32;
  Put(c, Fed{0, 0});
  return 1;
}
int SHA256_Update(SHA256_CTX* c, const void* data, size_t n) {
  vp::check(c->md_len == 32, "a digest is started before it is fed");
  Fed f = Get(c);
  bool here = (f.length <= g_q) & (g_q - f.length < n);
  f.byte |= here ? ((const uint8_t*)data)[here ? g_q - f.length : 0] : 0;
  f.length += n;
  Put(c, f);
  return 1;
}
int SHA256_Final(uint8_t* out, SHA256_CTX* c) {
  vp::check(c->md_len == 32, "a digest is started before it is finished");
  Fed f = Get(c);
  g_length = f.length;
  g_byte = (uint8_t)f.byte;
  memcpy(out, g_digest, 32);
  return 1;
}
}
namespace {
uint64_t Word(int k) {
  uint64_t r = 0;
  for (int i = 7; i >= 0; --i) r = r << 8 | g_digest[8 * k + i];
  return r;
}
}  // namespace
VP_HARNESS(sha256) {
  std::string seed, x;
  vp::havoc(seed, "seed");
  vp::havoc(x, "input");
  vp::havoc(g_digest, "digest");
  int bound = vp::any<int>("upper bound");
  vp::assume(bound > 0);
  g_q = vp::any<uint64_t>("position");
  if (vp::kNative) g_q %= 64;
  const SHA256HashFunction h(seed);
  const bool in_seed = g_q < seed.size(), in_x = !in_seed & (g_q - seed.size() < x.size());
  const uint8_t want = in_seed ? seed[g_q] : in_x ? x[g_q - seed.size()] : 0;
  const uint64_t seed_byte = Get(&h.ctx_).byte;
  vp::check(Get(&h.ctx_).length == seed.size(), "construction feeds the seed");
  int r = h(x, bound);
  vp::check(g_length == seed.size() + x.size(), "as many bytes as seed and input have are hashed");
  vp::check(g_byte == want, "the bytes hashed are the seed followed by the input");
  uint128 b = (uint128)(uint64_t)bound;
  uint128 d = absl::MakeUint128(Word(3), Word(2)) % b;
  d = absl::MakeUint128(absl::Uint128Low64(d), Word(1)) % b;
  d = absl::MakeUint128(absl::Uint128Low64(d), Word(0)) % b;
  vp::check(0 <= r && r < bound, "the hash is in [0, upper bound)");
  vp::check((uint64_t)r == absl::Uint128Low64(d), "the hash is the digest, read as a little-endian number, modulo the bound");
  vp::check(Get(&h.ctx_).length == seed.size() && h.ctx_.md_len == 32 && Get(&h.ctx_).byte == seed_byte, "the function is ready for the next call as it was for this one");
}
