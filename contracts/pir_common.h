// Generators shared by the PIR contract files (native only).
#ifndef VERIF_PIR_COMMON_H_
#define VERIF_PIR_COMMON_H_
#include <map>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "absl/numeric/int128.h"
#include "absl/strings/string_view.h"
#include "openssl/aes.h"
#include "openssl/sha.h"
#include "vp.h"
namespace vpp {
typedef unsigned __int128 u128;
inline std::string AnyStr(size_t max, bool small_alphabet = false) {
  std::string s;
  size_t n = vp::draw_below(max + 1);
  if (small_alphabet && vp::draw_below(12) == 0) s.assign(14 + vp::draw_below(30), 'x');  // beyond inline storage
  for (size_t i = 0; i < n; ++i) s += small_alphabet ? "a\0b\xff"[vp::draw_below(4)] : (char)vp::draw_int(8);
  return s;
}
inline std::string AnyBytes(size_t n) {
  std::string s;
  for (size_t i = 0; i < n; ++i) s += (char)vp::draw64();
  return s;
}
inline uint64_t Mix(uint64_t x) { x ^= x >> 31; x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return x ^ (x >> 32); }
// an arbitrary function of (input, bound) into [0, bound)
struct Fn {
  uint64_t seed;
  int mode;
  int operator()(absl::string_view in, int bound) const {
    uint64_t h = seed;
    for (unsigned char c : in) h = Mix(h * 257 + c + 1);
    h = Mix(h);
    if (mode == 1) h &= 1;
    if (mode == 2) h = 0;
    return (int)(h % (uint64_t)bound);
  }
};
inline std::vector<Fn> AnyFns(size_t lo, size_t hi) {
  std::vector<Fn> f(lo + vp::draw_below(hi - lo + 1));
  for (auto& x : f) { x.seed = vp::draw64(); x.mode = (int)vp::draw_below(4); }
  if (f.size() > 1 && vp::draw_below(4) == 0) f[1] = f[0];
  return f;
}
// SHA-256(seed || input) read as a little-endian number (low half first), modulo the bound
inline int RefSha(absl::string_view seed, absl::string_view in, int bound) {
  std::string m = std::string(seed) + std::string(in);
  unsigned char d[32];
  SHA256((const unsigned char*)m.data(), m.size(), d);
  u128 r = 0;
  for (int i = 31; i >= 0; --i) r = (r * 256 + d[i]) % (u128)bound;
  return (int)r;
}
// AES-128-CTR key stream, big-endian counter starting at the nonce
inline std::string CtrStream(const std::string& seed, const std::string& nonce, size_t n) {
  AES_KEY k;
  AES_set_encrypt_key((const uint8_t*)seed.data(), 128, &k);
  unsigned char c[16];
  memcpy(c, nonce.data(), 16);
  std::string out;
  while (out.size() < n) {
    unsigned char b[16];
    AES_encrypt(c, b, &k);
    out.append((char*)b, 16);
    for (int i = 15; i >= 0; --i) if (++c[i]) break;
  }
  out.resize(n);
  return out;
}
}  // namespace vpp
#endif
