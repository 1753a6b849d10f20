// P17: a seeded generator is a position in the AES-CTR key stream of its seed
// and nonce, for an arbitrary block cipher E.  OpenSSL's CTR call stands under
// its own contract (the definition of counter mode with a partly used block).
#include <cstring>
#include "vp.h"
#include "absl/numeric/int128.h"
#include "pir/prng/aes_128_ctr_seeded_prng.cc"
namespace {
using absl::uint128;
using namespace distributed_point_functions;
uint128 BigEndian(const uint8_t* p) {
  uint128 r = 0;
  for (int i = 0; i < 16; ++i) r = r << 8 | p[i];
  return r;
}
void ToBigEndian(uint128 v, uint8_t* p) {
  for (int i = 0; i < 16; ++i) p[i] = (uint8_t)absl::Uint128Low64(v >> (8 * (15 - i)));
}
// byte r of the encryption of counter c
uint8_t E(uint128 key, uint128 c, unsigned r) {
  return (uint8_t)absl::Uint128Low64(vp::uf2("block_cipher", key, c) >> (8 * r));
}
// byte p of the key stream that starts at counter c
uint8_t S(uint128 key, uint128 c, uint64_t p) { return E(key, c + p / 16, p % 16); }
uint128 KeyOf(const AES_KEY* k) { return absl::MakeUint128((uint64_t)k->rd_key[3] << 32 | k->rd_key[2], (uint64_t)k->rd_key[1] << 32 | k->rd_key[0]); }
int g_key_result = 0;
}  // namespace
extern "C" {
int AES_set_encrypt_key(const uint8_t* key, unsigned bits, AES_KEY* k) {
  vp::check(bits == 128, "a 128-bit key is set up");
  if (g_key_result) return g_key_result;
  uint128 x = BigEndian(key);
  for (int i = 0; i < 4; ++i) k->rd_key[i] = (uint32_t)absl::Uint128Low64(x >> (32 * i));
  k->rounds = 10;
  return 0;
}
uint32_t ERR_get_error() { return 0; }
char* ERR_error_string_n(uint32_t, char* buf, size_t) { buf[0] = 0; return buf; }
void AES_ctr128_encrypt(const uint8_t* in, uint8_t* out, size_t len, const AES_KEY* k, uint8_t* ivec, uint8_t* ecount, unsigned* num) {
  uint128 key = KeyOf(k), c = BigEndian(ivec);
  uint64_t used = *num;
  vp::check(k->rounds == 10 && used < 16, "the key is set up and the state is one counter mode can be in");
  // the part of the last block that is still unused was computed with the counter before
  for (unsigned i = 0; i < 16; ++i) vp::check((i < used) | (used == 0) | (ecount[i] == E(key, c - 1, i)), "the rest of the last block is kept");
  uint128 first = c - (used ? 1 : 0);
  for (size_t i = 0; i < len; ++i) out[i] = in[i] ^ S(key, first, used + i);
  uint64_t end = used + len;
  if (len == 0) return;
  uint128 last = first + (end - 1) / 16;
  for (unsigned i = 0; i < 16; ++i) ecount[i] = E(key, last, i);
  ToBigEndian(last + 1, ivec);
  *num = end % 16;
}
}
namespace {
// the invariant: the generator stands at byte pos of the stream of key and nonce
void CheckPosition(const Aes128CtrSeededPrng& g, uint128 key, uint128 nonce, uint64_t pos) {
  uint128 c = nonce + (pos / 16) + (pos % 16 ? 1 : 0);
  vp::check((KeyOf(&g.aes_key_) == key) & (g.aes_key_.rounds == 10), "the generator holds the key of its seed");
  vp::check((g.ivec_.size() == 16) & (g.ecount_buf_.size() == 16), "its state has the size of a block");
  vp::check(g.num_ == pos % 16, "as many bytes of the current block are used as its position says");
  vp::check(BigEndian(g.ivec_.data()) == c, "its counter is the nonce plus the number of blocks begun");
  for (unsigned i = 0; i < 16; ++i) vp::check((i < pos % 16) | (pos % 16 == 0) | (g.ecount_buf_[i] == E(key, c - 1, i)), "the rest of the current block is kept for the next request");
}
}  // namespace
// creation puts a generator at position 0 of the stream of its seed and nonce
VP_HARNESS(create) {
  std::string seed, nonce;
  vp::havoc(seed, "seed");
  vp::havoc(nonce, "nonce");
  if (vp::kNative && vp::any<bool>("sizes fit")) { seed.resize(16); nonce.resize(16); }
  g_key_result = vp::any<bool>("key setup fails") ? -1 : 0;
  auto g = Aes128CtrSeededPrng::CreateWithNonce(seed, nonce);
  bool sizes = seed.size() == 16 && nonce.size() == 16;
  vp::check(g.ok() == (sizes && g_key_result == 0), "exactly seeds and nonces of 16 bytes are accepted");
  if (!g.ok()) {
    vp::check(g.status().code() == (sizes ? absl::StatusCode::kInternal : absl::StatusCode::kInvalidArgument), "with the documented error");
    return;
  }
  vp::cover("created");
  CheckPosition(**g, BigEndian((const uint8_t*)seed.data()), BigEndian((const uint8_t*)nonce.data()), 0);
}
VP_HARNESS(create_zero_nonce) {
  std::string seed;
  vp::havoc(seed, "seed");
  if (vp::kNative && vp::any<bool>("size fits")) seed.resize(16);
  g_key_result = 0;
  auto g = Aes128CtrSeededPrng::Create(seed);
  vp::check(g.ok() == (seed.size() == 16), "exactly seeds of 16 bytes are accepted");
  if (!g.ok()) return;
  CheckPosition(**g, BigEndian((const uint8_t*)seed.data()), 0, 0);
}
// a request at any position returns the next bytes of the stream and leaves the
// generator right behind them; by induction every split gives the same stream
VP_HARNESS(request) {
  uint128 nonce = vp::any<uint128>("nonce");
  AES_KEY k;
  vp::havoc(k, "key");
  k.rounds = 10;
  uint128 key = KeyOf(&k);
  uint64_t pos = vp::any<uint64_t>("position"), n = vp::any<uint64_t>("length");
  if (vp::kNative) n %= 100;
  vp::assume(pos <= (uint64_t)1 << 62 && n <= 1u << 30);
  std::vector<uint8_t> iv(16, 0), ec(16, 0);
  uint128 c = nonce + (pos / 16) + (pos % 16 ? 1 : 0);
  ToBigEndian(c, iv.data());
  uint8_t old[16];
  vp::havoc(old, "old block");
  for (unsigned i = 0; i < 16; ++i) ec[i] = i < pos % 16 || pos % 16 == 0 ? old[i] : E(key, c - 1, i);
  Aes128CtrSeededPrng g(k, std::move(iv), std::move(ec));
  g.num_ = pos % 16;
  CheckPosition(g, key, nonce, pos);
  std::string s = g.GetRandomBytes(n);
  vp::check(s.size() == n, "exactly the requested number of bytes");
  vp::forall(0, n, "the bytes are the next ones of the stream", [&](size_t i) { return (uint8_t)s[i] == S(key, nonce, pos + i); });
  CheckPosition(g, key, nonce, pos + n);
}
