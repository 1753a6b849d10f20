// P04: the fixed-key hash is H(x) = E_k(s(x)) xor s(x) block by block, for an
// arbitrary block cipher E (EVP calls stand under the contract below).
#include <cstring>
#include "vp.h"
#include "dpf/aes_128_fixed_key_hash.cc"
namespace {
using absl::uint128;
using namespace distributed_point_functions;
struct Ctx { uint128 key; bool set; };
int g_init_result = 1, g_cipher_result = 1;
const int kEcb = 0;
uint128 E(uint128 k, uint128 x) { return vp::uf2("block_cipher", k, x); }
uint128 H(uint128 k, uint128 x) {
  uint128 s = absl::MakeUint128(absl::Uint128High64(x) ^ absl::Uint128Low64(x), absl::Uint128High64(x));
  return E(k, s) ^ s;
}
}  // namespace
extern "C" {
EVP_CIPHER_CTX* EVP_CIPHER_CTX_new() { return (EVP_CIPHER_CTX*)new Ctx(); }
void EVP_CIPHER_CTX_free(EVP_CIPHER_CTX* c) { delete (Ctx*)c; }
const EVP_CIPHER* EVP_aes_128_ecb() { return (const EVP_CIPHER*)&kEcb; }
int EVP_EncryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* cipher, ENGINE*, const uint8_t* key, const uint8_t* iv) {
  vp::check(c && cipher == EVP_aes_128_ecb() && key && !iv, "the cipher is set up as AES-128 in ECB mode with a key and without an IV");
  memcpy(&((Ctx*)c)->key, key, 16);
  ((Ctx*)c)->set = true;
  return g_init_result;
}
uint32_t ERR_get_error() { return 0; }
char* ERR_error_string_n(uint32_t, char* buf, size_t) { buf[0] = 0; return buf; }
int EVP_Cipher(EVP_CIPHER_CTX* c, uint8_t* out, const uint8_t* in, size_t len) {
  vp::check(((const Ctx*)c)->set && len % 16 == 0, "whole blocks are encrypted with a context that is set up");
  const uint128* x = (const uint128*)in;
  uint128* y = (uint128*)out;
  for (size_t i = 0; i < len / 16; ++i) y[i] = E(((const Ctx*)c)->key, x[i]);
  return g_cipher_result;
}
}
VP_HARNESS(evaluate) {
  g_init_result = 1;
  g_cipher_result = 1;
  uint128 key = vp::any<uint128>("key");
  auto h = Aes128FixedKeyHash::Create(key);
  vp::check(h.ok(), "Create succeeds when the cipher can be set up");
  vp::check(h->key() == key, "the hash keeps its key");
  std::vector<uint128> in, out;
  vp::havoc(in, "inputs");
  size_t n = in.size();
  vp::assume(n <= VP_MAX_SIZE / 16);
  out.resize(n);
  absl::Status s = h->Evaluate(absl::MakeConstSpan(in), absl::MakeSpan(out));
  vp::check(s.ok(), "Evaluate succeeds on spans of equal size");
  vp::forall(0, n, "every output block is E_k(s(x)) xor s(x) of its own input block", [&](size_t i) { return out[i] == H(key, in[i]); });
}
VP_HARNESS(errors) {
  uint128 key = vp::any<uint128>("key");
  g_cipher_result = 1;
  g_init_result = vp::any<int>("result of key setup") & 1;
  auto h = Aes128FixedKeyHash::Create(key);
  vp::check(h.ok() == (g_init_result == 1), "a failing key setup is reported");
  if (!h.ok()) { vp::check(h.status().code() == absl::StatusCode::kInternal, "as INTERNAL"); return; }
  std::vector<uint128> in, out;
  vp::havoc(in, "inputs");
  vp::havoc(out, "outputs");
  vp::assume(in.size() <= VP_MAX_SIZE / 16 && out.size() <= VP_MAX_SIZE / 16);
  if (vp::any<bool>("equal sizes")) out.resize(in.size());
  g_cipher_result = vp::any<int>("result of encryption") & 1;
  absl::Status s = h->Evaluate(absl::MakeConstSpan(in), absl::MakeSpan(out));
  if (in.size() != out.size()) vp::check(s.code() == absl::StatusCode::kInvalidArgument, "different sizes are rejected");
  else if (in.empty()) vp::check(s.ok(), "nothing to do is fine");
  else vp::check(g_cipher_result == 1 ? s.ok() : s.code() == absl::StatusCode::kInternal, "a failing encryption is reported as INTERNAL");
}
