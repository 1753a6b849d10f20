// P17, bounded: seeded generators.
#include "pir/prng/aes_128_ctr_seeded_prng.cc"
#include "pir_common.h"
using namespace vpp;
using namespace distributed_point_functions;
VP_HARNESS(stream) {
  std::string seed = AnyBytes(16), nonce = AnyBytes(16);
  if (vp::draw64() & 1) for (int i = (int)vp::draw_below(16); i < 16; ++i) nonce[i] = (char)0xff;
  if (vp::draw_below(8) == 0) nonce = std::string(16, '\xff');
  vp::note("seed", vp::hex(seed.data(), 16));
  vp::note("nonce", vp::hex(nonce.data(), 16));
  bool plain = vp::draw_below(4) == 0;
  if (plain) nonce = std::string(16, '\0');
  auto p = plain ? Aes128CtrSeededPrng::Create(seed) : Aes128CtrSeededPrng::CreateWithNonce(seed, nonce);
  vp::check(p.ok(), "seeds and nonces of 16 bytes are accepted");
  std::string want = CtrStream(seed, nonce, 2000), got;
  int n = 1 + (int)vp::draw_below(12);
  seed.assign(16, 'x');
  nonce.assign(16, 'y');
  for (int i = 0; i < n; ++i) {
    size_t len = vp::draw_below(3) ? vp::draw_below(40) : vp::draw_below(150);
    vp::note("request", std::to_string(len));
    std::string r = (*p)->GetRandomBytes(len);
    vp::check(r.size() == len, "a request returns exactly the requested number of bytes");
    got += r;
    vp::check(got == want.substr(0, got.size()), "the stream is the AES-128-CTR key stream however it is split");
  }
}
VP_HARNESS(lengths) {
  std::string s = AnyBytes(vp::draw64() & 1 ? 16 : vp::draw_below(40)), n = AnyBytes(vp::draw64() & 1 ? 16 : vp::draw_below(40));
  if (vp::draw_below(3) == 0) n.resize(s.size());
  auto a = Aes128CtrSeededPrng::CreateWithNonce(s, n);
  vp::note("sizes", std::to_string(s.size()) + " " + std::to_string(n.size()));
  vp::check(a.ok() == (s.size() == 16 && n.size() == 16), "seeds and nonces of the wrong length are rejected");
  if (!a.ok()) vp::check(a.status().code() == absl::StatusCode::kInvalidArgument, "rejections are INVALID_ARGUMENT");
  auto b = Aes128CtrSeededPrng::Create(s);
  vp::check(b.ok() == (s.size() == 16), "seeds of the wrong length are rejected");
  auto g = Aes128CtrSeededPrng::GenerateSeed();
  vp::check(g.ok() && g->size() == 16 && Aes128CtrSeededPrng::Create(*g).ok(), "generated seeds have the right length");
}
