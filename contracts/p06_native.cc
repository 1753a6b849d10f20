// P06, bounded: sampling is the documented base-N decomposition with checks.
#include <cmath>
#include "dpf/int_mod_n.cc"
#include "dpf_common.h"
using namespace vpd;
namespace {
// base 2^128 digits
template <class B> std::vector<u128> Decompose(const std::string& bytes, size_t n, u128 N) {
  const unsigned char* p = (const unsigned char*)bytes.data();
  u128 r = LE<u128>(p);
  p += 16;
  std::vector<u128> v;
  for (size_t i = 0; i < n; ++i) {
    v.push_back(r % N);
    if (i + 1 < n) {
      r = sizeof(B) == 16 ? 0 : (r / N) << (8 * sizeof(B) % 128);
      r |= (u128)LE<B>(p);
      p += sizeof(B);
    }
  }
  return v;
}
template <class B, unsigned __int128 N> void Sampling() {
  typedef IntModN<B, N> T;
  size_t n = 1 + vp::draw_below(12);
  double sigma = 131 - (std::log2((double)N) + std::log2((double)n) + std::log2((double)(n + 1)));
  double sec = vp::any<double>("security parameter");
  if (vp::draw64() & 1) sec = sigma + (vp::draw64() & 1 ? 0.01 : -0.01);
  auto need = T::GetNumBytesRequired((int)n, sec);
  vp::note("n", std::to_string(n));
  vp::check(need.ok() == !(sec > sigma), "parameters are accepted exactly when the security level reaches the request");
  std::string s;
  size_t want = 16 + (n - 1) * sizeof(B);
  size_t len = vp::draw_below(3) ? want + vp::draw_below(20) : vp::draw_below(want + 3);
  for (size_t i = 0; i < len; ++i) s += (char)vp::draw_int(8);
  vp::note("bytes", vp::hex(s.data(), s.size()));
  std::vector<T> out(n);
  absl::Status st = T::SampleFromBytes(s, sec, absl::MakeSpan(out));
  if (need.ok()) vp::check((size_t)*need == want, "the advertised byte count is one block plus one base integer per further sample");
  vp::check(st.ok() == (need.ok() && len >= want), "the advertised byte count is accepted and fewer bytes or a too high security parameter are rejected");
  auto ref = len >= want ? Decompose<B>(s, n, N) : std::vector<u128>();
  if (st.ok()) for (size_t i = 0; i < n; ++i) vp::check((u128)out[i].value() == ref[i] && ref[i] < N, "samples are the successive remainders of the running block");
  if (len >= want) {
    std::vector<T> o2(n);
    T::UnsafeSampleFromBytes(s, sec, absl::MakeSpan(o2));
    for (size_t i = 0; i < n; ++i) vp::check((u128)o2[i].value() == ref[i], "unchecked sampling gives the same samples");
    std::vector<T> o3(n);
    T::template UnsafeSampleFromBytes<5>(s, sec, absl::MakeSpan(o3));
    for (size_t i = 0; i < n; ++i) vp::check((u128)o3[i].value() == ref[i], "the compiled number of samples does not matter");
    // element by element, as the DPF does
    uint128 block(LE<u128>((const unsigned char*)s.data()));
    absl::string_view rest = absl::string_view(s).substr(16);
    for (size_t i = 0; i < n; ++i) {
      T x = dpf_internal::ValueTypeHelper<T>::SampleAndUpdateBytes(i + 1 < n, block, rest);
      vp::check((u128)x.value() == ref[i], "sampling element by element gives the same samples");
    }
    vp::check(rest.size() == len - want, "exactly the advertised number of bytes is consumed");
  }
  std::vector<T> none;
  vp::check(!T::SampleFromBytes(s, 0, absl::MakeSpan(none)).ok(), "zero samples are rejected");
}
}  // namespace
VP_HARNESS(sampling) {
  switch (vp::draw_below(9)) {
    case 0: Sampling<uint8_t, 251>(); break;
    case 1: Sampling<uint16_t, 65521>(); break;
    case 2: Sampling<uint32_t, 4294967291u>(); break;
    case 3: Sampling<uint64_t, 18446744073709551557ull>(); break;
    case 4: Sampling<uint64_t, 3298534883309ull>(); break;
    case 5: Sampling<uint32_t, 2>(); break;
    case 6: Sampling<uint64_t, 1>(); break;
    case 7: Sampling<absl::uint128, ((unsigned __int128)1 << 80) - 65>(); break;
    case 8: Sampling<absl::uint128, ((unsigned __int128)1 << 100) - 15>(); break;
  }
}
VP_HARNESS(parameters) {
  int n = vp::any<int>("num_samples"), bits = vp::any<int>("bitsize");
  if (vp::draw64() & 1) n = (int)vp::draw_below(100) - 3;
  if (vp::draw_below(4)) bits = (int)vp::draw_below(140) - 5;
  uint128 N = Draw128();
  if (vp::draw64() & 1) N = Shr(N, (int)vp::draw_below(128));
  if (bits > 0 && bits < 128 && vp::draw_below(4) == 0) N = (uint128{1} << bits) + uint128(vp::draw_below(3)) - 1;
  vp::note("modulus", Hex(N));
  vp::assume(N > 0);
  double sec = vp::any<double>("security parameter");
  bool shape = n > 0 && bits > 0 && bits <= 128 && (bits == 128 || N <= (uint128{1} << bits));
  double sigma = 131 - (std::log2((double)N) + std::log2((double)n) + std::log2((double)n + 1));
  if (shape && vp::draw64() & 1) sec = sigma + (vp::draw64() & 1 ? 0.01 : -0.01);
  vp::assume(!(n > 2000000000));
  auto r = dpf_internal::IntModNBase::GetNumBytesRequired(n, bits, N, sec);
  vp::assume(!(shape && std::fabs(sec - sigma) < 1e-6));
  bool fits = !shape || 16 + (int64_t)((bits + 7) / 8) * ((int64_t)n - 1) <= 2147483647;
  vp::check(r.ok() == (shape && !(sec > sigma) && fits), "parameters are accepted exactly under the documented conditions");
  if (r.ok()) vp::check(*r == 16 + ((bits + 7) / 8) * (n - 1), "advertised bytes");
  vp::check(dpf_internal::IntModNBase::CheckParameters(n, bits, N, sec).ok() == (shape && !(sec > sigma)), "parameters are accepted exactly under the documented conditions");
}
