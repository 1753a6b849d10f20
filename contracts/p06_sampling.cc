// P06: sampling from a byte string of any length is the documented base-N
// decomposition, for any number of samples; parameters are checked.
#include "dpf/int_mod_n.cc"
#include "vp.h"
using namespace distributed_point_functions;
// the security level is decided in p06_security.cc; here it is an arbitrary function of its arguments
//@stub ^distributed_point_functions::dpf_internal::IntModNBase::GetSecurityLevel => vp_security_level
extern "C" double vp_security_level(int n, absl::uint128 N) {
  uint64_t a[3] = {(uint64_t)n, absl::Uint128Low64(N), absl::Uint128High64(N)}, b;
  vp::uf("security level", 3, a, 1, &b);
  double d;
  memcpy(&d, &b, 8);
  return d;
}
namespace {
typedef unsigned __int128 u128;
template <class B> inline u128 Le(const std::string& s, size_t at) {
  u128 v = 0;
  for (size_t k = 0; k < sizeof(B); ++k) v |= (u128)(unsigned char)s[at + k] << (8 * k);
  return v;
}
template <class B, u128 kN> void Sampling() {
  typedef IntModN<B, kN> T;
  std::string s;
  vp::havoc(s, "bytes");
  size_t n = vp::any<size_t>("number of samples");
  double sec = vp::any<double>("security parameter");
  vp::assume(n > 0 && n <= 1u << 20);
  size_t want = 16 + (n - 1) * sizeof(B);
  vp::assume(s.size() >= want && s.size() <= 1u << 30);
  size_t p = vp::any<size_t>("position");
  vp::assume(p < n);
  std::vector<T> out(n);
  T::UnsafeSampleFromBytes(s, sec, absl::MakeSpan(out));
  u128 r = Le<absl::uint128>(s, 0);
  for (size_t i = 0; i < p; ++i)
    r = (sizeof(B) == 16 ? 0 : (r / kN) << (8 * sizeof(B) % 128)) | Le<B>(s, 16 + i * sizeof(B));
  vp::check(out[p] == T(static_cast<B>(r % kN)), "samples are the successive remainders of the running block");
}
template <class B, u128 kN> void Checked() {
  typedef IntModN<B, kN> T;
  std::string s;
  vp::havoc(s, "bytes");
  size_t n = vp::any<size_t>("number of samples");
  double sec = vp::any<double>("security parameter");
  vp::assume(n <= 1u << 20 && s.size() <= 1u << 30);
  std::vector<T> out(n);
  auto need = T::GetNumBytesRequired((int)n, sec);
  if (need.ok()) vp::check(*need == 16 + (long)(n - 1) * (long)sizeof(B), "the advertised byte count is one block plus one base integer per further sample");
  absl::Status st = T::SampleFromBytes(s, sec, absl::MakeSpan(out));
  vp::check(st.ok() == (need.ok() && (size_t)*need <= s.size()), "the advertised byte count is accepted and fewer bytes or a too high security parameter are rejected");
}
}  // namespace
VP_HARNESS(samples_u8) { Sampling<uint8_t, 251>(); }
VP_HARNESS(samples_u16) { Sampling<uint16_t, 65521>(); }
VP_HARNESS(samples_u32) { Sampling<uint32_t, 4294967291u>(); }
VP_HARNESS(samples_u64) { Sampling<uint64_t, 18446744073709551557ull>(); }
VP_HARNESS(samples_u128) { Sampling<absl::uint128, ((u128)1 << 80) - 65>(); }
VP_HARNESS(checked_u32) { Checked<uint32_t, 4294967291u>(); }
VP_HARNESS(checked_u128) { Checked<absl::uint128, ((u128)1 << 80) - 65>(); }
VP_HARNESS(parameters) {
  int n = vp::any<int>("num_samples"), bits = vp::any<int>("bitsize");
  absl::uint128 N = vp::any<absl::uint128>("modulus");
  double sec = vp::any<double>("security parameter");
  bool shape = (n > 0) & (bits > 0) & (bits <= 128) & ((bits == 128) | (N <= absl::uint128{1} << (bits & 127)));
  double sigma = dpf_internal::IntModNBase::GetSecurityLevel(n, N);
  bool fits = 16 + (((int64_t)bits + 7) / 8) * ((int64_t)n - 1) <= 2147483647;
  auto r = dpf_internal::IntModNBase::GetNumBytesRequired(n, bits, N, sec);
  bool c = dpf_internal::IntModNBase::CheckParameters(n, bits, N, sec).ok();
  vp::check(c == (shape & !(sec > sigma)), "parameters are accepted exactly when they fit and the security level reaches the request");
  vp::check(r.ok() == (c & fits), "a byte count is returned exactly for accepted parameters whose count is representable");
  if (r.ok()) vp::check(*r == 16 + ((bits + 7) / 8) * (n - 1), "the advertised byte count is one block plus one base integer per further sample");
}
