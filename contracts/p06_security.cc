// P06: the security level of a parameter choice.
#include "dpf/int_mod_n.cc"
#include "vp.h"
using namespace distributed_point_functions;
VP_HARNESS(security_level) {
  int n = vp::any<int>("num_samples");
  absl::uint128 N = vp::any<absl::uint128>("modulus");
  double d = static_cast<double>(N), m = static_cast<double>(n);
  double want = 131 - (std::log2(d) + std::log2(m) + std::log2(m + 1));
  double got = dpf_internal::IntModNBase::GetSecurityLevel(n, N);
  uint64_t g, w;
  memcpy(&g, &got, 8);
  memcpy(&w, &want, 8);
  vp::check(g == w, "the security level is 131 - log2(N) - log2(n) - log2(n + 1)");
}
