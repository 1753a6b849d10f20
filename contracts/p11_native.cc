// P11, bounded: the two DCF keys evaluate to shares of beta * [x < alpha].
#include "dpf/distributed_point_function.cc"
#include "dcf/distributed_comparison_function.cc"
#include "dpf_common.h"
using namespace vpd;
namespace {
std::unique_ptr<DistributedComparisonFunction> Make(int log, int type) {
  DcfParameters p;
  p.mutable_parameters()->set_log_domain_size(log);
  *p.mutable_parameters()->mutable_value_type() = TypeOf(type);
  auto r = DistributedComparisonFunction::Create(p);
  // modular types cannot offer the default security parameter on large domains
  if (!r.ok()) { vp::check(type >= 8 && !(type >= 11 && type <= 13), "valid DCF parameters are accepted"); vp::assume(false); }
  return std::move(*r);
}
template <class T> void Shares(int type, int maxlog, int npoints) {
  int log = 1 + (int)vp::draw_below(maxlog);
  vp::note("type", std::to_string(type));
  vp::note("log_domain_size", std::to_string(log));
  auto d = Make(log, type);
  uint128 alpha = AnyPoint(log, Draw128());
  T beta = Ty<T>::Any();
  vp::note("alpha", Hex(alpha));
  vp::note("beta", dpf_internal::ValueTypeHelper<T>::ToValue(beta).ShortDebugString());
  auto k = d->GenerateKeys<T>(alpha, beta);
  vp::check(k.ok(), "key generation accepts every valid alpha and beta");
  std::vector<uint128> pts;
  if (log <= 6) for (int i = 0; i < (1 << log); ++i) pts.push_back(i);
  else for (int i = 0; i < npoints; ++i) pts.push_back(AnyPoint(log, alpha));
  for (auto& x : pts) {
    vp::note("x", Hex(x));
    auto a = d->Evaluate<T>(k->first, x), b = d->Evaluate<T>(k->second, x);
    vp::check(a.ok() && b.ok(), "evaluation succeeds");
    vp::check(Ty<T>::Eq(Ty<T>::Add(*a, *b), x < alpha ? beta : T{}), "shares add to beta below alpha and to zero from alpha on");
  }
  if (log < 128) vp::check(!d->GenerateKeys<T>(alpha | (uint128{1} << (log + (int)vp::draw_below(128 - log))), beta).ok(), "alpha outside the domain is rejected");
}
template <class T> void Batch(int type) {
  int log = 1 + (int)vp::draw_below(vp::draw_below(3) ? 20 : 128);
  auto d = Make(log, type);
  vp::note("type", std::to_string(type));
  vp::note("log_domain_size", std::to_string(log));
  int m = (int)vp::draw_below(20);
  std::vector<DcfKey> keys;
  std::vector<uint128> pts;
  for (int i = 0; i < m; ++i) {
    uint128 alpha = AnyPoint(log, Draw128());
    auto k = d->GenerateKeys<T>(alpha, Ty<T>::Any());
    vp::check(k.ok(), "key generation accepts every valid alpha and beta");
    keys.push_back(vp::draw64() & 1 ? k->first : k->second);
    pts.push_back(AnyPoint(log, alpha));
    vp::note("alpha, x", Hex(alpha) + " " + Hex(pts.back()));
  }
  std::vector<const DcfKey*> ptrs;
  for (auto& k : keys) ptrs.push_back(&k);
  auto al = hwy::AllocateAligned<uint128>(m + 1);
  std::copy(pts.begin(), pts.end(), al.get());
  bool aligned = vp::draw64() & 1;
  absl::Span<const uint128> sp = aligned ? absl::Span<const uint128>(al.get(), m) : absl::Span<const uint128>(pts);
  auto r = vp::draw64() & 1 ? d->BatchEvaluate<T>(keys, sp) : d->BatchEvaluate<T>(ptrs, sp);
  vp::check(r.ok() && r->size() == (size_t)m, "batch evaluation returns one value per key");
  std::vector<T> out(m, Ty<T>::Any());
  vp::check(d->BatchEvaluate<T>(keys, sp, absl::MakeSpan(out)).ok(), "batch evaluation into a span succeeds");
  for (int i = 0; i < m; ++i) {
    auto e = d->Evaluate<T>(keys[i], pts[i]);
    vp::check(e.ok() && Ty<T>::Eq(*e, (*r)[i]) && Ty<T>::Eq(*e, out[i]), "a batch gives the same results as evaluating each alone");
  }
  if (m > 0) {
    vp::check(!d->BatchEvaluate<T>(keys, sp.subspan(1)).ok(), "mismatching numbers of keys and points are rejected");
    vp::check(!d->BatchEvaluate<T>(keys, sp, absl::MakeSpan(out).subspan(1)).ok(), "an output of the wrong size is rejected");
  }
}
}  // namespace
VP_HARNESS(comparison_shares) {
  int t = (int)vp::draw_below(kTypes);
  WithType(t, [&](auto* p) { Shares<std::remove_pointer_t<decltype(p)>>(t, 14, 30); });
}
VP_HARNESS(comparison_shares_large) {
  int t = (int)vp::draw_below(kTypes);
  WithType(t, [&](auto* p) { Shares<std::remove_pointer_t<decltype(p)>>(t, 128, 10); });
}
VP_HARNESS(batches) {
  int t = (int)vp::draw_below(kTypes);
  WithType(t, [&](auto* p) { Batch<std::remove_pointer_t<decltype(p)>>(t); });
}
VP_HARNESS(domain_sizes) {
  DcfParameters p;
  int log = (int)vp::draw_below(400) - 130;
  p.mutable_parameters()->set_log_domain_size(log);
  *p.mutable_parameters()->mutable_value_type() = TypeOf((int)vp::draw_below(8));
  vp::check(DistributedComparisonFunction::Create(p).ok() == (log >= 1 && log <= 128), "domain sizes 1 to 128 are accepted and no others");
}
