// P01, bounded: key pairs of drawn parameters evaluate to shares of the point function.
#include "dpf/distributed_point_function.cc"
#include "dpf_common.h"
using namespace vpd;
namespace {
template <class T> void Level1(Instance& I, Keys& K, int h, bool exhaustive) {
  int log = I.levels[h].log;
  uint128 ap = Shr(K.alpha, I.levels.back().log - log);
  std::vector<uint128> pts;
  if (exhaustive && log <= 8) for (int i = 0; i < (1 << log); ++i) pts.push_back(i);
  else for (int i = 0, n = 1 + (int)vp::draw_below(40); i < n; ++i) pts.push_back(AnyPoint(log, ap));
  pts.push_back(ap);
  for (auto& p : pts) vp::note("point", Hex(p));
  auto r0 = I.dpf->EvaluateAt<T>(K.k[0], h, pts);
  auto r1 = I.dpf->EvaluateAt<T>(K.k[1], h, pts);
  vp::check(r0.ok() && r1.ok(), "point evaluation succeeds on generated keys");
  vp::check(r0->size() == pts.size() && r1->size() == pts.size(), "one value per point");
  T beta = FromV<T>::go(K.beta[h]);
  for (size_t i = 0; i < pts.size(); ++i) {
    T s = Ty<T>::Add((*r0)[i], (*r1)[i]);
    vp::check(Ty<T>::Eq(s, pts[i] == ap ? beta : T{}), "shares add to beta at the prefix of alpha and to zero elsewhere");
  }
}
template <class T> void Full(Instance& I, Keys& K) {
  // expand everything along a chain of prefixes
  EvaluationContext c[2];
  for (int b = 0; b < 2; ++b) {
    auto r = I.dpf->CreateEvaluationContext(K.k[b]);
    vp::check(r.ok(), "a context is created for a generated key");
    c[b] = *r;
  }
  std::vector<uint128> prefixes;
  for (int h = 0; h < (int)I.levels.size(); ++h) {
    int log = I.levels[h].log, prev = h ? I.levels[h - 1].log : 0;
    uint128 ap = Shr(K.alpha, I.levels.back().log - log);
    auto r0 = I.dpf->EvaluateNext<T>(prefixes, c[0]);
    auto r1 = I.dpf->EvaluateNext<T>(prefixes, c[1]);
    vp::check(r0.ok() && r1.ok(), "expansion succeeds on generated keys");
    size_t per = size_t(1) << (log - prev), np = prefixes.empty() ? 1 : prefixes.size();
    vp::check(r0->size() == per * np && r1->size() == per * np, "one value per point under every prefix");
    T beta = FromV<T>::go(K.beta[h]);
    std::vector<uint128> next;
    for (size_t i = 0; i < r0->size(); ++i) {
      uint128 x = ((prefixes.empty() ? uint128{0} : prefixes[i / per]) << (log - prev)) + uint128(i % per);
      vp::check(Ty<T>::Eq(Ty<T>::Add((*r0)[i], (*r1)[i]), x == ap ? beta : T{}), "expanded shares add to the point function");
    }
    next.push_back(ap);
    for (int k = 0; k < (int)vp::draw_below(4); ++k) next.push_back(((prefixes.empty() ? uint128{0} : prefixes[vp::draw_below(prefixes.size())]) << (log - prev)) + uint128(vp::draw_below(per)));
    prefixes = next;
  }
}
}  // namespace
VP_HARNESS(point_function_points) {
  Instance I = AnyInstance(4, (int)vp::draw_below(4) ? 9 : 60);
  Keys K = AnyKeys(I);
  for (int h = 0; h < (int)I.levels.size(); ++h)
    WithType(I.levels[h].type, [&](auto* p) { Level1<std::remove_pointer_t<decltype(p)>>(I, K, h, true); });
}
VP_HARNESS(point_function_large) {
  Instance I = AnyInstance(5, 128);
  Keys K = AnyKeys(I);
  for (int h = 0; h < (int)I.levels.size(); ++h)
    WithType(I.levels[h].type, [&](auto* p) { Level1<std::remove_pointer_t<decltype(p)>>(I, K, h, false); });
}
VP_HARNESS(point_function_expanded) {
  int t = (int)vp::draw_below(kTypes);
  Instance I = AnyInstance(4, (int)vp::draw_below(3) ? 6 : 9, t);
  Keys K = AnyKeys(I);
  WithType(t, [&](auto* p) { Full<std::remove_pointer_t<decltype(p)>>(I, K); });
}
VP_HARNESS(keys_well_formed) {
  Instance I = AnyInstance(4, 40);
  Keys K = AnyKeys(I);
  for (int b = 0; b < 2; ++b) {
    vp::check(K.k[b].party() == b, "the two keys carry the two party numbers");
    vp::check(K.k[b].has_seed() && K.k[b].correction_words_size() == I.tree_levels - 1, "one correction word per tree level below the root");
    vp::check(I.dpf->CreateEvaluationContext(K.k[b]).ok(), "generated keys are accepted");
  }
  vp::check(K.k[0].correction_words_size() == K.k[1].correction_words_size(), "both keys have the same correction words");
  for (int i = 0; i < K.k[0].correction_words_size(); ++i)
    vp::check(K.k[0].correction_words(i).SerializeAsString() == K.k[1].correction_words(i).SerializeAsString(), "both keys have the same correction words");
  // out-of-domain alpha and wrong number of betas are rejected
  int log = I.levels.back().log;
  if (log < 128) vp::check(!I.dpf->GenerateKeysIncremental(K.alpha | (uint128{1} << (log + (int)vp::draw_below(128 - log))), absl::MakeConstSpan(K.beta)).ok(), "alpha outside the domain is rejected");
  auto b = K.beta;
  if (vp::draw64() & 1) b.pop_back(); else b.push_back(b[0]);
  vp::check(!I.dpf->GenerateKeysIncremental(K.alpha, absl::MakeConstSpan(b)).ok(), "a wrong number of values is rejected");
}
