// P02, bounded: every evaluation entry point returns the value the DPF tree
// assigns to the requested leaf, in the order of the request.
#include "dpf/distributed_point_function.cc"
#include "dpf_common.h"
using namespace vpd;
namespace {
// a key that is only required to be well-formed
DpfKey AnyKey(Instance& I, const Keys& K) {
  DpfKey k = K.k[vp::draw64() & 1];
  if (vp::draw64() & 1) {
    for (auto& c : *k.mutable_correction_words()) {
      uint128 s = Draw128();
      c.mutable_seed()->set_high(absl::Uint128High64(s));
      c.mutable_seed()->set_low(absl::Uint128Low64(s));
      c.set_control_left(vp::draw64() & 1);
      c.set_control_right(vp::draw64() & 1);
    }
    for (int h = 0; h < (int)I.levels.size(); ++h) {
      auto& vc = h + 1 < (int)I.levels.size() ? *k.mutable_correction_words(I.tree[h])->mutable_value_correction() : *k.mutable_last_level_value_correction();
      for (auto& v : vc) v = AnyValue(I.levels[h].type);
    }
  }
  vp::note("key", k.ShortDebugString());
  return k;
}
std::string Show(const std::vector<uint128>& v) { std::string s; for (auto& x : v) s += Hex(x) + " "; return s; }
template <class T> void Same(Instance& I, const DpfKey& k, int h, const std::vector<uint128>& pts, const absl::StatusOr<std::vector<T>>& r, const char* what) {
  vp::check(r.ok(), what);
  vp::check(r->size() == pts.size(), "one value per requested point");
  for (size_t i = 0; i < pts.size(); ++i) vp::check(Ty<T>::Eq((*r)[i], Leaf<T>(I, k, h, pts[i])), what);
}
// evaluates `levels` in order with one context, mixing expansion and point evaluation
template <class T> void Context(Instance& I, const DpfKey& k) {
  int n = (int)I.levels.size();
  auto rc = I.dpf->CreateEvaluationContext(k);
  vp::check(rc.ok(), "a context is created for a well-formed key");
  EvaluationContext c = *rc;
  // the context knows the subtrees under `known` (points of level `klevel`), or
  // everything while klevel is -1
  std::vector<uint128> known;
  int klevel = -1, prev = -1, back = 0;
  auto under = [&](int level) {
    int log = I.levels[level].log;
    if (klevel < 0 || level < klevel) return AnyPoint(log, Draw128());
    uint128 q = known[vp::draw_below(known.size())];
    int d = log - I.levels[klevel].log;
    return d >= 128 ? Draw128() : (q << d) | (Draw128() & Mask(d));
  };
  while (prev < n - 1) {
    int left = n - 1 - prev;
    int h = prev + 1 + (int)vp::draw_below(vp::draw64() & 1 ? 1 : left);
    bool at = vp::draw_below(4) == 0;
    if (prev >= 0 && back < 4 && vp::draw_below(5) == 0) {
      // point evaluation may also return to an evaluated level
      at = true;
      ++back;
      h = (int)vp::draw_below(prev + 1);
    }
    int log = I.levels[h].log, plog = prev < 0 ? 0 : I.levels[prev].log;
    if (vp::draw_below(4) == 0) {
      // contexts survive serialization
      std::string s = c.SerializeAsString();
      EvaluationContext c2;
      vp::check(c2.ParseFromString(s), "a context can be stored");
      c = c2;
    }
    std::vector<uint128> pts;
    absl::StatusOr<std::vector<T>> r = absl::UnknownError("");
    if (at) {
      int m = 1 + (int)vp::draw_below(12);
      for (int i = 0; i < m; ++i) pts.push_back(under(h));
      vp::note("EvaluateAt level", std::to_string(h));
      vp::note("points", Show(pts));
      r = I.dpf->EvaluateAt<T>(h, pts, c);
      known = pts;
      klevel = h;
    } else {
      std::vector<uint128> pre;
      if (prev >= 0) {
        size_t m = 1 + vp::draw_below(9);
        uint64_t mode = vp::draw_below(3);
        for (size_t i = 0; i < m; ++i) {
          uint128 q = under(prev);
          if (klevel < 0 && !pre.empty()) q = AnyPoint(plog, pre[vp::draw_below(pre.size())]);
          pre.push_back(q);
        }
        if (mode == 0) std::sort(pre.begin(), pre.end());
        if (mode == 1) { std::sort(pre.begin(), pre.end()); pre.erase(std::unique(pre.begin(), pre.end()), pre.end()); }
      }
      if (log - plog > 11) vp::assume(false);
      vp::note("EvaluateUntil level", std::to_string(h));
      vp::note("prefixes", Show(pre));
      bool next = h == prev + 1 && (vp::draw64() & 1);
      r = next ? I.dpf->EvaluateNext<T>(pre, c) : I.dpf->EvaluateUntil<T>(h, pre, c);
      if (pre.empty()) pre.push_back(0);
      else { known = pre; klevel = prev; }
      for (auto& q : pre) for (uint64_t j = 0; j < (uint64_t(1) << (log - plog)); ++j) pts.push_back((q << (log - plog)) | uint128{j});
    }
    Same<T>(I, k, h, pts, r, at ? "point evaluation with a context returns the value of the leaf" : "expansion returns the value of the leaf");
    vp::check(c.previous_hierarchy_level() == h, "the context records the evaluated level");
    vp::check(c.key().SerializeAsString() == k.SerializeAsString(), "evaluation leaves the key of the context alone");
    prev = h;
  }
}
}  // namespace
VP_HARNESS(evaluate_at_agrees_with_the_tree) {
  Instance I = AnyInstance(4, (int)vp::draw_below(4) ? 12 : 70);
  Keys K = AnyKeys(I);
  DpfKey k = AnyKey(I, K);
  for (int h = 0; h < (int)I.levels.size(); ++h) WithType(I.levels[h].type, [&](auto* p) {
    typedef std::remove_pointer_t<decltype(p)> T;
    std::vector<uint128> pts;
    int m = vp::draw_below(4) ? (int)vp::draw_below(12) : (int)vp::draw_below(300);
    for (int i = 0; i < m; ++i) pts.push_back(AnyPoint(I.levels[h].log, K.alpha));
    Same<T>(I, k, h, pts, I.dpf->EvaluateAt<T>(k, h, pts), "point evaluation returns the value of the leaf");
    // points outside the domain and other levels are rejected
    if (I.levels[h].log < 128) {
      pts.insert(pts.begin() + vp::draw_below(pts.size() + 1), Mask(I.levels[h].log) + 1 + (Draw128() >> 1) % (uint128{1} << 64));
      vp::check(!I.dpf->EvaluateAt<T>(k, h, pts).ok(), "points outside the domain are rejected");
    }
    pts.clear();
    pts.push_back(0);
    vp::check(!I.dpf->EvaluateAt<T>(k, -1 - (int)vp::draw_below(3), pts).ok() && !I.dpf->EvaluateAt<T>(k, (int)I.levels.size() + (int)vp::draw_below(3), pts).ok(), "levels outside the hierarchy are rejected");
  });
}
VP_HARNESS(contexts_agree_with_the_tree) {
  int t = (int)vp::draw_below(kTypes);
  vp::note("type", std::to_string(t));
  Instance I = AnyInstance(5, (int)vp::draw_below(3) ? 5 : 9, t);
  Keys K = AnyKeys(I);
  DpfKey k = AnyKey(I, K);
  WithType(t, [&](auto* p) { Context<std::remove_pointer_t<decltype(p)>>(I, k); });
}
VP_HARNESS(contexts_agree_with_the_tree_large_domains) {
  int t = (int)vp::draw_below(kTypes);
  vp::note("type", std::to_string(t));
  Instance I = AnyInstance(22, 11, t);
  Keys K = AnyKeys(I);
  DpfKey k = AnyKey(I, K);
  WithType(t, [&](auto* p) { Context<std::remove_pointer_t<decltype(p)>>(I, k); });
}
VP_HARNESS(evaluate_and_apply_agrees_with_the_tree) {
  int t = (int)vp::draw_below(kTypes);
  vp::note("type", std::to_string(t));
  Instance I = AnyInstance(4, (int)vp::draw_below(4) ? 12 : 70, t);
  int m = (int)vp::draw_below(20);
  int last = I.levels.back().log;
  int shift = vp::draw_below(3) ? 0 : (int)vp::draw_below(128 - last + 1);
  std::vector<DpfKey> keys;
  std::vector<const DpfKey*> ptrs;
  std::vector<uint128> pts;
  for (int i = 0; i < m; ++i) {
    Keys K = AnyKeys(I);
    keys.push_back(AnyKey(I, K));
    pts.push_back(shift >= 128 ? Draw128() : (AnyPoint(last, K.alpha) << shift) | (Draw128() & Mask(shift)));
  }
  for (auto& k : keys) ptrs.push_back(&k);
  // an aligned copy takes the vectorised path
  auto al = hwy::AllocateAligned<uint128>(m + 1);
  std::copy(pts.begin(), pts.end(), al.get());
  bool aligned = vp::draw64() & 1;
  absl::Span<const uint128> sp = aligned ? absl::Span<const uint128>(al.get(), m) : absl::Span<const uint128>(pts);
  vp::note("points", Show(pts) + " shift " + std::to_string(shift));
  int stop = (int)vp::draw_below(I.levels.size() + 2);
  WithType(t, [&](auto* p) {
    typedef std::remove_pointer_t<decltype(p)> T;
    int calls = 0;
    auto op = [&](absl::Span<const T> v) {
      vp::check(v.size() == (size_t)m, "one value per key");
      int h = calls++;
      for (int i = 0; i < m; ++i) {
        uint128 x = Shr(pts[i], shift + last - I.levels[h].log);
        vp::check(Ty<T>::Eq(v[i], Leaf<T>(I, keys[i], h, x)), "multi-key evaluation returns the value of each key's leaf");
      }
      return h != stop;
    };
    absl::Status s = vp::draw64() & 1 ? I.dpf->EvaluateAndApply<T>(keys, sp, op, shift) : I.dpf->EvaluateAndApply<T>(ptrs, sp, op, shift);
    vp::check(s.ok(), "multi-key evaluation succeeds");
    vp::check(m == 0 || calls == std::min(stop + 1, (int)I.levels.size()), "the callback runs once per level until it returns false");
    if (m > 0) vp::check(!I.dpf->EvaluateAndApply<T>(keys, sp.subspan(1), op, shift).ok(), "mismatching numbers of keys and points are rejected");
  });
}
VP_HARNESS(expansion_requests_are_validated) {
  int t = (int)vp::draw_below(kTypes);
  Instance I = AnyInstance(3, 5, t);
  Keys K = AnyKeys(I);
  auto c = *I.dpf->CreateEvaluationContext(K.k[0]);
  WithType(t, [&](auto* p) {
    typedef std::remove_pointer_t<decltype(p)> T;
    std::vector<uint128> none, one{0};
    vp::check(!I.dpf->EvaluateUntil<T>(0, one, c).ok(), "prefixes are rejected on the first call");
    vp::check(!I.dpf->EvaluateUntil<T>(-1, none, c).ok() && !I.dpf->EvaluateUntil<T>((int)I.levels.size(), none, c).ok(), "levels outside the hierarchy are rejected");
    vp::check(I.dpf->EvaluateUntil<T>(0, none, c).ok(), "the first level expands");
    if (I.levels.size() > 1) {
      vp::check(!I.dpf->EvaluateUntil<T>(1, none, c).ok(), "an empty list of prefixes is rejected on later calls");
      vp::check(!I.dpf->EvaluateUntil<T>(0, one, c).ok(), "an evaluated level is rejected");
      std::vector<uint128> out{uint128{1} << I.levels[0].log};
      vp::check(!I.dpf->EvaluateUntil<T>(1, out, c).ok(), "prefixes outside the previous level's domain are rejected");
    } else {
      vp::check(!I.dpf->EvaluateNext<T>(one, c).ok(), "a fully evaluated context is rejected");
    }
  });
}
