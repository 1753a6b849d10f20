// P03, bounded: batched seed evaluation equals the walk one level at a time, on
// every vector target the machine offers, for the portable code and through the
// dispatcher.
#include "dpf/internal/evaluate_prg_hwy.h"
#include "dpf/aes_128_fixed_key_hash.cc"
#include "dpf_common.h"
#include "hwy/targets.h"
using namespace vpd;
namespace {
struct Case {
  int n, levels, rs;
  bool per_seed;
  std::vector<uint128> seeds, paths, cw;
  std::vector<char> t, cl, cr;
  uint128 kl, kr;
};
Case Any() {
  Case c;
  c.n = 1 + (int)vp::draw_below(vp::draw_below(4) ? 20 : 200);
  c.levels = 1 + (int)vp::draw_below(vp::draw_below(4) ? 8 : 128);
  if (c.n > 60) c.levels = 1 + c.levels % 6;
  c.rs = vp::draw_below(3) ? 0 : (int)vp::draw_below(140);
  c.per_seed = vp::draw64() & 1;
  c.kl = Draw128();
  c.kr = Draw128();
  size_t m = c.levels * (c.per_seed ? c.n : 1);
  for (int i = 0; i < c.n; ++i) c.seeds.push_back(Draw128()), c.paths.push_back(Draw128()), c.t.push_back(vp::draw64() & 1);
  for (size_t i = 0; i < m; ++i) c.cw.push_back(Draw128()), c.cl.push_back(vp::draw64() & 1), c.cr.push_back(vp::draw64() & 1);
  vp::note("seeds, levels, rightshift, correction words", std::to_string(c.n) + " " + std::to_string(c.levels) + " " + std::to_string(c.rs) + (c.per_seed ? " per seed" : " shared"));
  return c;
}
// output of the definition
void Reference(const Case& c, std::vector<uint128>& s, std::vector<char>& t) {
  RefHash l(c.kl), r(c.kr);
  s = c.seeds;
  t = c.t;
  for (int i = 0; i < c.n; ++i)
    for (int j = 0; j < c.levels; ++j) {
      bool bit = (absl::Uint128Low64(Shr(c.paths[i], std::min(128, c.levels - 1 - j + c.rs))) & 1) != 0;
      size_t w = c.per_seed ? size_t(j) * c.n + i : j;
      uint128 x = bit ? r(s[i]) : l(s[i]);
      if (t[i]) x ^= c.cw[w];
      bool b = absl::Uint128Low64(x) & 1;
      x = (x >> 1) << 1;
      if (t[i]) b ^= bit ? c.cr[w] : c.cl[w];
      s[i] = x;
      t[i] = b;
    }
}
// buffer with a chosen misalignment and guard blocks
struct Buf {
  hwy::AlignedFreeUniquePtr<uint128[]> a;
  uint128* p;
  size_t n;
  Buf(const std::vector<uint128>& v, int off) : a(hwy::AllocateAligned<uint128>(v.size() + 10)), n(v.size()) {
    p = a.get() + off;
    for (size_t i = 0; i < n + 10 - off; ++i) p[i] = absl::MakeUint128(0x1234567, i);
    std::copy(v.begin(), v.end(), p);
  }
  void guard(int off) { for (size_t i = n; i < n + 10 - off; ++i) vp::check(p[i] == absl::MakeUint128(0x1234567, i), "nothing is written past the outputs"); }
};
typedef decltype(&dpf_internal::EvaluateSeeds) Fn;
void Run(const Case& c, Fn f, bool in_place, int off) {
  auto L = Aes128FixedKeyHash::Create(c.kl), R = Aes128FixedKeyHash::Create(c.kr);
  vp::check(L.ok() && R.ok(), "hash functions are created");
  Buf s(c.seeds, off), p(c.paths, off), cw(c.cw, off);
  Buf out(std::vector<uint128>(c.n, uint128{7}), off);
  std::unique_ptr<bool[]> t(new bool[c.n]), cl(new bool[c.cw.size()]), cr(new bool[c.cw.size()]), to(new bool[c.n]);
  for (int i = 0; i < c.n; ++i) t[i] = c.t[i], to[i] = false;
  for (size_t i = 0; i < c.cw.size(); ++i) cl[i] = c.cl[i], cr[i] = c.cr[i];
  uint128* so = in_place ? s.p : out.p;
  bool* bo = in_place ? t.get() : to.get();
  absl::Status st = f(c.n, c.levels, (int)c.cw.size(), s.p, t.get(), p.p, c.rs, cw.p, cl.get(), cr.get(), *L, *R, so, bo);
  vp::check(st.ok(), "evaluation succeeds");
  std::vector<uint128> rs;
  std::vector<char> rt;
  Reference(c, rs, rt);
  for (int i = 0; i < c.n; ++i) {
    vp::check(so[i] == rs[i], "the seed equals the walk one level at a time");
    vp::check(bo[i] == (bool)rt[i], "the control bit equals the walk one level at a time");
    if (!in_place) vp::check(s.p[i] == c.seeds[i] && t[i] == (bool)c.t[i], "inputs are left alone");
    vp::check(p.p[i] == c.paths[i], "inputs are left alone");
  }
  out.guard(off);
  s.guard(off);
}
}  // namespace
VP_HARNESS(portable) {
  Case c = Any();
  Run(c, &dpf_internal::EvaluateSeedsNoHwy, vp::draw64() & 1, (int)vp::draw_below(2));
}
VP_HARNESS(dispatched) {
  Case c = Any();
  hwy::SetSupportedTargetsForTest(0);
  hwy::GetChosenTarget().DeInit();
  Run(c, &dpf_internal::EvaluateSeeds, vp::draw64() & 1, vp::draw_below(4) ? 0 : 1);
}
VP_HARNESS(dispatched_to_every_target) {
  Case c = Any();
  hwy::SetSupportedTargetsForTest(0);
  std::vector<int64_t> ts;
  for (int64_t t = hwy::SupportedTargets(); t; t &= t - 1) ts.push_back(t & -t);
  int64_t t = ts[vp::draw_below(ts.size())];
  vp::note("target", hwy::TargetName(t));
  hwy::SetSupportedTargetsForTest(t);
  hwy::GetChosenTarget().Update(t);
  Run(c, &dpf_internal::EvaluateSeeds, vp::draw64() & 1, 0);
  hwy::SetSupportedTargetsForTest(0);
  hwy::GetChosenTarget().DeInit();
}
VP_HARNESS(mismatching_counts) {
  Case c = Any();
  auto L = Aes128FixedKeyHash::Create(c.kl), R = Aes128FixedKeyHash::Create(c.kr);
  int k = vp::draw64() & 1 ? (int)vp::draw_below(c.n * c.levels + 4) : c.levels + (int)vp::draw_below(5) - 2;
  vp::assume(k != c.levels && k != c.levels * c.n && k >= 0);
  auto a = hwy::AllocateAligned<uint128>(c.n + 1), b = hwy::AllocateAligned<uint128>(c.n + 1), d = hwy::AllocateAligned<uint128>(k + 1);
  std::unique_ptr<bool[]> t(new bool[c.n]()), l(new bool[k + 1]()), r(new bool[k + 1]());
  absl::Status s = dpf_internal::EvaluateSeeds(c.n, c.levels, k, a.get(), t.get(), b.get(), c.rs, d.get(), l.get(), r.get(), *L, *R, a.get(), t.get());
  vp::check(!s.ok(), "mismatching correction-word counts are rejected");
}
