// P12, bounded: the gate's output shares, minus the mask, add to containment.
#include "dpf/distributed_point_function.cc"
#include "dcf/distributed_comparison_function.cc"
#include "dcf/fss_gates/multiple_interval_containment.cc"
#include "dpf_common.h"
using namespace vpd;
using namespace distributed_point_functions::fss_gates;
namespace {
void Set(Value::Integer* v, uint128 x, bool small) {
  if (small) v->set_value_uint64(absl::Uint128Low64(x));
  else { v->mutable_value_uint128()->set_high(absl::Uint128High64(x)); v->mutable_value_uint128()->set_low(absl::Uint128Low64(x)); }
}
struct Gate {
  int log;
  std::vector<std::pair<uint128, uint128>> iv;
  MicParameters p;
  std::unique_ptr<MultipleIntervalContainmentGate> g;
};
Gate Any(int maxlog, int maxiv) {
  Gate G;
  G.log = 1 + (int)vp::draw_below(maxlog);
  uint128 m = Mask(G.log);
  G.p.set_log_group_size(G.log);
  vp::note("log_group_size", std::to_string(G.log));
  int n = (int)vp::draw_below(maxiv + 1);
  for (int i = 0; i < n; ++i) {
    uint128 a = AnyPoint(G.log, Draw128()), b = vp::draw_below(4) ? AnyPoint(G.log, a) : a;
    if (vp::draw_below(6) == 0) b = m;
    if (vp::draw_below(6) == 0) a = 0;
    if (a > b) std::swap(a, b);
    G.iv.push_back({a, b});
    auto* v = G.p.add_intervals();
    Set(v->mutable_lower_bound(), a, G.log <= 64 && (vp::draw64() & 1));
    Set(v->mutable_upper_bound(), b, G.log <= 64 && (vp::draw64() & 1));
    vp::note("interval", Hex(a) + " " + Hex(b));
  }
  auto r = MultipleIntervalContainmentGate::Create(G.p);
  vp::check(r.ok(), "valid gate parameters are accepted");
  G.g = std::move(*r);
  return G;
}
void Run(Gate& G, int batch) {
  uint128 m = Mask(G.log);
  std::vector<MicKey> k0, k1;
  std::vector<uint128> xs, in;
  std::vector<std::vector<uint128>> rout;
  for (int b = 0; b < batch; ++b) {
    uint128 rin = AnyPoint(G.log, Draw128());
    std::vector<uint128> ro;
    for (size_t i = 0; i < G.iv.size(); ++i) ro.push_back(AnyPoint(G.log, Draw128()));
    auto k = G.g->Gen(rin, ro);
    vp::check(k.ok(), "keys are generated for masks inside the group");
    k0.push_back(k->first);
    k1.push_back(k->second);
    uint128 x = G.iv.empty() || vp::draw_below(4) == 0 ? AnyPoint(G.log, Draw128()) : AnyPoint(G.log, vp::draw64() & 1 ? G.iv[vp::draw_below(G.iv.size())].first : G.iv[vp::draw_below(G.iv.size())].second);
    xs.push_back(x);
    in.push_back((x + rin) & m);
    rout.push_back(ro);
    vp::note("x, r_in", Hex(x) + " " + Hex(rin));
    for (auto& r : ro) vp::note("r_out", Hex(r));
  }
  auto y0 = G.g->BatchEval(k0, in), y1 = G.g->BatchEval(k1, in);
  vp::check(y0.ok() && y1.ok(), "evaluation succeeds");
  vp::check(y0->size() == batch * G.iv.size() && y1->size() == y0->size(), "one output per key and interval");
  for (int b = 0; b < batch; ++b)
    for (size_t i = 0; i < G.iv.size(); ++i) {
      size_t j = b * G.iv.size() + i;
      vp::check((*y0)[j] <= m && (*y1)[j] <= m, "outputs are group elements");
      uint128 s = ((*y0)[j] + (*y1)[j] - rout[b][i]) & m;
      vp::check(s == uint128{G.iv[i].first <= xs[b] && xs[b] <= G.iv[i].second ? 1u : 0u}, "shares minus the mask add to containment");
    }
  if (batch) {
    auto e = G.g->Eval(k0[0], in[0]);
    vp::check(e.ok() && e->size() == G.iv.size(), "single evaluation succeeds");
    for (size_t i = 0; i < G.iv.size(); ++i) vp::check((*e)[i] == (*y0)[i], "single and batch evaluation agree");
  }
}
}  // namespace
VP_HARNESS(containment) {
  Gate G = Any((int)vp::draw_below(3) ? 7 : 20, 4);
  Run(G, (int)vp::draw_below(4));
}
VP_HARNESS(containment_large_groups) {
  Gate G = Any(127, 3);
  Run(G, 1 + (int)vp::draw_below(2));
}
VP_HARNESS(malformed_requests) {
  Gate G = Any(127, 3);
  uint128 N = uint128{1} << G.log;
  uint128 big = N + (Draw128() >> 1) % (N == 0 ? uint128{1} : N);
  std::vector<uint128> ro(G.iv.size(), 0);
  auto k = G.g->Gen(0, ro);
  vp::check(k.ok(), "keys are generated for masks inside the group");
  vp::check(!G.g->Gen(big, ro).ok(), "an input mask outside the group is rejected");
  auto ro2 = ro;
  if (!ro.empty()) { ro2[vp::draw_below(ro.size())] = big; vp::check(!G.g->Gen(0, ro2).ok(), "an output mask outside the group is rejected"); }
  ro2 = ro;
  ro2.push_back(0);
  vp::check(!G.g->Gen(0, ro2).ok(), "a wrong number of output masks is rejected");
  vp::check(!G.g->Eval(k->first, big).ok(), "inputs outside the group are rejected");
  std::vector<MicKey> ks{k->first};
  std::vector<uint128> none;
  vp::check(!G.g->BatchEval(ks, none).ok(), "mismatching numbers of keys and inputs are rejected");
  if (!ro.empty()) {
    ks[0].mutable_output_mask_share()->RemoveLast();
    std::vector<uint128> one{0};
    vp::check(!G.g->BatchEval(ks, one).ok(), "keys without enough mask shares are rejected");
  }
  MicParameters p = G.p;
  auto* v = p.add_intervals();
  uint128 a = AnyPoint(G.log, Draw128()), b = AnyPoint(G.log, a);
  if (a > b) std::swap(a, b);
  Set(v->mutable_lower_bound(), a, false);
  Set(v->mutable_upper_bound(), b, false);
  vp::check(MultipleIntervalContainmentGate::Create(p).ok(), "valid gate parameters are accepted");
  switch (vp::draw_below(5)) {
    case 0: Set(v->mutable_lower_bound(), big, false); Set(v->mutable_upper_bound(), big, false); break;
    case 1: Set(v->mutable_upper_bound(), big, false); break;
    case 2: if (a == b) { vp::assume(false); } Set(v->mutable_lower_bound(), b, false); Set(v->mutable_upper_bound(), a, false); break;
    case 3: v->clear_lower_bound(); break;
    case 4: v->clear_upper_bound(); break;
  }
  vp::check(!MultipleIntervalContainmentGate::Create(p).ok(), "malformed intervals are rejected");
  p = G.p;
  p.set_log_group_size(vp::draw64() & 1 ? 128 + (int)vp::draw_below(100) : -(int)vp::draw_below(100));
  vp::check(!MultipleIntervalContainmentGate::Create(p).ok(), "group sizes outside 1..127 bits are rejected");
}
