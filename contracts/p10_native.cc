// P10, bounded: tree geometry.
#include "dpf/internal/proto_validator.cc"
#include "dpf_common.h"
using namespace vpd;
using dpf_internal::ProtoValidator;
namespace {
ValueType SomeType(int depth) {
  ValueType t;
  switch (vp::draw_below(depth > 0 ? 6 : 4)) {
    case 0: case 1: t.mutable_integer()->set_bitsize(1 << (int)vp::draw_below(8)); break;
    case 2: t.mutable_xor_wrapper()->set_bitsize(1 << (int)vp::draw_below(8)); break;
    case 3: t = TypeOf(8 + (int)vp::draw_below(3)); break;
    default: {
      t.mutable_tuple();
      int n = 1 + (int)vp::draw_below(5);
      for (int i = 0; i < n; ++i) { ValueType e = SomeType(depth - 1); if (e.type_case() == ValueType::kIntModN) e = TypeOf(8); *t.mutable_tuple()->add_elements() = e; }
    }
  }
  return t;
}
bool HasMod(const ValueType& t) {
  if (t.type_case() == ValueType::kIntModN) return true;
  for (auto& e : t.tuple().elements()) if (HasMod(e)) return true;
  return false;
}
// bits of all leaves, in order
void Leaves(const ValueType& t, std::vector<int>& v) {
  if (t.type_case() == ValueType::kInteger) v.push_back(t.integer().bitsize());
  else if (t.type_case() == ValueType::kXorWrapper) v.push_back(t.xor_wrapper().bitsize());
  else if (t.type_case() == ValueType::kIntModN) v.push_back(t.int_mod_n().base_integer().bitsize());
  else for (auto& e : t.tuple().elements()) Leaves(e, v);
}
}  // namespace
VP_HARNESS(levels) {
  int n = 1 + (int)vp::draw_below(8), log = (int)vp::draw_below(10);
  std::vector<DpfParameters> ps;
  for (int i = 0; i < n && log <= 128; ++i) {
    DpfParameters p;
    p.set_log_domain_size(log);
    log += 1 + (int)vp::draw_below(vp::draw_below(3) ? 4 : 60);
    *p.mutable_value_type() = SomeType(2);
    p.set_security_parameter(1 + (double)vp::draw_below(39));
    vp::note("parameters", p.ShortDebugString());
    ps.push_back(p);
  }
  n = (int)ps.size();
  auto r = DistributedPointFunction::CreateIncremental(ps);
  vp::check(r.ok(), "valid parameters are accepted");
  DistributedPointFunction& d = **r;
  const ProtoValidator& v = *d.proto_validator_;
  auto& h2t = v.hierarchy_to_tree();
  auto& t2h = v.tree_to_hierarchy();
  vp::check((int)h2t.size() == n && (int)t2h.size() == n, "every hierarchy level has one tree level");
  int prev = -1;
  for (int i = 0; i < n; ++i) {
    vp::check(h2t[i] > prev, "tree levels are strictly increasing");
    prev = h2t[i];
    auto it = t2h.find(h2t[i]);
    vp::check(it != t2h.end() && it->second == i, "the level maps are mutually inverse");
    int l = v.parameters()[i].log_domain_size();
    vp::check(l == ps[i].log_domain_size() && h2t[i] <= l, "the tree is never deeper than the domain");
    std::vector<int> lv;
    Leaves(ps[i].value_type(), lv);
    long sum = 0;
    for (int b : lv) sum += b;
    auto bn = dpf_internal::BitsNeeded(ps[i].value_type(), v.parameters()[i].security_parameter());
    vp::check(bn.ok(), "bits needed");
    bool mod = HasMod(ps[i].value_type());
    if (!mod) vp::check(*bn == sum, "the bits of a directly converted type are the bits of its elements");
    else vp::check(*bn >= 128 + sum - lv.back(), "a sampled type needs a block and the bits of all elements but the last");
    int extra = l - h2t[i];
    vp::check(extra <= 7 && (extra == 0 || (long)*bn << extra <= 128), "all elements under a tree leaf fit into one block");
    vp::check(d.blocks_needed_[i] == (*bn + 127) / 128, "the number of blocks per leaf covers the bits needed");
    // index splitting
    for (int q = 0; q < 4; ++q) {
      uint128 x = AnyPoint(l, Draw128());
      vp::note("index", Hex(x));
      uint128 t = d.DomainToTreeIndex(x, i);
      int b = d.DomainToBlockIndex(x, i);
      vp::check(b >= 0 && b < (1 << extra) && (t << extra) + uint128(b) == x && t <= Mask(h2t[i]), "an index splits into tree and block index and is recovered from them");
    }
  }
  vp::check(v.tree_levels_needed() == prev + 1, "the tree has one more level than the last assigned one");
}
