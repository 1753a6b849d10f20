// P09, bounded: validation of parameters, keys, contexts and values.
#include <cmath>
#include "dpf/internal/proto_validator.cc"
#include "dpf_common.h"
using namespace vpd;
using dpf_internal::ProtoValidator;
namespace {
Value::Integer AnyInt(int around) {
  Value::Integer r;
  uint64_t k = vp::draw_below(8);
  if (k == 0) return r;
  if (k == 1) { r.set_value_uint64(vp::draw_int(64)); return r; }
  uint128 x = Draw128();
  if (k < 6 && around >= 0 && around <= 128) x = Mask(around) + uint128(vp::draw_below(4)) - 2;
  if (around == 128 && vp::draw64() & 1) x = Draw128();
  if (absl::Uint128High64(x) == 0 && vp::draw64() & 1) { r.set_value_uint64(absl::Uint128Low64(x)); return r; }
  r.mutable_value_uint128()->set_high(absl::Uint128High64(x));
  r.mutable_value_uint128()->set_low(absl::Uint128Low64(x));
  return r;
}
int AnyBits() {
  switch (vp::draw_below(10)) {
    case 0: return (int)vp::draw_below(260) - 3;
    case 1: return vp::any<int>();
    case 2: return 128 << (int)vp::draw_below(3);
    default: return 1 << (int)vp::draw_below(8);
  }
}
bool GoodBits(int b) { return b >= 1 && b <= 128 && __builtin_popcount((unsigned)b) == 1; }
bool IntFits(const Value::Integer& v, int bits) {
  if (v.value_case() == Value::Integer::VALUE_NOT_SET) return false;
  return bits >= 128 || FromInt(v) < (uint128{1} << bits);
}
ValueType AnyType(int depth) {
  ValueType t;
  switch (vp::draw_below(depth > 0 ? 9 : 6)) {
    case 0: if (vp::draw_below(4) == 0) return t; [[fallthrough]];
    case 1: case 2: t.mutable_integer()->set_bitsize(AnyBits()); break;
    case 3: t.mutable_xor_wrapper()->set_bitsize(AnyBits()); break;
    case 4: case 5: {
      int b = AnyBits();
      t.mutable_int_mod_n()->mutable_base_integer()->set_bitsize(b);
      *t.mutable_int_mod_n()->mutable_modulus() = AnyInt(b);
      break;
    }
    default: {
      int n = (int)vp::draw_below(4);
      t.mutable_tuple();
      for (int i = 0; i < n; ++i) *t.mutable_tuple()->add_elements() = AnyType(depth - 1);
    }
  }
  return t;
}
bool GoodType(const ValueType& t) {
  switch (t.type_case()) {
    case ValueType::kInteger: return GoodBits(t.integer().bitsize());
    case ValueType::kXorWrapper: return GoodBits(t.xor_wrapper().bitsize());
    case ValueType::kIntModN: return GoodBits(t.int_mod_n().base_integer().bitsize()) && IntFits(t.int_mod_n().modulus(), t.int_mod_n().base_integer().bitsize());
    case ValueType::kTuple:
      for (auto& e : t.tuple().elements()) if (!GoodType(e)) return false;
      return true;
    default: return false;
  }
}
Value AnyValueFor(const ValueType& t) {
  Value v;
  int k = (int)vp::draw_below(30);
  if (k == 0) return v;
  if (k == 1) { *v.mutable_integer() = AnyInt(64); return v; }
  if (k == 2) { *v.mutable_int_mod_n() = AnyInt(64); return v; }
  if (k == 3) { *v.mutable_xor_wrapper() = AnyInt(64); return v; }
  if (k == 4) { v.mutable_tuple(); return v; }
  switch (t.type_case()) {
    case ValueType::kInteger: *v.mutable_integer() = AnyInt(t.integer().bitsize()); break;
    case ValueType::kXorWrapper: *v.mutable_xor_wrapper() = AnyInt(t.xor_wrapper().bitsize()); break;
    case ValueType::kIntModN: {
      *v.mutable_int_mod_n() = AnyInt(t.int_mod_n().base_integer().bitsize());
      if (vp::draw64() & 1) *v.mutable_int_mod_n() = IntVal(FromInt(t.int_mod_n().modulus()) + uint128(vp::draw_below(3)) - 1);
      if (vp::draw_below(3) == 0) v.mutable_int_mod_n()->set_value_uint64(vp::draw_below(3));
      break;
    }
    case ValueType::kTuple: {
      v.mutable_tuple();
      int n = t.tuple().elements_size();
      for (int i = 0; i < n; ++i) *v.mutable_tuple()->add_elements() = AnyValueFor(t.tuple().elements(i));
      if (vp::draw_below(12) == 0) { if (n && vp::draw64() & 1) v.mutable_tuple()->mutable_elements()->RemoveLast(); else *v.mutable_tuple()->add_elements()->mutable_integer() = AnyInt(8); }
      break;
    }
    default: break;
  }
  return v;
}
bool GoodValue(const Value& v, const ValueType& t) {
  switch (t.type_case()) {
    case ValueType::kInteger: return v.value_case() == Value::kInteger && IntFits(v.integer(), t.integer().bitsize());
    case ValueType::kXorWrapper: return v.value_case() == Value::kXorWrapper && IntFits(v.xor_wrapper(), t.xor_wrapper().bitsize());
    case ValueType::kIntModN: return v.value_case() == Value::kIntModN && IntFits(v.int_mod_n(), t.int_mod_n().base_integer().bitsize()) && FromInt(v.int_mod_n()) < FromInt(t.int_mod_n().modulus());
    case ValueType::kTuple:
      if (v.value_case() != Value::kTuple || v.tuple().elements_size() != t.tuple().elements_size()) return false;
      for (int i = 0; i < t.tuple().elements_size(); ++i) if (!GoodValue(v.tuple().elements(i), t.tuple().elements(i))) return false;
      return true;
    default: return false;
  }
}
bool Ok(const absl::Status& s) { vp::check(s.ok() || s.code() == absl::StatusCode::kInvalidArgument, "rejections are INVALID_ARGUMENT"); return s.ok(); }
std::unique_ptr<ProtoValidator> Validator(std::vector<DpfParameters>& ps) {
  int n = 1 + (int)vp::draw_below(5), log = 0;
  for (int i = 0; i < n; ++i) {
    log += (i > 0) + (int)vp::draw_below(vp::draw_below(5) ? 5 : 30);
    if (log > 128) break;
    DpfParameters p;
    p.set_log_domain_size(log);
    int t = (int)vp::draw_below(kTypes);
    *p.mutable_value_type() = TypeOf(t);
    if (vp::draw64() & 1 || t >= 8) p.set_security_parameter(30 + (double)vp::draw_below(20));
    ps.push_back(p);
    vp::note("parameters", p.ShortDebugString());
  }
  vp::assume(!ps.empty());
  auto r = ProtoValidator::Create(ps);
  vp::check(r.ok(), "valid parameters are accepted");
  return std::move(*r);
}
bool GoodKey(const ProtoValidator& v, const DpfKey& k) {
  // tree levels from the definition
  Instance I;
  I.params.assign(v.parameters().begin(), v.parameters().end());
  Geometry(I);
  if (!k.has_seed() || k.last_level_value_correction_size() == 0 || k.correction_words_size() != I.tree_levels - 1) return false;
  for (size_t i = 0; i + 1 < I.tree.size(); ++i) if (k.correction_words(I.tree[i]).value_correction_size() == 0) return false;
  return true;
}
DpfKey AnyKey(const ProtoValidator& v) {
  DpfKey k;
  Instance I;
  I.params.assign(v.parameters().begin(), v.parameters().end());
  Geometry(I);
  if (vp::draw_below(12)) k.mutable_seed()->set_low(vp::draw64());
  k.set_party((int)vp::draw_below(2));
  int n = I.tree_levels - 1;
  if (vp::draw_below(8) == 0) n = std::max(0, n + (int)vp::draw_below(3) - 1);
  for (int i = 0; i < n; ++i) k.add_correction_words()->mutable_seed()->set_high(vp::draw64());
  for (size_t i = 0; i + 1 < I.tree.size(); ++i) {
    if (I.tree[i] >= n || vp::draw_below(14) == 0) continue;
    int m = 1 + (int)vp::draw_below(3);
    for (int j = 0; j < m; ++j) k.mutable_correction_words(I.tree[i])->add_value_correction();
  }
  if (n && vp::draw_below(8) == 0) k.mutable_correction_words((int)vp::draw_below(n))->add_value_correction();
  if (vp::draw_below(12)) k.add_last_level_value_correction();
  return k;
}
double DefaultSec(const DpfParameters& p) { return 40.0 + p.log_domain_size(); }
bool SecEq(const DpfParameters& a, const DpfParameters& b, bool& near_limit) {
  // unset stands for the default; differences up to 1e-4 do not count
  auto eff = [](const DpfParameters& p) { return p.security_parameter() == 0 ? DefaultSec(p) : p.security_parameter(); };
  double d = std::fabs(eff(a) - eff(b)), d2 = std::fabs(a.security_parameter() - b.security_parameter());
  if (std::fabs(d - 1e-4) < 1e-9 || std::fabs(d2 - 1e-4) < 1e-9 || (d2 <= 1e-4 && d > 1e-4)) near_limit = true;
  return d <= 1e-4;
}
}  // namespace
VP_HARNESS(parameter_lists) {
  int n = (int)vp::draw_below(5), log = (int)vp::draw_below(3) - 1;
  if (vp::draw_below(4)) log = (int)vp::draw_below(129);
  std::vector<DpfParameters> ps;
  bool good = n > 0, has_types = true;
  int prev = -1;
  for (int i = 0; i < n; ++i) {
    DpfParameters p;
    int l = vp::draw_below(12) == 0 ? vp::any<int>() : vp::draw_below(8) == 0 ? 126 + (int)vp::draw_below(5) : log;
    p.set_log_domain_size(l);
    log += (int)vp::draw_below(vp::draw_below(8) ? 20 : 2) + (vp::draw_below(8) != 0);
    ValueType t = vp::draw_below(4) ? TypeOf((int)vp::draw_below(kTypes)) : AnyType(2);
    bool has = vp::draw_below(20) != 0;
    if (has) *p.mutable_value_type() = t;
    double s = vp::draw_below(4) ? 0 : vp::any<double>();
    p.set_security_parameter(s);
    vp::note("parameters", p.ShortDebugString());
    good = good && l >= 0 && l <= 128 && l > prev && has && GoodType(t) && s >= 0 && s <= 128;
    prev = l;
    ps.push_back(p);
  }
  vp::check(Ok(ProtoValidator::ValidateParameters(ps)) == good, "parameter lists are accepted exactly when they satisfy the documented conditions");
  auto c = ProtoValidator::Create(ps);
  if (!good) vp::check(!c.ok(), "a validator is not created for invalid parameters");
  if (c.ok()) vp::check((int)(*c)->parameters().size() == n, "all parameters are kept");
  if (!good) vp::check(!DistributedPointFunction::CreateIncremental(ps).ok(), "no DPF is created for invalid parameters");
}
VP_HARNESS(value_types) {
  ValueType t = AnyType(3);
  vp::note("type", t.ShortDebugString());
  vp::check(Ok(ProtoValidator::ValidateValueType(t)) == GoodType(t), "value types are accepted exactly when well formed");
}
VP_HARNESS(values) {
  ValueType t = vp::draw64() & 1 ? TypeOf((int)vp::draw_below(kTypes)) : AnyType(2);
  vp::assume(GoodType(t));
  Value v = AnyValueFor(t);
  vp::note("type", t.ShortDebugString());
  vp::note("value", v.ShortDebugString());
  vp::check(Ok(ProtoValidator::ValidateValue(v, t)) == GoodValue(v, t), "values are accepted exactly when they match type and range");
}
VP_HARNESS(keys) {
  std::vector<DpfParameters> ps;
  auto v = Validator(ps);
  DpfKey k = AnyKey(*v);
  vp::note("key", k.ShortDebugString());
  vp::check(Ok(v->ValidateDpfKey(k)) == GoodKey(*v, k), "keys are accepted exactly when they have the parts the parameters imply");
}
VP_HARNESS(contexts) {
  std::vector<DpfParameters> ps;
  auto v = Validator(ps);
  EvaluationContext c;
  if (vp::draw_below(16)) *c.mutable_key() = AnyKey(*v);
  int n = (int)ps.size();
  bool good = true, limit = false;
  int m = vp::draw_below(12) ? n : (int)vp::draw_below(6);
  for (int i = 0; i < m; ++i) {
    DpfParameters p = i < n ? ps[i] : ps[0];
    if (i < n && vp::draw64() & 1) p = v->parameters()[i];
    DpfParameters orig = p;
    switch (vp::draw_below(30)) {
      case 0: p.set_log_domain_size(p.log_domain_size() + 1); if (i < n) good = false; break;
      case 1: { ValueType t = TypeOf((int)vp::draw_below(kTypes)); if (i < n && t.SerializeAsString() != p.value_type().SerializeAsString()) good = false; *p.mutable_value_type() = t; break; }
      case 2: p.clear_value_type(); good = false; break;
      case 3: p.set_security_parameter(0); break;
      case 4: p.set_security_parameter(vp::any<double>()); break;
      case 5: p.set_security_parameter(p.security_parameter() + 0.00005); break;
      case 6: p.set_security_parameter(p.security_parameter() + 0.0002); break;
    }
    if (i < n && p.log_domain_size() == ps[i].log_domain_size() && !SecEq(v->parameters()[i], p, limit)) good = false;
    *c.add_parameters() = p;
  }
  vp::assume(!limit);
  if (m != n) good = false;
  c.set_previous_hierarchy_level((int)vp::draw_below(n + 2) - 1);
  if (vp::draw_below(10) == 0) c.set_previous_hierarchy_level((int)vp::draw_int(31));
  c.set_partial_evaluations_level((int)vp::draw_below(n + 3) - 2);
  if (vp::draw_below(10) == 0) c.set_partial_evaluations_level(vp::any<int>());
  if (vp::draw64() & 1) c.add_partial_evaluations();
  vp::note("context", c.ShortDebugString());
  good = good && c.has_key() && GoodKey(*v, c.key()) && c.previous_hierarchy_level() < n - 1;
  if (c.partial_evaluations_size()) good = good && c.partial_evaluations_level() <= c.previous_hierarchy_level() && c.partial_evaluations_level() >= 0;
  vp::check(Ok(v->ValidateEvaluationContext(c)) == good, "contexts are accepted exactly when parameters, key and levels are consistent");
}
// whole evaluations on damaged keys and contexts are rejected, never out of bounds
VP_HARNESS(evaluations) {
  Instance I = AnyInstance(3, 4, 3, 12);
  Keys K = AnyKeys(I);
  DpfKey k = K.k[0];
  switch (vp::draw_below(7)) {
    case 0: k.clear_seed(); break;
    case 1: if (k.correction_words_size()) k.mutable_correction_words()->RemoveLast(); break;
    case 2: k.add_correction_words(); break;
    case 3: k.clear_last_level_value_correction(); break;
    case 4: k.mutable_last_level_value_correction()->RemoveLast(); break;
    case 5: k.mutable_last_level_value_correction(0)->clear_value(); break;
  }
  bool good = k.SerializeAsString() == K.k[0].SerializeAsString();
  std::vector<uint128> pts{AnyPoint(I.levels.back().log, K.alpha)};
  int h = (int)I.levels.size() - 1;
  auto a = I.dpf->EvaluateAt<uint64_t>(k, h, pts);
  vp::check(a.ok() == good, "evaluation accepts a key exactly when it is intact");
  auto c = I.dpf->CreateEvaluationContext(k);
  if (c.ok()) {
    if (vp::draw_below(3) == 0) c->set_partial_evaluations_level(vp::any<int>());
    if (vp::draw_below(3) == 0) c->add_partial_evaluations()->mutable_prefix()->set_low(vp::draw_below(4));
    if (vp::draw_below(3) == 0) c->set_previous_hierarchy_level((int)vp::draw_below(4) - 1);
    vp::note("context", c->ShortDebugString());
    std::vector<uint128> pre;
    int q = (int)vp::draw_below(3);
    for (int i = 0; i < q; ++i) pre.push_back(uint128(vp::draw_below(6)));
    auto e = I.dpf->EvaluateUntil<uint64_t>((int)vp::draw_below(4) - (int)(vp::draw_below(6) == 0), pre, *c);
    if (e.ok()) vp::check(e->size() > 0, "an accepted evaluation returns values");
  }
}
