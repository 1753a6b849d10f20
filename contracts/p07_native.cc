// P07, bounded: Value messages and PRG bytes.
#include "dpf/internal/value_type_helpers.cc"
#include "dpf_common.h"
using namespace vpd;
namespace {
template <class T> using H = dpf_internal::ValueTypeHelper<T>;
// ranges of the leaves a message must respect: exact acceptance by type
bool FitsInt(const Value::Integer& v, int bits, const uint128* mod) {
  if (v.value_case() == Value::Integer::VALUE_NOT_SET) return false;
  uint128 x = FromInt(v);
  if (bits < 128 && x >= (uint128{1} << bits)) return false;
  return !mod || x < *mod;
}
bool Fits(const Value& v, const ValueType& t) {
  if (t.type_case() == ValueType::kInteger) return v.value_case() == Value::kInteger && FitsInt(v.integer(), t.integer().bitsize(), nullptr);
  if (t.type_case() == ValueType::kXorWrapper) return v.value_case() == Value::kXorWrapper && FitsInt(v.xor_wrapper(), t.xor_wrapper().bitsize(), nullptr);
  if (t.type_case() == ValueType::kIntModN) {
    uint128 m = FromInt(t.int_mod_n().modulus());
    return v.value_case() == Value::kIntModN && FitsInt(v.int_mod_n(), t.int_mod_n().base_integer().bitsize(), &m);
  }
  if (v.value_case() != Value::kTuple || v.tuple().elements_size() != t.tuple().elements_size()) return false;
  for (int i = 0; i < t.tuple().elements_size(); ++i) if (!Fits(v.tuple().elements(i), t.tuple().elements(i))) return false;
  return true;
}
Value::Integer AnyInt() {
  Value::Integer r;
  uint64_t k = vp::draw_below(6);
  if (k == 0) return r;
  if (k < 3) { r.set_value_uint64(vp::draw_int(64)); return r; }
  uint128 x = Draw128();
  if (k == 3) x = uint128{vp::draw_int(64)};
  if (k == 4) x = (uint128{1} << 64) * uint128(vp::draw_below(3)) + uint128(vp::draw_below(5));
  r.mutable_value_uint128()->set_high(absl::Uint128High64(x));
  r.mutable_value_uint128()->set_low(absl::Uint128Low64(x));
  return r;
}
// damages a message of type t somewhere
void Damage(Value& v) {
  if (v.value_case() == Value::kTuple && v.tuple().elements_size() > 0 && vp::draw_below(4)) {
    if (vp::draw_below(5) == 0) { v.mutable_tuple()->mutable_elements()->RemoveLast(); return; }
    if (vp::draw_below(5) == 0) { *v.mutable_tuple()->add_elements()->mutable_integer() = AnyInt(); return; }
    Damage(*v.mutable_tuple()->mutable_elements((int)vp::draw_below(v.tuple().elements_size())));
    return;
  }
  int k = (int)vp::draw_below(8);
  if (k == 0) v.Clear();
  else if (k == 1) *v.mutable_integer() = AnyInt();
  else if (k == 2) *v.mutable_int_mod_n() = AnyInt();
  else if (k == 3) *v.mutable_xor_wrapper() = AnyInt();
  else if (k == 4) { v.mutable_tuple(); if (vp::draw64() & 1) *v.mutable_tuple()->add_elements()->mutable_integer() = AnyInt(); }
  else if (v.value_case() == Value::kInteger) *v.mutable_integer() = AnyInt();
  else if (v.value_case() == Value::kIntModN) *v.mutable_int_mod_n() = AnyInt();
  else if (v.value_case() == Value::kXorWrapper) *v.mutable_xor_wrapper() = AnyInt();
}
template <class T> void RoundTrip() {
  T v = Ty<T>::Any();
  Value m = H<T>::ToValue(v);
  vp::note("message", m.ShortDebugString());
  vp::check(Fits(m, Ty<T>::Type()), "the encoding is a well-formed message of the type");
  vp::check(Ty<T>::Eq(FromV<T>::go(m), v), "the encoding carries the value");
  auto r = H<T>::FromValue(m);
  vp::check(r.ok() && Ty<T>::Eq(*r, v), "decoding the encoding returns the value");
  Value m2;
  vp::check(m2.ParseFromString(m.SerializeAsString()), "messages can be stored");
  auto r2 = H<T>::FromValue(m2);
  vp::check(r2.ok() && Ty<T>::Eq(*r2, v), "decoding the stored encoding returns the value");
  vp::check(H<T>::ToValueType().SerializeAsString() == Ty<T>::Type().SerializeAsString(), "the type message describes the type");
}
template <class T> void Reject() {
  Value m = H<T>::ToValue(Ty<T>::Any());
  Damage(m);
  vp::note("message", m.ShortDebugString());
  auto r = H<T>::FromValue(m);
  vp::check(r.ok() == Fits(m, Ty<T>::Type()), "messages of the wrong kind, arity or range are rejected and others accepted");
  if (r.ok()) vp::check(Ty<T>::Eq(*r, FromV<T>::go(m)), "an accepted message decodes to the value it carries");
}
template <class T> void FromPrg() {
  int n = PerBlock<T>();
  vp::check(n == dpf_internal::ElementsPerBlock<T>(), "number of elements per block");
  std::vector<uint128> blocks(8);
  for (auto& b : blocks) b = Draw128();
  int bits = 0;
  auto bn = dpf_internal::BitsNeeded(Ty<T>::Type(), 40);
  vp::check(bn.ok(), "the number of bits is known for a supported type");
  bits = *bn;
  int nb = (bits + 127) / 128;
  vp::check(nb >= 1 && nb <= 8, "a value needs a small number of blocks");
  std::string s;
  for (int i = 0; i < nb; ++i) s.append((const char*)&blocks[i], 16);
  vp::note("bytes", vp::hex(s.data(), s.size()));
  auto a = dpf_internal::ConvertBytesToArrayOf<T>(s);
  blocks.resize(nb);
  for (int k = 0; k < n; ++k) vp::check(Ty<T>::Eq(a[k], Element<T>(blocks, k)), "element k comes from the k-th group of bytes, little-endian");
}
template <class T> void Arrays() {
  int n = PerBlock<T>();
  ::google::protobuf::RepeatedPtrField<Value> f;
  std::vector<T> v;
  for (int i = 0; i < n; ++i) { v.push_back(Ty<T>::Any()); *f.Add() = H<T>::ToValue(v.back()); }
  auto r = dpf_internal::ValuesToArray<T>(f);
  vp::check(r.ok(), "a full list of values is accepted");
  for (int i = 0; i < n; ++i) vp::check(Ty<T>::Eq((*r)[i], v[i]), "values keep their positions");
  if (vp::draw64() & 1) *f.Add() = H<T>::ToValue(v[0]); else f.RemoveLast();
  vp::check(!dpf_internal::ValuesToArray<T>(f).ok(), "a list of the wrong length is rejected");
}
template <class T> void Correction() {
  // share_b - share_a + beta at the block index, negated on request
  auto bn = dpf_internal::BitsNeeded(Ty<T>::Type(), 40);
  int nb = (*bn + 127) / 128;
  std::vector<uint128> A(nb), B(nb);
  std::string sa, sb;
  for (int i = 0; i < nb; ++i) { A[i] = Draw128(); B[i] = Draw128(); sa.append((const char*)&A[i], 16); sb.append((const char*)&B[i], 16); }
  T beta = Ty<T>::Any();
  int n = PerBlock<T>(), idx = (int)vp::draw_below(n);
  bool inv = vp::draw64() & 1;
  vp::note("a, b", vp::hex(sa.data(), sa.size()) + " " + vp::hex(sb.data(), sb.size()));
  auto r = dpf_internal::ComputeValueCorrectionFor<T>(sa, sb, idx, H<T>::ToValue(beta), inv);
  vp::check(r.ok() && (int)r->size() == n, "one correction value per element");
  for (int k = 0; k < n; ++k) {
    T e = Ty<T>::Add(Element<T>(B, k), Ty<T>::Neg(Element<T>(A, k)));
    if (k == idx) e = Ty<T>::Add(e, beta);
    if (inv) e = Ty<T>::Neg(e);
    vp::check(Ty<T>::Eq(FromV<T>::go((*r)[k]), e), "the correction is the difference of the shares, plus beta at the block index");
  }
}
}  // namespace
#define ALL(name) { int t = (int)vp::draw_below(kTypes); vp::note("type", std::to_string(t)); WithType(t, [&](auto* p) { name<std::remove_pointer_t<decltype(p)>>(); }); }
VP_HARNESS(round_trip) ALL(RoundTrip)
VP_HARNESS(rejects) ALL(Reject)
VP_HARNESS(prg_bytes) ALL(FromPrg)
VP_HARNESS(arrays) ALL(Arrays)
VP_HARNESS(value_correction) ALL(Correction)
VP_HARNESS(types_equal) {
  int a = (int)vp::draw_below(kTypes), b = (int)vp::draw_below(kTypes);
  auto r = dpf_internal::ValueTypesAreEqual(TypeOf(a), TypeOf(b));
  vp::check(r.ok() && *r == (a == b), "types are equal exactly when they are the same");
  vp::check(!dpf_internal::ValueTypesAreEqual(ValueType(), TypeOf(b)).ok() && !dpf_internal::ValueTypesAreEqual(TypeOf(a), ValueType()).ok(), "an unset type is rejected");
}
