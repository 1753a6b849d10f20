// Reference semantics of the DPF tree and generators of parameters, values,
// keys and points.  Native only: it is the oracle of the bounded stand-ins.
#ifndef VERIF_DPF_COMMON_H_
#define VERIF_DPF_COMMON_H_
#include <map>
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include "absl/numeric/int128.h"
#include "dpf/distributed_point_function.h"
#include "dpf/int_mod_n.h"
#include "dpf/tuple.h"
#include "dpf/xor_wrapper.h"
#include "openssl/aes.h"
#include "openssl/rand.h"
#include "vp.h"

namespace vpd {
using namespace distributed_point_functions;
using absl::uint128;
typedef unsigned __int128 u128;

inline std::string Hex(uint128 x) { return vp::hex(&x, 16); }
inline uint128 Draw128() {
  switch (vp::draw_below(6)) {
    case 0: return uint128{vp::draw_int(64)};
    case 1: return absl::MakeUint128(vp::draw_int(64), vp::draw_int(64));
    case 2: return ~uint128{vp::draw_below(3)};
    case 3: return uint128{1} << (int)vp::draw_below(128);
    default: return absl::MakeUint128(vp::draw64(), vp::draw64());
  }
}
inline uint128 Mask(int bits) { return bits >= 128 ? absl::Uint128Max() : (uint128{1} << bits) - 1; }
inline uint128 Shr(uint128 x, int s) { return s >= 128 ? uint128{0} : x >> s; }

// ---- the fixed-key hash, from the definition ----
inline uint128 Aes(uint128 key, uint128 x) {
  AES_KEY k;
  AES_set_encrypt_key((const uint8_t*)&key, 128, &k);
  uint128 y;
  AES_encrypt((const uint8_t*)&x, (uint8_t*)&y, &k);
  return y;
}
struct RefHash {
  AES_KEY k;
  explicit RefHash(uint128 key) { AES_set_encrypt_key((const uint8_t*)&key, 128, &k); }
  uint128 operator()(uint128 x) const {
    uint128 s = absl::MakeUint128(absl::Uint128High64(x) ^ absl::Uint128Low64(x), absl::Uint128High64(x)), y;
    AES_encrypt((const uint8_t*)&s, (uint8_t*)&y, &k);
    return y ^ s;
  }
};
inline const RefHash& HLeft() { static RefHash h(absl::MakeUint128(0x5be037ccf6a03de5ULL, 0x935f08d0a5b6a2fdULL)); return h; }
inline const RefHash& HRight() { static RefHash h(absl::MakeUint128(0xef94b6aedebb026cULL, 0xe2ea1fe0f66f4d0bULL)); return h; }
inline const RefHash& HValue() { static RefHash h(absl::MakeUint128(0x05a5d1588c5423e3ULL, 0x46a31101b21d1c98ULL)); return h; }
inline uint128 FromBlock(const Block& b) { return absl::MakeUint128(b.high(), b.low()); }

// ---- value types ----
// little-endian bytes of a value source, sampled as documented
struct Bytes {
  const unsigned char* p;
  size_t n;
  void need(size_t k) { vp::check(k <= n, "the PRG output covers every element that is read from it"); }
};
template <class T> T LE(const unsigned char* p) { u128 r = 0; for (size_t i = 0; i < sizeof(T); ++i) r |= (u128)p[i] << (8 * i); return (T)r; }

template <class T> struct Ty;  // Any(), Type(), kDirect, Bits, Direct(p), Sample(update, block, bytes), Add, Neg, Eq
template <class T> struct IntTy {
  static constexpr bool kDirect = true;
  static constexpr int kBits = 8 * sizeof(T);
  static T Any() { return (T)Draw128(); }
  static T Direct(const unsigned char* p) { return LE<T>(p); }
  static T Sample(bool update, u128& block, Bytes& b) {
    T r = (T)block;
    if (update) {
      b.need(sizeof(T));
      block = sizeof(T) == 16 ? 0 : (block >> (8 * sizeof(T) % 128)) << (8 * sizeof(T) % 128);
      block |= (u128)LE<T>(b.p);
      b.p += sizeof(T), b.n -= sizeof(T);
    }
    return r;
  }
  static T Add(T a, T b) { return (T)((u128)a + (u128)b); }
  static T Neg(T a) { return (T)(-(u128)a); }
  static bool Eq(T a, T b) { return a == b; }
  static ValueType Type() { ValueType v; v.mutable_integer()->set_bitsize(kBits); return v; }
  static bool HasMod() { return false; }
};
template <> struct Ty<uint8_t> : IntTy<uint8_t> {};
template <> struct Ty<uint16_t> : IntTy<uint16_t> {};
template <> struct Ty<uint32_t> : IntTy<uint32_t> {};
template <> struct Ty<uint64_t> : IntTy<uint64_t> {};
template <> struct Ty<uint128> {
  static constexpr bool kDirect = true;
  static constexpr int kBits = 128;
  static uint128 Any() { return Draw128(); }
  static uint128 Direct(const unsigned char* p) { return uint128(LE<u128>(p)); }
  static uint128 Sample(bool update, u128& block, Bytes& b) { return uint128(IntTy<u128>::Sample(update, block, b)); }
  static uint128 Add(uint128 a, uint128 b) { return a + b; }
  static uint128 Neg(uint128 a) { return uint128{0} - a; }
  static bool Eq(uint128 a, uint128 b) { return a == b; }
  static ValueType Type() { ValueType v; v.mutable_integer()->set_bitsize(128); return v; }
};
template <class T> struct Ty<XorWrapper<T>> {
  typedef XorWrapper<T> X;
  static constexpr bool kDirect = true;
  static constexpr int kBits = Ty<T>::kBits;
  static X Any() { return X(Ty<T>::Any()); }
  static X Direct(const unsigned char* p) { return X(Ty<T>::Direct(p)); }
  static X Sample(bool u, u128& bl, Bytes& b) { return X(Ty<T>::Sample(u, bl, b)); }
  static X Add(X a, X b) { return X(a.value() ^ b.value()); }
  static X Neg(X a) { return a; }
  static bool Eq(X a, X b) { return a.value() == b.value(); }
  static ValueType Type() { ValueType v; v.mutable_xor_wrapper()->set_bitsize(kBits); return v; }
};
inline Value::Integer IntVal(uint128 x) {
  Value::Integer r;
  if (absl::Uint128High64(x)) { r.mutable_value_uint128()->set_high(absl::Uint128High64(x)); r.mutable_value_uint128()->set_low(absl::Uint128Low64(x)); }
  else r.set_value_uint64(absl::Uint128Low64(x));
  return r;
}
template <class B, class M, M N> struct Ty<dpf_internal::IntModNImpl<B, M, N>> {
  typedef dpf_internal::IntModNImpl<B, M, N> X;
  static constexpr bool kDirect = false;
  static constexpr int kBits = 8 * sizeof(B);
  static X Any() { return X((B)((u128)(vp::draw_below(4) ? Draw128() : ~uint128{0}) % (u128)N)); }
  static X Direct(const unsigned char*) { return X(); }
  static X Sample(bool update, u128& block, Bytes& b) {
    u128 q = block / (u128)N, r = block % (u128)N;
    if (update) {
      b.need(sizeof(B));
      block = sizeof(B) == 16 ? 0 : q << (8 * sizeof(B) % 128);
      block |= (u128)LE<B>(b.p);
      b.p += sizeof(B), b.n -= sizeof(B);
    }
    return X((B)r);
  }
  static X Add(X a, X b) {
    // never overflows: a, b < N
    u128 x = (u128)a.value(), y = (u128)b.value(), n = (u128)N;
    return X((B)(x >= n - y ? x - (n - y) : x + y));
  }
  static X Neg(X a) { return X((B)(a.value() == B(0) ? (u128)0 : (u128)N - (u128)a.value())); }
  static bool Eq(X a, X b) { return (u128)a.value() == (u128)b.value(); }
  static ValueType Type() {
    ValueType v;
    v.mutable_int_mod_n()->mutable_base_integer()->set_bitsize(kBits);
    *v.mutable_int_mod_n()->mutable_modulus() = IntVal(uint128((u128)N));
    return v;
  }
};
template <class... E> struct Ty<Tuple<E...>> {
  typedef Tuple<E...> X;
  static constexpr bool kDirect = (Ty<E>::kDirect && ...);
  static constexpr int kBits = (Ty<E>::kBits + ...);
  static X Any() { return X{Ty<E>::Any()...}; }
  static X Direct(const unsigned char* p) {
    size_t o = 0;
    auto next = [&](int bits) { size_t r = o; o += (bits + 7) / 8; return r; };
    return X{Ty<E>::Direct(p + next(Ty<E>::kBits))...};
  }
  static X Sample(bool update, u128& block, Bytes& b) {
    int k = 0;
    constexpr int n = sizeof...(E);
    return X{Ty<E>::Sample(update || ++k < n, block, b)...};
  }
  template <size_t... I> static X Add_(const X& a, const X& b, std::index_sequence<I...>) { return X{Ty<E>::Add(std::get<I>(a.value()), std::get<I>(b.value()))...}; }
  template <size_t... I> static X Neg_(const X& a, std::index_sequence<I...>) { return X{Ty<E>::Neg(std::get<I>(a.value()))...}; }
  template <size_t... I> static bool Eq_(const X& a, const X& b, std::index_sequence<I...>) { return (Ty<E>::Eq(std::get<I>(a.value()), std::get<I>(b.value())) && ...); }
  static X Add(const X& a, const X& b) { return Add_(a, b, std::index_sequence_for<E...>()); }
  static X Neg(const X& a) { return Neg_(a, std::index_sequence_for<E...>()); }
  static bool Eq(const X& a, const X& b) { return Eq_(a, b, std::index_sequence_for<E...>()); }
  static ValueType Type() { ValueType v; v.mutable_tuple(); ((*v.mutable_tuple()->add_elements() = Ty<E>::Type()), ...); return v; }
};
template <class T> constexpr int PerBlock() { return Ty<T>::kDirect && Ty<T>::kBits <= 128 ? 128 / Ty<T>::kBits : 1; }
// element k of the value PRG output of a leaf
template <class T> T Element(const std::vector<uint128>& blocks, int k) {
  std::string s;
  for (uint128 b : blocks) s.append((const char*)&b, 16);
  Bytes by{(const unsigned char*)s.data(), s.size()};
  if (Ty<T>::kDirect) {
    size_t w = (Ty<T>::kBits + 7) / 8;
    by.need((k + 1) * w);
    return Ty<T>::Direct(by.p + k * w);
  }
  by.need(16);
  u128 block = LE<u128>(by.p);
  by.p += 16, by.n -= 16;
  return Ty<T>::Sample(false, block, by);
}
inline uint128 FromInt(const Value::Integer& v) {
  return v.value_case() == Value::Integer::kValueUint128 ? FromBlock(v.value_uint128()) : uint128{v.value_uint64()};
}
// value carried by a (well-formed) Value message
template <class T> struct FromV { static T go(const Value& v) { return (T)FromInt(v.integer()); } };
template <> struct FromV<uint128> { static uint128 go(const Value& v) { return FromInt(v.integer()); } };
template <class T> struct FromV<XorWrapper<T>> { static XorWrapper<T> go(const Value& v) { return XorWrapper<T>((T)FromInt(v.xor_wrapper())); } };
template <class B, class M, M N> struct FromV<dpf_internal::IntModNImpl<B, M, N>> {
  static dpf_internal::IntModNImpl<B, M, N> go(const Value& v) { return dpf_internal::IntModNImpl<B, M, N>((B)FromInt(v.int_mod_n())); }
};
template <class... E> struct FromV<Tuple<E...>> {
  static Tuple<E...> go(const Value& v) {
    int i = 0;
    return Tuple<E...>{FromV<E>::go(v.tuple().elements(i++))...};
  }
};

typedef IntModN<uint32_t, 4294967291u> Mod32;
typedef IntModN<uint64_t, 18446744073709551557ull> Mod64;
typedef IntModN<uint64_t, 3298534883309ull> Mod42;
typedef Tuple<uint32_t, uint64_t> TA;
typedef Tuple<uint8_t, uint16_t> TB;
typedef Tuple<uint64_t, uint64_t, uint64_t> TC;
typedef Tuple<Mod32, Mod32, Mod32> TD;
typedef Tuple<uint32_t, Mod32, uint16_t, Mod32> TE;
typedef Tuple<Mod32, Tuple<uint64_t, uint64_t, uint64_t>> TF;
typedef Tuple<XorWrapper<uint64_t>, uint128> TG;
#define VPD_TYPES(F) F(0, uint8_t) F(1, uint16_t) F(2, uint32_t) F(3, uint64_t) F(4, uint128) F(5, XorWrapper<uint8_t>) \
  F(6, XorWrapper<uint64_t>) F(7, XorWrapper<uint128>) F(8, Mod32) F(9, Mod64) F(10, Mod42) F(11, TA) F(12, TB) F(13, TC) F(14, TD) F(15, TE) F(16, TG) F(17, TF)
constexpr int kTypes = 18;
template <class F> void WithType(int t, F f) {
  switch (t) {
#define VPD_CASE(i, T) case i: f((T*)nullptr); break;
    VPD_TYPES(VPD_CASE)
#undef VPD_CASE
  }
}
inline ValueType TypeOf(int t) { ValueType r; WithType(t, [&](auto* p) { r = Ty<std::remove_pointer_t<decltype(p)>>::Type(); }); return r; }
template <class T> void RegisterOne(DistributedPointFunction& d) { vp::check(d.RegisterValueType<T>().ok(), "registering a value type succeeds"); }

// ---- instances ----
struct Level { int type; int log; };
struct Instance {
  std::vector<Level> levels;
  std::vector<DpfParameters> params;
  std::unique_ptr<DistributedPointFunction> dpf;
  std::vector<int> tree;      // tree level of each hierarchy level, from the definition
  std::vector<int> blocks;    // value blocks of each hierarchy level
  int tree_levels = 0;
};
inline int BitsNeededRef(const ValueType& v) {
  if (v.type_case() == ValueType::kInteger) return v.integer().bitsize();
  if (v.type_case() == ValueType::kXorWrapper) return v.xor_wrapper().bitsize();
  if (v.type_case() == ValueType::kIntModN) return 128;
  int mods = 0, base = 0, r = 0;
  for (auto& e : v.tuple().elements()) {
    if (e.type_case() == ValueType::kIntModN) mods++, base = e.int_mod_n().base_integer().bitsize();
    else r += BitsNeededRef(e);
  }
  if (mods) r += 128 + (mods - 1) * ((base + 7) / 8 * 8);
  return r;
}
inline int CeilLog2(int x) { int r = 0; while ((1 << r) < x) ++r; return r; }
inline void Geometry(Instance& I) {
  I.tree.clear();
  I.blocks.clear();
  int next = 0;
  for (auto& p : I.params) {
    int bits = BitsNeededRef(p.value_type());
    int t = std::max(next, p.log_domain_size() - 7 + std::min(CeilLog2(bits), 7));
    I.tree.push_back(t);
    I.blocks.push_back(8);  // more than any type reads
    next = t + 1;
  }
  I.tree_levels = next;
}
// max_gap bounds the expansion between consecutive levels
inline Instance AnyInstance(int max_levels, int max_gap, int one_type = -1, int max_log = 128) {
  Instance I;
  int n = 1 + (int)vp::draw_below(max_levels);
  int log = (int)vp::draw_below(std::min(max_gap, max_log) + 1);
  if (vp::draw_below(12) == 0) log = 0;
  int same = (int)vp::draw_below(2) ? (int)vp::draw_below(kTypes) : -1;
  for (int i = 0; i < n; ++i) {
    int t = one_type >= 0 ? one_type : same >= 0 ? same : (int)vp::draw_below(kTypes);
    I.levels.push_back({t, log});
    int gap = 1 + (int)vp::draw_below(max_gap);
    if (log + gap > max_log) break;
    log += gap;
  }
  for (auto& l : I.levels) {
    DpfParameters p;
    p.set_log_domain_size(l.log);
    *p.mutable_value_type() = TypeOf(l.type);
    // the default security parameter exceeds what modular types can offer on large domains
    if (l.type >= 8 && l.type != 11 && l.type != 12 && l.type != 13) p.set_security_parameter(40);
    I.params.push_back(p);
    vp::note("level", "type " + std::to_string(l.type) + " log_domain_size " + std::to_string(l.log));
  }
  auto d = DistributedPointFunction::CreateIncremental(I.params);
  vp::check(d.ok(), "valid parameters are accepted");
  I.dpf = std::move(*d);
  for (auto& l : I.levels) WithType(l.type, [&](auto* p) { RegisterOne<std::remove_pointer_t<decltype(p)>>(*I.dpf); });
  Geometry(I);
  return I;
}
inline uint128 AnyPoint(int log, uint128 near) {
  uint128 m = Mask(log);
  switch (vp::draw_below(8)) {
    case 0: return near & m;
    case 1: return (near ^ (uint128{1} << (int)vp::draw_below(std::max(log, 1)))) & m;
    case 2: return (near + 1) & m;
    case 3: return (near - 1) & m;
    case 4: return 0;
    case 5: return m;
    case 6: return (near ^ Draw128() % 128) & m;
    default: return Draw128() & m;
  }
}
struct Keys { DpfKey k[2]; uint128 alpha; std::vector<Value> beta; };
template <class T> Value ToV(const T& x) { return *absl::StatusOr<Value>(ToValue(x)); }
inline Value AnyValue(int type) {
  Value v;
  WithType(type, [&](auto* p) { typedef std::remove_pointer_t<decltype(p)> T; v = dpf_internal::ValueTypeHelper<T>::ToValue(Ty<T>::Any()); });
  return v;
}
inline Keys AnyKeys(Instance& I) {
  Keys K;
  K.alpha = AnyPoint(I.levels.back().log, Draw128());
  vp::note("alpha", Hex(K.alpha));
  for (auto& l : I.levels) K.beta.push_back(AnyValue(l.type));
  for (auto& b : K.beta) vp::note("beta", b.ShortDebugString());
  auto r = I.dpf->GenerateKeysIncremental(K.alpha, absl::MakeConstSpan(K.beta));
  vp::check(r.ok(), "key generation accepts every valid alpha and beta");
  K.k[0] = r->first;
  K.k[1] = r->second;
  return K;
}
// ---- the DPF tree, one level at a time ----
struct Node { uint128 seed; bool t; };
inline Node Root(const DpfKey& k) { return {FromBlock(k.seed()), (bool)k.party()}; }
inline Node Step(Node n, bool bit, uint128 cw, bool cl, bool cr) {
  uint128 s = bit ? HRight()(n.seed) : HLeft()(n.seed);
  if (n.t) s ^= cw;
  bool t = (absl::Uint128Low64(s) & 1) != 0;
  s = (s >> 1) << 1;
  if (n.t) t ^= bit ? cr : cl;
  return {s, t};
}
inline Node Walk(const DpfKey& k, int levels, uint128 path) {
  Node n = Root(k);
  for (int l = 0; l < levels; ++l) {
    bool bit = (absl::Uint128Low64(Shr(path, levels - 1 - l)) & 1) != 0;
    auto& c = k.correction_words(l);
    n = Step(n, bit, FromBlock(c.seed()), c.control_left(), c.control_right());
  }
  return n;
}
template <class T> T Leaf(const Instance& I, const DpfKey& k, int h, uint128 x) {
  int bb = I.levels[h].log - I.tree[h];
  Node n = Walk(k, I.tree[h], Shr(x, bb));
  std::vector<uint128> b;
  for (int j = 0; j < I.blocks[h]; ++j) b.push_back(HValue()(n.seed + uint128(j)));
  int e = (int)absl::Uint128Low64(x & Mask(bb));
  T v = Element<T>(b, e);
  if (n.t) {
    auto& vc = h + 1 < (int)I.levels.size() ? k.correction_words(I.tree[h]).value_correction() : k.last_level_value_correction();
    vp::check(e < vc.size(), "there is a value correction for every element of a block");
    v = Ty<T>::Add(v, FromV<T>::go(vc.Get(e)));
  }
  return k.party() == 1 ? Ty<T>::Neg(v) : v;
}
}  // namespace vpd

// the external source of key seeds: arbitrary bytes
extern "C" int RAND_bytes(uint8_t* buf, size_t len) {
  uint64_t m = vp::draw_below(10);
  for (size_t i = 0; i < len; ++i) buf[i] = m == 0 ? 0 : m == 1 ? 0xff : (uint8_t)vp::draw64();
  return 1;
}
#endif
