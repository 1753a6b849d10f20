// P08: Tuple and XorWrapper form groups elementwise.
#include "absl/numeric/int128.h"
#include "dpf/tuple.h"
#include "dpf/xor_wrapper.h"
#include "dpf/int_mod_n.cc"
#include "vp.h"
namespace {
using namespace distributed_point_functions;

template <class T> void Xor() {
  using X = XorWrapper<T>;
  T a = vp::any<T>("a"), b = vp::any<T>("b"), c = vp::any<T>("c");
  X x(a), y(b), z(c);
  vp::check(X().value() == T(0), "default is zero");
  vp::check(x.value() == a, "value is kept");
  vp::check((x + y).value() == T(a ^ b), "operator+ is bitwise xor");
  vp::check((x - y).value() == T(a ^ b), "operator- is bitwise xor");
  vp::check((-x).value() == a, "each value is its own negative");
  vp::check((x + x).value() == T(0) && (x - x).value() == T(0), "x + x is zero");
  X s = x;
  s += y;
  vp::check(s.value() == T(a ^ b) && y.value() == b, "operator+= is bitwise xor");
  X d = x;
  d -= y;
  vp::check(d.value() == T(a ^ b) && y.value() == b, "operator-= is bitwise xor");
  X q = x;
  q += q;
  vp::check(q.value() == T(0), "x += x is zero");
  vp::check((x == y) == (a == b) && (x != y) == !(a == b), "equality compares the wrapped values");
  vp::check((x + y) + z == x + (y + z) && x + y == y + x, "associative and commutative");
  vp::check(x + (-x) == X(), "a + (-a) is zero");
  vp::check(x - y == x + (-y), "a - b is a + (-b)");
}

// reference operations of one component
template <class T> struct C {
  static T get(const char* n) { return vp::any<T>(n); }
  static T add(T a, T b) { return T(a + b); }
  static T neg(T a) { return T(T(0) - a); }
  static bool eq(const T& a, const T& b) { return a == b; }
};
template <class T> struct C<XorWrapper<T>> {
  using X = XorWrapper<T>;
  static X get(const char* n) { return X(vp::any<T>(n)); }
  static X add(const X& a, const X& b) { return X(T(a.value() ^ b.value())); }
  static X neg(const X& a) { return a; }
  static bool eq(const X& a, const X& b) { return a.value() == b.value(); }
};
template <class B, class M, M N> struct C<dpf_internal::IntModNImpl<B, M, N>> {
  using X = dpf_internal::IntModNImpl<B, M, N>;
  static X get(const char* n) { return X(vp::any<B>(n)); }
  static X add(const X& a, const X& b) { return a + b; }   // P05
  static X neg(const X& a) { return -a; }
  static bool eq(const X& a, const X& b) { return a.value() == b.value(); }
};
template <class... T> struct C<Tuple<T...>> {
  using X = Tuple<T...>;
  static X get(const char* n) { return X(C<T>::get(n)...); }
  template <size_t... I> static X add_(const X& a, const X& b, std::index_sequence<I...>) {
    return X(C<T>::add(std::get<I>(a.value()), std::get<I>(b.value()))...);
  }
  template <size_t... I> static X neg_(const X& a, std::index_sequence<I...>) { return X(C<T>::neg(std::get<I>(a.value()))...); }
  template <size_t... I> static bool eq_(const X& a, const X& b, std::index_sequence<I...>) {
    bool r = true;
    for (bool e : {C<T>::eq(std::get<I>(a.value()), std::get<I>(b.value()))...}) r = r && e;
    return r;
  }
  static X add(const X& a, const X& b) { return add_(a, b, std::make_index_sequence<sizeof...(T)>{}); }
  static X neg(const X& a) { return neg_(a, std::make_index_sequence<sizeof...(T)>{}); }
  static bool eq(const X& a, const X& b) { return eq_(a, b, std::make_index_sequence<sizeof...(T)>{}); }
};

template <bool kAssoc, class... T> void TupA() {
  using X = Tuple<T...>;
  using R = C<X>;
  X a = R::get("a"), b = R::get("b"), c = R::get("c");
  X zero = X(T(0)...);
  vp::check(R::eq(a + b, R::add(a, b)), "operator+ adds every component");
  vp::check(R::eq(-a, R::neg(a)), "negation negates every component");
  vp::check(R::eq(a - b, R::add(a, R::neg(b))), "operator- subtracts every component");
  X s = a;
  s += b;
  vp::check(R::eq(s, R::add(a, b)), "operator+= adds every component");
  X d = a;
  d -= b;
  vp::check(R::eq(d, R::add(a, R::neg(b))), "operator-= subtracts every component");
  X w = a;
  w += w;
  vp::check(R::eq(w, R::add(a, a)), "a += a doubles");
  w = a;
  w -= w;
  vp::check(R::eq(w, zero), "a -= a is zero");
  vp::check((a == b) == R::eq(a, b), "== compares every component");
  vp::check((a != b) == !R::eq(a, b), "!= compares every component");
  // for IntModN components this is the componentwise law above plus P05
  if constexpr (kAssoc) vp::check((a + b) + c == a + (b + c), "associative");
  vp::check(a + b == b + a, "commutative");
  vp::check(a + (-a) == zero, "a + (-a) is zero");
  X e(a);
  X f;
  f = b;
  vp::check(R::eq(e, a) && R::eq(f, b), "copies keep the value");
}
template <class... T> void Tup() { TupA<true, T...>(); }
}  // namespace
VP_HARNESS(xor_u8) { Xor<uint8_t>(); }
VP_HARNESS(xor_u16) { Xor<uint16_t>(); }
VP_HARNESS(xor_u32) { Xor<uint32_t>(); }
VP_HARNESS(xor_u64) { Xor<uint64_t>(); }
VP_HARNESS(xor_u128) { Xor<absl::uint128>(); }
VP_HARNESS(tuple_u32) { Tup<uint32_t>(); }
VP_HARNESS(tuple_u32_u64) { Tup<uint32_t, uint64_t>(); }
VP_HARNESS(tuple_small) { Tup<uint8_t, uint16_t, uint8_t, uint32_t>(); }
VP_HARNESS(tuple_u128) { Tup<absl::uint128, uint8_t>(); }
VP_HARNESS(tuple_mod_xor) { TupA<false, IntModN<uint32_t, 4294967291u>, XorWrapper<uint64_t>, uint16_t>(); }
