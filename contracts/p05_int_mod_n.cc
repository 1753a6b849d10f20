// P05: IntModN is arithmetic modulo N and always reduced.
#include "dpf/int_mod_n.cc"
#include "vp.h"
namespace {
using namespace distributed_point_functions;
template <class Base, class Wide, Base kN> struct Ops {
  using I = IntModN<Base, kN>;
  static void Run() {
    Base a = vp::any<Base>("a"), b = vp::any<Base>("b");
    const Wide n = static_cast<Wide>(kN);
    // construction and assignment reduce
    I x(a);
    vp::check(static_cast<Wide>(x.value()) == static_cast<Wide>(a) % n, "constructor: value == a mod N");
    I y;
    vp::check(y.value() == Base(0), "default constructor: zero");
    y = b;
    vp::check(static_cast<Wide>(y.value()) == static_cast<Wide>(b) % n, "assignment: value == b mod N");
    const Wide xv = static_cast<Wide>(x.value()), yv = static_cast<Wide>(y.value());
    vp::check(xv < n && yv < n, "representatives are below N");
    I s = x + y;
    vp::check(static_cast<Wide>(s.value()) == (xv + yv >= n ? xv + yv - n : xv + yv), "operator+ adds modulo N");
    I d = x - y;
    vp::check(static_cast<Wide>(d.value()) == (xv >= yv ? xv - yv : xv + n - yv), "operator- subtracts modulo N");
    I m = -x;
    vp::check(static_cast<Wide>(m.value()) == (xv == Wide(0) ? Wide(0) : n - xv), "unary minus negates modulo N");
    I t = x;
    t += y;
    vp::check(t.value() == s.value() && t == s && !(t != s), "operator+= agrees with operator+");
    t = x;
    t -= y;
    vp::check(t.value() == d.value(), "operator-= agrees with operator-");
    vp::check(static_cast<Wide>(s.value()) < n && static_cast<Wide>(d.value()) < n && static_cast<Wide>(m.value()) < n,
              "results are below N");
    vp::check((x == y) == (xv == yv) && (x != y) == (xv != yv), "equality compares residues");
    // arithmetic with itself as the argument
    I u = x;
    u += u;
    vp::check(static_cast<Wide>(u.value()) == (xv + xv >= n ? xv + xv - n : xv + xv), "x += x doubles modulo N");
    u = x;
    u -= u;
    vp::check(u.value() == Base(0), "x -= x is zero");
    I c(x);
    vp::check(c.value() == x.value(), "copy keeps the value");
  }
};
using U128 = absl::uint128;
// a 256-bit sum is avoided for 128-bit bases: carries are compared explicitly
template <U128 (*Mod)()> struct Dummy {};
}  // namespace

VP_HARNESS(u8_2) { Ops<uint8_t, uint16_t, 2>::Run(); }
VP_HARNESS(u8_3) { Ops<uint8_t, uint16_t, 3>::Run(); }
VP_HARNESS(u8_100) { Ops<uint8_t, uint16_t, 100>::Run(); }
VP_HARNESS(u8_251) { Ops<uint8_t, uint16_t, 251>::Run(); }
VP_HARNESS(u8_255) { Ops<uint8_t, uint16_t, 255>::Run(); }
VP_HARNESS(u16_40000) { Ops<uint16_t, uint32_t, 40000>::Run(); }
VP_HARNESS(u16_65535) { Ops<uint16_t, uint32_t, 65535>::Run(); }
VP_HARNESS(u32_max) { Ops<uint32_t, uint64_t, 4294967291u>::Run(); }
VP_HARNESS(u32_10) { Ops<uint32_t, uint64_t, 10>::Run(); }
VP_HARNESS(u64_10) { Ops<uint64_t, U128, 10>::Run(); }
VP_HARNESS(u64_max) { Ops<uint64_t, U128, 18446744073709551557ull>::Run(); }
