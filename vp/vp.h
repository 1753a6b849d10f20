// Contract language used by the files in contracts/.
//
// A harness is a function VP_HARNESS(name) { ... }.  Read by the verifier
// (engine/), vp::any / vp::havoc introduce values ranging over their whole
// type, vp::assume states a requires clause, vp::check an ensures clause (one
// named obligation each) and the quantified forms range over every index.
// Compiled natively (-DVP_NATIVE) the same text runs the same real code on
// drawn values; it is used to replay a failed obligation.
#ifndef VERIF_VP_H_
#define VERIF_VP_H_
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <type_traits>
#include <vector>

#define VP_MAX_SIZE 2147483647ul

#ifndef VP_NATIVE
#define VP_HARNESS(n) extern "C" void vp_harness_##n()
extern "C" {
void __vp_havoc(void* p, unsigned long size, const char* name);
void __vp_assume(bool c);
void __vp_check(bool c, const char* name);
void __vp_cover(const char* name);
void __vp_forall_check(unsigned long lo, unsigned long hi, bool (*f)(void*, unsigned long), void* env, const char* name);
void __vp_forall_assume(unsigned long lo, unsigned long hi, bool (*f)(void*, unsigned long), void* env);
bool __vp_symbolic();
void __vp_xor_bytes(char* dst, const char* src, unsigned long n);
void __vp_uf(const char* name, unsigned long nargs, const unsigned long* args, unsigned long nout, unsigned long* out);
}
namespace vp {
constexpr bool kNative = false;
// an arbitrary but fixed function of the argument words (the same symbol in
// every use of `name` within a harness)
inline void uf(const char* name, size_t nargs, const uint64_t* args, size_t nout, uint64_t* out) {
  __vp_uf(name, nargs, (const unsigned long*)args, nout, (unsigned long*)out);
}
template <class T> void havoc(T& x, const char* n = "v") { __vp_havoc((void*)&x, sizeof(T), n); }
template <class T> T any(const char* n = "v") { T x{}; __vp_havoc((void*)&x, sizeof(T), n); return x; }
inline void assume(bool c) { __vp_assume(c); }
inline void check(bool c, const char* name) { __vp_check(c, name); }
inline void cover(const char* name) { __vp_cover(name); }
// for every i < n: dst[i] = old(dst[i]) ^ src[i], nothing else changes (a postcondition as an effect)
inline void xor_bytes(char* dst, const char* src, size_t n) { __vp_xor_bytes(dst, src, n); }
// a size in [lo, VP_MAX_SIZE]; natively drawn from [lo, native_hi]
inline size_t size(size_t lo, size_t native_hi, const char* n = "size") {
  size_t x = any<size_t>(n);
  assume(x >= lo && x <= VP_MAX_SIZE);
  return x;
}
template <class F> bool call_(void* env, unsigned long i) { return (*(F*)env)(i); }
template <class F> void forall(size_t lo, size_t hi, const char* name, F f) { __vp_forall_check(lo, hi, &call_<F>, &f, name); }
template <class F> void assume_forall(size_t lo, size_t hi, F f) { __vp_forall_assume(lo, hi, &call_<F>, &f); }
}  // namespace vp
#else
#define VP_HARNESS(n)                                              \
  static void vp_harness_##n();                                    \
  static ::vp::Reg vp_reg_##n(#n, &vp_harness_##n);                \
  static void vp_harness_##n()
namespace vp {
constexpr bool kNative = true;
struct Reg { Reg(const char* n, void (*f)()); };
struct Skip {};
struct Failed { const char* name; };
uint64_t draw64();
uint64_t draw_below(uint64_t n);          // uniform
uint64_t draw_int(int bits);              // biased
void note(const char* name, const std::string& v);
void cover(const char* name);
inline void xor_bytes(char* dst, const char* src, size_t n) { for (size_t i = 0; i < n; ++i) dst[i] ^= src[i]; }
inline void assume(bool c) { if (!c) throw Skip(); }
extern uint64_t g_checks;
inline void check(bool c, const char* name) { ++g_checks; if (!c) throw Failed{name}; }
std::string hex(const void* p, size_t n);
inline void uf(const char* name, size_t nargs, const uint64_t* args, size_t nout, uint64_t* out) {
  uint64_t h = 0x9e3779b97f4a7c15ull;
  for (; *name; ++name) h = (h ^ (unsigned char)*name) * 0xff51afd7ed558ccdull;
  for (size_t i = 0; i < nargs; ++i) { h = (h ^ args[i]) * 0xff51afd7ed558ccdull; h ^= h >> 32; }
  for (size_t i = 0; i < nout; ++i) { h += 0x9e3779b97f4a7c15ull; uint64_t z = (h ^ (h >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; out[i] = z ^ (z >> 31); }
}
template <class T> struct Draw {
  static void go(T& x) {
    static_assert(std::is_trivially_copyable<T>::value, "no native generator");
    unsigned char* p = (unsigned char*)&x;
    for (size_t i = 0; i < sizeof(T);) {
      size_t n = sizeof(T) - i >= 8 ? 8 : 1;
      uint64_t v = draw_int(n * 8);
      memcpy(p + i, &v, n);
      i += n;
    }
  }
};
template <> struct Draw<bool> { static void go(bool& x) { x = draw64() & 1; } };
template <class T> struct IntDraw { static void go(T& x) { x = (T)draw_int(sizeof(T) * 8); } };
template <> struct Draw<char> : IntDraw<char> {};
template <> struct Draw<signed char> : IntDraw<signed char> {};
template <> struct Draw<unsigned char> : IntDraw<unsigned char> {};
template <> struct Draw<short> : IntDraw<short> {};
template <> struct Draw<unsigned short> : IntDraw<unsigned short> {};
template <> struct Draw<int> : IntDraw<int> {};
template <> struct Draw<unsigned> : IntDraw<unsigned> {};
template <> struct Draw<long> : IntDraw<long> {};
template <> struct Draw<unsigned long> : IntDraw<unsigned long> {};
template <> struct Draw<double> {
  static void go(double& x) {
    static const double t[] = {0.0, -0.0, 1, -1, 40, 128, 127.5, 128.5, 200, 1e-300, 1e300, 64, 80};
    uint64_t k = draw_below(20);
    if (k < 13) x = t[k];
    else if (k < 14) x = __builtin_nan("");
    else if (k < 15) x = __builtin_inf();
    else x = (double)draw_below(1000000) / 5000.0;
  }
};
template <> struct Draw<std::string> {
  static void go(std::string& s) {
    s.resize(draw_below(24));
    for (auto& c : s) c = (char)draw_int(8);
  }
};
template <class T> struct Draw<std::vector<T>> {
  static void go(std::vector<T>& v) {
    v.resize(draw_below(10));
    for (size_t i = 0; i < v.size(); ++i) { T x{}; Draw<T>::go(x); v[i] = std::move(x); }
  }
};
template <class T> void havoc(T& x, const char* n = "v") {
  Draw<T>::go(x);
  if constexpr (std::is_trivially_copyable<T>::value) note(n, hex(&x, sizeof(T)));
  else if constexpr (std::is_same<T, std::string>::value) note(n, hex(x.data(), x.size()));
  else note(n, "(container)");
}
template <class T> T any(const char* n = "v") { T x{}; havoc(x, n); return x; }
inline size_t size(size_t lo, size_t native_hi, const char* n = "size") {
  size_t x = lo + draw_below(native_hi - lo + 1);
  note(n, std::to_string(x));
  return x;
}
template <class F> void forall(size_t lo, size_t hi, const char* name, F f) {
  for (size_t i = lo; i < hi; ++i) check(f(i), name);
}
template <class F> void assume_forall(size_t lo, size_t hi, F f) {
  for (size_t i = lo; i < hi; ++i) assume(f(i));
}
}  // namespace vp
#endif
namespace vp {
template <class T> inline T uf2(const char* name, const T& a, const T& b) {
  static_assert(sizeof(T) == 16, "128-bit words");
  uint64_t x[4], y[2];
  memcpy(x, &a, 16);
  memcpy(x + 2, &b, 16);
  uf(name, 4, x, 2, y);
  T r;
  memcpy((void*)&r, y, 16);
  return r;
}
}  // namespace vp
#endif
