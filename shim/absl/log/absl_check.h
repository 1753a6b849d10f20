// Stand-in for Abseil's absl/log/absl_check.h, which the installed Abseil does
// not ship.  A failing check stops the process, as in Abseil.  The debug
// variants are evaluated as well (the build defines no NDEBUG).
#ifndef VERIF_SHIM_ABSL_CHECK_H_
#define VERIF_SHIM_ABSL_CHECK_H_
#include <cstdio>
#include <cstdlib>
namespace vshim {
struct NullStream {
  template <class T>
  NullStream& operator<<(const T&) { return *this; }
};
struct Voidify {
  void operator&(const NullStream&) {}
};
[[noreturn]] inline void CheckFailed(const char* what) {
  std::fprintf(stderr, "CHECK failed: %s\n", what);
  std::abort();
}
inline NullStream Fail(const char* what) { CheckFailed(what); return {}; }
}  // namespace vshim
#define ABSL_CHECK(c) (c) ? (void)0 : ::vshim::Voidify() & ::vshim::Fail(#c)
#define ABSL_CHECK_OP_(a, op, b) ABSL_CHECK((a)op(b))
#define ABSL_CHECK_EQ(a, b) ABSL_CHECK_OP_(a, ==, b)
#define ABSL_CHECK_NE(a, b) ABSL_CHECK_OP_(a, !=, b)
#define ABSL_CHECK_LT(a, b) ABSL_CHECK_OP_(a, <, b)
#define ABSL_CHECK_LE(a, b) ABSL_CHECK_OP_(a, <=, b)
#define ABSL_CHECK_GT(a, b) ABSL_CHECK_OP_(a, >, b)
#define ABSL_CHECK_GE(a, b) ABSL_CHECK_OP_(a, >=, b)
#define ABSL_CHECK_OK(s) ABSL_CHECK((s).ok())
#define ABSL_DCHECK ABSL_CHECK
#define ABSL_DCHECK_EQ ABSL_CHECK_EQ
#define ABSL_DCHECK_NE ABSL_CHECK_NE
#define ABSL_DCHECK_LT ABSL_CHECK_LT
#define ABSL_DCHECK_LE ABSL_CHECK_LE
#define ABSL_DCHECK_GT ABSL_CHECK_GT
#define ABSL_DCHECK_GE ABSL_CHECK_GE
#define ABSL_DCHECK_OK ABSL_CHECK_OK
#endif
