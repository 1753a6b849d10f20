// Stand-in for Abseil's absl/log/absl_log.h: log statements are dropped.
#ifndef VERIF_SHIM_ABSL_LOG_H_
#define VERIF_SHIM_ABSL_LOG_H_
#include "absl/log/absl_check.h"
#define ABSL_LOG(sev) ::vshim::NullStream()
#define ABSL_LOG_IF(sev, c) ::vshim::NullStream()
#define ABSL_LOG_FIRST_N(sev, n) ::vshim::NullStream()
#define ABSL_LOG_EVERY_N(sev, n) ::vshim::NullStream()
#endif
