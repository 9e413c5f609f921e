// /verif shim.
#ifndef VERIF_SHIM_ABSL_LOG_LOG_H_
#define VERIF_SHIM_ABSL_LOG_LOG_H_
#include "absl/log/verif_log_impl.h"
#define LOG(sev) VERIF_LOG_STREAM(sev)
#define ABSL_LOG(sev) VERIF_LOG_STREAM(sev)
#define LOG_IF(sev, c) \
  switch (0) default: !(c) ? (void)0 : ::verif_log::Voidify() & VERIF_LOG_STREAM(sev)
#define LOG_EVERY_N(sev, n) LOG(sev)
#define LOG_FIRST_N(sev, n) LOG(sev)
#define LOG_EVERY_N_SEC(sev, n) LOG(sev)
#define DLOG(sev) LOG(sev)
#define PLOG(sev) LOG(sev)
#define VLOG(n) LOG_IF(INFO, false)
#define VLOG_IS_ON(n) false
#endif
