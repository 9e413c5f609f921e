// /verif shim.
#ifndef VERIF_SHIM_ABSL_LOG_CHECK_H_
#define VERIF_SHIM_ABSL_LOG_CHECK_H_
#include "absl/log/verif_log_impl.h"
#define CHECK(c) VERIF_CHECK_IMPL((c), #c)
#define QCHECK(c) CHECK(c)
#define PCHECK(c) CHECK(c)
#define DCHECK(c) CHECK(c)
#define CHECK_EQ(a, b) VERIF_CHECK_IMPL((a) == (b), #a " == " #b)
#define CHECK_NE(a, b) VERIF_CHECK_IMPL((a) != (b), #a " != " #b)
#define CHECK_LE(a, b) VERIF_CHECK_IMPL((a) <= (b), #a " <= " #b)
#define CHECK_LT(a, b) VERIF_CHECK_IMPL((a) < (b), #a " < " #b)
#define CHECK_GE(a, b) VERIF_CHECK_IMPL((a) >= (b), #a " >= " #b)
#define CHECK_GT(a, b) VERIF_CHECK_IMPL((a) > (b), #a " > " #b)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#define CHECK_OK(s) VERIF_CHECK_IMPL(::verif_log::AsStatus(s).ok(), #s " is OK")
#define QCHECK_OK(s) CHECK_OK(s)
#define DCHECK_OK(s) CHECK_OK(s)
#define ABSL_CHECK(c) CHECK(c)
#define ABSL_CHECK_OK(s) CHECK_OK(s)
#define ABSL_CHECK_EQ(a, b) CHECK_EQ(a, b)
#endif
