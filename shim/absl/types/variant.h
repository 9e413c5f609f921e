// /verif shim: newer absl aliases std::variant; mpact-sim relies on it.
#ifndef VERIF_SHIM_ABSL_TYPES_VARIANT_H_
#define VERIF_SHIM_ABSL_TYPES_VARIANT_H_
#include <variant>
#include "absl/utility/utility.h"
namespace absl {
using std::variant; using std::get; using std::get_if; using std::visit;
using std::holds_alternative; using std::monostate; using std::variant_size;
using std::variant_size_v; using std::variant_alternative;
using std::variant_alternative_t; using std::variant_npos; using std::bad_variant_access;
}
#endif
