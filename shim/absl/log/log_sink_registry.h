// /verif shim.
#ifndef VERIF_SHIM_ABSL_LOG_LOG_SINK_REGISTRY_H_
#define VERIF_SHIM_ABSL_LOG_LOG_SINK_REGISTRY_H_
#include "absl/log/log_sink.h"
#include "absl/log/verif_log_impl.h"
namespace absl {
inline void AddLogSink(LogSink* s) { verif_log::Sinks().push_back(s); }
inline void RemoveLogSink(LogSink* s) {
  auto& v = verif_log::Sinks();
  for (size_t i = 0; i < v.size(); ++i)
    if (v[i] == s) { v.erase(v.begin() + i); return; }
}
}  // namespace absl
#endif
