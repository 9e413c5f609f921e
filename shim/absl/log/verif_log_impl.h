// /verif shim: logging back end. Every record is counted by severity and, when
// the simulator asks for it, echoed on stderr. FATAL prints and aborts.
#ifndef VERIF_SHIM_ABSL_LOG_IMPL_H_
#define VERIF_SHIM_ABSL_LOG_IMPL_H_
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <string>
#include <vector>
#include "absl/base/log_severity.h"
#include "absl/log/log_sink.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
extern "C" void verif_fatal_hook(const char*) __attribute__((weak));
namespace verif_log {
struct Counters { uint64_t n[4] = {0, 0, 0, 0}; };
inline Counters& Counts() { static Counters c; return c; }
inline bool& Echo() { static bool e = false; return e; }
inline std::vector<absl::LogSink*>& Sinks() {
  static std::vector<absl::LogSink*>* v = new std::vector<absl::LogSink*>();
  return *v;
}
class Message {
 public:
  Message(int sev, const char* file, int line, const char* pre = nullptr)
      : sev_(sev), file_(file), line_(line) { if (pre) os_ << pre; }
  ~Message() {
    Counts().n[sev_]++;
    std::string text = os_.str();
    if (!Sinks().empty()) {
      absl::LogEntry e(static_cast<absl::LogSeverity>(sev_), text, file_, line_);
      auto sinks = Sinks();
      for (auto* s : sinks) s->Send(e);
    }
    if (Echo() || sev_ == 3)
      fprintf(stderr, "%c %s:%d] %s\n", "IWEF"[sev_], file_, line_, text.c_str());
    if (sev_ == 3) {
      fprintf(stderr, "VERIF-FATAL: %s\n", text.c_str());
      fflush(stderr);
      if (verif_fatal_hook != nullptr) verif_fatal_hook(text.c_str());
      abort();
    }
  }
  std::ostream& stream() { return os_; }
  Message& WithVerbosity(int) { return *this; }
 private:
  int sev_;
  const char* file_;
  int line_;
  std::ostringstream os_;
};
struct Voidify { void operator&(std::ostream&) {} };
inline const absl::Status& AsStatus(const absl::Status& s) { return s; }
template <typename T>
inline const absl::Status& AsStatus(const absl::StatusOr<T>& s) { return s.status(); }
}  // namespace verif_log
#define VERIF_SEV_INFO 0
#define VERIF_SEV_WARNING 1
#define VERIF_SEV_ERROR 2
#define VERIF_SEV_FATAL 3
#define VERIF_SEV_QFATAL 3
#define VERIF_SEV_DFATAL 3
#define VERIF_LOG_STREAM(sev) \
  ::verif_log::Message(VERIF_SEV_##sev, __FILE__, __LINE__).stream()
#define VERIF_CHECK_IMPL(cond, text)                                  \
  switch (0)                                                          \
  default:                                                            \
    (cond) ? (void)0                                                  \
           : ::verif_log::Voidify() &                                 \
                 ::verif_log::Message(3, __FILE__, __LINE__,          \
                                      "Check failed: " text " ")      \
                     .stream()
#endif
