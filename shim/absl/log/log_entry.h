// /verif shim: the installed abseil (20220623) predates absl/log.
#ifndef VERIF_SHIM_ABSL_LOG_LOG_ENTRY_H_
#define VERIF_SHIM_ABSL_LOG_LOG_ENTRY_H_
#include <string>
#include "absl/base/log_severity.h"
#include "absl/strings/string_view.h"
namespace absl {
class LogEntry {
 public:
  LogEntry(absl::LogSeverity s, std::string t, const char* f, int l)
      : severity_(s), text_(std::move(t)), file_(f), line_(l) {}
  absl::LogSeverity log_severity() const { return severity_; }
  absl::string_view text_message() const { return text_; }
  absl::string_view text_message_with_prefix() const { return text_; }
  absl::string_view source_filename() const { return file_; }
  int source_line() const { return line_; }
 private:
  absl::LogSeverity severity_;
  std::string text_;
  const char* file_;
  int line_;
};
}  // namespace absl
#endif
