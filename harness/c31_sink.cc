#include "c31_sink.h"

#include "mpact/sim/util/other/log_sink.h"

struct Sink { mpact::sim::util::LogSink s; };
Sink* SinkNew() { return new Sink; }
void SinkDelete(Sink* s) { delete s; }
void SinkSend(Sink* s, int severity, const std::string& text) {
  absl::LogEntry e(static_cast<absl::LogSeverity>(severity), text, "program.cc", 1);
  static_cast<absl::LogSink*>(&s->s)->Send(e);
}
int SinkCount(Sink* s, int which) {
  switch (which) {
    case 0: return s->s.num_info();
    case 1: return s->s.num_warning();
    case 2: return s->s.num_error();
    case 3: return s->s.num_fatal();
    default: return s->s.NumOops();
  }
}
void SinkReset(Sink* s) { s->s.Reset(); }
void SinkEntries(Sink* s, std::vector<std::string>* out) {
  // Bound to a reference, or to the copy if a copy is returned.
  const auto& l = s->s.oops_entries();
  for (const auto& t : l) out->push_back(t);
}
