// What the harness of C31 asks of the log monitor. The monitor itself is
// built in c31_sink.cc, where every memory access can be preempted.
#ifndef VERIF_HARNESS_C31_SINK_H_
#define VERIF_HARNESS_C31_SINK_H_
#include <string>
#include <vector>

struct Sink;
Sink* SinkNew();
void SinkDelete(Sink* s);
void SinkSend(Sink* s, int severity, const std::string& text);
int SinkCount(Sink* s, int which);   // 0..3: that severity, 4: warnings and worse
void SinkReset(Sink* s);
void SinkEntries(Sink* s, std::vector<std::string>* out);
#endif
