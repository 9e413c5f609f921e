// C31: the log monitor. Real code: LogSink, preemptible at every memory access.
// Simulated: the mutexes, the threads that log, read and reset, and the logging
// library (which delivers each message by a call from the thread that logs it).
#include <algorithm>
#include <array>
#include <set>

#include "c31_sink.h"
#include "dst_sched.h"

const char* const kHarnessProperty = "C31";
const bool kHarnessChecksLeaks = true;

namespace {
const char* const kKind[] = {"info", "warning", "error", "fatal", "warnings or worse"};
struct Op {
  int kind;            // 0 send, 1 read a count, 2 reset, 3 read the entries
  int which = 0;       // severity, or which count
  int result = 0;
  std::string text;
  std::vector<std::string> entries;
  int begun = 0, ended = 1 << 30;
  int task = 0;
};
struct World {
  explicit World(dst::Sim& s) : sim(s), sched(s) {}
  dst::Sim& sim;
  dst::Sched sched;
  Sink* sink = nullptr;
  std::vector<Op> ops;
  int clock = 0;
  int overlap = 0;
  int open = 0;
  bool repeats = false;
};
using State = std::array<int, 4>;
// Is there an order of the operations, in keeping with real time, in which every
// count and list read is right? `kept` is the list in the end: the k-th message of
// severity warning or worse is the k-th of it.
struct Search {
  const std::vector<Op>& ops;
  const std::vector<std::string>& kept;
  std::set<std::pair<uint64_t, State>> seen;
  bool Go(uint64_t done, const State& st, size_t k) {
    if (done + 1 == 1ull << ops.size()) return k == kept.size();
    if (!seen.insert({done, st}).second) return false;
    int first_end = 1 << 30;
    for (size_t i = 0; i < ops.size(); i++) if (!(done >> i & 1)) first_end = std::min(first_end, ops[i].ended);
    for (size_t i = 0; i < ops.size(); i++) {
      if (done >> i & 1 || ops[i].begun > first_end) continue;
      State n = st;
      size_t m = k;
      const Op& o = ops[i];
      if (o.kind == 0) {
        n[o.which]++;
        if (o.which > 0) { if (k >= kept.size() || kept[k] != o.text) continue; m++; }
      } else if (o.kind == 1) {
        if (o.result != (o.which == 4 ? st[1] + st[2] + st[3] : st[o.which])) continue;
      } else if (o.kind == 2) {
        n = {0, 0, 0, 0};
      } else if (o.entries.size() != k || !std::equal(o.entries.begin(), o.entries.end(), kept.begin())) {
        continue;
      }
      if (Go(done | 1ull << i, n, m)) return true;
    }
    return false;
  }
};

void Client(World& w, int task, int n, unsigned reads, unsigned resets) {
  dst::Sim& sim = w.sim;
  for (int i = 0; i < n; i++) {
    int what = sim.Weighted({6, reads, resets, reads ? 1u : 0u});
    size_t k = w.ops.size();
    w.ops.push_back({});
    w.ops[k].kind = what;
    w.ops[k].task = task;
    if (what == 0) {
      w.ops[k].which = sim.Pick(4);
      w.ops[k].text = std::to_string(task) + "." + std::to_string(i) + (sim.Pick(4) ? "" : std::string(sim.Range(1, 60), 'x'));
      if (w.repeats && sim.Pick(2)) { w.ops[k].text = sim.Pick(2) ? "again" : ""; sim.Probe("same-text-again"); }
    } else if (what == 1) {
      w.ops[k].which = sim.Pick(5);
    }
    if (w.open > 0) w.overlap++;
    w.open++;
    w.ops[k].begun = w.clock++;
    sim.AdvanceTime(1);
    const std::string text = w.ops[k].text;
    const int which = w.ops[k].which;
    int r = 0;
    std::vector<std::string> got;
    if (what == 0) SinkSend(w.sink, which, text);
    else if (what == 1) r = SinkCount(w.sink, which);
    else if (what == 2) SinkReset(w.sink);
    else SinkEntries(w.sink, &got);
    w.ops[k].entries = got;
    w.ops[k].result = r;
    w.ops[k].ended = w.clock++;
    w.open--;
    if (what == 0) sim.Log("task %d logged %s '%s'", task, kKind[which], text.c_str());
    else if (what == 1) sim.Log("task %d read %d of %s", task, r, kKind[which]);
    else if (what == 2) sim.Log("task %d reset the counts", task);
    else { sim.Log("task %d read %zu entries", task, got.size()); sim.Probe("entries-read"); }
    if (what == 2) sim.Fault("reset");
  }
}
}  // namespace

void RunOne(dst::Sim& sim) {
  World w(sim);
  sim.set_max_steps(sim.Range(40, 600));
  w.sink = SinkNew();
  int tasks = sim.Range(2, 5);
  unsigned reads = sim.Pick(2) ? 3 : 0, resets = sim.Pick(3) ? 0 : 1;
  w.ops.reserve(64);
  w.repeats = sim.Pick(3) == 0;
  for (int t = 0; t < tasks; t++) {
    int n = sim.Range(1, tasks > 3 ? 5 : 7);
    w.sched.Spawn("thread " + std::to_string(t), [&w, t, n, reads, resets] { Client(w, t, n, reads, resets); });
  }
  w.sched.Run();
  // The counts afterwards belong to the history too.
  State end;
  for (int k = 0; k < 5; k++) {
    Op o;
    o.kind = 1;
    o.which = k;
    o.begun = w.clock++;
    o.result = SinkCount(w.sink, k);
    o.ended = w.clock++;
    if (k < 4) end[k] = o.result;
    w.ops.push_back(o);
  }
  std::vector<std::string> e;
  SinkEntries(w.sink, &e);
  sim.Log("in the end %d/%d/%d/%d, %zu entries", end[0], end[1], end[2], end[3], e.size());
  bool had_reset = false;
  State sent = {0, 0, 0, 0};
  for (auto& o : w.ops) { had_reset |= o.kind == 2; if (o.kind == 0) sent[o.which]++; }
  if (!had_reset)
    for (int k = 0; k < 4; k++) SIM_CHECK(sim, end[k] == sent[k], "wrong-count", "%d messages of severity %s were logged, the monitor counted %d", sent[k], kKind[k], end[k]);
  std::multiset<std::string> want, have(e.begin(), e.end());
  for (auto& o : w.ops) if (o.kind == 0 && o.which > 0) want.insert(o.text);
  for (auto& t : want) SIM_CHECK(sim, have.count(t) >= want.count(t), "entry-lost", "'%s' was logged %zu times as a warning or worse and is kept %zu times", t.c_str(), want.count(t), have.count(t));
  for (auto& t : have) SIM_CHECK(sim, have.count(t) <= want.count(t), "extra-entry", "'%s' was logged %zu times as a warning or worse and is kept %zu times", t.c_str(), want.count(t), have.count(t));
  SIM_CHECK(sim, w.ops.size() < 60, "engine", "too many operations");
  Search s{w.ops, e, {}};
  SIM_CHECK(sim, s.Go(0, {0, 0, 0, 0}, 0), "not-linearizable", "no order of the messages and resets, in keeping with when each was done, explains the counts and entries that were read");
  if (w.overlap) sim.Probe("overlapping-calls");
  if (reads) sim.Probe("reads");
  if (w.overlap >= 1 && w.ops.size() >= 8) sim.NonTrivial();
  sim.State(dst::Mix(end[0] * 4096 + end[1] * 256 + end[2] * 16 + end[3]) ^ w.overlap << 8 ^ tasks);
  SinkDelete(w.sink);
}
