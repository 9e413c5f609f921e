// C05: cycle-reserved resources. Real code: ComplexResource,
// ComplexResourceOperand, ArchState's cycle counter. The simulator owns the
// clock (single cycles, jumps) and the order of reservations and queries.
// Model: the set of absolute cycles reserved per resource.
#include <memory>
#include <set>
#include <vector>

#include "arch_world.h"
#include "mpact/sim/generic/complex_resource.h"
#include "mpact/sim/generic/complex_resource_operand.h"

using namespace mpact::sim::generic;
const char* const kHarnessProperty = "C05";
const bool kHarnessChecksLeaks = true;

namespace {
struct Res {
  std::unique_ptr<ComplexResource> r;
  size_t depth;
  std::set<uint64_t> reserved;  // absolute cycles
  uint64_t touched = 0;         // cycle of the last query or reservation
  bool tainted = false;         // history of the listed known finding
};
struct Op {
  std::unique_ptr<ComplexResourceOperand> op;
  int res;
  std::set<int> cycles;
};
struct World {
  dst::Sim& sim;
  std::unique_ptr<SimArchState> state;
  std::vector<Res> res;
  std::vector<Op> ops;
  uint64_t cycle = 0;
  bool stop = false;
  explicit World(dst::Sim& s) : sim(s) {}

  // Known finding (known_findings.txt, long-jump): in a window of two or more
  // words, a clock advance of 64..depth cycles between two uses of a resource
  // that has cycles reserved moves whole words the wrong way.
  bool IsLongJump(const Res& r) {
    uint64_t gap = cycle - r.touched;
    return r.depth > 64 && gap >= 64 && gap <= r.depth && !r.reserved.empty() && !(gap == r.depth && r.depth % 64 == 0);
  }
  void Touch(Res& r) {
    if (IsLongJump(r)) { r.tainted = true; sim.Probe("known-finding-history"); }
    r.touched = cycle;
    r.reserved.erase(r.reserved.begin(), r.reserved.lower_bound(cycle));
    if (r.reserved.empty() && !r.tainted) return;
  }
  std::vector<uint64_t> Span(const std::set<int>& c, int words) {
    std::vector<uint64_t> v(words, 0);
    for (int i : c) v[i / 64] |= 1ull << (i % 64);
    return v;
  }
  std::set<int> PickCycles(const Res& r) {
    std::set<int> c;
    switch (sim.Pick(4)) {
      case 0: c.insert(sim.Pick(r.depth)); break;
      case 1: { int b = sim.Pick(r.depth), e = b + sim.Pick(r.depth - b); for (int i = b; i <= e; i++) c.insert(i); break; }
      case 2: { int n = 1 + sim.Pick(5); for (int i = 0; i < n; i++) c.insert(sim.Pick(r.depth)); break; }
      default: c.insert(r.depth - 1 - (sim.Pick(2) ? 0 : sim.Pick(r.depth))); break;
    }
    return c;
  }
  bool WantFree(const Res& r, const std::set<int>& c) {
    for (int i : c) if (r.reserved.count(cycle + i)) return false;
    return true;
  }
  void Verdict(Res& r, bool got, bool want, const char* what) {
    if (got == want) return;
    if (r.tainted) { sim.Probe("known-finding-manifested"); stop = true; return; }
    sim.Violation("wrong-answer", "%s says %s at cycle %lu, depth %d, expected %s", what, got ? "free" : "busy",
                  (unsigned long)cycle, (int)r.depth, want ? "free" : "busy");
  }
  int Words(const Res& r, const std::set<int>& c) {
    int full = (r.depth + 63) / 64, need = *c.rbegin() / 64 + 1;
    return need + (int)sim.Pick(full - need + 1);
  }
  // A mask as a caller may write it: possibly longer than the window, asking
  // for cycles no window of this depth has.
  std::vector<uint64_t> Mask(const Res& r, const std::set<int>& c) {
    auto v = Span(c, Words(r, c));
    if (sim.Chance(1, 10)) {
      v.resize((r.depth + 63) / 64, 0);
      int extra = 1 + sim.Pick(3);
      for (int i = 0; i < extra; i++) v.push_back(sim.Pick(3) ? ~0ull : 0);
      sim.Probe("mask-longer-than-window");
    }
    return v;
  }
  void Sweep(Res& r) {  // ask for every cycle of the window
    Touch(r);
    for (size_t i = 0; i < r.depth && !stop; i++) {
      std::set<int> c = {(int)i};
      auto v = Span(c, i / 64 + 1);
      Verdict(r, r.r->IsFree(v), WantFree(r, c), "sweep");
    }
  }
};
}  // namespace

void RunOne(dst::Sim& sim) {
  auto w = std::make_unique<World>(sim);
  sim.set_max_steps(15 + sim.Pick(60));
  w->state = std::make_unique<SimArchState>("s");
  bool allow_known = sim.Chance(1, 16);
  int n = 1 + sim.Pick(3);
  uint64_t start = sim.Pick(3) == 0 ? sim.Pick(1000000) : 0;
  for (int i = 0; i < n; i++) {
    static const int ks[] = {1, 2, 31, 63, 64, 65, 100, 127, 128, 129, 192, 256, 512};
    Res r;
    r.depth = sim.Pick(2) ? ks[sim.Pick(13)] : 1 + sim.Pick(300);
    if (sim.Chance(1, 30)) r.depth = 1000 + sim.Pick(4000);
    r.r = std::make_unique<ComplexResource>(w->state.get(), "res" + std::to_string(i), r.depth);
    SIM_CHECK(sim, r.r->cycle_depth() == r.depth && r.r->name() == "res" + std::to_string(i), "accessor", "bad accessor");
    sim.Log("resource %d depth %d", i, (int)r.depth);
    w->res.push_back(std::move(r));
  }
  if (start) { w->cycle = start; w->state->set_cycle(start); for (auto& r : w->res) w->Touch(r); }
  int acq = 0;
  while (sim.Step() && !w->stop) {
    int ri = sim.Pick(w->res.size());
    Res& r = w->res[ri];
    switch (sim.Weighted({5, 4, 2, 3, 4, 6, 2, 1, 1})) {
      case 0: {
        auto c = w->PickCycles(r);
        auto v = w->Mask(r, c);
        w->Touch(r);
        bool want = w->WantFree(r, c);
        if (sim.Chance(1, 20)) SIM_CHECK(sim, r.r->IsFree({}), "empty-question", "no cycles asked for, answer busy");
        bool got = r.r->IsFree(v);
        sim.Log("ask %d first %d count %d -> %d", ri, *c.begin(), (int)c.size(), got);
        w->Verdict(r, got, want, "IsFree");
        break;
      }
      case 1: {
        auto c = w->PickCycles(r);
        auto v = w->Mask(r, c);
        w->Touch(r);
        sim.Log("reserve %d first %d count %d", ri, *c.begin(), (int)c.size());
        r.r->Acquire(v);
        for (int i : c) r.reserved.insert(w->cycle + i);
        acq++;
        break;
      }
      case 2: {
        auto c = w->PickCycles(r);
        auto v = w->Mask(r, c);
        w->Touch(r);
        sim.Log("release %d first %d count %d", ri, *c.begin(), (int)c.size());
        r.r->Release(v);
        for (int i : c) r.reserved.erase(w->cycle + i);
        break;
      }
      case 3: {
        Op o;
        bool fresh = w->ops.size() < 6;
        if (fresh) { o.res = ri; o.op = std::make_unique<ComplexResourceOperand>(r.r.get()); w->ops.push_back(std::move(o)); }
        Op& q = fresh ? w->ops.back() : w->ops[sim.Pick(w->ops.size())];
        Res& rr = w->res[q.res];
        switch (sim.Pick(4)) {
          case 0: case 1: {
            size_t b = sim.Pick(rr.depth), e = b + sim.Pick(rr.depth - b);
            if (sim.Chance(1, 8)) { e = rr.depth + sim.Pick(3); }
            else if (sim.Chance(1, 8) && b > 0) { e = b - 1; }
            bool ok = e < rr.depth && b <= e;
            auto st = q.op->SetCycleMask(b, e);
            sim.Log("mask [%d,%d] -> %d", (int)b, (int)e, st.ok());
            SIM_CHECK(sim, st.ok() == ok, "mask-status", "SetCycleMask(%d,%d) with depth %d returned %d", (int)b, (int)e, (int)rr.depth, (int)st.code());
            if (ok) { q.cycles.clear(); for (size_t i = b; i <= e; i++) q.cycles.insert(i); }
            else sim.Fault("refused-mask");
            break;
          }
          default: {
            auto c = w->PickCycles(rr);
            auto v = w->Span(c, w->Words(rr, c));
            bool ok = true;
            switch (sim.Pick(8)) {
              case 0: v.assign(v.size(), 0); ok = false; break;
              case 1: v.resize((rr.depth + 63) / 64 + 1, 0); ok = false; break;
              case 2: if (rr.depth % 64) { v.resize((rr.depth + 63) / 64, 0); v.back() |= 1ull << (rr.depth % 64 + sim.Pick(64 - rr.depth % 64)); ok = false; } break;
              default: break;
            }
            auto st = q.op->SetCycleMask(v);
            sim.Log("mask span words %d -> %d", (int)v.size(), st.ok());
            SIM_CHECK(sim, st.ok() == ok, "mask-status", "SetCycleMask(span of %d words) with depth %d returned %d", (int)v.size(), (int)rr.depth, (int)st.code());
            if (ok) q.cycles = c; else sim.Fault("refused-mask");
          }
        }
        break;
      }
      case 4: if (!w->ops.empty()) {
        Op& o = w->ops[sim.Pick(w->ops.size())];
        Res& rr = w->res[o.res];
        w->Touch(rr);
        bool got = o.op->IsFree();
        w->Verdict(rr, got, w->WantFree(rr, o.cycles), "operand");
        if (w->stop) break;
        sim.Log("operand on %d free %d", o.res, got);
        if (got || sim.Chance(1, 4)) {
          sim.Log("operand acquire");
          o.op->Acquire();
          acq++;
          for (int i : o.cycles) rr.reserved.insert(w->cycle + i);
        }
        break;
      }
      case 5: case 6: case 7: {
        uint64_t d = 1;
        switch (sim.Pick(5)) {
          case 0: case 1: break;
          case 2: d = 1 + sim.Pick(63); break;
          case 3: d = r.depth + sim.Pick(3); break;
          default: d = 1 + sim.Pick(700); break;
        }
        if (w->cycle < (1ull << 61) && sim.Chance(1, 60)) {   // the clock jumps very far
          d = (1ull << (sim.Pick(2) ? 32 : sim.Range(13, 61))) + sim.Pick(130);
          sim.Fault("far-clock-jump");
        }
        if (!allow_known) {
          // Stay off the listed known finding: touch often enough, or jump far.
          for (auto& x : w->res) {
            w->cycle += d;
            bool bad = w->IsLongJump(x);
            w->cycle -= d;
            if (bad) {
              auto c = std::set<int>{0};
              std::vector<uint64_t> one = {1};
              w->Touch(x);
              (void)x.r->IsFree(one);
              // fast-forward in small hops, asking in between
              while (true) {
                w->cycle += d;
                bool still = w->IsLongJump(x);
                w->cycle -= d;
                if (!still) break;
                d = 1 + d % 63;
              }
            }
          }
        }
        w->cycle += d;
        sim.AdvanceTime(d);
        if (d < 6000 && (d == 1 || sim.Pick(2))) for (uint64_t i = 0; i < d; i++) w->state->AdvanceDelayLines();
        else w->state->set_cycle(w->cycle);
        SIM_CHECK(sim, w->state->cycle() == w->cycle, "clock", "cycle() is %lu", (unsigned long)w->state->cycle());
        sim.Log("advance %lu to %lu", (unsigned long)d, (unsigned long)w->cycle);
        if (d >= 64) sim.Probe("long-jump");
        break;
      }
      default: w->Sweep(r); break;
    }
    if (w->stop) break;
    uint64_t h = 0;
    for (auto& x : w->res) h = dst::Mix(h ^ (x.depth * 1024 + x.reserved.size()));
    sim.State(h);
  }
  if (!w->stop) for (auto& r : w->res) w->Sweep(r);
  if (acq >= 2 && w->cycle > 0) sim.NonTrivial();
  w->ops.clear();
  w->res.clear();
}
