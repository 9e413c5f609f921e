// C09: program errors. Real code: ProgramErrorController, ProgramError.
#include <algorithm>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "mpact/sim/generic/program_error.h"
#include "sim.h"

using mpact::sim::generic::ProgramError;
using mpact::sim::generic::ProgramErrorController;
const char* const kHarnessProperty = "C09";
const bool kHarnessChecksLeaks = true;

namespace {
struct Msg {
  std::string text;
  bool any = false;  // the text is the controller's own
};
struct Err {
  bool masked = false;
  bool raised = false;
  std::vector<Msg> msgs;
};
struct Ctl {
  std::unique_ptr<ProgramErrorController> c;
  std::map<std::string, Err> m;
};
struct Handle {
  std::unique_ptr<ProgramError> e;
  int ctl;
  std::string name;
};
const std::string kInternal = ProgramErrorController::kInternalErrorName;

struct World {
  dst::Sim& sim;
  std::vector<Ctl> ctls;
  std::vector<Handle> handles;
  std::vector<std::string> pool;
  int serial = 0, raises = 0, moves = 0;
  explicit World(dst::Sim& s) : sim(s) {}

  void RaiseInternal(Ctl& c) {
    c.m[kInternal].raised = true;
    c.m[kInternal].msgs.push_back({"", true});
  }
  void CheckMsgs(Ctl& c, const std::string& n, const std::vector<std::string>& got) {
    const auto& want = c.m[n].msgs;
    SIM_CHECK(sim, got.size() == want.size(), "messages", "%s has %zu messages, expected %zu", n.c_str(), got.size(), want.size());
    for (size_t i = 0; i < got.size(); i++)
      SIM_CHECK(sim, want[i].any || got[i] == want[i].text, "messages", "%s message %zu is '%s', expected '%s'", n.c_str(), i, got[i].c_str(), want[i].text.c_str());
  }
  // Texts repeat, may be empty, hold zero bytes, or be long.
  std::string Text() {
    switch (sim.Weighted({6, 4, 1, 1, 1})) {
      case 0: return "m" + std::to_string(serial++);
      case 1: return "same";
      case 2: return "";
      case 3: return std::string("zero\0byte", 9);
      default: return std::string(sim.Pick(600), 'x');
    }
  }
  // The controller gets views that do not end where the storage ends.
  struct View {
    std::string store;
    size_t n;
    explicit View(const std::string& x) : store(x + "~~"), n(x.size()) {}
    absl::string_view v() const { return absl::string_view(store.data(), n); }
  };
  void Check(Ctl& c) {
    std::vector<std::string> um, ma;
    for (auto& [n, e] : c.m) if (e.raised) (e.masked ? ma : um).push_back(n);
    SIM_CHECK(sim, c.c->HasUnmaskedError() == !um.empty(), "has-unmasked", "HasUnmaskedError()=%d with %zu raised unmasked errors", c.c->HasUnmaskedError(), um.size());
    SIM_CHECK(sim, c.c->HasMaskedError() == !ma.empty(), "has-masked", "HasMaskedError()=%d with %zu raised masked errors", c.c->HasMaskedError(), ma.size());
    SIM_CHECK(sim, c.c->HasError() == (!um.empty() || !ma.empty()), "has-error", "HasError()=%d with %zu unmasked and %zu masked errors raised", c.c->HasError(), um.size(), ma.size());
    auto gu = c.c->GetUnmaskedErrorNames(), gm = c.c->GetMaskedErrorNames();
    std::sort(gu.begin(), gu.end());
    std::sort(gm.begin(), gm.end());
    SIM_CHECK(sim, gu == um, "unmasked-names", "%zu unmasked names listed, expected %zu (first: %s / %s)", gu.size(), um.size(),
              gu.empty() ? "-" : gu[0].c_str(), um.empty() ? "-" : um[0].c_str());
    SIM_CHECK(sim, gm == ma, "masked-names", "%zu masked names listed, expected %zu (first: %s / %s)", gm.size(), ma.size(),
              gm.empty() ? "-" : gm[0].c_str(), ma.empty() ? "-" : ma[0].c_str());
    for (auto& [n, e] : c.m) {
      CheckMsgs(c, n, c.c->GetErrorMessages(n));
      SIM_CHECK(sim, c.c->IsMasked(n) == e.masked, "is-masked", "IsMasked(%s)=%d", n.c_str(), c.c->IsMasked(n));
      SIM_CHECK(sim, c.c->HasProgramErrorName(n), "has-name", "%s is no longer known", n.c_str());
    }
    for (auto& n : pool) if (!c.m.count(n)) SIM_CHECK(sim, !c.c->HasProgramErrorName(n), "has-name", "%s was never added", n.c_str());
  }
  void Run() {
    int nc = sim.Range(1, 2), nn = sim.Range(1, sim.Chance(1, 6) ? 40 : 7);
    bool many = sim.Chance(1, 150);
    if (many) nn = 300;
    for (int i = 0; i < nn; i++) {
      std::string n = sim.Chance(1, 8) ? std::string(i + 1, 'e') : sim.Chance(1, 12) ? "Err " + std::to_string(i) : "err" + std::to_string(i);
      pool.push_back(n);
    }
    // How often the state is looked at: looking must not be needed.
    unsigned look = sim.Weighted({2, 1, 1});
    if (sim.Chance(1, 8)) pool.push_back("");
    for (int i = 0; i < nc; i++) {
      Ctl c;
      c.c = std::make_unique<ProgramErrorController>("ctl" + std::to_string(i));
      c.m[kInternal];
      ctls.push_back(std::move(c));
    }
    for (auto& c : ctls) Check(c);
    if (many) {
      sim.Probe("many-names");
      for (auto& c : ctls)
        for (int i = 0; i < nn; i++) { SIM_CHECK(sim, c.c->AddProgramErrorName(pool[i]), "add", "AddProgramErrorName(%s) refused", pool[i].c_str()); c.m[pool[i]]; }
    }
    else if (sim.Chance(3, 4)) {
      for (auto& c : ctls)
        for (auto& n : pool) if (sim.Chance(2, 3) && !c.m.count(n)) { SIM_CHECK(sim, c.c->AddProgramErrorName(n), "add", "AddProgramErrorName(%s) refused", n.c_str()); c.m[n]; }
    }
    bool bulk = sim.Chance(1, 40);
    sim.set_max_steps(many ? 30 : sim.Range(5, 100));
    while (sim.Step()) {
      int ci = sim.Pick(nc);
      Ctl& c = ctls[ci];
      std::string n = sim.Chance(1, 12) ? kInternal : pool[sim.Pick(pool.size())];
      bool known = c.m.count(n);
      View nv(n);
      switch (sim.Weighted({3, 8, 6, 5, 5, 4, 1, 1, 1, 2})) {
        case 0: {
          sim.Log("add %s", n.c_str());
          bool r = c.c->AddProgramErrorName(nv.v());
          SIM_CHECK(sim, r == !known, "add", "AddProgramErrorName(%s)=%d, already there: %d", n.c_str(), r, known);
          if (known) { RaiseInternal(c); sim.Fault("re-added-name"); } else c.m[n];
          break;
        }
        case 1: {
          int k = 1;
          if (bulk && sim.Chance(1, 3)) { k = 300; bulk = false; sim.Probe("many-messages"); }
          sim.Log("raise %s%s x%d", n.c_str(), known ? "" : " (unknown)", k);
          for (int i = 0; i < k; i++) {
            View msg(Text());
            c.c->Raise(nv.v(), msg.v());
            raises++;
            if (known) { Err& e = c.m[n]; e.raised = true; e.msgs.push_back({std::string(msg.v())}); if (e.masked) sim.Probe("raise-while-masked"); }
            else { RaiseInternal(c); sim.Fault("unknown-name"); }
          }
          break;
        }
        case 2: {
          if (handles.empty()) break;
          Handle& h = handles[sim.Pick(handles.size())];
          View msg(Text());
          sim.Log("handle raise %s", h.name.c_str());
          SIM_CHECK(sim, h.e->name() == h.name, "handle-name", "handle of %s is named otherwise", h.name.c_str());
          h.e->Raise(msg.v());
          raises++;
          Err& e = ctls[h.ctl].m[h.name];
          e.raised = true;
          e.msgs.push_back({std::string(msg.v())});
          break;
        }
        case 3: {
          sim.Log("mask %s", n.c_str());
          c.c->Mask(nv.v());
          if (n == kInternal) { RaiseInternal(c); sim.Fault("mask-internal"); }
          else if (known) { if (c.m[n].raised && !c.m[n].masked) { moves++; sim.Probe("mask-raised"); } c.m[n].masked = true; }
          else { RaiseInternal(c); sim.Fault("unknown-name"); }
          break;
        }
        case 4: {
          sim.Log("unmask %s", n.c_str());
          c.c->Unmask(nv.v());
          if (known) { if (c.m[n].raised && c.m[n].masked) { moves++; sim.Probe("unmask-raised"); } c.m[n].masked = false; }
          else { RaiseInternal(c); sim.Fault("unknown-name"); }
          break;
        }
        case 5: {
          sim.Log("clear %s", n.c_str());
          c.c->Clear(nv.v());
          if (known) { c.m[n].raised = false; c.m[n].msgs.clear(); }
          else { RaiseInternal(c); sim.Fault("unknown-name"); }
          break;
        }
        case 6:
          sim.Log("clear all");
          c.c->ClearAll();
          for (auto& [k, e] : c.m) { e.raised = false; e.msgs.clear(); }
          break;
        case 7: {
          sim.Log("ask masked %s", n.c_str());
          bool r = c.c->IsMasked(nv.v());
          if (!known) { RaiseInternal(c); sim.Fault("unknown-name"); }
          SIM_CHECK(sim, r == (known && c.m[n].masked), "is-masked", "IsMasked(%s)=%d", n.c_str(), r);
          break;
        }
        case 8: {
          sim.Log("messages of %s", n.c_str());
          const auto& v = c.c->GetErrorMessages(nv.v());
          if (!known) { RaiseInternal(c); sim.Fault("unknown-name"); CheckMsgs(c, kInternal, v); }
          else CheckMsgs(c, n, v);
          break;
        }
        case 9: {
          sim.Log("handle for %s", n.c_str());
          auto h = c.c->GetProgramError(nv.v());
          SIM_CHECK(sim, (h != nullptr) == known, "handle", "handle for %s name: %s", known ? "a known" : "an unknown", h ? "given" : "refused");
          if (h && handles.size() < 12) handles.push_back({std::move(h), ci, n});
          break;
        }
      }
      if (look == 0 || (look == 1 && sim.Chance(1, 4))) for (auto& x : ctls) Check(x);
      uint64_t h = 0;
      for (auto& x : ctls) { int a = 0, b = 0, d = 0; for (auto& [k, e] : x.m) { a += e.raised && e.masked; b += e.raised && !e.masked; d += e.masked; } h = dst::Mix(h ^ (a * 10000 + b * 100 + d)); }
      sim.State(h);
    }
    for (auto& x : ctls) Check(x);
    if (raises >= 2 && moves >= 1) sim.NonTrivial();
  }
};
}  // namespace

void RunOne(dst::Sim& sim) {
  World w(sim);
  w.Run();
}
