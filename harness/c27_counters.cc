// C27: counters, listeners, configuration, component tree. All real code; the
// simulator drives updates, listener attachment, enabling, export and import.
#include <functional>
#include <map>
#include <memory>

#include "../sim/sim.h"
#include "mpact/sim/generic/component.h"
#include "mpact/sim/generic/config.h"
#include "mpact/sim/generic/counters.h"
#include "mpact/sim/proto/component_data.pb.h"

using namespace mpact::sim::generic;
using mpact::sim::proto::ComponentData;
using mpact::sim::proto::ComponentValueEntry;
const char* const kHarnessProperty = "C27";
const bool kHarnessChecksLeaks = true;

namespace {
enum Kind { kU, kS, kD, kFunc };   // uint64, int64, double, function counter (uint64 -> int64)
struct Rec : public CounterValueSetInterface<uint64_t> {
  std::vector<uint64_t> got;
  std::function<uint64_t()> now;   // the counter's own value
  bool stale = false;
  void SetValue(const uint64_t& v) override { got.push_back(v); if (now && now() != v) stale = true; }
};
struct RecS : public CounterValueSetInterface<int64_t> {
  std::vector<int64_t> got;
  std::function<int64_t()> now;   // the counter's own value
  bool stale = false;
  void SetValue(const int64_t& v) override { got.push_back(v); if (now && now() != v) stale = true; }
};
struct RecD : public CounterValueSetInterface<double> {
  std::vector<double> got;
  std::function<double()> now;   // the counter's own value
  bool stale = false;
  void SetValue(const double& v) override { got.push_back(v); if (now && now() != v) stale = true; }
};
struct C {
  Kind kind;
  std::string name, about;
  int owner = -1;
  bool enabled = true, initialized = true, has_rec = false, no_function = false;
  std::unique_ptr<SimpleCounter<uint64_t>> u;
  std::unique_ptr<SimpleCounter<int64_t>> s;
  std::unique_ptr<SimpleCounter<double>> d;
  std::unique_ptr<FunctionCounter<uint64_t, int64_t>> f;
  uint64_t mu = 0;
  int64_t ms = 0;
  double md = 0;
  std::vector<int> down;   // counters listening to this one (uint64 inputs)
  Rec ru; RecS rs; RecD rd;
  std::vector<uint64_t> wu; std::vector<int64_t> ws; std::vector<double> wd;
  int64_t fmax = INT64_MIN;   // state of the function under test, and of its model
  int64_t mmax = INT64_MIN;
  CounterBaseInterface* base() { return kind == kU ? (CounterBaseInterface*)u.get() : kind == kS ? (CounterBaseInterface*)s.get() : kind == kD ? (CounterBaseInterface*)d.get() : f.get(); }
};
using Value = ConfigValue;
struct Cf {
  int type;
  std::string name;
  int owner = -1;
  std::unique_ptr<ConfigBase> c;
  Value want, at_callback;      // at_callback: as the last callback saw it
  bool has_at_callback = false;
  bool has = false;
  int writes = 0, seen = 0, more = 0, seen_more = 0;
};
struct Comp {
  std::string name;
  std::unique_ptr<Component> c;
  int parent = -1;
  int done = 0;
};
bool Same(const Value& a, const Value& b) {
  if (a.index() != b.index()) return false;
  if (auto* p = std::get_if<PhysicalValue>(&a)) { auto& q = std::get<PhysicalValue>(b); return p->value == q.value && p->si_prefix == q.si_prefix && p->si_unit == q.si_unit; }
  if (auto* p = std::get_if<bool>(&a)) return *p == std::get<bool>(b);
  if (auto* p = std::get_if<int64_t>(&a)) return *p == std::get<int64_t>(b);
  if (auto* p = std::get_if<uint64_t>(&a)) return *p == std::get<uint64_t>(b);
  if (auto* p = std::get_if<double>(&a)) return *p == std::get<double>(b);
  return std::get<std::string>(a) == std::get<std::string>(b);
}

struct World {
  dst::Sim& sim;
  std::vector<std::unique_ptr<Comp>> comps;
  std::vector<std::unique_ptr<C>> cs;
  std::vector<std::unique_ptr<Cf>> cfs;
  int updates = 0, exports = 0, fan = 0;
  size_t max_down = 3;

  // ---- model ----
  void Deliver(int i, uint64_t in) {   // SetValue(in) on counter i (uint64 input)
    C& c = *cs[i];
    if (!c.enabled) { sim.Probe("update-while-disabled"); return; }
    if (c.kind == kU) { c.mu = in; Updated(i); }
    else if (c.kind == kFunc) {
      // Keeps a running maximum of the low 16 bits; odd inputs are filtered out.
      if (c.no_function) return;
      if (in & 1) { sim.Probe("function-filters"); return; }
      int64_t v = (int64_t)(in & 0xffff);
      c.mmax = std::max(c.mmax, v);
      c.ms = c.mmax;
      Updated(i);
    }
  }
  void Updated(int i) {
    C& c = *cs[i];
    if (c.kind == kU) {
      // Listeners are called in the order of attachment; the recorder is always first.
      if (c.has_rec) c.wu.push_back(c.mu);
      uint64_t v = c.mu;
      for (int d : c.down) Deliver(d, v);
    } else if (c.kind == kD) { if (c.has_rec) c.wd.push_back(c.md); }
    else if (c.has_rec) c.ws.push_back(c.ms);
  }
  bool Reaches(int from, int to) {
    std::vector<int> todo{from};
    std::vector<bool> seen(cs.size());
    while (!todo.empty()) {
      int i = todo.back();
      todo.pop_back();
      if (i == to) return true;
      if (seen[i]) continue;
      seen[i] = true;
      for (int d : cs[i]->down) todo.push_back(d);
    }
    return false;
  }
  uint64_t Paths(int i, std::map<int, uint64_t>& memo) {
    auto it = memo.find(i);
    if (it != memo.end()) return it->second;
    uint64_t n = 1;
    for (int d : cs[i]->down) n += Paths(d, memo);
    return memo[i] = n;
  }
  // ---- operations ----
  void Update() {
    int i = sim.Pick(cs.size());
    C& c = *cs[i];
    if (!c.initialized) return;
    int op = sim.Pick(3);
    uint64_t v = sim.Pick(3) ? sim.Pick(20) : sim.Bits();
    sim.Log("%s %s %lx", op == 0 ? "increment" : op == 1 ? "decrement" : "set", c.name.c_str(), (unsigned long)v);
    updates++;
    switch (c.kind) {
      case kU:
        if (op == 0) c.u->Increment(v); else if (op == 1) c.u->Decrement(v); else c.u->SetValue(v);
        Deliver(i, op == 0 ? c.mu + v : op == 1 ? c.mu - v : v);
        break;
      case kS: {
        int64_t x = (int64_t)(v % 100000) - 5000;
        if (sim.Pick(4) == 0) {   // the whole range, as long as the result can be represented
          x = (int64_t)v;
          int64_t r;
          if ((op == 0 && __builtin_add_overflow(c.ms, x, &r)) || (op == 1 && __builtin_sub_overflow(c.ms, x, &r))) op = 2;
          sim.Probe("full-range-values");
        }
        if (op == 0) c.s->Increment(x); else if (op == 1) c.s->Decrement(x); else c.s->SetValue(x);
        if (c.enabled) { c.ms = op == 0 ? c.ms + x : op == 1 ? c.ms - x : x; Updated(i); } else sim.Probe("update-while-disabled");
        break;
      }
      case kD: {
        double x = sim.Pick(4) ? (double)(v % 4096) / 4 : ((double)(int64_t)v) * 1e-3;
        if (op == 0) c.d->Increment(x); else if (op == 1) c.d->Decrement(x); else c.d->SetValue(x);
        if (c.enabled) { c.md = op == 0 ? c.md + x : op == 1 ? c.md - x : x; Updated(i); } else sim.Probe("update-while-disabled");
        break;
      }
      case kFunc: c.f->SetValue(v); Deliver(i, v); break;
    }
  }
  void Attach() {
    int a = sim.Pick(cs.size()), b = sim.Pick(cs.size());
    C &x = *cs[a], &y = *cs[b];
    if (x.kind != kU || (y.kind != kU && y.kind != kFunc) || Reaches(b, a)) return;
    // Keep the number of deliveries one update can cause bounded.
    std::map<int, uint64_t> memo;
    if (max_down > 3 && Paths(b, memo) > 300) return;
    if (max_down > 3) { x.down.push_back(b); memo.clear(); uint64_t worst = 0; for (size_t i = 0; i < cs.size(); i++) worst = std::max(worst, Paths(i, memo)); x.down.pop_back(); if (worst > 2000) return; }
    if (cs[a]->down.size() >= max_down || fan >= 400) return;
    if (cs[a]->down.size() >= 3) sim.Probe("many-listeners");
    fan++;
    sim.Log("%s listens to %s", y.name.c_str(), x.name.c_str());
    if (y.kind == kU) x.u->AddListener(y.u.get()); else x.u->AddListener(y.f.get());
    x.down.push_back(b);
    sim.Probe("listener-chain");
  }
  void CheckAll() {
    for (auto& p : cs) {
      C& c = *p;
      if (!c.initialized) continue;
      CounterValue v = c.base()->GetCounterValue();
      bool ok = c.kind == kU ? c.u->GetValue() == c.mu && std::get<uint64_t>(v) == c.mu
                : c.kind == kS ? c.s->GetValue() == c.ms && std::get<int64_t>(v) == c.ms
                : c.kind == kD ? c.d->GetValue() == c.md && std::get<double>(v) == c.md
                               : c.f->GetValue() == c.ms && std::get<int64_t>(v) == c.ms;
      SIM_CHECK(sim, ok, "value", "counter %s is %s, expected %ld", c.name.c_str(), c.base()->ToString().c_str(), (long)(c.kind == kU ? c.mu : c.ms));
      if (c.kind == kU) SIM_CHECK(sim, c.base()->ToString() == std::to_string(c.mu), "to-string", "counter %s prints as %s", c.name.c_str(), c.base()->ToString().c_str());
      if (c.kind == kS || c.kind == kFunc) SIM_CHECK(sim, c.base()->ToString() == std::to_string(c.ms), "to-string", "counter %s prints as %s", c.name.c_str(), c.base()->ToString().c_str());
      SIM_CHECK(sim, c.base()->IsEnabled() == c.enabled, "enabled", "counter %s enabled state", c.name.c_str());
      SIM_CHECK(sim, !c.ru.stale && !c.rs.stale && !c.rd.stale, "listener", "while its listener was told, %s did not have the value told", c.name.c_str());
      SIM_CHECK(sim, c.ru.got == c.wu && c.rs.got == c.ws && c.rd.got == c.wd, "listener", "the listener of %s received %zu values, expected %zu (or other values)", c.name.c_str(), c.ru.got.size() + c.rs.got.size() + c.rd.got.size(), c.wu.size() + c.ws.size() + c.wd.size());
    }
    for (auto& p : cfs) {
      SIM_CHECK(sim, Same(p->c->GetConfigValue(), p->want), "config-value", "configuration entry %s does not hold the value last written", p->name.c_str());
      SIM_CHECK(sim, p->c->HasConfigValue() == p->has, "config-has-value", "configuration entry %s says %s", p->name.c_str(), p->has ? "never written" : "written");
      SIM_CHECK(sim, p->seen == p->writes, "config-callback", "configuration entry %s was written %d times, its callback ran %d times", p->name.c_str(), p->writes, p->seen);
      if (p->seen > 0) SIM_CHECK(sim, p->has_at_callback && Same(p->at_callback, p->c->GetConfigValue()), "config-callback", "the callback of configuration entry %s did not find the value that was written", p->name.c_str());
      SIM_CHECK(sim, p->seen_more == p->seen * p->more, "config-callback", "the %d other callbacks of configuration entry %s ran %d times in %d writes", p->more, p->name.c_str(), p->seen_more, p->writes);
    }
  }
  Value Draw(int type) {
    switch (type) {
      case 0: return Value((bool)sim.Pick(2));
      case 1: return Value((int64_t)sim.Bits());
      case 2: return Value((uint64_t)sim.Bits());
      case 3: return Value((double)sim.Range(-1000, 1000) / 8);
      case 4: return Value(std::string(sim.Pick(8) ? 1 : sim.Pick(3000), 's') + std::to_string(sim.Pick(1000)));
    }
    return Value(PhysicalValue((double)sim.Pick(100), sim.Pick(2) ? mpact::sim::proto::PREFIX_KILO : mpact::sim::proto::PREFIX_PICO, sim.Pick(2) ? mpact::sim::proto::UNIT_HERTZ : mpact::sim::proto::UNIT_WATT));
  }
  void ToEntry(const Value& v, ComponentValueEntry* e) {
    switch (v.index()) {
      case 0: e->set_bool_value(std::get<bool>(v)); break;
      case 1: e->set_sint64_value(std::get<int64_t>(v)); break;
      case 2: e->set_uint64_value(std::get<uint64_t>(v)); break;
      case 3: e->set_double_value(std::get<double>(v)); break;
      case 4: e->set_string_value(std::get<std::string>(v)); break;
      default: { auto& p = std::get<PhysicalValue>(v); auto* q = e->mutable_physical_value(); q->set_value(p.value); q->set_si_prefix(p.si_prefix); q->set_si_unit(p.si_unit); }
    }
  }
  bool EntryIs(const ComponentValueEntry& e, const Value& v) {
    switch (v.index()) {
      case 0: return e.has_bool_value() && e.bool_value() == std::get<bool>(v);
      case 1: return e.has_sint64_value() && e.sint64_value() == std::get<int64_t>(v);
      case 2: return e.has_uint64_value() && e.uint64_value() == std::get<uint64_t>(v);
      case 3: return e.has_double_value() && e.double_value() == std::get<double>(v);
      case 4: return e.has_string_value() && e.string_value() == std::get<std::string>(v);
    }
    auto& p = std::get<PhysicalValue>(v);
    return e.has_physical_value() && e.physical_value().value() == p.value && e.physical_value().si_prefix() == p.si_prefix && e.physical_value().si_unit() == p.si_unit;
  }
  void CheckExport(int k, const ComponentData& d) {
    SIM_CHECK(sim, d.name() == comps[k]->name, "export-name", "component %s exported as %s", comps[k]->name.c_str(), d.name().c_str());
    int n = 0;
    for (auto& c : cs) if (c->owner == k) n++;
    SIM_CHECK(sim, d.statistics_size() == n, "export-counters", "%s exports %d counters, has %d", d.name().c_str(), d.statistics_size(), n);
    for (auto& c : cs) {
      if (c->owner != k) continue;
      int found = 0;
      for (auto& e : d.statistics()) {
        if (e.name() != c->name) continue;
        found++;
        bool ok = c->kind == kU ? e.has_uint64_value() && e.uint64_value() == c->mu : c->kind == kD ? e.has_double_value() && e.double_value() == c->md : e.has_sint64_value() && e.sint64_value() == c->ms;
        SIM_CHECK(sim, ok, "export-value", "counter %s is exported with another value than it has", c->name.c_str());
        SIM_CHECK(sim, e.about() == c->about, "export-about", "counter %s exported about '%s'", c->name.c_str(), e.about().c_str());
      }
      SIM_CHECK(sim, found == 1, "export-counters", "counter %s exported %d times", c->name.c_str(), found);
    }
    n = 0;
    for (auto& c : cfs) {
      if (c->owner != k) continue;
      n++;
      int found = 0;
      for (auto& e : d.configuration()) if (e.name() == c->name) { found++; SIM_CHECK(sim, EntryIs(e, c->want), "export-value", "configuration entry %s is exported with another value", c->name.c_str()); }
      SIM_CHECK(sim, found == 1, "export-config", "configuration entry %s exported %d times", c->name.c_str(), found);
    }
    SIM_CHECK(sim, d.configuration_size() == n, "export-config", "%s exports %d configuration entries, has %d", d.name().c_str(), d.configuration_size(), n);
    n = 0;
    for (size_t j = 0; j < comps.size(); j++) {
      if (comps[j]->parent != k) continue;
      n++;
      int found = 0;
      for (auto& e : d.component_data()) if (e.name() == comps[j]->name) { found++; CheckExport(j, e); }
      SIM_CHECK(sim, found == 1, "export-children", "component %s exported %d times", comps[j]->name.c_str(), found);
    }
    SIM_CHECK(sim, d.component_data_size() == n, "export-children", "%s exports %d children, has %d", d.name().c_str(), d.component_data_size(), n);
  }
  void Export() {
    int k = sim.Pick(comps.size());
    ComponentData d;
    auto st = comps[k]->c->Export(&d);
    SIM_CHECK(sim, st.ok(), "export-status", "export failed");
    sim.Log("export %s", comps[k]->name.c_str());
    exports++;
    CheckExport(k, d);
    SIM_CHECK(sim, !comps[k]->c->Export(nullptr).ok(), "export-status", "export to nothing succeeded");
  }
  // Builds a proto for component k, applying to the model the entries that must
  // take effect. `live` turns false at the first entry that must be refused.
  void Build(int k, ComponentData* d, bool& live, bool& refuse, bool top) {
    d->set_name(comps[k]->name);
    if (sim.Chance(1, 25)) { d->set_name(comps[k]->name + "x"); live = false; if (top) refuse = true; sim.Fault("import-wrong-name"); return; }
    int n = sim.Pick(4);
    for (int i = 0; i < n; i++) {
      auto* e = d->add_configuration();
      if (sim.Chance(1, 40)) { live = false; refuse = true; sim.Fault("import-unnamed-entry"); continue; }
      std::vector<Cf*> mine;
      for (auto& c : cfs) if (c->owner == k) mine.push_back(c.get());
      if (mine.empty() || sim.Pick(4) == 0) { e->set_name("unknown" + std::to_string(sim.Pick(4))); ToEntry(Draw(sim.Pick(6)), e); sim.Probe("import-unknown-entry"); continue; }
      Cf* c = mine[sim.Pick(mine.size())];
      e->set_name(c->name);
      if (sim.Chance(1, 20)) { int t = (c->type + 1 + sim.Pick(5)) % 6; ToEntry(Draw(t), e); live = false; refuse = true; sim.Fault("import-wrong-type"); continue; }
      Value v = Draw(c->type);
      ToEntry(v, e);
      if (live) { c->want = v; c->has = true; c->writes++; }
    }
    // Statistics in the proto are never imported.
    auto* e = d->add_statistics();
    e->set_name("c0"); e->set_uint64_value(sim.Bits());
    for (size_t j = 0; j < comps.size(); j++) {
      if (comps[j]->parent != k || sim.Pick(3) == 0) continue;
      Build(j, d->add_component_data(), live, refuse, false);
    }
    if (sim.Pick(6) == 0) {
      auto* x = d->add_component_data();
      if (sim.Chance(1, 6)) { live = false; refuse = true; sim.Fault("import-unnamed-component"); }
      else x->set_name("stranger");
    }
  }
  void Import() {
    int k = sim.Pick(comps.size());
    ComponentData d;
    bool live = true, refuse = false;
    Build(k, &d, live, refuse, true);
    sim.Log("import into %s", comps[k]->name.c_str());
    auto st = comps[k]->c->Import(d);
    // A component with a wrong name below the top is simply an unknown child.
    SIM_CHECK(sim, st.ok() == live || !live, "import-status", "a well-formed import was refused");
    SIM_CHECK(sim, !(refuse && st.ok()), "import-status", "a malformed import was accepted");
    if (!live) Resync();
    comps[k]->c->ImportDone();
    for (size_t j = 0; j < comps.size(); j++) {
      int p = j, in = 0;
      while (p >= 0) { if (p == k) in = 1; p = comps[p]->parent; }
      SIM_CHECK(sim, comps[j]->done == in, "import-done", "import-done callback of %s ran %d times, expected %d", comps[j]->name.c_str(), comps[j]->done, in);
      comps[j]->done = 0;
    }
  }
  // After a refused import, which of the remaining entries took effect is not
  // fixed; only entries that were in the proto may have changed type-correctly.
  void Resync() { for (auto& c : cfs) { c->want = c->c->GetConfigValue(); c->has = c->c->HasConfigValue(); c->writes = c->seen; } }
  void SetConfig() {
    if (cfs.empty()) return;
    Cf& c = *cfs[sim.Pick(cfs.size())];
    bool wrong = sim.Chance(1, 6);
    Value v = Draw(wrong ? (c.type + 1 + sim.Pick(5)) % 6 : c.type);
    auto st = c.c->SetConfigValue(v);
    sim.Log("set config %s%s", c.name.c_str(), wrong ? " to another type" : "");
    SIM_CHECK(sim, st.ok() == !wrong, "config-status", "setting %s to a value of %s type %s", c.name.c_str(), wrong ? "another" : "its", st.ok() ? "succeeded" : "failed");
    if (wrong) sim.Fault("config-wrong-type"); else { c.want = v; c.has = true; c.writes++; }
  }
  // One entry imported and exported by itself.
  void DirectEntry() {
    if (sim.Pick(3) == 0 || cfs.empty()) {
      C& c = *cs[sim.Pick(cs.size())];
      if (sim.Pick(3) == 0) { c.about = std::string(sim.Pick(4), 'a') + std::to_string(sim.Pick(100)); c.base()->SetAbout(c.about); sim.Log("about %s", c.name.c_str()); }
      SIM_CHECK(sim, c.base()->GetName() == c.name && c.base()->GetAbout() == c.about, "name", "counter %s has another name or description", c.name.c_str());
      SIM_CHECK(sim, !c.base()->Export(nullptr).ok(), "export-status", "export of a counter to nothing succeeded");
      return;
    }
    Cf& c = *cfs[sim.Pick(cfs.size())];
    SIM_CHECK(sim, c.c->name() == c.name, "name", "configuration entry %s has another name", c.name.c_str());
    ComponentValueEntry e;
    int op = sim.Pick(6);
    sim.Log("direct entry %s op %d", c.name.c_str(), op);
    bool ok = false;
    switch (op) {
      case 0: SIM_CHECK(sim, !c.c->Import(nullptr).ok() && !c.c->Export(nullptr).ok(), "import-status", "import from or export to nothing succeeded"); return;
      case 1: ToEntry(Draw(c.type), &e); sim.Fault("import-unnamed-entry"); break;
      case 2: ToEntry(Draw(c.type), &e); e.set_name(c.name + "x"); sim.Fault("import-wrong-name"); break;
      case 3: ToEntry(Draw((c.type + 1 + sim.Pick(5)) % 6), &e); e.set_name(c.name); sim.Fault("import-wrong-type"); break;
      case 4: e.set_name(c.name); sim.Fault("import-without-value"); break;
      case 5: {
        Value v = Draw(c.type);
        ToEntry(v, &e);
        e.set_name(c.name);
        ok = true;
        c.want = v; c.has = true; c.writes++;
      }
    }
    SIM_CHECK(sim, c.c->Import(&e).ok() == ok, "import-status", "the import of %s entry into %s %s", ok ? "a well-formed" : "an unsuitable", c.name.c_str(), ok ? "failed" : "succeeded");
    ComponentValueEntry x;
    SIM_CHECK(sim, c.c->Export(&x).ok() && x.name() == c.name && EntryIs(x, c.want), "export-value", "configuration entry %s is exported with another name or value", c.name.c_str());
  }
};
template <typename T>
std::unique_ptr<ConfigBase> MakeCfg(Cf* f, const std::string& n, const Value& v) {
  auto c = std::make_unique<Config<T>>(n, std::get<T>(v));
  auto* p = c.get();
  c->AddValueWrittenCallback([f, p]() { f->seen++; f->at_callback = p->GetConfigValue(); f->has_at_callback = p->HasConfigValue(); });
  for (int i = 0; i < f->more; i++) c->AddValueWrittenCallback([f]() { f->seen_more++; });
  return c;
}
}  // namespace

void RunOne(dst::Sim& sim) {
  World w{sim};
  bool many = sim.Chance(1, 12);
  if (many) sim.Probe("many");
  int nk = many ? sim.Range(4, 40) : sim.Range(1, 4);
  for (int i = 0; i < nk; i++) {
    auto k = std::make_unique<Comp>();
    k->name = "k" + std::to_string(i);
    k->parent = i ? (sim.Pick(2) ? (int)sim.Pick(i) : i - 1) : -1;
    if (k->parent >= 0 && sim.Pick(2)) k->c = std::make_unique<Component>(k->name, w.comps[k->parent]->c.get());
    else {
      k->c = std::make_unique<Component>(k->name);
      if (k->parent >= 0) SIM_CHECK(sim, w.comps[k->parent]->c->AddChildComponent(*k->c).ok(), "add-status", "child refused");
    }
    if (k->parent >= 0) {
      SIM_CHECK(sim, k->c->parent() == w.comps[k->parent]->c.get() && w.comps[k->parent]->c->GetChildComponent(k->name) == k->c.get(), "tree", "component tree");
      SIM_CHECK(sim, !w.comps[k->parent]->c->AddChildComponent(*k->c).ok(), "add-status", "duplicate child accepted");
    }
    Comp* p = k.get();
    k->c->AddImportDoneCallback([p]() { p->done++; });
    w.comps.push_back(std::move(k));
  }
  int nc = many ? sim.Range(6, 300) : sim.Range(1, 6);
  if (many) w.max_down = 300;
  for (int i = 0; i < nc; i++) {
    auto c = std::make_unique<C>();
    c->kind = (Kind)sim.Pick(4);
    c->name = "c" + std::to_string(i);
    c->owner = sim.Pick(nk);
    uint64_t init = sim.Pick(100);
    bool late = sim.Pick(4) == 0;
    C* q = c.get();
    auto& comp = *w.comps[c->owner]->c;
    switch (c->kind) {
      case kU:
        c->mu = init;
        if (late) { c->u = std::make_unique<SimpleCounter<uint64_t>>(); SIM_CHECK(sim, !comp.AddCounter(c->u.get()).ok(), "add-status", "an uninitialised counter was accepted"); c->u->Initialize(c->name, init); sim.Fault("uninitialised-counter"); }
        else { c->about = "about"; c->u = std::make_unique<SimpleCounter<uint64_t>>(c->name, c->about, init); }
        if (sim.Pick(2)) { c->u->AddListener(&c->ru); c->has_rec = true; c->ru.now = [q]() { return q->u->GetValue(); }; }
        break;
      case kS:
        c->ms = init;
        if (sim.Pick(3) == 0) { c->ms = 0; c->s = std::make_unique<SimpleCounter<int64_t>>(c->name); }
        else c->s = std::make_unique<SimpleCounter<int64_t>>(c->name, (int64_t)init);
        if (sim.Pick(2)) { c->s->AddListener(&c->rs); c->has_rec = true; c->rs.now = [q]() { return q->s->GetValue(); }; }
        break;
      case kD:
        c->md = init;
        if (sim.Pick(3) == 0) { c->md = 0; c->about = "real"; c->d = std::make_unique<SimpleCounter<double>>(c->name, std::string("real")); }
        else c->d = std::make_unique<SimpleCounter<double>>(c->name, (double)init);
        if (sim.Pick(2)) { c->d->AddListener(&c->rd); c->has_rec = true; c->rd.now = [q]() { return q->d->GetValue(); }; }
        break;
      case kFunc: {
        c->ms = init;
        auto fn = [q](const uint64_t& in, int64_t* out) { if (in & 1) return false; q->fmax = std::max(q->fmax, (int64_t)(in & 0xffff)); *out = q->fmax; return true; };
        switch (sim.Pick(5)) {
          case 0: c->f = std::make_unique<FunctionCounter<uint64_t, int64_t>>(c->name, (int64_t)init, fn); break;
          case 1: c->ms = 0; c->f = std::make_unique<FunctionCounter<uint64_t, int64_t>>(c->name, fn); break;
          case 2: c->f = std::make_unique<FunctionCounter<uint64_t, int64_t>>(c->name, (int64_t)init); c->f->SetFunction(fn); break;
          case 3: c->ms = 0; c->f = std::make_unique<FunctionCounter<uint64_t, int64_t>>(c->name); c->f->SetFunction(fn); break;
          case 4:
            c->f = std::make_unique<FunctionCounter<uint64_t, int64_t>>(c->name, (int64_t)init);
            if (sim.Pick(2)) { c->no_function = true; sim.Probe("function-not-set"); }
            else { c->f->SetFunction([](const uint64_t&, int64_t* out) { *out = -1; return true; }); c->f->SetFunction(fn); }
            break;
        }
        if (sim.Pick(2)) { c->f->AddListener(&c->rs); c->has_rec = true; c->rs.now = [q]() { return q->f->GetValue(); }; }
        break;
      }
    }
    SIM_CHECK(sim, comp.AddCounter(c->base()).ok(), "add-status", "counter refused");
    SIM_CHECK(sim, !comp.AddCounter(c->base()).ok(), "add-status", "duplicate counter accepted");
    SIM_CHECK(sim, comp.GetCounter(c->name) == c->base() && comp.GetCounter(c->name + "x") == nullptr && comp.GetConfig(c->name) == nullptr && comp.GetChildComponent(c->name) == nullptr, "lookup", "counter lookup");
    w.cs.push_back(std::move(c));
  }
  int nf = many ? sim.Pick(200) : sim.Pick(5);
  for (int i = 0; i < nf; i++) {
    auto f = std::make_unique<Cf>();
    f->type = sim.Pick(6);
    f->name = "f" + std::to_string(i);
    f->owner = sim.Pick(nk);
    f->want = w.Draw(f->type);
    f->more = sim.Pick(3) ? 0 : sim.Range(1, 12);
    Cf* q = f.get();
    switch (f->type) {
      case 0: f->c = MakeCfg<bool>(q, f->name, f->want); break;
      case 1: f->c = MakeCfg<int64_t>(q, f->name, f->want); break;
      case 2: f->c = MakeCfg<uint64_t>(q, f->name, f->want); break;
      case 3: f->c = MakeCfg<double>(q, f->name, f->want); break;
      case 4: f->c = MakeCfg<std::string>(q, f->name, f->want); break;
      case 5: f->c = MakeCfg<PhysicalValue>(q, f->name, f->want); break;
    }
    auto& comp = *w.comps[f->owner]->c;
    SIM_CHECK(sim, comp.AddConfig(f->c.get()).ok() && !comp.AddConfig(f->c.get()).ok() && comp.GetConfig(f->name) == f->c.get(), "add-status", "configuration entry");
    w.cfs.push_back(std::move(f));
  }
  sim.set_max_steps(many ? sim.Range(40, 400) : sim.Range(6, 60));
  int observe_every = many ? sim.Range(10, 80) : sim.Chance(1, 4) ? sim.Range(2, 20) : 1, since = 0;
  if (observe_every > 1) sim.Probe("rarely-observed");
  while (sim.Step()) {
    switch (sim.Weighted({12, many ? 12u : 2u, 2, observe_every > 1 ? 1u : 2u, 2, 2, 2})) {
      case 0: w.Update(); break;
      case 1: w.Attach(); break;
      case 2: { C& c = *w.cs[sim.Pick(w.cs.size())]; c.enabled = sim.Pick(2); c.base()->SetIsEnabled(c.enabled); sim.Log("%s %s", c.enabled ? "enable" : "disable", c.name.c_str()); break; }
      case 3: w.Export(); break;
      case 4: w.Import(); break;
      case 5: w.SetConfig(); break;
      case 6: w.DirectEntry(); break;
    }
    if (++since >= observe_every) { since = 0; w.CheckAll(); }
    uint64_t h = 0;
    for (auto& c : w.cs) h = dst::Mix(h ^ c->mu ^ c->ms ^ (uint64_t)c->md ^ (uint64_t)c->enabled << 63);
    sim.State(h);
  }
  w.CheckAll();
  if (w.updates >= 2) sim.NonTrivial();
  for (size_t k = 0; k < w.comps.size(); k++) {
    ComponentData d;
    SIM_CHECK(sim, w.comps[k]->c->Export(&d).ok(), "export-status", "export failed");
    w.CheckExport(k, d);
  }
  // A removed child is no longer exported.
  if (w.comps.size() > 1) {
    auto& last = *w.comps.back();
    int p = last.parent;
    SIM_CHECK(sim, w.comps[p]->c->RemoveChildComponent(last.name).ok() && !w.comps[p]->c->RemoveChildComponent(last.name).ok(), "remove-status", "removing a child");
    last.parent = -2;
    ComponentData d;
    SIM_CHECK(sim, w.comps[p]->c->Export(&d).ok(), "export-status", "export failed");
    w.CheckExport(p, d);
  }
}
