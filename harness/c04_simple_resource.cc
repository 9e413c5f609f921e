// C04: simple resources. Real code: SimpleResourcePool/Set/Resource, resource
// operands and their delay line, reserved registers, ResourceBitSet.
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "arch_world.h"
#include "mpact/sim/generic/resource_bitset.h"
#include "mpact/sim/generic/simple_resource.h"
#include "mpact/sim/generic/simple_resource_operand.h"

using namespace mpact::sim::generic;
const char* const kHarnessProperty = "C04";
const bool kHarnessChecksLeaks = true;

namespace {
struct Pool {
  std::unique_ptr<SimpleResourcePool> p;
  int width;
  std::vector<std::string> names;
  std::set<int> busy;
};
struct SetBox {
  SimpleResourceSet* s;
  int pool;
  std::set<int> members;
};
struct OpBox {
  std::unique_ptr<SimpleResourceOperand> op;
  int set;
  int latency;
};
struct RegBox {
  Register<uint32_t>* unused = nullptr;
  ReservedRegister<uint32_t>* reg;
  std::vector<std::unique_ptr<DestinationOperandInterface>> dst;
  int pool;
  int res;
};

std::string Join(const Pool& p, const std::set<int>& s) {
  std::string out = "[";
  const char* sep = "";
  for (int i : s) { out += sep; out += p.names[i]; sep = ", "; }
  return out + "]";
}

struct World {
  dst::Sim& sim;
  std::vector<Pool> pools;
  std::vector<SetBox> sets;
  std::vector<OpBox> ops;
  std::vector<RegBox> regs;
  std::unique_ptr<SimArchState> state;
  SimpleResourceDelayLine* line = nullptr;
  uint64_t cycle = 0;
  int observe_every = 1;  // Looking must not be what keeps the state right.
  struct Rel { int pool; std::set<int> m; };
  std::map<uint64_t, std::vector<Rel>> due;
  explicit World(dst::Sim& s) : sim(s) {}

  void Release(int pool, const std::set<int>& m) { for (int i : m) pools[pool].busy.erase(i); }
  void Check(bool must = false) {
    if (!must && observe_every > 1 && sim.Pick(observe_every) != 0) return;
    for (auto& p : pools) {
      for (size_t i = 0; i < p.names.size(); i++) {
        SimpleResource* r = sim.Pick(2) ? p.p->GetResource((unsigned)i) : p.p->GetResource(p.names[i]);
        SIM_CHECK(sim, r != nullptr && r->name() == p.names[i], "lost-resource", "resource %s not found", p.names[i].c_str());
        bool f = r->IsFree(), g = p.p->IsFree(r);
        SIM_CHECK(sim, f == g && f == (p.busy.count(i) == 0), "resource-state", "cycle %lu resource %s reads %s",
                  (unsigned long)cycle, p.names[i].c_str(), f ? "free" : "busy");
      }
      std::string s = p.p->ReservedAsString();
      SIM_CHECK(sim, s == Join(p, p.busy), "reserved-list", "reserved list %s, expected %s", s.c_str(), Join(p, p.busy).c_str());
      SIM_CHECK(sim, p.p->resource_vector().GetOnesCount() == (int)p.busy.size(), "ones-count", "%d bits set, %d busy",
                p.p->resource_vector().GetOnesCount(), (int)p.busy.size());
    }
    for (auto& s : sets) {
      bool want = true;
      for (int i : s.members) want = want && pools[s.pool].busy.count(i) == 0;
      SIM_CHECK(sim, s.s->IsFree() == want && pools[s.pool].p->IsFree(s.s) == want, "set-state", "set %s reads %s",
                Join(pools[s.pool], s.members).c_str(), s.s->IsFree() ? "free" : "busy");
    }
    for (auto& o : ops) {
      bool want = true;
      for (int i : sets[o.set].members) want = want && pools[sets[o.set].pool].busy.count(i) == 0;
      SIM_CHECK(sim, o.op->IsFree() == want, "operand-state", "operand reads %s", o.op->IsFree() ? "free" : "busy");
    }
  }
  void AddRes() {
    int pi = sim.Pick(pools.size());
    Pool& p = pools[pi];
    bool dup = !p.names.empty() && sim.Chance(1, 5);
    std::string n = dup ? p.names[sim.Pick(p.names.size())] : "r" + std::to_string(pi) + "_" + std::to_string(p.names.size());
    bool full = (int)p.names.size() == p.width;
    if (sim.Chance(1, 2)) {
      auto st = p.p->AddResource(n);
      SIM_CHECK(sim, st.ok() == (!dup && !full), "add-result", "adding %s returned %d", n.c_str(), (int)st.code());
    } else {
      auto* r = p.p->GetOrAddResource(n);
      SIM_CHECK(sim, (r != nullptr) == (dup || !full), "add-result", "get-or-add %s", n.c_str());
    }
    if (full) sim.Fault("add-to-full-pool");
    if (!dup && !full) p.names.push_back(n);
  }
  void AddToSet(SetBox& s) {
    int pi = sim.Chance(1, 10) ? (int)sim.Pick(pools.size()) : s.pool;
    Pool& p = pools[pi];
    if (p.names.empty() || sim.Chance(1, 8)) {
      if (sim.Chance(1, 2)) {
        SIM_CHECK(sim, s.s->AddResource(static_cast<SimpleResource*>(nullptr)).ok(), "add-null", "adding null failed");
        return;
      }
      Pool& q = pools[s.pool];
      std::string n = "n" + std::to_string(q.names.size()) + "_" + std::to_string(s.pool);
      auto st = s.s->AddResource(n);
      bool full = (int)q.names.size() == q.width;
      SIM_CHECK(sim, st.ok() == !full, "set-add-result", "set add by new name returned %d", (int)st.code());
      if (!full) { s.members.insert(q.names.size()); q.names.push_back(n); }
      return;
    }
    int i = sim.Pick(p.names.size());
    if (pi == s.pool && sim.Chance(1, 2)) {
      SIM_CHECK(sim, s.s->AddResource(p.names[i]).ok(), "set-add-result", "set add by name failed");
      s.members.insert(i);
    } else {
      auto st = s.s->AddResource(p.p->GetResource((unsigned)i));
      SIM_CHECK(sim, st.ok() == (pi == s.pool), "set-add-result", "set add from pool %d to %d returned %d", pi, s.pool, (int)st.code());
      if (pi == s.pool) s.members.insert(i); else sim.Fault("resource-of-other-pool");
    }
  }
};

// The bit vector underneath, compared with std::set under growth and copies.
void BitSetSteps(dst::Sim& sim) {
  std::vector<std::unique_ptr<ResourceBitSet>> v;
  std::vector<std::set<int>> m;
  for (int i = 0; i < 3; i++) {
    if (sim.Pick(2)) v.push_back(std::make_unique<ResourceBitSet>((int)sim.Pick(200)));
    else v.push_back(std::make_unique<ResourceBitSet>());
    m.emplace_back();
  }
  while (sim.Step()) {
    int a = sim.Pick(3), b = sim.Pick(3);
    switch (sim.Pick(9)) {
      case 0: case 1: case 2: { int p = sim.Pick(3) ? (int)sim.Pick(70) : sim.Chance(1, 12) ? (int)sim.Pick(70000) : (int)sim.Pick(300); sim.Log("set %d in %d", p, a); v[a]->Set(p); m[a].insert(p); break; }
      case 3: sim.Log("or %d %d", a, b); v[a]->Or(*v[b]); m[a].insert(m[b].begin(), m[b].end()); break;
      case 4: { sim.Log("andnot %d %d", a, b); auto c = m[b]; v[a]->AndNot(*v[b]); for (int x : c) m[a].erase(x); break; }
      case 5: sim.Log("assign %d %d", a, b); *v[a] = *v[b]; { auto c = m[b]; m[a] = c; } break;
      case 6: sim.Log("copy %d %d", a, b); v[a] = std::make_unique<ResourceBitSet>(*v[b]); { auto c = m[b]; m[a] = c; } break;
      case 7: { sim.Log("move %d", a); auto t = std::make_unique<ResourceBitSet>(std::move(*v[a])); v[a] = std::move(t); break; }
      default: { int top = m[a].empty() ? 0 : *m[a].rbegin() + 1; int n = top + sim.Pick(200); sim.Log("grow %d to %d", a, n); v[a]->Resize(n); break; }
    }
    for (int i = 0; i < 3; i++) {
      SIM_CHECK(sim, v[i]->GetOnesCount() == (int)m[i].size(), "bitset-count", "set %d has %d bits, expected %d", i, v[i]->GetOnesCount(), (int)m[i].size());
      int p = -7;
      bool f = v[i]->FindFirstSetBit(&p);
      SIM_CHECK(sim, f == !m[i].empty() && (!f || p == *m[i].begin()), "bitset-first", "first bit %d", p);
      SIM_CHECK(sim, v[i]->FindFirstSetBit(nullptr) == !m[i].empty(), "bitset-first", "first bit without position");
      int from = sim.Pick(350), at = from;
      auto nx = m[i].lower_bound(from);
      bool fn = v[i]->FindNextSetBit(&at);
      SIM_CHECK(sim, fn == (nx != m[i].end()) && (!fn || at == *nx), "bitset-next", "set %d: next bit from %d is %d", i, from, at);
      int q = 0;
      std::set<int> got;
      while (v[i]->FindNextSetBit(&q)) got.insert(q++);
      SIM_CHECK(sim, got == m[i], "bitset-content", "set %d enumerates wrong members", i);
      for (int j = 0; j < 3; j++) {
        bool inter = false;
        for (int x : m[i]) inter = inter || m[j].count(x);
        SIM_CHECK(sim, v[i]->IsIntersectionNonEmpty(*v[j]) == inter, "bitset-intersect", "sets %d and %d", i, j);
      }
    }
  }
  sim.NonTrivial();
}
}  // namespace

void RunOne(dst::Sim& sim) {
  sim.set_max_steps(20 + sim.Pick(100));
  if (sim.Chance(1, 8)) { BitSetSteps(sim); return; }
  auto w = std::make_unique<World>(sim);
  w->state = std::make_unique<SimArchState>("s");
  w->line = sim.Chance(1, 2) ? w->state->CreateAndAddDelayLine<SimpleResourceDelayLine>()
                             : w->state->CreateAndAddDelayLine<SimpleResourceDelayLine>((uint32_t)sim.Pick(12));
  int np = 1 + sim.Pick(2);
  if (sim.Chance(1, 3)) { w->observe_every = 2 + sim.Pick(12); sim.Probe("rarely-observed"); }
  bool wide = sim.Chance(1, 40);
  for (int i = 0; i < np; i++) {
    static const int ks[] = {1, 5, 63, 64, 65, 128, 130};
    int width = sim.Chance(1, 2) ? ks[sim.Pick(7)] : 1 + (int)sim.Pick(200);
    if (wide) { static const int kw[] = {256, 257, 300, 512, 1000}; width = kw[sim.Pick(5)]; w->observe_every = 16; sim.Probe("wide-pool"); }
    Pool p;
    p.p = std::make_unique<SimpleResourcePool>("pool" + std::to_string(i), width);
    p.width = width;
    int n = sim.Chance(1, 3) ? width : (int)sim.Pick(width + 1);
    for (int k = 0; k < n; k++) {
      std::string nm = "r" + std::to_string(i) + "_" + std::to_string(k);
      SIM_CHECK(sim, p.p->AddResource(nm).ok(), "add-result", "adding %s failed", nm.c_str());
      p.names.push_back(nm);
    }
    sim.Log("pool %d width %d resources %d", i, width, n);
    w->pools.push_back(std::move(p));
  }
  int acq = 0;
  while (sim.Step()) {
    switch (sim.Weighted({2, 2, 2, 5, 4, 6, 3, 6, 1, 2, 3})) {
      case 0: w->AddRes(); break;
      case 1: if (w->sets.size() < 6) {
          int pi = sim.Pick(w->pools.size());
          w->sets.push_back({w->pools[pi].p->CreateResourceSet(), pi, {}});
          int n = sim.Chance(1, 10) ? 6 + sim.Pick(60) : sim.Pick(6);
          for (int i = 0; i < n; i++) w->AddToSet(w->sets.back());
          sim.Log("set %d: %s", (int)w->sets.size() - 1, Join(w->pools[pi], w->sets.back().members).c_str());
        } break;
      case 2: if (!w->sets.empty() && w->ops.size() < 6) {
          OpBox o;
          o.set = sim.Pick(w->sets.size());
          o.latency = sim.Chance(1, 12) ? 20 + (int)sim.Pick(300) : sim.Pick(4) ? 1 + (int)sim.Pick(20) : 0;
          if (sim.Pick(2)) o.op = std::make_unique<SimpleResourceOperand>(w->sets[o.set].s, o.latency, w->line);
          else { o.op = std::make_unique<SimpleResourceOperand>(w->sets[o.set].s, o.latency); o.op->set_delay_line(w->line); }
          SIM_CHECK(sim, o.op->AsString() == Join(w->pools[w->sets[o.set].pool], w->sets[o.set].members), "operand-string", "operand prints %s", o.op->AsString().c_str());
          w->ops.push_back(std::move(o));
        } break;
      case 3: { Pool& p = w->pools[sim.Pick(w->pools.size())];
          if (!p.names.empty()) {
            int i = sim.Pick(p.names.size());
            auto* r = p.p->GetResource(p.names[i]);
            bool a = sim.Pick(2);
            sim.Log("%s resource %s", a ? "acquire" : "release", p.names[i].c_str());
            if (a) { acq++; p.busy.insert(i); if (sim.Pick(2)) r->Acquire(); else p.p->Acquire(r); }
            else { p.busy.erase(i); if (sim.Pick(2)) r->Release(); else p.p->Release(r); }
          } break; }
      case 4: if (!w->sets.empty()) {
          auto& s = w->sets[sim.Pick(w->sets.size())];
          bool a = sim.Pick(2);
          sim.Log("%s set %s", a ? "acquire" : "release", Join(w->pools[s.pool], s.members).c_str());
          if (a) { acq++; if (sim.Pick(2)) s.s->Acquire(); else w->pools[s.pool].p->Acquire(s.s); w->pools[s.pool].busy.insert(s.members.begin(), s.members.end()); }
          else { if (sim.Pick(2)) s.s->Release(); else w->pools[s.pool].p->Release(s.s); w->Release(s.pool, s.members); }
        } break;
      case 5: if (!w->ops.empty()) {  // instruction issue
          auto& o = w->ops[sim.Pick(w->ops.size())];
          auto& s = w->sets[o.set];
          if (!o.op->IsFree() && sim.Chance(3, 4)) break;
          sim.Log("operand acquire %s latency %d", Join(w->pools[s.pool], s.members).c_str(), o.latency);
          acq++;
          o.op->Acquire();
          if (o.latency > 0) {
            w->pools[s.pool].busy.insert(s.members.begin(), s.members.end());
            w->due[w->cycle + o.latency].push_back({s.pool, {}});
            // The delay line releases the set as it is when the time comes.
            w->due[w->cycle + o.latency].back().m = {-1 - o.set};
          } else {
            w->Release(s.pool, s.members);
            sim.Probe("acquire-latency-0");
          }
        } break;
      case 6: if (!w->ops.empty()) {
          auto& o = w->ops[sim.Pick(w->ops.size())];
          auto& s = w->sets[o.set];
          int lat = o.latency;
          if (sim.Pick(2)) { lat = sim.Chance(1, 12) ? sim.Pick(300) : sim.Pick(12); o.op->Release(lat); } else o.op->Release();
          sim.Log("operand release %s latency %d", Join(w->pools[s.pool], s.members).c_str(), lat);
          if (lat == 0) w->Release(s.pool, s.members);
          else w->due[w->cycle + lat].push_back({s.pool, {-1 - o.set}});
        } break;
      case 7: case 8: {
          int n = sim.Chance(1, 5) ? 1 + sim.Pick(20) : 1;
          if (sim.Chance(1, 30)) { n = 300; sim.Probe("long-advance"); }
          for (int k = 0; k < n; k++) {
            w->cycle++;
            sim.AdvanceTime(1);
            w->state->AdvanceDelayLines();
            auto it = w->due.find(w->cycle);
            if (it != w->due.end()) {
              for (auto& r : it->second)
                for (int x : r.m) { if (x < 0) w->Release(r.pool, w->sets[-1 - x].members); else w->pools[r.pool].busy.erase(x); }
              w->due.erase(it);
            }
            w->Check();
          }
          break; }
      case 9: { int pi = sim.Pick(w->pools.size());
          Pool& p = w->pools[pi];
          if (!p.names.empty() && w->regs.size() < 4) {
            RegBox r;
            r.pool = pi;
            r.res = sim.Pick(p.names.size());
            auto* res = p.p->GetResource(p.names[r.res]);
            // Creating the register may or may not count as a write; start clean.
            p.busy.erase(r.res);
            res->Release();
            r.reg = w->state->AddRegister<ReservedRegister<uint32_t>>("x" + std::to_string(w->regs.size()), res);
            SIM_CHECK(sim, r.reg->resource() == res, "register-resource", "register lost its resource");
            r.dst.emplace_back(r.reg->CreateDestinationOperand(0));
            r.dst.emplace_back(r.reg->CreateDestinationOperand(1 + sim.Pick(12)));
            w->regs.push_back(std::move(r));
          } break; }
      default: if (!w->regs.empty()) {  // reserve, then write back later
          auto& r = w->regs[sim.Pick(w->regs.size())];
          auto& d = r.dst[sim.Pick(2)];
          sim.Log("register write %s latency %d", w->pools[r.pool].names[r.res].c_str(), d->latency());
          if (sim.Chance(3, 4)) { r.reg->resource()->Acquire(); w->pools[r.pool].busy.insert(r.res); }
          auto* db = d->AllocateDataBuffer();
          db->Set<uint32_t>(0, 5);
          db->Submit();
          if (d->latency() == 0) w->pools[r.pool].busy.erase(r.res);
          else w->due[w->cycle + d->latency()].push_back({r.pool, {r.res}});
        } break;
    }
    w->Check();
    uint64_t h = 0;
    for (auto& p : w->pools) h = h * 131 + p.busy.size();
    sim.State(dst::Mix(h) ^ dst::Mix(w->due.size() * 64 + w->sets.size()));
  }
  w->Check(true);
  if (acq >= 2) sim.NonTrivial();
  w->ops.clear();
  w->state.reset();
}
