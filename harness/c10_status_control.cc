// C10: status and control registers. Real code: StatusRegister, ControlRegister,
// their operands, data buffers, delay lines, ArchState.
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "arch_world.h"
#include "mpact/sim/generic/control_register.h"
#include "mpact/sim/generic/status_register.h"

using namespace mpact::sim::generic;
const char* const kHarnessProperty = "C10";
const bool kHarnessChecksLeaks = true;

namespace {
enum Rule { kStore, kMask, kIgnore, kSet, kClear, kModify, kForward, kNumRules };
const char* const kRule[] = {"store", "mask", "ignore", "set-bits", "clear-bits", "modify-in-place", "forward"};

struct StatusBox {
  std::string name;
  int bits = 8;
  bool sgn = false;
  std::vector<int> source;  // index into world bits, -1: none
  StateItemBase* item = nullptr;
  std::function<uint64_t()> read;
  std::function<uint64_t(uint64_t)> read_mask;
  std::function<void(int, absl::AnyInvocable<bool()>)> bind;
  std::unique_ptr<SourceOperandInterface> src[2];
  std::unique_ptr<StateItemBase> owned;
};
struct CtlBox {
  std::string name;
  int size = 4;
  Rule rule = kStore;
  uint64_t mask = 0;
  int forward_to = -1;
  ControlRegisterBase* reg = nullptr;
  std::unique_ptr<ControlRegisterBase> owned;
  std::unique_ptr<SourceOperandInterface> src;
  std::vector<std::unique_ptr<DestinationOperandInterface>> dst;
  uint64_t value = 0;  // model
};
struct Write {
  bool status;
  int reg;
  uint64_t v;
  DataBuffer* db;
};
struct Open { DataBuffer* db; bool status; int reg; int latency; };
struct Hold { DataBuffer* db; uint64_t v; int size; };

uint64_t Trunc(uint64_t v, int size) { return size == 8 ? v : v & ((1ull << (8 * size)) - 1); }
uint64_t GetV(DataBuffer* db, int size) { uint64_t v = 0; memcpy(&v, db->raw_ptr(), size); return v; }
void SetV(DataBuffer* db, uint64_t v, int size) { memcpy(db->raw_ptr(), &v, size); }

struct World {
  dst::Sim& sim;
  std::unique_ptr<SimArchState> state;
  std::vector<char> bits;
  std::vector<int> evals;
  std::vector<StatusBox> st;
  std::vector<CtlBox> ct;
  std::vector<Open> open;
  std::vector<Hold> held;
  std::map<uint64_t, std::deque<Write>> due;
  std::deque<Write> landing;   // expected next, in order
  uint64_t cycle = 0;
  int writes = 0, depth = 0, forwards = 12;
  explicit World(dst::Sim& s) : sim(s) {}

  template <typename T>
  void AddStatus() {
    StatusBox b;
    b.name = "s" + std::to_string(st.size());
    b.bits = sizeof(T) * 8;
    b.sgn = std::is_signed<T>::value;
    auto r = std::make_unique<StatusRegister<T>>(state.get(), b.name);
    auto* p = r.get();
    b.item = p;
    b.read = [p] { return (uint64_t)(std::make_unsigned_t<T>)p->Read(); };
    b.read_mask = [p](uint64_t m) { return (uint64_t)(std::make_unsigned_t<T>)p->Read((T)m); };
    b.bind = [p](int i, absl::AnyInvocable<bool()> f) { p->SetEvaluateFunction(i, std::move(f)); };
    b.src[0].reset(p->CreateSourceOperand());
    b.src[1] = std::make_unique<StatusRegisterSourceOperand<T>>(p);
    b.source.assign(b.bits, -1);
    b.owned = std::move(r);
    st.push_back(std::move(b));
  }
  template <typename T>
  void AddControl() {
    int i = ct.size();
    CtlBox b;
    b.name = "c" + std::to_string(i);
    b.size = sizeof(T);
    b.rule = (Rule)sim.Pick(kNumRules);
    b.mask = sim.Bits();
    auto r = std::make_unique<ControlRegister<T>>(state.get(), b.name, [this, i](ControlRegisterBase* c, DataBuffer* db) { OnWrite(i, c, db); });
    b.reg = r.get();
    b.src.reset(r->CreateSourceOperand());
    int n = sim.Range(1, 3);
    for (int k = 0; k < n; k++) b.dst.emplace_back(r->CreateDestinationOperand(sim.Chance(1, 4) ? 0 : sim.Chance(1, 20) ? sim.Range(8, 300) : sim.Range(1, 7)));
    b.owned = std::move(r);
    ct.push_back(std::move(b));
    sim.Log("control %s size %d rule %s", ct[i].name.c_str(), ct[i].size, kRule[ct[i].rule]);
  }

  void OnWrite(int i, ControlRegisterBase* c, DataBuffer* db) {
    CtlBox& b = ct[i];
    while (!landing.empty() && landing.front().status) landing.pop_front();
    SIM_CHECK(sim, c == b.reg, "update-target", "update rule of %s called for another register", b.name.c_str());
    SIM_CHECK(sim, !landing.empty(), "spurious-update", "cycle %lu: update rule of %s called with no write due", (unsigned long)cycle, b.name.c_str());
    Write w = landing.front();
    landing.pop_front();
    SIM_CHECK(sim, w.reg == i, "update-order", "cycle %lu: update of %s, but the next write due is to %s", (unsigned long)cycle, b.name.c_str(), ct[w.reg].name.c_str());
    SIM_CHECK(sim, db->ref_count() >= 1 && GetV(db, b.size) == w.v, "update-data", "update rule of %s called with %lx, %lx was written", b.name.c_str(),
              (unsigned long)GetV(db, b.size), (unsigned long)w.v);
    sim.Log("update %s := %lx (%s)", b.name.c_str(), (unsigned long)w.v, kRule[b.rule]);
    uint64_t nv = b.value;
    switch (b.rule) {
      case kStore: nv = w.v; c->RegisterBase::SetDataBuffer(db); break;
      case kMask: nv = w.v & b.mask; Store(b, nv); break;
      case kIgnore: break;
      case kSet: nv = b.value | w.v; Store(b, nv); break;
      case kClear: nv = b.value & ~w.v; Store(b, nv); break;
      case kModify: {
        // Only safe when nobody else looks at the buffer.
        nv = Trunc(w.v & b.mask, b.size);
        bool shared = false;
        for (auto& h : held) shared = shared || h.db == db;
        if (shared) Store(b, nv);
        else { SetV(db, nv, b.size); c->RegisterBase::SetDataBuffer(db); }
        break;
      }
      case kForward: {
        nv = w.v;
        c->RegisterBase::SetDataBuffer(db);
        if (depth < 3 && forwards > 0) {
          forwards--;
          depth++;
          int t = sim.Pick(ct.size());
          auto& d = ct[t].dst[sim.Pick(ct[t].dst.size())];
          b.value = Trunc(nv, b.size);
          Submit(t, d.get(), Trunc(w.v + 1, ct[t].size));
          nv = ct[i].value;
          sim.Probe("write-from-update-rule");
          depth--;
        }
        break;
      }
      default: break;
    }
    ct[i].value = Trunc(nv, ct[i].size);
    CheckCtl(ct[i]);
  }
  void Store(CtlBox& b, uint64_t v) {
    DataBuffer* n = state->db_factory()->Allocate(b.size);
    SetV(n, v, b.size);
    b.reg->RegisterBase::SetDataBuffer(n);
    n->DecRef();
  }
  void Submit(int t, DestinationOperandInterface* d, uint64_t v) {
    DataBuffer* db = d->AllocateDataBuffer();
    SetV(db, v, ct[t].size);
    Go({db, false, t, d->latency()});
  }
  void Go(const Open& o) {
    int size = o.status ? st[o.reg].item->size() : ct[o.reg].size;
    Write w{o.status, o.reg, GetV(o.db, size), o.db};
    writes++;
    sim.Log("submit to %s latency %d value %lx", (o.status ? st[o.reg].name : ct[o.reg].name).c_str(), o.latency, (unsigned long)w.v);
    if (o.latency == 0) {
      if (!o.status) landing.push_front(w);
      size_t n = landing.size();
      o.db->Submit();
      SIM_CHECK(sim, o.status || landing.size() < n, "lost-update", "an immediate write to %s did not call its update rule", ct[o.reg].name.c_str());
    } else {
      if (due[cycle + o.latency].size()) sim.Probe("same-cycle-writes");
      due[cycle + o.latency].push_back(w);
      o.db->Submit();
    }
  }
  void CheckCtl(CtlBox& b) {
    uint64_t v = GetV(b.reg->data_buffer(), b.size);
    SIM_CHECK(sim, v == b.value, "control-value", "cycle %lu: %s holds %lx, expected %lx (rule %s)", (unsigned long)cycle, b.name.c_str(), (unsigned long)v, (unsigned long)b.value, kRule[b.rule]);
    SIM_CHECK(sim, Trunc(b.src->AsUint64(0), b.size) == b.value, "control-read", "source operand of %s reads %lx, expected %lx", b.name.c_str(), (unsigned long)b.src->AsUint64(0), (unsigned long)b.value);
  }
  uint64_t Want(StatusBox& b) {
    uint64_t v = 0;
    for (int i = 0; i < b.bits; i++) {
      int k = b.source[i];
      if (k >= 1000 ? ((ct[(k - 1000) / 64].value >> ((k - 1000) % 64)) & 1) != 0 : k >= 0 && bits[k]) v |= 1ull << i;
    }
    return v;
  }
  void CheckStatus(StatusBox& b) {
    uint64_t want = Want(b), got = b.read();
    SIM_CHECK(sim, got == want, "status-value", "%s reads %lx, its sources say %lx", b.name.c_str(), (unsigned long)got, (unsigned long)want);
    uint64_t m = Trunc(sim.Bits(), b.bits / 8);
    got = b.read_mask(m);
    SIM_CHECK(sim, got == (want & m), "status-mask", "%s masked with %lx reads %lx, its sources say %lx", b.name.c_str(), (unsigned long)m, (unsigned long)got, (unsigned long)want);
    auto& s = b.src[sim.Pick(2)];
    int sh = 64 - b.bits;
    int64_t sx = (int64_t)(want << sh) >> sh;
    uint64_t wide = b.sgn ? (uint64_t)sx : want;
    uint64_t w = 0;
    switch (sim.Pick(9)) {
      case 0: got = s->AsUint64(0); w = wide; break;
      case 1: got = s->AsInt64(0); w = wide; break;
      case 2: got = s->AsUint32(0); w = (uint32_t)wide; break;
      case 3: got = (uint32_t)s->AsInt32(0); w = (uint32_t)wide; break;
      case 4: got = s->AsUint16(0); w = (uint16_t)wide; break;
      case 5: got = (uint16_t)s->AsInt16(0); w = (uint16_t)wide; break;
      case 6: got = s->AsUint8(0); w = (uint8_t)wide; break;
      case 7: got = (uint8_t)s->AsInt8(0); w = (uint8_t)wide; break;
      case 8: got = s->AsBool(0); w = want != 0; break;
    }
    SIM_CHECK(sim, got == w, "status-operand", "operand of %s reads %lx, expected %lx", b.name.c_str(), (unsigned long)got, (unsigned long)w);
  }
  void CheckAll() {
    for (auto& b : ct) CheckCtl(b);
    for (auto& b : st) CheckStatus(b);
    for (auto& h : held) {
      SIM_CHECK(sim, h.db->ref_count() >= 1, "released-while-held", "a buffer still held has %d references", h.db->ref_count());
      int refs = 0;
      for (auto& x : held) refs += x.db == h.db;
      for (auto& x : open) refs += x.db == h.db;
      for (auto& [c, q] : due) for (auto& x : q) refs += x.db == h.db;
      for (auto& x : ct) refs += x.reg->data_buffer() == h.db;
      SIM_CHECK(sim, h.db->ref_count() == refs, "reference-count", "a held buffer has %d references, %d holders", h.db->ref_count(), refs);
      SIM_CHECK(sim, GetV(h.db, h.size) == h.v, "held-contents", "a buffer still held changed from %lx to %lx", (unsigned long)h.v, (unsigned long)GetV(h.db, h.size));
    }
    for (auto& o : open) SIM_CHECK(sim, o.db->ref_count() >= 1, "released-while-held", "an open buffer has %d references", o.db->ref_count());
  }
  void Advance() {
    cycle++;
    sim.AdvanceTime(1);
    auto it = due.find(cycle);
    if (it != due.end()) {
      landing = it->second;
      due.erase(it);
      sim.Log("cycle %lu: %zu writes land", (unsigned long)cycle, landing.size());
    }
    state->AdvanceDelayLines();
    while (!landing.empty() && landing.front().status) landing.pop_front();
    SIM_CHECK(sim, landing.empty(), "lost-update", "cycle %lu: a write to %s was due but its update rule was not called", (unsigned long)cycle, landing.empty() ? "" : ct[landing.front().reg].name.c_str());
  }
  void Run() {
    state = std::make_unique<SimArchState>("arch");
    bits.assign(sim.Range(1, 20), 0);
    int ns = sim.Range(1, 3), nc = sim.Range(1, 4);
    for (int i = 0; i < ns; i++) switch (sim.Pick(8)) {
      case 6: AddStatus<int8_t>(); break;
      case 7: AddStatus<int32_t>(); break;
      case 0: AddStatus<uint8_t>(); break;
      case 1: AddStatus<uint16_t>(); break;
      case 2: AddStatus<uint32_t>(); break;
      case 3: AddStatus<uint64_t>(); break;
      case 4: AddStatus<int64_t>(); break;
      case 5: AddStatus<int16_t>(); break;
    }
    for (int i = 0; i < nc; i++) switch (sim.Pick(5)) {
      case 3: AddControl<uint16_t>(); break;
      case 4: AddControl<int32_t>(); break;
      case 0: AddControl<uint32_t>(); break;
      case 1: AddControl<uint64_t>(); break;
      case 2: AddControl<uint8_t>(); break;
    }
    CheckAll();
    sim.set_max_steps(sim.Range(5, 90));
    while (sim.Step()) {
      switch (sim.Weighted({3, 3, 6, 2, 7, 6, 2, 2})) {
        case 0: {  // bind a bit
          StatusBox& b = st[sim.Pick(st.size())];
          int pos = sim.Chance(1, 4) ? (sim.Pick(2) ? b.bits - 1 : 0) : sim.Pick(b.bits);
          int k = sim.Pick(bits.size());
          b.source[pos] = k;
          int how = sim.Pick(3);
          if (how == 0 && !ct.empty()) {  // the condition is a bit of a control register
            int c = sim.Pick(ct.size()), p = sim.Pick(8 * ct[c].size);
            b.source[pos] = 1000 + c * 64 + p;
            SourceOperandInterface* so = ct[c].src.get();
            b.bind(pos, [so, p] { return ((so->AsUint64(0) >> p) & 1) != 0; });
            sim.Probe("condition-reads-register");
          } else {
            auto own = std::make_unique<int>(k);  // a condition with state of its own
            b.bind(pos, [this, own = std::move(own)] { return bits[*own] != 0; });
          }
          sim.Log("bind %s bit %d to condition %d", b.name.c_str(), pos, b.source[pos]);
          break;
        }
        case 1: bits[sim.Pick(bits.size())] ^= 1; break;
        case 2: {  // open a control write
          CtlBox& b = ct[sim.Pick(ct.size())];
          auto& d = b.dst[sim.Pick(b.dst.size())];
          DataBuffer* db;
          if (sim.Chance(1, 4)) {
            db = d->CopyDataBuffer();
            SIM_CHECK(sim, GetV(db, b.size) == b.value, "copy", "copy for %s is %lx, register holds %lx", b.name.c_str(), (unsigned long)GetV(db, b.size), (unsigned long)b.value);
          } else {
            db = d->AllocateDataBuffer();
            SetV(db, sim.Bits(), b.size);
          }
          open.push_back({db, false, (int)(&b - &ct[0]), d->latency()});
          break;
        }
        case 3: {  // write aimed at a (read-only) status register
          StatusBox& b = st[sim.Pick(st.size())];
          DataBuffer* db = state->db_factory()->Allocate(b.item->size());
          SetV(db, sim.Bits(), b.item->size());
          int lat = sim.Pick(5);
          db->set_destination(b.item);
          db->set_latency(lat);
          db->set_delay_line(state->data_buffer_delay_line());
          open.push_back({db, true, (int)(&b - &st[0]), lat});
          break;
        }
        case 4: {  // submit
          if (open.empty()) break;
          size_t k = sim.Pick(open.size());
          Open o = open[k];
          open.erase(open.begin() + k);
          if (o.status) sim.Fault("write-to-read-only");
          int size = o.status ? st[o.reg].item->size() : ct[o.reg].size;
          if (sim.Chance(1, 3)) { o.db->IncRef(); held.push_back({o.db, GetV(o.db, size), size}); sim.Probe("buffer-held-across-write"); }
          Go(o);
          break;
        }
        case 5: { int n = sim.Chance(1, 5) ? sim.Range(2, 5) : 1; for (int i = 0; i < n; i++) Advance(); break; }
        case 6: {
          if (held.empty()) break;
          size_t k = sim.Pick(held.size());
          held[k].db->DecRef();
          held.erase(held.begin() + k);
          break;
        }
        case 7: {
          if (open.empty()) break;
          size_t k = sim.Pick(open.size());
          open[k].db->DecRef();
          open.erase(open.begin() + k);
          sim.Fault("squashed-write");
          break;
        }
      }
      CheckAll();
      uint64_t h = open.size() * 64 + held.size();
      for (auto& b : ct) h = dst::Mix(h ^ b.rule);
      for (auto& [c, q] : due) h = dst::Mix(h ^ (c - cycle) ^ (q.size() << 8));
      sim.State(h);
    }
    if (writes >= 2 && cycle >= 1) sim.NonTrivial();
    if (!due.empty()) {
      if (sim.Pick(2)) { while (!due.empty()) { Advance(); CheckAll(); } }
      else sim.Fault("teardown-with-writes-in-flight");
    }
    for (auto& o : open) o.db->DecRef();
    for (auto& h : held) h.db->DecRef();
    open.clear();
    held.clear();
    for (auto& b : ct) { b.src.reset(); b.dst.clear(); }
    for (auto& b : st) { b.src[0].reset(); b.src[1].reset(); }
    ct.clear();
    st.clear();
    state.reset();
  }
};
}  // namespace

void RunOne(dst::Sim& sim) {
  World w(sim);
  w.Run();
}
