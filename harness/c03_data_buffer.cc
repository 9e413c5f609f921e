// C03: data buffer life cycle. Real code: DataBufferFactory, DataBuffer,
// ReferenceCount, registers, delay lines. Every byte of every live buffer is
// compared with the model after every step, so that sharing, early recycling
// or a wrong size shows at once; the allocator is the ASAN one.
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <vector>

#include "arch_world.h"

using namespace mpact::sim::generic;
const char* const kHarnessProperty = "C03";
const bool kHarnessChecksLeaks = true;

namespace {
using Bytes = std::vector<uint8_t>;

struct Buf {
  DataBuffer* db;
  void* raw;
  int caller = 1;   // references the caller holds
  int inflight = 0; // references owned by delay lines
  int regs = 0;     // registers whose value it is
  Bytes content;
  int factory;
  bool had_dest = false;
  int total() const { return caller + inflight + regs; }
};

// A destination that may or may not keep the buffer.
struct Keeper : public DataBufferDestination {
  DataBuffer* cur = nullptr;
  std::function<void(DataBuffer*, Keeper*)> landed;
  void SetDataBuffer(DataBuffer* db) override {
    landed(db, this);
    db->IncRef();
    if (cur != nullptr) cur->DecRef();
    cur = db;
  }
};

struct World {
  dst::Sim& sim;
  std::vector<std::unique_ptr<DataBufferFactory>> factories;
  std::unique_ptr<SimArchState> state;
  std::vector<RegisterBase*> regs;   // registers of 8 bytes
  std::vector<int> reg_val;          // index in bufs, -1: initial value
  std::unique_ptr<DataBufferDelayLine> line;
  Keeper keep[2];
  int keep_val[2] = {-1, -1};
  std::map<int, Buf> bufs;           // live buffers
  std::map<DataBuffer*, int> by_db;
  int next = 0;
  uint64_t cycle = 0;
  struct Fl { int id; int dest; };
  std::map<uint64_t, std::vector<Fl>> due;
  std::set<std::pair<DataBuffer*, int>> freed;  // recycled, may come back
  uint64_t fill = 1;

  explicit World(dst::Sim& s) : sim(s) {}

  int PickSize() {
    switch (sim.Weighted({5, 3, 3, 1})) {
      case 0: return 8;
      case 1: { static const int k[] = {0, 1, 2, 4, 16, 24, 64}; return k[sim.Pick(7)]; }
      case 2: { static const int k[] = {4095, 4096, 4097, 4100, 5000}; return k[sim.Pick(5)]; }
      default: return sim.Chance(1, 40) ? 65536 + (int)sim.Pick(3) * 4 : 1 + sim.Pick(4200);
    }
  }
  void Fill(Buf& b) {
    uint64_t x = dst::Mix(fill++);
    for (auto& c : b.content) { x = x * 6364136223846793005ull + 1442695040888963407ull; c = x >> 56; }
    if (b.content.size() % 4 == 0 && sim.Chance(1, 4)) {
      for (size_t i = 0; i < b.content.size() / 4; i++) { uint32_t v; memcpy(&v, &b.content[4 * i], 4); b.db->Set<uint32_t>(i, v); }
    } else if (sim.Chance(1, 2)) b.db->CopyFrom(b.content.data());
    else b.db->Set<uint8_t>(absl::MakeConstSpan(b.content));
  }
  void Adopt(DataBuffer* db, int size, int factory, bool copy_of, const Bytes* src) {
    SIM_CHECK(sim, db != nullptr, "null", "allocation returned null");
    SIM_CHECK(sim, by_db.count(db) == 0, "aliased", "allocation returned a buffer that is still in use (size %d)", size);
    SIM_CHECK(sim, db->size<uint8_t>() == size, "wrong-size", "asked for %d bytes, got %d", size, db->size<uint8_t>());
    SIM_CHECK(sim, db->ref_count() == 1, "bad-ref", "new buffer has reference count %d", db->ref_count());
    for (auto& p : bufs) {
      const char* a = static_cast<const char*>(p.second.raw);
      const char* z = static_cast<const char*>(db->raw_ptr());
      bool overlap = size > 0 && !p.second.content.empty() && z < a + p.second.content.size() && a < z + size;
      SIM_CHECK(sim, !overlap, "shared-storage", "buffers %d and %d share storage", p.first, next);
    }
    int id = next++;
    Buf b;
    b.db = db;
    b.raw = db->raw_ptr();
    b.factory = factory;
    b.content.resize(size);
    if (copy_of) {
      b.content = *src;
      SIM_CHECK(sim, memcmp(db->raw_ptr(), src->data(), size) == 0, "bad-copy", "copy differs from its source");
    } else {
      Fill(b);
    }
    by_db[db] = id;
    bufs[id] = b;
  }
  void Gone(int id) {
    by_db.erase(bufs[id].db);
    bufs.erase(id);
  }
  void Settle(int id) {
    if (bufs[id].total() == 0) { sim.Log("  buffer %d free", id); Gone(id); }
  }
  void Allocate() {
    int f = sim.Pick(factories.size());
    int size = PickSize();
    sim.Log("allocate %d bytes from %d as %d", size, f, next);
    DataBuffer* db;
    if (size % 8 == 0 && sim.Chance(1, 3)) db = factories[f]->Allocate<uint64_t>(size / 8);
    else if (size % 4 == 0 && sim.Chance(1, 3)) db = factories[f]->Allocate<uint32_t>(size / 4);
    else db = factories[f]->Allocate(size);
    Adopt(db, size, f, false, nullptr);
  }
  Buf* PickCaller(int* id) {
    std::vector<int> c;
    for (auto& p : bufs) if (p.second.caller > 0) c.push_back(p.first);
    if (c.empty()) return nullptr;
    *id = c[sim.Pick(c.size())];
    return &bufs[*id];
  }
  // Called when the model (and the code) deliver buffer id to destination d.
  void Deliver(int id, int d) {
    int* slot = d < 2 ? &keep_val[d] : &reg_val[d - 2];
    int old = *slot;
    *slot = id;
    bufs[id].regs++;
    if (old >= 0) { bufs[old].regs--; if (old != id) Settle(old); }
  }
  int PickDest(const Buf& b) {
    std::vector<int> c = {0, 1};
    if (b.content.size() == 8) for (size_t i = 0; i < regs.size(); i++) c.push_back(2 + i);
    return c[sim.Pick(c.size())];
  }
  DataBufferDestination* DestOf(int d) { return d < 2 ? static_cast<DataBufferDestination*>(&keep[d]) : regs[d - 2]; }
  void Check() {
    for (auto& p : bufs) {
      Buf& b = p.second;
      SIM_CHECK(sim, b.db->ref_count() == b.total(), "ref-count", "buffer %d has %d references, expected %d", p.first,
                b.db->ref_count(), b.total());
      SIM_CHECK(sim, b.db->size<uint8_t>() == (int)b.content.size(), "size-changed", "buffer %d changed size", p.first);
      SIM_CHECK(sim, b.db->raw_ptr() == b.raw, "storage-moved", "buffer %d moved", p.first);
      SIM_CHECK(sim, memcmp(b.raw, b.content.data(), b.content.size()) == 0, "content-changed",
                "buffer %d changed while referenced", p.first);
    }
    for (size_t i = 0; i < regs.size(); i++)
      if (reg_val[i] >= 0)
        SIM_CHECK(sim, regs[i]->data_buffer() == bufs[reg_val[i]].db, "wrong-register-value", "register %d holds another buffer", (int)i);
  }
};
}  // namespace

void RunOne(dst::Sim& sim) {
  auto w = std::make_unique<World>(sim);
  sim.set_max_steps(20 + sim.Pick(130));
  int nf = 1 + sim.Pick(2);
  for (int i = 0; i < nf; i++) w->factories.push_back(std::make_unique<DataBufferFactory>());
  bool with_state = sim.Chance(2, 3);
  if (with_state) {
    w->state = std::make_unique<SimArchState>("s");
    int n = 1 + sim.Pick(3);
    for (int i = 0; i < n; i++) {
      w->regs.push_back(w->state->AddRegister<Register<uint64_t>>("r" + std::to_string(i)));
      w->reg_val.push_back(-1);
    }
  }
  w->line = std::make_unique<DataBufferDelayLine>((uint32_t)sim.Pick(20));
  for (auto& k : w->keep) k.landed = [](DataBuffer*, Keeper*) {};
  int frees = 0;
  bool many_refs = sim.Chance(1, 60), many_bufs = sim.Chance(1, 60);
  while (sim.Step()) {
    int id;
    if (many_refs && sim.Chance(1, 8)) {
      if (Buf* b = w->PickCaller(&id)) {  // a value with very many holders
        int n = sim.Chance(1, 10) ? 66000 : 300;
        sim.Log("incref %d by %d", id, n);
        sim.Probe("many-references");
        for (int i = 0; i < n; i++) b->db->IncRef();
        b->caller += n;
        w->Check();
        int keep = sim.Pick(3);
        for (int i = 0; i < n - keep; i++) b->db->DecRef();
        b->caller -= n - keep;
        many_refs = false;
      }
    }
    if (many_bufs && sim.Chance(1, 8)) {  // many buffers of one size at once
      int f = sim.Pick(w->factories.size()), size = w->PickSize(), n = 300;
      if (size > 64) n = 40;
      sim.Log("allocate %d buffers of %d bytes from %d", n, size, f);
      sim.Probe("many-buffers");
      int first = w->next;
      for (int i = 0; i < n; i++) w->Adopt(w->factories[f]->Allocate(size), size, f, false, nullptr);
      w->Check();
      int step = 1 + sim.Pick(3);  // release them in some order
      for (int k = 0; k < step; k++)
        for (int i = k; i < n; i += step) { Buf& b = w->bufs[first + i]; b.caller--; b.db->DecRef(); w->Settle(first + i); }
      many_bufs = false;
    }
    switch (sim.Weighted({8, 2, 2, 7, 3, 6, 4, 2, 1, 2})) {
      case 0: if (w->bufs.size() < 14) w->Allocate(); break;
      case 1:
        if (Buf* b = w->PickCaller(&id)) {
          int f = sim.Pick(w->factories.size());
          sim.Log("copy %d from factory %d as %d", id, f, w->next);
          Bytes c = b->content;
          w->Adopt(w->factories[f]->MakeCopyOf(b->db), c.size(), f, true, &c);
        }
        break;
      case 2:
        if (Buf* b = w->PickCaller(&id)) { sim.Log("incref %d", id); b->db->IncRef(); b->caller++; }
        break;
      case 3:
        if (Buf* b = w->PickCaller(&id)) {
          sim.Log("decref %d", id);
          frees++;
          b->caller--;
          b->db->DecRef();
          w->Settle(id);
        }
        break;
      case 4:
        if (Buf* b = w->PickCaller(&id)) {
          if (b->regs != 0) break;
          Buf* from = nullptr;
          for (auto& p : w->bufs) if (p.first != id && p.second.content.size() == b->content.size()) from = &p.second;
          if (from && sim.Chance(1, 2)) { sim.Log("rewrite %d from another", id); b->db->CopyFrom(from->db); b->content = from->content; }
          else { sim.Log("rewrite %d", id); w->Fill(*b); }
          Bytes out(b->content.size());
          b->db->CopyTo(out.data());
          SIM_CHECK(sim, out == b->content, "content-changed", "buffer %d copied out differs from what was written", id);
        }
        break;
      case 5:  // submit: the caller's reference passes on
        if (Buf* b = w->PickCaller(&id)) {
          int d = w->PickDest(*b);
          int lat = sim.Chance(1, 3) ? 0 : 1 + sim.Pick(24);
          sim.Log("submit %d to %d latency %d", id, d, lat);
          b->db->set_destination(w->DestOf(d));
          b->had_dest = true;
          b->db->set_delay_line(w->line.get());
          b->db->set_latency(lat);
          b->caller--;
          DataBuffer* db = b->db;
          if (lat == 0) w->Deliver(id, d);
          else { b->inflight++; w->due[w->cycle + lat].push_back({id, d}); }
          if (sim.Chance(1, 2)) db->Submit(); else db->Submit(lat);
        }
        break;
      case 6: {
        int n = sim.Chance(1, 5) ? 1 + sim.Pick(20) : 1;
        for (int i = 0; i < n; i++) {
          w->cycle++;
          sim.AdvanceTime(1);
          auto it = w->due.find(w->cycle);
          if (it != w->due.end()) {
            for (auto& f : it->second) { w->bufs[f.id].inflight--; w->Deliver(f.id, f.dest); }
            // A buffer replaced in the same cycle has no holder left.
            std::set<int> ids;
            for (auto& f : it->second) ids.insert(f.id);
            w->due.erase(it);
            w->line->Advance();
            for (int x : ids) if (w->bufs.count(x)) w->Settle(x);
          } else {
            w->line->Advance();
          }
          w->Check();
        }
        break;
      }
      case 7: {  // free everything recycled, at an arbitrary moment
        int f = sim.Pick(w->factories.size());
        sim.Log("clear factory %d", f);
        sim.Fault("factory-clear");
        w->factories[f]->Clear();
        break;
      }
      case 8:  // renaming: a register takes over (or keeps) a register's value
        if (!w->regs.empty()) {
          int a = sim.Pick(w->regs.size()), b = sim.Pick(w->regs.size());
          if (w->reg_val[b] >= 0) {
            sim.Log("register %d takes the value buffer of %d", a, b);
            if (a == b) sim.Probe("register-renamed-to-itself");
            int v = w->reg_val[b];
            w->Deliver(v, a + 2);
            w->regs[a]->SetDataBuffer(w->regs[b]->data_buffer());
          }
        }
        break;
      default:  // hand over to nobody: just released
        if (Buf* b = w->PickCaller(&id)) {
          sim.Log("submit %d without destination", id);
          sim.Fault("submit-without-destination");
          if (b->had_dest) b->db->set_destination(nullptr);  // a new buffer has none
          b->caller--;
          DataBuffer* db = b->db;
          int lat = sim.Pick(3);
          w->Settle(id);
          db->Submit(lat);
        }
        break;
    }
    w->Check();
    int fl = 0, rg = 0, ca = 0, big = 0;
    for (auto& p : w->bufs) { fl += p.second.inflight; rg += p.second.regs; ca += p.second.caller; big += p.second.content.size() > 4096; }
    sim.State(((fl * 32ull + rg) * 64 + ca) * 32 + big);
  }
  if (w->next >= 3 && frees >= 1) sim.NonTrivial();
  // Teardown in an arbitrary order; every storage must be gone at the end.
  bool lines_first = sim.Chance(1, 2);
  if (lines_first) { w->line.reset(); }
  w->state.reset();
  for (int i = 0; i < 2; i++) if (w->keep[i].cur != nullptr) w->keep[i].cur->DecRef();
  for (auto& p : w->bufs) for (int i = 0; i < p.second.caller; i++) p.second.db->DecRef();
  w->line.reset();
  if (sim.Chance(1, 2)) for (auto& f : w->factories) f->Clear();
  w->factories.clear();
}
