// C02: register write visibility. Real code: ArchState, registers and their
// operands, data buffers, delay lines. The simulator owns the cycle clock and
// the order in which "instructions" allocate, fill, hold and submit buffers.
#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "arch_world.h"
#include "mpact/sim/generic/function_delay_line.h"

using namespace mpact::sim::generic;
const char* const kHarnessProperty = "C02";
const bool kHarnessChecksLeaks = true;

namespace {

using WideRegister = StateItem<RegisterBase, uint8_t*, RegisterSourceOperand<uint8_t>, RegisterDestinationOperand<uint8_t>>;
using Bytes = std::vector<uint8_t>;

// Type-erased access to one register under test.
struct RegBox {
  std::string name;
  RegisterBase* reg = nullptr;
  int elem = 1;       // element size
  bool is_signed = false;
  int count = 1;      // number of elements
  std::vector<int> shape;
  std::unique_ptr<SourceOperandInterface> src[2];
  std::vector<std::unique_ptr<DestinationOperandInterface>> dst;
  Bytes model;        // visible value
  int line = 0;       // delay line all writes of this register use
  virtual ~RegBox() = default;
  virtual DestinationOperandInterface* MakeDst(int latency, DataBufferDelayLine* dl, int how) = 0;
};

struct CountingLine : public DelayLineInterface {
  int* n;
  explicit CountingLine(int* c) : n(c) {}
  int Advance() override { ++*n; return 0; }
  bool IsEmpty() const override { return true; }
};

template <typename R, typename T>
struct Box : public RegBox {
  DestinationOperandInterface* MakeDst(int latency, DataBufferDelayLine* dl, int how) override {
    auto* r = static_cast<R*>(reg);
    if (dl == nullptr) {
      if (how == 0) return r->CreateDestinationOperand(latency);
      return r->CreateDestinationOperand(latency, "op_" + name);
    }
    if (how == 0) return new RegisterDestinationOperand<T>(reg, latency, dl);
    return new RegisterDestinationOperand<T>(reg, latency, "op_" + name, dl);
  }
};

struct Open {  // a buffer an instruction holds but has not submitted
  DataBuffer* db;
  int reg;
  int dst;
  Bytes content;
};

struct Held {  // an old value someone keeps a reference to
  DataBuffer* db;
  Bytes content;
};

struct World {
  dst::Sim& sim;
  std::unique_ptr<SimArchState> state;
  std::vector<std::unique_ptr<RegBox>> regs;
  std::vector<DataBufferDelayLine*> lines;
  std::vector<Open> open;
  std::vector<Held> held;
  // cycle -> (reg, bytes) in submission order, per register order preserved
  std::map<uint64_t, std::deque<std::pair<int, Bytes>>> due;
  std::map<uint64_t, std::vector<int>> fdue;
  std::vector<int> fired;
  int fid = 0;
  int counting = 0;
  uint64_t cycle = 0;
  explicit World(dst::Sim& s) : sim(s) {}

  template <typename R, typename T, typename... P>
  RegBox* Add(const std::string& name, std::vector<int> shape, P... p) {
    auto b = std::make_unique<Box<R, T>>();
    b->name = name;
    R* r;
    if (sim.Chance(1, 2)) {
      r = state->AddRegister<R>(name, p...);
    } else {
      r = new R(state.get(), name, p...);
      state->AddRegister(r);
      if (sim.Chance(1, 2)) state->AddRegister(name + "_alias", r);
    }
    b->reg = r;
    b->elem = sizeof(T);
    b->is_signed = std::is_signed<T>::value;
    b->shape = shape;
    b->count = 1;
    for (int d : shape) b->count *= d;
    b->model.assign(b->elem * b->count, 0);
    b->src[0].reset(r->CreateSourceOperand());
    b->src[1].reset(r->CreateSourceOperand("src_" + name));
    SIM_CHECK(sim, r->size() == b->elem * b->count, "bad-size", "register %s size %d", name.c_str(), r->size());
    RegBox* raw = b.get();
    regs.push_back(std::move(b));
    return raw;
  }

  void AddRandomReg() {
    std::string n = "r" + std::to_string(regs.size());
    RegBox* b = nullptr;
    switch (sim.Chance(1, 30) ? 13 : sim.Pick(13)) {
      case 8: b = Add<Register<int32_t>, int32_t>(n, {1}); break;
      case 9: b = Add<VectorRegister<int8_t, 4>, int8_t>(n, {4}); break;
      case 10: b = Add<ReservedVectorRegister<uint16_t, 4>, uint16_t>(n, {4}, static_cast<SimpleResource*>(nullptr)); break;
      case 11: b = Add<WideRegister, uint8_t>(n, {12}, 12); break;
      case 13: b = Add<VectorRegister<uint32_t, 1100>, uint32_t>(n, {1100}); break;
      case 0: b = Add<Register<uint8_t>, uint8_t>(n, {1}); break;
      case 1: b = Add<Register<uint16_t>, uint16_t>(n, {1}); break;
      case 2: b = Add<Register<uint32_t>, uint32_t>(n, {1}); break;
      case 3: b = Add<Register<uint64_t>, uint64_t>(n, {1}); break;
      case 4: b = Add<VectorRegister<uint16_t, 5>, uint16_t>(n, {5}); break;
      case 5: b = Add<MatrixRegister<uint32_t, 2, 3>, uint32_t>(n, {2, 3}); break;
      case 6: b = Add<VectorRegister<uint64_t, 3>, uint64_t>(n, {3}); break;
      case 7: b = Add<VectorRegister<uint8_t, 8>, uint8_t>(n, {8}); break;
      default: b = Add<ReservedRegister<uint32_t>, uint32_t>(n, {1}, static_cast<SimpleResource*>(nullptr)); break;
    }
    b->line = sim.Pick(lines.size() + 1);
    int nd = 1 + sim.Pick(3);
    for (int i = 0; i < nd; i++) {
      int lat = (int)sim.Pick(3) == 0 ? 0 : sim.Chance(1, 40) ? 1 + sim.Pick(600) : 1 + sim.Pick(20);
      DataBufferDelayLine* dl = b->line == 0 ? nullptr : lines[b->line - 1];
      if (dl == nullptr && sim.Chance(1, 2)) dl = state->data_buffer_delay_line();
      b->dst.emplace_back(b->MakeDst(lat, dl, sim.Pick(2)));
      auto* d = b->dst.back().get();
      SIM_CHECK(sim, d->latency() == lat, "bad-latency", "operand latency %d, made with %d", d->latency(), lat);
      SIM_CHECK(sim, d->shape() == b->shape, "bad-shape", "destination shape differs");
    }
    sim.Log("reg %s elem %d count %d line %d dsts %d", n.c_str(), b->elem, b->count, b->line, nd);
    CheckReg(*b);
  }

  uint64_t Elem(const Bytes& v, int elem, int i) {
    uint64_t x = 0;
    memcpy(&x, &v[i * elem], elem);
    return x;
  }
  static int64_t Sext(uint64_t x, int elem) {
    int sh = 64 - 8 * elem;
    return static_cast<int64_t>(x << sh) >> sh;
  }

  void CheckReg(RegBox& b) {
    for (int k = 0; k < 2; k++) {
      auto* s = b.src[k].get();
      SIM_CHECK(sim, s->shape() == b.shape, "bad-shape", "source shape differs");
      int stride = b.count > 64 ? 97 : 1;
      for (int i = 0; i < b.count; i += stride) {
        uint64_t u = Elem(b.model, b.elem, i);
        int64_t v = Sext(u, b.elem);
        uint64_t z = b.is_signed ? (uint64_t)v : u;
        bool ok = s->AsUint64(i) == z && s->AsUint32(i) == (uint32_t)z && s->AsUint16(i) == (uint16_t)z &&
                  s->AsUint8(i) == (uint8_t)u && s->AsInt64(i) == v && s->AsInt32(i) == (int32_t)v &&
                  s->AsInt16(i) == (int16_t)v && s->AsInt8(i) == (int8_t)v && s->AsBool(i) == (u != 0);
        SIM_CHECK(sim, ok, "wrong-value", "cycle %lu %s[%d] reads 0x%lx, expected 0x%lx", (unsigned long)cycle,
                  b.name.c_str(), i, (unsigned long)s->AsUint64(i), (unsigned long)u);
      }
    }
  }
  void CheckAll() {
    for (auto& b : regs) CheckReg(*b);
    for (auto& h : held)
      SIM_CHECK(sim, memcmp(h.db->raw_ptr(), h.content.data(), h.content.size()) == 0, "held-changed",
                "a value still referenced changed (cycle %lu)", (unsigned long)cycle);
    for (auto& o : open)
      SIM_CHECK(sim, memcmp(o.db->raw_ptr(), o.content.data(), o.content.size()) == 0, "open-changed",
                "a buffer held by an instruction changed (cycle %lu)", (unsigned long)cycle);
  }

  template <typename T>
  void SetElem(DataBuffer* db, int i, uint64_t v) { db->Set<T>(i, static_cast<T>(v)); }
  void Modify(Open& o, int i, uint64_t v) {
    RegBox& b = *regs[o.reg];
    switch (b.elem) {
      case 1: SetElem<uint8_t>(o.db, i, v); break;
      case 2: SetElem<uint16_t>(o.db, i, v); break;
      case 4: SetElem<uint32_t>(o.db, i, v); break;
      default: SetElem<uint64_t>(o.db, i, v); break;
    }
    memcpy(&o.content[i * b.elem], &v, b.elem);
  }

  template <typename T>
  void SubmitWith(Open& o, int i, uint64_t v) {
    RegBox& b = *regs[o.reg];
    std::vector<T> all(b.count);
    memcpy(all.data(), o.content.data(), o.content.size());
    if (i >= 0) {
      all[i] = static_cast<T>(v);
      o.db->SetSubmit<T>(i, static_cast<T>(v));
    } else {
      for (auto& x : all) x = static_cast<T>(v = dst::Mix(v));
      o.db->SetSubmit<T>(absl::MakeConstSpan(all));
    }
    memcpy(o.content.data(), all.data(), o.content.size());
  }

  void Land(int reg, int lat, const Bytes& c) {
    sim.Log("submit %s latency %d value %lx", regs[reg]->name.c_str(), lat, (unsigned long)Elem(c, regs[reg]->elem, 0));
    if (lat == 0) regs[reg]->model = c;
    else due[cycle + lat].emplace_back(reg, c);
  }

  void SubmitOpen(size_t k) {
    Open o = open[k];
    open.erase(open.begin() + k);
    RegBox& b = *regs[o.reg];
    int lat = b.dst[o.dst]->latency();
    // Fan-out: one more reference, a second destination of the same size.
    if (sim.Chance(1, 6)) {
      for (size_t r = 0; r < regs.size(); r++) {
        if ((int)r == o.reg || regs[r]->model.size() != o.content.size() || regs[r]->dst.empty()) continue;
        sim.Probe("fan-out");
        o.db->IncRef();
        int d2 = sim.Pick(regs[r]->dst.size());
        regs[r]->dst[d2]->InitializeDataBuffer(o.db);
        Land((int)r, regs[r]->dst[d2]->latency(), o.content);
        o.db->Submit();
        b.dst[o.dst]->InitializeDataBuffer(o.db);
        break;
      }
      Land(o.reg, lat, o.content);
      o.db->Submit();
      return;
    }
    switch (sim.Pick(4)) {
      case 0: o.db->Submit(); break;
      case 1: lat = sim.Chance(1, 30) ? sim.Pick(2000) : sim.Pick(40); o.db->Submit(lat); break;
      case 2: case 3: {
        int i = sim.Chance(1, 2) ? (int)sim.Pick(b.count) : -1;
        uint64_t v = sim.Bits();
        switch (b.elem) {
          case 1: SubmitWith<uint8_t>(o, i, v); break;
          case 2: SubmitWith<uint16_t>(o, i, v); break;
          case 4: SubmitWith<uint32_t>(o, i, v); break;
          default: SubmitWith<uint64_t>(o, i, v); break;
        }
      }
    }
    Land(o.reg, lat, o.content);
  }

  void NewOpen() {
    Open o;
    o.reg = sim.Pick(regs.size());
    RegBox& b = *regs[o.reg];
    o.dst = sim.Pick(b.dst.size());
    auto* d = b.dst[o.dst].get();
    if (sim.Chance(1, 2)) {
      sim.Log("copy %s", b.name.c_str());
      o.db = d->CopyDataBuffer();
      o.content = b.model;
    } else {
      sim.Log("allocate %s", b.name.c_str());
      o.db = d->AllocateDataBuffer();
      o.content.assign(b.model.size(), 0);
      SIM_CHECK(sim, o.db->size<uint8_t>() == (int)b.model.size(), "bad-buffer-size", "buffer of %d bytes for %s",
                o.db->size<uint8_t>(), b.name.c_str());
      uint64_t x = sim.Bits();
      for (int i = 0; i < b.count; i++) Modify(o, i, b.count > 8 ? x = dst::Mix(x) : sim.Bits());
    }
    open.push_back(o);
  }

  // A deferred function (an instruction completing) writes a register through
  // the default delay line.
  void WriteFrom(int r, int d) {
    RegBox& b = *regs[r];
    DestinationOperandInterface* op = b.dst[d].get();
    DataBuffer* db = op->CopyDataBuffer();
    SIM_CHECK(sim, memcmp(db->raw_ptr(), b.model.data(), b.model.size()) == 0, "copy", "cycle %lu: copy of %s taken by a function differs from its value",
              (unsigned long)cycle, b.name.c_str());
    Open o{db, r, d, b.model};
    Modify(o, 0, dst::Mix(cycle * 31 + r));
    Land(r, op->latency(), o.content);
    db->Submit();
    sim.Probe("write-from-function");
  }
  // Many writes landing in one cycle.
  void Burst() {
    std::vector<int> c;
    for (size_t i = 0; i < regs.size(); i++) if (regs[i]->count <= 8) c.push_back(i);
    if (c.empty()) return;
    int lat = 1 + sim.Pick(20), n = 260 + sim.Pick(60);
    uint64_t x = sim.Bits();
    for (int k = 0; k < n; k++) {
      RegBox& b = *regs[c[k % c.size()]];
      DataBuffer* db = b.dst[0]->AllocateDataBuffer();
      Open o{db, c[k % (int)c.size()], 0, Bytes(b.model.size())};
      for (int i = 0; i < b.count; i++) Modify(o, i, x = dst::Mix(x));
      due[cycle + lat].emplace_back(o.reg, o.content);
      db->Submit(lat);
    }
    sim.Log("burst of %d writes, latency %d", n, lat);
    sim.Probe("burst");
  }

  void Advance() {
    cycle++;
    sim.AdvanceTime(1);
    auto it = due.find(cycle);
    if (it != due.end()) {
      std::map<int, int> per;
      for (auto& p : it->second) {
        regs[p.first]->model = p.second;
        if (++per[p.first] > 1) sim.Probe("same-cycle-writes");
      }
      due.erase(it);
    }
    fired.clear();
    int before = counting;
    state->AdvanceDelayLines();
    SIM_CHECK(sim, counting == before + 1, "line-advance-count", "registered delay line advanced %d times", counting - before);
    SIM_CHECK(sim, state->cycle() == cycle, "bad-cycle", "cycle() is %lu, expected %lu", (unsigned long)state->cycle(), (unsigned long)cycle);
    std::vector<int> want;
    auto f = fdue.find(cycle);
    if (f != fdue.end()) { want = f->second; fdue.erase(f); }
    SIM_CHECK(sim, fired == want, "function-line", "%d functions ran at cycle %lu, expected %d", (int)fired.size(),
              (unsigned long)cycle, (int)want.size());
  }
};

}  // namespace

void RunOne(dst::Sim& sim) {
  auto w = std::make_unique<World>(sim);
  sim.set_max_steps(20 + sim.Pick(120));
  w->state = std::make_unique<SimArchState>("sim");
  w->state->CreateAndAddDelayLine<CountingLine>(&w->counting);
  int nl = sim.Pick(3);
  for (int i = 0; i < nl; i++) {
    w->lines.push_back(sim.Chance(1, 2) ? w->state->CreateAndAddDelayLine<DataBufferDelayLine>()
                                        : w->state->CreateAndAddDelayLine<DataBufferDelayLine>((uint32_t)sim.Pick(20)));
  }
  int nr = 1 + sim.Pick(5);
  for (int i = 0; i < nr; i++) w->AddRandomReg();
  int writes = 0;
  bool burst = sim.Chance(1, 40);
  while (sim.Step()) {
    if (burst && sim.Chance(1, 10)) { w->Burst(); burst = false; }
    switch (sim.Weighted({6, 3, 8, 6, 1, 1, 2, 1})) {
      case 0: if (w->open.size() < 4) w->NewOpen(); break;
      case 1:
        if (!w->open.empty()) {
          Open& o = w->open[sim.Pick(w->open.size())];
          w->Modify(o, sim.Pick(w->regs[o.reg]->count), sim.Bits());
        }
        break;
      case 2: if (!w->open.empty()) { w->SubmitOpen(sim.Pick(w->open.size())); writes++; } break;
      case 3: w->Advance(); break;
      case 4: { int n = 1 + sim.Pick(20); for (int i = 0; i < n; i++) { w->Advance(); w->CheckAll(); } break; }
      case 5:  // someone keeps the current value, or lets one go
        if (w->held.size() < 4) {
          auto& b = *w->regs[sim.Pick(w->regs.size())];
          DataBuffer* db = b.reg->data_buffer();
          db->IncRef();
          w->held.push_back({db, b.model});
          sim.Log("hold value of %s", b.name.c_str());
        } else {
          size_t k = sim.Pick(w->held.size());
          w->held[k].db->DecRef();
          w->held.erase(w->held.begin() + k);
          sim.Log("drop held value");
        }
        break;
      case 6: {  // deferred function
        int id = w->fid++;
        int lat = 1 + sim.Pick(20);
        World* wp = w.get();
        int wr = -1, wd = 0;
        if (sim.Chance(1, 3)) {
          wr = sim.Pick(w->regs.size());
          if (w->regs[wr]->line != 0) wr = -1; else wd = sim.Pick(w->regs[wr]->dst.size());
        }
        w->state->function_delay_line()->Add(lat, [wp, id, wr, wd]() {
          wp->fired.push_back(id);
          if (wr >= 0) wp->WriteFrom(wr, wd);
        });
        w->fdue[w->cycle + lat].push_back(id);
        break;
      }
      default:
        if (!w->open.empty() && sim.Chance(1, 2)) {  // instruction squashed
          size_t k = sim.Pick(w->open.size());
          w->open[k].db->DecRef();
          w->open.erase(w->open.begin() + k);
          sim.Fault("squashed-write");
        } else if (w->regs.size() < 8) {
          w->AddRandomReg();
        }
    }
    w->CheckAll();
    uint64_t h = w->due.size() * 31 + w->open.size() * 7 + w->held.size();
    int inflight = 0;
    for (auto& d : w->due) inflight += d.second.size();
    sim.State(dst::Mix(h) ^ dst::Mix(inflight) ^ w->regs.size());
  }
  if (writes >= 2 && w->cycle > 0) sim.NonTrivial();
  for (auto& o : w->open) o.db->DecRef();
  for (auto& h : w->held) h.db->DecRef();
  if (!w->due.empty()) {
    if (sim.Chance(1, 3)) {
      sim.Fault("teardown-with-writes-in-flight");
    } else {
      w->open.clear();
      w->held.clear();
      for (int i = 0; i < 2200 && !w->due.empty(); i++) { w->Advance(); w->CheckAll(); }
    }
  }
  w->state.reset();
}
