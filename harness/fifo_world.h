// Shared by C06 (Fifo), C07 (TokenFifo) and C08 (FifoWithNotify): the real FIFO
// on a real ArchState with delayed pushes, against a queue model.
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "arch_world.h"
#include "mpact/sim/generic/fifo.h"
#include "mpact/sim/generic/fifo_with_notify.h"
#include "mpact/sim/generic/program_error.h"
#include "mpact/sim/generic/token_fifo.h"

using namespace mpact::sim::generic;
const bool kHarnessChecksLeaks = true;

namespace {
using Value = std::vector<uint8_t>;

struct Box {
  std::unique_ptr<FifoBase> f;
  FifoWithNotifyBase* n = nullptr;
  std::string name;
  int elt = 4, count = 1;
  bool sgn = false;
  std::vector<std::unique_ptr<DestinationOperandInterface>> dst;
  std::unique_ptr<SourceOperandInterface> src;
  bool ov = false, un = false;
  int ov_raised = 0, un_raised = 0;
  std::string ov_name, un_name;   // of the errors to raise now
  // model
  std::deque<Value> q;
  unsigned cap = 0, res = 0;
  int store = -1;
  // notifications: 0 none expected, 1 not-empty expected, 2 empty expected
  int expect = 0;
  bool cb_ne = false, cb_e = false;
  int gen_ne = 0, gen_e = 0;   // which of the callbacks given so far is the current one
};
struct Store {
  std::unique_ptr<FifoTokenStore> s;
  unsigned total, avail;
};
struct Open {
  DataBuffer* db;
  int box;
  int latency;
  Value v;
};

struct World {
  dst::Sim& sim;
  std::unique_ptr<SimArchState> state;
  ProgramErrorController ctl{"sim"};
  std::vector<Store> stores;
  std::vector<Box> boxes;
  std::vector<Open> open;
  std::map<uint64_t, std::vector<Open>> due;
  uint64_t cycle = 0;
  uint64_t serial = 1;
  int depth = 0, pushes = 0, pops = 0;
  bool dying = false;
  explicit World(dst::Sim& s) : sim(s) {}

  Value Fresh(Box& b) {
    Value v(b.elt * b.count);
    uint64_t x = dst::Mix(serial++);
    for (auto& c : v) { c = x; x = x * 0x2545F4914F6CDD1Dull + 0x9E37; x = (x >> 7) | (x << 57); }
    return v;
  }
  void Fill(DataBuffer* db, const Value& v) { memcpy(db->raw_ptr(), v.data(), v.size()); }

  // ---- model ----
  bool Full(Box& b) {
    if (b.q.size() + b.res >= b.cap) return true;
    if (b.store < 0) return false;
    unsigned av = stores[b.store].avail;
    return av == 0 || b.res >= av;
  }
  // Returns whether the push is to be accepted.
  bool ModelPush(Box& b, const Value& v) {
    bool had_res = b.res > 0;
    bool no_token = b.store >= 0 && stores[b.store].avail == 0;
    if (b.res > 0) b.res--;
    if (no_token || Full(b)) {
      // A push refused for want of a token may leave the reservation in place.
      if (had_res && b.store >= 0) resync_ = &b;
      sim.Fault("refused-push");
      return false;
    }
    if (b.q.empty() && b.n) { b.expect = 1; if (had_res) sim.Probe("not-empty-with-reservation"); }
    b.q.push_back(v);
    if (b.store >= 0) stores[b.store].avail--;
    return true;
  }
  bool ModelPop(Box& b) {
    if (b.q.empty()) {
      sim.Fault("pop-empty");
      if (b.res) sim.Probe("pop-empty-with-reservation");
      return false;
    }
    b.q.pop_front();
    if (b.store >= 0) stores[b.store].avail++;
    if (b.q.empty() && b.n) { b.expect = 2; if (b.res) sim.Probe("emptied-with-reservation"); }
    return true;
  }
  Box* resync_ = nullptr;
  void Resync(Box& b) {
    if (resync_ != &b) return;
    if (b.f->Reserved() == b.res + 1) b.res++;
    resync_ = nullptr;
  }

  int errors_ = 0;
  void SetError(Box& b, bool over, bool on) {
    bool& has = over ? b.ov : b.un;
    std::unique_ptr<ProgramError> e;
    if (on) {
      std::string name = b.name + (over ? ".ov" : ".un") + (has || errors_ > 0 ? std::to_string(errors_) : "");
      errors_++;
      ctl.AddProgramErrorName(name);
      e = ctl.GetProgramError(name);
      (over ? b.ov_name : b.un_name) = name;
      (over ? b.ov_raised : b.un_raised) = 0;
      if (has) sim.Probe("error-replaced");
    }
    if (over) b.f->SetOverflowProgramError(&e); else b.f->SetUnderflowProgramError(&e);
    has = on;
  }
  int Raised(Box& b, const char* which) {
    return (int)ctl.GetErrorMessages(which[1] == 'o' ? b.ov_name : b.un_name).size();
  }
  void CheckErrors(Box& b, const char* what) {
    if (b.ov) {
      int r = Raised(b, ".ov");
      SIM_CHECK(sim, r == b.ov_raised, "overflow-error", "%s on %s: overflow raised %d times in all, expected %d", what, b.name.c_str(), r, b.ov_raised);
    }
    if (b.un) {
      int r = Raised(b, ".un");
      SIM_CHECK(sim, r == b.un_raised, "underflow-error", "%s on %s: underflow raised %d times in all, expected %d", what, b.name.c_str(), r, b.un_raised);
    }
  }
  void Settle(Box& b, const char* what) {
    if (b.expect == 1 && b.cb_ne) sim.Violation("missing-notification", "%s: not-empty callback of %s was not called", what, b.name.c_str());
    if (b.expect == 2 && b.cb_e) sim.Violation("missing-notification", "%s: empty callback of %s was not called", what, b.name.c_str());
    b.expect = 0;
  }
  void CheckBox(Box& b, const char* what, bool look = true) {
    Resync(b);
    if (!look) return;
    SIM_CHECK(sim, b.f->Available() == b.q.size(), "available", "%s: %s holds %u values, model %zu", what, b.name.c_str(), b.f->Available(), b.q.size());
    SIM_CHECK(sim, b.f->Reserved() == b.res, "reserved", "%s: %s has %u reservations, model %u", what, b.name.c_str(), b.f->Reserved(), b.res);
    SIM_CHECK(sim, b.f->Capacity() == b.cap, "capacity", "%s: capacity of %s is %u, configured %u", what, b.name.c_str(), b.f->Capacity(), b.cap);
    SIM_CHECK(sim, b.f->IsFull() == Full(b), "is-full", "%s: %s reports %sfull (stored %zu reserved %u capacity %u)", what, b.name.c_str(), b.f->IsFull() ? "" : "not ", b.q.size(), b.res, b.cap);
    {
      SIM_CHECK(sim, b.f->IsEmpty() == (b.q.empty() && b.res == 0), "is-empty", "%s: %s reports %sempty (stored %zu reserved %u)", what, b.name.c_str(), b.f->IsEmpty() ? "" : "not ", b.q.size(), b.res);
      SIM_CHECK(sim, b.f->IsOverSubscribed() == (b.q.size() + b.res > b.cap || (b.store >= 0 && b.res > stores[b.store].avail)), "oversubscribed", "%s: %s IsOverSubscribed()=%d (stored %zu reserved %u capacity %u)", what, b.name.c_str(), b.f->IsOverSubscribed(), b.q.size(), b.res, b.cap);
    }
    if (!b.q.empty()) {
      DataBuffer* db = b.f->Front();
      SIM_CHECK(sim, db != nullptr, "front", "%s: front of %s is null with %zu stored", what, b.name.c_str(), b.q.size());
      SIM_CHECK(sim, db->ref_count() >= 1 && memcmp(db->raw_ptr(), b.q.front().data(), b.q.front().size()) == 0, "front",
                "%s: front of %s is not the oldest undelivered value (refs %d)", what, b.name.c_str(), db->ref_count());
    }
    CheckErrors(b, what);
  }
  void CheckStores(const char* what) {
    for (size_t i = 0; i < stores.size(); i++) {
      unsigned held = 0;
      for (auto& b : boxes) if (b.store == (int)i) held += b.f->Available();
      unsigned av = stores[i].s->available();
      SIM_CHECK(sim, av + held == stores[i].total, "token-conservation", "%s: store %zu has %u tokens left and its FIFOs hold %u values, started with %u",
                what, i, av, held, stores[i].total);
      SIM_CHECK(sim, av == stores[i].avail && stores[i].s->capacity() == stores[i].total, "token-count", "%s: store %zu has %u tokens, model %u", what, i, av, stores[i].avail);
    }
  }
  int observe_every = 1;  // Looking must not be what keeps the state right.
  void CheckAll(const char* what, bool must = false) {
    bool look = must || observe_every == 1 || sim.Pick(observe_every) == 0;
    for (auto& b : boxes) { Settle(b, what); CheckBox(b, what, look); }
    if (look) CheckStores(what);
  }

  // ---- operations (also from inside notification callbacks) ----
  void Push(Box& b, DataBuffer* db, const Value& v, bool set_db) {
    bool want = ModelPush(b, v);
    if (!want) b.ov_raised++;
    int before = db->ref_count();
    bool got = want;
    pushes++;
    sim.Log("push %s -> %s", b.name.c_str(), want ? "accepted" : "refused");
    if (set_db) b.f->SetDataBuffer(db); else got = b.f->Push(db);
    Resync(b);
    SIM_CHECK(sim, got == want, "push-result", "push on %s %s; stored %zu reserved %u capacity %u", b.name.c_str(), got ? "accepted" : "refused", b.q.size(), b.res, b.cap);
    if (!want || nested_ == 0)
      SIM_CHECK(sim, db->ref_count() == before + (want ? 1 : 0), "reference", "push on %s changed the buffer's reference count from %d to %d", b.name.c_str(), before, db->ref_count());
    Settle(b, "push");
  }
  void Pop(Box& b) {
    bool ok = ModelPop(b);
    if (!ok) b.un_raised++;
    pops++;
    sim.Log("pop %s%s", b.name.c_str(), ok ? "" : " (empty)");
    b.f->Pop();
    Settle(b, "pop");
  }
  int nested_ = 0;
  void OnCallback(int i, FifoWithNotifyBase* f, int kind, int gen) {
    Box& b = boxes[i];
    SIM_CHECK(sim, gen == (kind == 1 ? b.gen_ne : b.gen_e), "stale-callback", "%s called the %s callback that was replaced", b.name.c_str(), kind == 1 ? "not-empty" : "empty");
    SIM_CHECK(sim, !dying, "spurious-notification", "callback of %s during destruction", b.name.c_str());
    SIM_CHECK(sim, f == b.n, "notification-sender", "callback of %s called with another fifo", b.name.c_str());
    SIM_CHECK(sim, b.expect == kind, "spurious-notification", "%s callback of %s called without such a transition (stored %zu reserved %u)",
              kind == 1 ? "not-empty" : "empty", b.name.c_str(), b.q.size(), b.res);
    b.expect = 0;
    SIM_CHECK(sim, b.f->Available() == b.q.size(), "notification-state", "callback of %s sees %u values, model %zu", b.name.c_str(), b.f->Available(), b.q.size());
    sim.Log("callback %s %s", kind == 1 ? "not-empty" : "empty", b.name.c_str());
    nested_++;
    if (depth < 3 && sim.Chance(1, 3)) {
      depth++;
      sim.Probe("operation-from-callback");
      Box& t = boxes[sim.Pick(boxes.size())];
      switch (sim.Pick(3)) {
        case 0: Pop(t); break;
        case 1: {
          DataBuffer* db = state->db_factory()->Allocate(t.f->size());
          Value v = Fresh(t);
          Fill(db, v);
          Push(t, db, v, sim.Pick(2));
          db->DecRef();
          break;
        }
        case 2: t.f->Reserve(1); t.res++; sim.Log("reserve %s", t.name.c_str()); break;
      }
      depth--;
    }
    if (depth == 0 && !landing_.empty()) LandUntilCallback();
  }
  void SetCallback(int i, int kind, bool on) {
    Box& b = boxes[i];
    int gen = kind == 1 ? ++b.gen_ne : ++b.gen_e;
    FifoWithNotifyBase::OnEventCallback cb;
    if (on) cb = [this, i, kind, gen](FifoWithNotifyBase* f) { OnCallback(i, f, kind, gen); };
    else if (sim.Pick(2)) cb = nullptr;
    if (kind == 1) { b.n->SetOnNotEmpty(std::move(cb)); b.cb_ne = on; } else { b.n->SetOnEmpty(std::move(cb)); b.cb_e = on; }
  }
  void Register(int i) {
    Box& b = boxes[i];
    int kind = sim.Range(1, 2);
    bool had = kind == 1 ? b.cb_ne : b.cb_e;
    bool on = had ? sim.Chance(1, 2) : true;
    if (had && on) sim.Probe("callback-replaced");
    SetCallback(i, kind, on);
    sim.Log("callbacks of %s: not-empty=%d empty=%d", b.name.c_str(), b.cb_ne, b.cb_e);
  }

  template <template <typename> class F, typename T>
  void Make(Box& b, unsigned cap, FifoTokenStore* ts) {
    b.elt = sizeof(T);
    b.sgn = std::is_signed<T>::value;
    if constexpr (std::is_base_of<TokenFifoBase, F<T>>::value) {
      auto f = std::make_unique<F<T>>(state.get(), b.name, cap, ts);
      Ops(b, f.get());
      b.f = std::move(f);
    } else {
      auto f = std::make_unique<F<T>>(state.get(), b.name, cap);
      if constexpr (std::is_base_of<FifoWithNotifyBase, F<T>>::value) b.n = f.get();
      Ops(b, f.get());
      b.f = std::move(f);
    }
  }
  template <typename F>
  void Ops(Box& b, F* f) {
    int n = sim.Range(1, 3);
    for (int i = 0; i < n; i++) b.dst.emplace_back(f->CreateDestinationOperand(sim.Chance(1, 4) ? 0 : sim.Chance(1, 20) ? sim.Range(10, 300) : sim.Range(1, 9)));
    b.src.reset(f->CreateSourceOperand());
  }
  template <template <typename> class F>
  void MakeAny(Box& b, unsigned cap, FifoTokenStore* ts) {
    switch (sim.Pick(4)) {
      case 0: Make<F, uint32_t>(b, cap, ts); break;
      case 1: Make<F, int8_t>(b, cap, ts); break;
      case 2: Make<F, uint64_t>(b, cap, ts); break;
      case 3: Make<F, int16_t>(b, cap, ts); break;
    }
  }

  void ReadOperand(Box& b) {
    int i = sim.Pick(b.count);
    bool empty = b.q.empty();
    int64_t s = 0;
    uint64_t u = 0;
    if (!empty) {
      memcpy(&u, b.q.front().data() + i * b.elt, b.elt);
      int sh = 64 - 8 * b.elt;
      s = (int64_t)(u << sh) >> sh;
    } else {
      b.un_raised++;
      sim.Fault("read-empty");
    }
    bool wide_signed = false;
    uint64_t got = 0, want = 0;
    switch (sim.Pick(10)) {
      case 6: got = b.src->AsBool(i); want = u != 0; break;
      case 7: got = b.src->AsUint8(i); want = (uint8_t)u; break;
      case 8: got = (uint64_t)(int64_t)b.src->AsInt16(i); want = (uint64_t)(int64_t)(int16_t)s; break;
      case 9: got = (uint64_t)(int64_t)b.src->AsInt32(i); want = (uint64_t)(int64_t)(int32_t)s; break;
      case 0: got = b.src->AsUint64(i); want = u; break;
      case 1: got = b.src->AsInt64(i); want = s; wide_signed = true; break;
      case 2: got = b.src->AsUint32(i); want = (uint32_t)u; break;
      case 3: got = (uint64_t)(int64_t)b.src->AsInt8(i); want = (uint64_t)(int64_t)(int8_t)u; break;
      case 4: got = b.src->AsUint16(i); want = (uint16_t)u; break;
      case 5: {
        DataBuffer* db = b.f->Front();
        got = db == nullptr; want = empty;
        break;
      }
    }
    SIM_CHECK(sim, got == want, "operand-read", "read of %s%s gives %lx, expected %lx", b.name.c_str(), empty ? " (empty)" : "", (unsigned long)got, (unsigned long)want);
    sim.Log("read %s %s", b.name.c_str(), empty ? "empty" : "value");
    b.src->shape();
  }

  void Run(int kind) {
    state = std::make_unique<SimArchState>("arch");
    bool big = sim.Chance(1, 40);
    static const unsigned bigs[] = {128, 256, 300, 65536};
    if (big) sim.Probe("large-capacity");
    if (sim.Chance(1, 3)) { observe_every = 2 + sim.Pick(10); sim.Probe("rarely-observed"); }
    int ns = kind == 7 ? sim.Range(1, 2) : 0;
    for (int i = 0; i < ns; i++) {
      unsigned t = sim.Chance(1, 10) ? 0 : sim.Range(1, 7);
      if (big) t = bigs[sim.Pick(4)] + sim.Pick(3) - 1;
      stores.push_back({std::make_unique<FifoTokenStore>(t), t, t});
    }
    int nf = kind == 7 ? sim.Range(1, 4) : sim.Range(1, 3);
    boxes.resize(nf);
    for (int i = 0; i < nf; i++) {
      Box& b = boxes[i];
      b.name = "f" + std::to_string(i);
      b.cap = sim.Chance(1, 16) ? 0 : sim.Range(1, sim.Chance(1, 4) ? 20 : 5);
      if (big) b.cap = bigs[sim.Pick(4)] + sim.Pick(3) - 1;
      if (kind == 7) {
        b.store = sim.Pick(ns);
        MakeAny<TokenFifo>(b, b.cap, stores[b.store].s.get());
      } else if (kind == 8) {
        MakeAny<FifoWithNotify>(b, b.cap, nullptr);
      } else if (sim.Chance(1, 8)) {
        b.elt = 2; b.count = 15;
        auto f = std::make_unique<MatrixFifo<uint16_t, 3, 5>>(state.get(), b.name, b.cap);
        Ops(b, f.get());
        b.f = std::move(f);
      } else if (sim.Chance(1, 4)) {
        b.elt = 4; b.count = 8;
        auto f = std::make_unique<VectorFifo<uint32_t, 8>>(state.get(), b.name, b.cap);
        Ops(b, f.get());
        b.f = std::move(f);
      } else {
        MakeAny<Fifo>(b, b.cap, nullptr);
      }
      if (sim.Chance(3, 4)) SetError(b, true, true);
      if (sim.Chance(3, 4)) SetError(b, false, true);
      sim.Log("fifo %s capacity %u element %dx%d store %d", b.name.c_str(), b.cap, b.elt, b.count, b.store);
    }
    if (kind == 8)
      for (int i = 0; i < nf; i++) for (int k = 0; k < 2; k++) if (sim.Chance(7, 8)) {
        SetCallback(i, 1 + k, true);
      }
    CheckAll("start");
    unsigned rw = sim.Pick(3), pw = sim.Range(2, 8);
    sim.set_max_steps(sim.Range(8, 120));
    while (sim.Step()) {
      Box& b = boxes[sim.Pick(boxes.size())];
      nested_ = 0;
      const char* what = "step";
      switch (sim.Weighted({5, 4, rw, pw, 2, 5, 3, kind == 8 ? 2u : 0u, 1, big ? 4u : 1u, 1})) {
        case 0: {  // direct push, sometimes of one buffer into two FIFOs
          what = "push";
          DataBuffer* db = state->db_factory()->Allocate(b.f->size());
          Value v = Fresh(b);
          Fill(db, v);
          Push(b, db, v, sim.Chance(1, 4));
          Box& o = boxes[sim.Pick(boxes.size())];
          if (o.f->size() == b.f->size() && sim.Chance(1, 4)) { nested_ = 1; sim.Probe("buffer-in-two-fifos"); Push(o, db, v, false); }
          db->DecRef();
          break;
        }
        case 1: {  // operand: allocate a buffer for a (delayed) push
          what = "allocate";
          auto& d = b.dst[sim.Pick(b.dst.size())];
          DataBuffer* db = d->AllocateDataBuffer();
          SIM_CHECK(sim, db != nullptr && db->ref_count() == 1, "allocate", "bad buffer from the destination operand of %s", b.name.c_str());
          SIM_CHECK(sim, d->CopyDataBuffer() == nullptr, "allocate", "a fifo destination operand offered a copy");
          Value v = Fresh(b);
          Fill(db, v);
          open.push_back({db, (int)(&b - &boxes[0]), d->latency(), v});
          break;
        }
        case 2: {
          what = "reserve";
          int n = sim.Chance(1, 30) ? 0 : sim.Range(1, 3);
          if (sim.Chance(1, big ? 4 : 60)) n = big && sim.Pick(2) ? sim.Range(65530, 65540) : sim.Range(250, 300);
          b.f->Reserve(n);
          b.res += n;
          sim.Log("reserve %s %d", b.name.c_str(), n);
          break;
        }
        case 3: what = "pop"; Pop(b); break;
        case 4: what = "read"; ReadOperand(b); break;
        case 5: {  // submit a pending buffer
          if (open.empty()) break;
          what = "submit";
          size_t k = sim.Pick(open.size());
          Open o = open[k];
          open.erase(open.begin() + k);
          Box& t = boxes[o.box];
          sim.Log("submit to %s latency %d", t.name.c_str(), o.latency);
          if (o.latency == 0) {
            if (!ModelPush(t, o.v)) t.ov_raised++;
            pushes++;
            o.db->Submit();
            Settle(t, what);
          } else {
            due[cycle + o.latency].push_back(o);
            o.db->Submit();
          }
          break;
        }
        case 6: {  // advance the clock
          what = "advance";
          int n = sim.Chance(1, 6) ? sim.Range(2, 6) : 1;
          for (int i = 0; i < n; i++) Advance();
          break;
        }
        case 10: {
          what = "set-error";
          bool over = sim.Pick(2), on = sim.Chance(3, 4);
          sim.Log("%s %s error of %s", on ? "set the" : "drop the", over ? "overflow" : "underflow", b.name.c_str());
          SetError(b, over, on);
          break;
        }
        case 7: what = "register"; Register(&b - &boxes[0]); break;
        case 8: {  // drop a buffer that was never submitted
          if (open.empty()) break;
          what = "squash";
          size_t k = sim.Pick(open.size());
          open[k].db->DecRef();
          open.erase(open.begin() + k);
          break;
        }
        case 9: {  // fill up, or drain
          if (big && sim.Pick(2)) {
            what = "fill";
            int n = sim.Pick(2) ? 300 : (int)b.cap + 2;
            for (int i = 0; i < n; i++) {
              DataBuffer* db = state->db_factory()->Allocate(b.f->size());
              Value v = Fresh(b);
              Fill(db, v);
              size_t had = b.q.size();
              Push(b, db, v, false);
              db->DecRef();
              if (b.q.size() == had && sim.Chance(1, 8)) break;
            }
            break;
          }
          what = "drain";
          int n = b.q.size();
          for (int i = 0; i < n && !b.q.empty(); i++) {
            DataBuffer* db = b.f->Front();
            SIM_CHECK(sim, db != nullptr && memcmp(db->raw_ptr(), b.q.front().data(), b.q.front().size()) == 0, "order", "drain of %s: value %d out of order", b.name.c_str(), i);
            Pop(b);
          }
          break;
        }
      }
      CheckAll(what);
      uint64_t h = kind;
      for (auto& x : boxes) h = dst::Mix(h ^ (x.q.size() * 31 + x.res * 7 + x.cap));
      for (auto& s : stores) h = dst::Mix(h ^ s.avail);
      sim.State(h);
    }
    CheckAll("end", true);
    if (pushes >= 2 && pops >= 1) sim.NonTrivial();
    if (!due.empty()) sim.Fault("teardown-with-pushes-in-flight");
    dying = true;
    for (auto& o : open) o.db->DecRef();
    open.clear();
    // Either the FIFOs or the machine (with its delay lines) goes first.
    for (auto& b : boxes) { b.dst.clear(); b.src.reset(); }
    if (kind == 6 && sim.Pick(2)) {
      while (!due.empty()) { dying = false; Advance(); }
      CheckAll("drain");
      dying = true;
    }
    for (auto& b : boxes) b.f.reset();
    boxes.clear();
    state.reset();
  }
  void Advance() {
    cycle++;
    sim.AdvanceTime(1);
    auto it = due.find(cycle);
    if (it == due.end()) {
      state->AdvanceDelayLines();
      return;
    }
    sim.Log("cycle %lu: %zu pushes land", (unsigned long)cycle, it->second.size());
    if (it->second.size() > 1) sim.Probe("pushes-landing-together");
    auto list = it->second;
    due.erase(it);
    if (boxes[0].n == nullptr) {
      for (auto& o : list) { pushes++; if (!ModelPush(boxes[o.box], o.v)) boxes[o.box].ov_raised++; if (resync_) token_res_.push_back(&boxes[o.box]), resync_ = nullptr; }
      state->AdvanceDelayLines();
      for (auto* b : token_res_) { unsigned r = b->f->Reserved(); if (r > b->res && r <= b->res + token_res_.size()) b->res = r; }
      token_res_.clear();
    } else {
      // With notifications the callbacks happen between landings of one cycle:
      // the model follows each landing as its callback (or the next) is seen.
      landing_ = list;
      land_pos_ = 0;
      LandUntilCallback();
      state->AdvanceDelayLines();
      while (land_pos_ < landing_.size()) { Flush(); LandUntilCallback(); }
      Flush();
      landing_.clear();
    }
  }
  std::vector<Box*> token_res_;
  std::vector<Open> landing_;
  size_t land_pos_ = 0;
  void Flush() { for (auto& b : boxes) Settle(b, "advance"); }
  // Applies landings to the model up to and including the first that must call back.
  void LandUntilCallback() {
    while (land_pos_ < landing_.size()) {
      Open& o = landing_[land_pos_++];
      Box& b = boxes[o.box];
      pushes++;
      if (!ModelPush(b, o.v)) b.ov_raised++;
      if (b.expect == 1) {
        if (b.cb_ne) return;
        b.expect = 0;
      }
    }
  }
};
}  // namespace

void RunOne(dst::Sim& sim) {
  World w(sim);
  w.Run(FIFO_KIND);
}
