// C26: UART. Real code: SimpleUart, Instruction, function delay line. Stubs:
// clients, output sink that may reject bytes.
#include <ostream>
#include <streambuf>

#include "mem_world.h"
#include "mpact/sim/util/other/simple_uart.h"

using namespace mpact::sim::util;
const char* const kHarnessProperty = "C26";
const bool kHarnessChecksLeaks = true;

namespace {
struct Sink : public std::streambuf {
  std::string got;
  int fail_after = -1;   // accept this many more bytes, then reject
  bool failed = false;
  int overflow(int c) override {
    if (c == EOF) return 0;
    if (fail_after == 0) { failed = true; return EOF; }
    if (fail_after > 0) fail_after--;
    got.push_back((char)c);
    return (unsigned char)c;
  }
  int sync() override { return fail_after == 0 ? (failed = true, -1) : 0; }
};
struct UartWorld : public memw::World {
  using World::World;
  Sink sink;
  std::ostream out{&sink};
  std::unique_ptr<SimpleUart> uart;
  uint32_t lcr = 0, dl = 0, dh = 0, ie = 0, scratch = 0;
  std::string want;
  int sent = 0;
  bool dlab() const { return lcr & 0x80; }
  uint32_t Reg(uint32_t off) const {
    switch (off) {
      case 0: return dlab() ? dl : 0;
      case 4: return dlab() ? dh : ie;
      case 0xc: return lcr;
      case 0x1c: return scratch;
    }
    return 0;
  }
  bool Odd(const memw::Access& a) const { return (a.address & 3) || (a.size & 3); }
  bool Shape(memw::Access& a) override {
    static const int kOff[] = {0, 0, 0, 4, 4, 8, 0xc, 0xc, 0x10, 0x14, 0x18, 0x1c, 0x20, 0xfffc, 0x40, 0x7c};
    uint64_t base = sim.Pick(3) ? 0 : sim.Pick(2) ? 0x1000'0000 : 0xffff'ffff'fff0'0000ull;
    a.address = base + kOff[sim.Pick(16)];
    a.size = sim.Pick(4) ? 4 : 4 * sim.Range(1, 9);
    if (sim.Chance(1, 12)) { a.address += sim.Range(1, 3); sim.Fault("misaligned"); }
    if (sim.Chance(1, 12)) { a.size = sim.Range(1, 15); if (a.size & 3) sim.Fault("odd-size"); }
    if (a.size > 4) sim.Probe("several-registers");
    a.elems.push_back({a.address, a.size, 0});
    return true;
  }
  std::vector<uint8_t> Expect(const memw::Access& a, const std::vector<uint8_t>& before) override {
    std::vector<uint8_t> v(before.size(), 0);
    if (!Odd(a))
      for (int i = 0; i < a.size / 4; i++) { uint32_t r = Reg((a.address & 0xffff) + i * 4); std::memcpy(&v[i * 4], &r, 4); }
    return v;
  }
  void Write() {
    memw::Access a;
    a.store = true;
    Shape(a);
    a.data.resize(a.size);
    FillRandom(a.data);
    bool lc = (a.address & 0xffff) == 0xc;
    if (lc && sim.Pick(2)) a.data[0] &= 0x7f;   // keep the latch off often enough
    if (sim.Pick(6) == 0) a.data[0] = '\n';
    sink.fail_after = sim.Chance(1, 10) ? sim.Pick(3) : -1;
    sink.failed = false;
    size_t before = want.size();
    if (!Odd(a))
      for (int i = 0; i < a.size / 4; i++) {
        uint32_t v;
        std::memcpy(&v, &a.data[i * 4], 4);
        switch ((a.address & 0xffff) + i * 4) {
          case 0: if (dlab()) { dl = v; sim.Probe("divisor-latch"); } else want.push_back((char)v); break;
          case 4: (dlab() ? dh : ie) = v; break;
          case 0xc: lcr = v; break;
          case 0x1c: scratch = v; break;
        }
      }
    else sim.Probe("ignored-store");
    DataBuffer* db = Buf(a.size);
    std::memcpy(db->raw_ptr(), a.data.data(), a.size);
    sim.Log("%s, latch %s, sink fails after %d", Describe(a).c_str(), dlab() ? "on" : "off", sink.fail_after);
    uart->Store(a.address, db);
    db->DecRef();
    stores++;
    if (sink.failed) {
      // The stream reported a failure: what was accepted is a part of what was
      // sent, in order; then start afresh.
      sim.Fault("output-fails");
      std::string sent_now = want.substr(before), got_now = sink.got.substr(before);
      size_t j = 0;
      for (char c : got_now) {
        while (j < sent_now.size() && sent_now[j] != c) j++;
        SIM_CHECK(sim, j < sent_now.size(), "output", "the sink received byte %02x that was not transmitted", (unsigned char)c);
        j++;
      }
      want = sink.got;
      out.clear();
    }
    sink.fail_after = -1;
    CheckOut();
    sent = want.size();
  }
  void CheckOut() {
    SIM_CHECK(sim, sink.got.size() == want.size(), "output", "%zu bytes reached the output, expected %zu", sink.got.size(), want.size());
    SIM_CHECK(sim, sink.got == want, "output", "the output differs from what was transmitted (last byte %02x, expected %02x)", (unsigned char)sink.got.back(), (unsigned char)want.back());
  }
};
}  // namespace

void RunOne(dst::Sim& sim) {
  UartWorld w(sim);
  // Registers that were never written read zero whatever the storage held.
  void* mem = ::operator new(sizeof(SimpleUart));
  std::memset(mem, 0xa5, sizeof(SimpleUart));
  struct Free { void operator()(SimpleUart* u) const { u->~SimpleUart(); ::operator delete(u); } };
  std::unique_ptr<SimpleUart, Free> uart(new (mem) SimpleUart(w.state.get(), w.out));
  w.uart.reset(uart.get());
  w.mem = uart.get();
  w.windows = {{0, 64}};
  sim.set_max_steps(sim.Range(6, 70));
  while (sim.Step()) {
    switch (sim.Weighted({6, 5, 3})) {
      case 0: w.Write(); break;
      case 1: w.Load(false, false); break;
      case 2: w.Advance(); break;
    }
    w.CheckOut();
    sim.State(dst::Mix(w.lcr) ^ dst::Mix(w.dl * 3) ^ dst::Mix(w.ie * 5) ^ w.want.size() << 4 ^ w.pend.size());
  }
  if (w.sent >= 1 && w.loads >= 1) sim.NonTrivial();
  w.Drain();
  w.uart.release();
}
