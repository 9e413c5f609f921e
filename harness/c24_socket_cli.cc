// C24: the socket command line. Real code: SocketCLI and SocketStreambuf,
// preemptible at every basic block. Simulated: threads, sockets (any call may
// fail, come up short or be interrupted), the client, the owner and the shell.
#include <cerrno>
#include <istream>
#include <ostream>

#include "mpact/sim/util/renode/socket_cli.h"
#include "mpact/sim/util/renode/socket_streambuf.h"
#include "dst_sched.h"
#include "dst_socket.h"

using mpact::sim::generic::DebugCommandShellInterface;
using mpact::sim::util::renode::SocketCLI;
using mpact::sim::util::renode::SocketStreambuf;
const char* const kHarnessProperty = "C24";
const bool kHarnessChecksLeaks = true;

namespace dst { extern int g_threads_unjoined; }

namespace {
struct World;
struct Shell : public DebugCommandShellInterface {
  World& w;
  explicit Shell(World& x) : w(x) {}
  void AddCore(const CoreAccess&) override {}
  void AddCores(const std::vector<CoreAccess>&) override {}
  void AddCommand(absl::string_view, CommandFunction) override {}
  void Run(std::istream& is, std::ostream& os) override;
};

std::string Wire(const std::string& s) {   // as written to the socket
  std::string r;
  for (char c : s) { if (c == '\n') r += '\r'; r += c; }
  return r;
}
std::string Unwire(const std::string& s) {   // as the shell is to see it; the client sends CR only before LF
  std::string r;
  for (char c : s) if (c != '\r') r += c;
  return r;
}
std::string Show(const std::string& s) {
  std::string r;
  char b[8];
  for (size_t i = 0; i < s.size() && i < 60; ++i) {
    unsigned char c = s[i];
    if (c >= 32 && c < 127) r += c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
  }
  return r;
}

struct World {
  explicit World(dst::Sim& s) : sim(s), sched(s), net(s, sched) {}
  dst::Sim& sim;
  dst::Sched sched;
  dst::SockLayer net;
  // Callback as the owner sees it.
  int reports = 0;
  bool connected = false;
  bool cli_exists = false;
  // Shell.
  bool in_shell = false;
  bool shell_read_eof = false;
  std::string in;          // what the shell has read
  std::string out;         // what it wrote
  size_t tail = 0;         // last bytes of `out` whose write was reported as failed
  size_t mark = 0;         // wire bytes the CLI wrote before the shell ran
  dst::Conn* conn = nullptr;
  int serves = 0;
  int port = 5000;
  bool owner_done = false;

  void Check(bool final_check);
};

// Bytes between the shell and the connection it serves.
void World::Check(bool ended) {
  if (conn == nullptr) return;
  std::string got = conn->server_written.substr(mark);
  std::string all = Wire(out), sure = Wire(out.substr(0, out.size() - tail));
  if (got.size() > all.size() || all.compare(0, got.size(), got) != 0)
    sim.Violation("output-altered", "the shell wrote \"%s\", the client was sent \"%s\"", Show(all).c_str(), Show(got).c_str());
  if (got.size() < sure.size() && conn->write_errors == 0)
    sim.Violation("output-lost", "the shell wrote \"%s\" with success, the client was sent only \"%s\" and no write failed", Show(sure).c_str(), Show(got).c_str());
  std::string want = Unwire(conn->server_read);
  // The stream may hold one character it has read ahead.
  if (in.size() > want.size() || want.compare(0, in.size(), in) != 0 || want.size() - in.size() > 1)
    sim.Violation("input-altered", "the client sent \"%s\", the shell saw \"%s\"", Show(want).c_str(), Show(in).c_str());
  if (ended && shell_read_eof && conn->read_errors == 0 && want.size() != in.size())
    sim.Violation("input-lost", "at end of input the shell has seen \"%s\" of \"%s\"", Show(in).c_str(), Show(want).c_str());
}

dst::Conn* Serving(World& w) {
  for (auto it = w.net.conns.rbegin(); it != w.net.conns.rend(); ++it)
    if ((*it)->accepted) return it->get();
  return nullptr;
}

std::string Text(dst::Sim& sim, int max, bool input) {
  std::string s;
  int n = sim.Range(1, max);
  for (int i = 0; i < n; ++i) {
    switch (sim.Pick(8)) {
      case 0: s += '\n'; break;
      case 1: s += input ? '\0' : '\r'; break;
      case 2: s += '\xff'; break;
      case 3: s += '\0'; break;
      case 4: s += '\x1a'; break;
      default: s += 'a' + sim.Pick(26);
    }
  }
  return s;
}

void Use(World& w, std::istream& is, std::ostream& os) {
  dst::Sim& sim = w.sim;
  bool eof_seen = false;
  while (true) {
    int op = w.sched.draining() ? 0 : sim.Weighted({6, 6, 4, 4, 4, 6, 6, 4, 4, 2, 1, 2});
    if (op >= 5 && op <= 8 && os.good()) {
      std::string s = Text(sim, op == 8 ? 24 : 6, false);
      size_t done = s.size();
      if (op == 5) os << s;
      if (op == 6) os.write(s.data(), s.size());
      if (op == 7) { s.resize(1); done = 1; os.put(s[0]); }
      if (op == 8) {   // straight to the buffer
        done = os.rdbuf()->sputn(s.data(), s.size());
        if (done > s.size()) sim.Violation("output-altered", "sputn of %zu returned %zu", s.size(), done);
        if (done < s.size()) os.setstate(std::ios::badbit);
      }
      bool ok = os.good();
      w.out += s;
      if (!ok) {
        if (w.conn->write_errors == 0) sim.Violation("output-lost", "the output stream failed although no write failed (one was interrupted, short or none)");
        w.tail = s.size();
        sim.Probe("output-stream-failed");
      }
      if (s.find('\n') != std::string::npos) sim.Probe("newline-translated");
      sim.Log("shell writes \"%s\"%s", Show(s).c_str(), ok ? "" : " (failed)");
      w.Check(false);
      continue;
    }
    if (op == 9 && os.good()) { os.flush(); if (!os.good() && w.conn->write_errors == 0) sim.Violation("output-lost", "flush failed without any write having failed"); continue; }
    if (op == 10) { sim.Log("shell quits"); break; }
    if (op == 11) { w.sched.Yield(); continue; }
    // Reading.
    if (op == 0) { char c; if (is.get(c)) w.in += c; else { eof_seen = true; break; } }
    if (op == 1) {
      std::string line;
      std::getline(is, line);
      if (is.good()) line += '\n';
      w.in += line;
      if (!is.good()) { eof_seen = true; break; }
      sim.Log("shell reads line \"%s\"", Show(line).c_str());
    }
    if (op == 2) {
      char b[8];
      int n = sim.Range(1, 8);
      is.read(b, n);
      w.in.append(b, is.gcount());
      if (is.gcount() != n) { eof_seen = true; break; }
    }
    if (op == 3) {
      int c = is.peek();
      if (c == EOF) { eof_seen = true; break; }
      int d = is.get();
      if (d != c) sim.Violation("input-altered", "peek gave %d, get gave %d", c, d);
      w.in += static_cast<char>(d);
    }
    if (op == 4) {
      std::streambuf* b = is.rdbuf();
      int c = b->sgetc();
      if (c == EOF) { eof_seen = true; break; }
      if (b->sgetc() != c || b->sbumpc() != c) sim.Violation("input-altered", "sgetc/sbumpc disagree");
      w.in += static_cast<char>(c);
    }
    w.Check(false);
  }
  if (eof_seen) {
    w.shell_read_eof = true;
    sim.Log("shell sees end of input after \"%s\"", Show(w.in).c_str());
    dst::Conn* c = w.conn;
    if (!c->client_fin && !c->reset && !c->shut_rd && c->read_errors == 0 && !w.sched.draining()) sim.Probe("end-of-input-on-interrupt");
  }
}

void Shell::Run(std::istream& is, std::ostream& os) {
  if (!w.cli_exists) w.sim.Violation("shell-after-destruction", "the shell was started after the CLI was destroyed");
  if (!w.connected) w.sim.Violation("connected-report", "the shell is served although the CLI does not report a connection");
  if (w.in_shell) w.sim.Violation("connected-report", "the shell was started twice");
  if (!is.good()) w.sim.Violation("input-lost", "the shell was started with an input stream in error");
  w.in_shell = true;
  w.serves++;
  w.conn = Serving(w);
  if (w.conn == nullptr) w.sim.Violation("connected-report", "the shell was started without a connection");
  if (w.conn->write_errors == 0 && !os.good()) w.sim.Violation("output-lost", "the shell was started with an output stream in error although no write failed");
  w.mark = w.conn->server_written.size();
  // A greeting of the CLI's own may precede the shell: one or a few lines of text.
  const std::string& g = w.conn->server_written;
  for (size_t i = 0; i < g.size(); ++i) {
    unsigned char ch = g[i];
    bool ok = (ch >= 32 && ch < 127) || (ch == '\r' && (i + 1 == g.size() || g[i + 1] == '\n')) || (ch == '\n' && i > 0 && g[i - 1] == '\r');
    if (!ok || i > 1000) w.sim.Violation("output-altered", "before the shell started the client was sent \"%s\"", Show(g).c_str());
  }
  if (!g.empty() && w.conn->write_errors == 0 && g.back() != '\n') w.sim.Violation("output-lost", "before the shell started the client was sent \"%s\" without the end of its line", Show(g).c_str());
  w.in.clear();
  w.out.clear();
  w.tail = 0;
  w.shell_read_eof = false;
  w.sim.Log("shell starts");
  w.sim.NonTrivial();
  Use(w, is, os);
  w.Check(true);
  w.sim.Log("shell ends");
  w.in_shell = false;
}

void Client(World& w) {
  dst::Sim& sim = w.sim;
  dst::Conn* c = nullptr;
  while (!w.owner_done && !w.sched.draining()) {
    w.sched.Yield();
    if (w.sched.draining()) break;
    if (c == nullptr) {
      if (!sim.Chance(2, 3)) continue;
      c = w.net.Connect(w.port);
      if (c != nullptr) { c->capacity = sim.Chance(1, 3) ? sim.Range(1, 4) : 200; sim.Log("client connects (%d)", c->id); }
      continue;
    }
    switch (sim.Weighted({20, 20, 1, 1, 1, 10})) {
      case 0:
        if (!c->client_fin && !c->reset) {
          std::string t = Text(sim, 8, true), s;
          for (char ch : t) { if (ch == '\n' && sim.Chance(1, 2)) s += '\r'; s += ch; }
          c->to_server.insert(c->to_server.end(), s.begin(), s.end());
          sim.Log("client sends \"%s\"", Show(s).c_str());
        }
        break;
      case 1: {
        size_t n = std::min<size_t>(c->to_client.size(), sim.Range(1, 16));
        c->to_client.erase(c->to_client.begin(), c->to_client.begin() + n);
        break;
      }
      case 2: if (!c->client_fin) { c->client_fin = true; sim.Log("client half-closes"); sim.Fault("client-half-closes"); } break;
      case 3:
        c->client_fin = c->client_gone = true;
        sim.Log("client closes");
        sim.Fault("client-closes");
        if (sim.Chance(1, 2)) c = nullptr;
        break;
      case 4:
        c->reset = c->client_gone = true;
        c->to_server.clear();
        sim.Log("client resets");
        sim.Fault("client-resets");
        if (sim.Chance(1, 2)) c = nullptr;
        break;
      case 5: break;
    }
  }
}

void Owner(World& w) {
  dst::Sim& sim = w.sim;
  int rounds = sim.Weighted({0, 4, 2, 1});
  Shell shell(w);
  for (int r = 0; r < rounds; ++r) {
    w.reports = 0;
    w.connected = false;
    w.cli_exists = true;
    w.conn = nullptr;
    w.serves = 0;
    w.net.setup_failures.clear();
    int port = sim.Chance(1, 16) ? -1 : w.port;
    sim.Log("owner creates the CLI on port %d", port);
    size_t conns = w.net.conns.size();
    int accept_errors = w.net.accept_errors;
    bool ctor = true;
    auto* cli = new SocketCLI(port, shell, [&w, &ctor](bool c) {
      if (!w.cli_exists) w.sim.Violation("connected-report", "connection status reported after the CLI was destroyed");
      w.sim.Log("connected: %d", c);
      w.sched.Yield();
      if (w.reports == 0 && c) w.sim.Violation("connected-report", "the first report is \"connected\"");
      if (w.reports > 0 && c == w.connected) w.sim.Violation("connected-report", "\"%s\" reported twice in a row", c ? "connected" : "not connected");
      if (!c && w.in_shell) w.sim.Violation("connected-report", "\"not connected\" reported while the shell is served");
      if (c && Serving(w) == nullptr) w.sim.Violation("connected-report", "\"connected\" reported without a connection");
      w.reports++;
      w.connected = c;
    });
    ctor = false;
    if (w.reports == 0) sim.Violation("connected-report", "the constructor reported no connection status");
    if (!w.net.setup_failures.empty() || port == -1) {
      if (cli->good()) sim.Violation("setup-failure", "good() although %s failed", port == -1 ? "no port was given and set-up" : w.net.setup_failures[0].c_str());
      if (!w.net.setup_failures.empty()) sim.Probe("setup-failed");
      if (w.net.AnyListening()) sim.Violation("setup-failure", "listens although %s failed", port == -1 ? "no port was given and set-up" : w.net.setup_failures[0].c_str());
    } else {
      bool listening = false;
      for (auto& [k, f] : w.net.fds) listening |= f.open && f.listening && f.port == port;
      if (!listening) sim.Violation("setup-failure", "set-up succeeded but nothing listens on port %d", port);
    }
    // Until its one session ends (or the wait for it fails) a CLI that was set up is good.
    auto good = [&] {
      if (port == -1 || !w.net.setup_failures.empty() || w.net.accept_errors != accept_errors || (w.serves > 0 && !w.in_shell)) return;
      if (!cli->good()) sim.Violation("setup-failure", "not good() although nothing failed and %s", w.in_shell ? "the shell is served" : "no one was served yet");
      sim.Probe(w.in_shell ? "good-while-serving" : "good-while-waiting");
    };
    good();
    int n = sim.Chance(1, 2) ? sim.Range(0, 30) : sim.Range(0, 300);
    for (int i = 0; i < n && !w.sched.draining(); ++i) { w.sched.Yield(); good(); }
    if (w.in_shell) sim.Probe("destroyed-while-serving");
    else if (w.net.conns.size() > conns && w.net.conns.back()->accepted && w.serves == 0) sim.Probe("destroyed-between-accept-and-shell");
    else if (w.net.AnyListening()) sim.Probe("destroyed-while-waiting");
    sim.Log("owner destroys the CLI");
    delete cli;
    sim.Log("destroyed");
    if (w.in_shell) sim.Violation("thread-outlives-cli", "the destructor returned while the shell is served");
    if (w.connected) sim.Violation("connected-report", "destroyed, and still reported as connected");
    if (dst::g_threads_unjoined != 0) sim.Violation("thread-outlives-cli", "the destructor returned without joining the thread");
    if (w.net.OpenCount() != 0) sim.Violation("descriptor-leak", "%d descriptors open after destruction", w.net.OpenCount());
    w.cli_exists = false;
    if (w.serves > 0 && w.conn && w.conn->server_written.size() > w.mark + Wire(w.out).size())
      sim.Violation("output-altered", "after the shell ended the client was sent \"%s\"", Show(w.conn->server_written.substr(w.mark + Wire(w.out).size())).c_str());
    sim.State(dst::Mix(w.reports * 1000 + w.serves * 100 + w.net.setup_failures.size() * 10 + (w.conn ? 1 : 0)) ^ w.in.size() * 77 ^ w.out.size() * 177777);
    if (r + 1 < rounds) sim.Probe("cli-created-again");
  }
  w.owner_done = true;
}
}  // namespace

void RunOne(dst::Sim& sim) {
  World w(sim);
  dst::g_threads_unjoined = 0;
  sim.set_max_steps(sim.Chance(1, 4) ? sim.Range(300, 2500) : sim.Range(20, 600));
  auto& r = w.net.rates;
  if (sim.Chance(1, 4)) r.setup = sim.Range(1, 16);
  if (sim.Chance(1, 4)) r.accept = sim.Range(1, 24);
  if (sim.Chance(1, 4)) r.read = sim.Range(1, 4);
  if (sim.Chance(1, 4)) r.write = sim.Range(1, 4);
  if (sim.Chance(1, 4)) r.close = 32;
  if (sim.Chance(1, 3)) r.eintr = sim.Range(1, 12);
  if (sim.Chance(1, 2)) r.shorts = 32;
  w.sched.Spawn("owner", [&] { Owner(w); });
  w.sched.Spawn("client", [&] { Client(w); });
  w.sched.Run();
  sim.AdvanceTime(w.sched.switches());
}
