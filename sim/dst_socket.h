// Simulated socket layer. While one exists, socket(), bind(), accept(), read(),
// write(), shutdown(), close() and friends act on simulated descriptors; the
// run's seed decides every short transfer, interruption and failure.
// Descriptor numbers are never reused, so any use of a closed one is seen.
#ifndef VERIF_SIM_SOCKET_H_
#define VERIF_SIM_SOCKET_H_

#include <deque>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "dst_sched.h"

namespace dst {

struct Conn {
  int id = 0;
  std::deque<char> to_server;   // sent by the client, not yet read
  std::deque<char> to_client;   // written by the server, not yet received
  std::string server_read;      // everything the server read
  std::string server_written;   // everything the server's writes accepted
  size_t capacity = 64;         // of to_client
  bool client_fin = false;      // the client sends no more
  bool client_gone = false;     // the client closed: writes fail
  bool reset = false;
  bool shut_rd = false, shut_wr = false;
  bool accepted = false;
  int server_fd = -1;
  bool server_closed = false;
  int write_errors = 0;         // writes that failed for good (not EINTR)
  int read_errors = 0;
};

class SockLayer {
 public:
  struct Fd {
    bool open = true;
    bool listening = false;
    bool bound = false;
    bool shut = false;
    int port = -1;
    int busy = 0;               // tasks blocked in a call on it
    Conn* conn = nullptr;
    std::deque<Conn*> backlog;
  };
  SockLayer(Sim& sim, Sched& sched);
  ~SockLayer();
  static SockLayer* active;
  // ---- the other side
  // Connects to whatever listens on the port; null if nothing does.
  Conn* Connect(int port);
  // Number of connections no one has accepted yet.
  bool Pending(Conn* c) const { return !c->accepted; }
  // ---- faults: chance (of 64) that a call fails; 0 while draining
  struct Rates { int setup = 0, accept = 0, read = 0, write = 0, close = 0, eintr = 0, shorts = 0; } rates;
  bool calm = false;   // reads and writes that need not wait are no scheduling points
  std::vector<std::string> setup_failures;   // which set-up calls failed, in order
  int accept_errors = 0;                     // calls of accept that failed
  int OpenCount() const;
  bool AnyListening() const;
  std::map<int, Fd> fds;
  std::vector<std::unique_ptr<Conn>> conns;
  // ---- calls of the code under test
  int Socket();
  int SetOpt(int fd);
  int Bind(int fd, int port);
  int Listen(int fd);
  int Accept(int fd);
  long Read(int fd, char* p, size_t n, bool nowait, bool peek);
  long Write(int fd, const char* p, size_t n);
  int Shutdown(int fd, int how);
  int Close(int fd);
  int Fcntl(int fd, int cmd);
  bool Owns(int fd) const { return fd >= kFirst; }
  static const int kFirst = 100000;

 private:
  Fd* Get(int fd, const char* call);
  bool Fails(int rate, const char* kind);
  Sim& sim_;
  Sched& sched_;
  int next_ = kFirst;
};

}  // namespace dst

#endif  // VERIF_SIM_SOCKET_H_
