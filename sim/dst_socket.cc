#include "dst_socket.h"

#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace dst {

SockLayer* SockLayer::active = nullptr;

SockLayer::SockLayer(Sim& sim, Sched& sched) : sim_(sim), sched_(sched) { active = this; }
SockLayer::~SockLayer() { active = nullptr; }

int SockLayer::OpenCount() const {
  int n = 0;
  for (auto& [k, f] : fds) n += f.open;
  return n;
}
bool SockLayer::AnyListening() const {
  for (auto& [k, f] : fds) if (f.open && f.listening && !f.shut) return true;
  return false;
}

Conn* SockLayer::Connect(int port) {
  for (auto& [k, f] : fds) {
    if (!f.open || !f.listening || f.shut || f.port != port) continue;
    conns.push_back(std::make_unique<Conn>());
    Conn* c = conns.back().get();
    c->id = conns.size();
    f.backlog.push_back(c);
    return c;
  }
  return nullptr;
}

SockLayer::Fd* SockLayer::Get(int fd, const char* call) {
  if (fd < 0) { errno = EBADF; return nullptr; }
  auto it = fds.find(fd);
  if (it == fds.end()) sim_.Violation("bad-descriptor", "%s() on descriptor %d, which was never opened", call, fd);
  if (!it->second.open)
    sim_.Violation(std::string(call) == "close" ? "double-close" : "use-after-close",
                   "%s() on descriptor %d (%s), which was closed already", call, fd - kFirst, it->second.conn ? "connection" : "server socket");
  return &it->second;
}

bool SockLayer::Fails(int rate, const char* kind) {
  if (rate == 0 || sched_.draining()) return false;
  if (!sim_.Chance(rate, 64)) return false;
  sim_.Fault(kind);
  return true;
}

int SockLayer::Socket() {
  sched_.Yield();
  if (Fails(rates.setup, "socket-fails")) { setup_failures.push_back("socket"); errno = EMFILE; sim_.Log("socket() fails"); return -1; }
  int fd = next_++;
  fds[fd];
  sim_.Log("socket() = %d", fd - kFirst);
  return fd;
}
int SockLayer::SetOpt(int fd) {
  sched_.Yield();
  if (!Get(fd, "setsockopt")) { return -1; }
  if (Fails(rates.setup, "setsockopt-fails")) { setup_failures.push_back("setsockopt"); errno = ENOMEM; sim_.Log("setsockopt() fails"); return -1; }
  return 0;
}
int SockLayer::Bind(int fd, int port) {
  sched_.Yield();
  Fd* f = Get(fd, "bind");
  if (!f) return -1;
  if (Fails(rates.setup, "bind-fails")) { setup_failures.push_back("bind"); errno = EADDRINUSE; sim_.Log("bind() fails"); return -1; }
  f->bound = true;
  f->port = port;
  return 0;
}
int SockLayer::Listen(int fd) {
  sched_.Yield();
  Fd* f = Get(fd, "listen");
  if (!f) return -1;
  if (Fails(rates.setup, "listen-fails")) { setup_failures.push_back("listen"); errno = EADDRINUSE; sim_.Log("listen() fails"); return -1; }
  f->listening = true;
  sim_.Log("listen(%d)", fd - kFirst);
  return 0;
}
int SockLayer::Accept(int fd) {
  sched_.Yield();
  Fd* f = Get(fd, "accept");
  if (!f) return -1;
  if (!f->listening) { errno = EINVAL; accept_errors++; return -1; }
  if (Fails(rates.eintr, "accept-interrupted")) { errno = EINTR; sim_.Log("accept() interrupted"); accept_errors++; return -1; }
  if (Fails(rates.accept, "accept-fails")) { errno = EMFILE; sim_.Log("accept() fails"); accept_errors++; return -1; }
  if (f->backlog.empty() && !f->shut) {
    f->busy++;
    sched_.Block("accept", [f] { return !f->backlog.empty() || f->shut; });
    f->busy--;
  }
  if (f->shut) { errno = EINVAL; sim_.Log("accept() = -1 (shut down)"); accept_errors++; return -1; }
  Conn* c = f->backlog.front();
  f->backlog.pop_front();
  c->accepted = true;
  int n = next_++;
  fds[n].conn = c;
  c->server_fd = n;
  sim_.Log("accept() = %d (connection %d)", n - kFirst, c->id);
  return n;
}
long SockLayer::Read(int fd, char* p, size_t n, bool nowait, bool peek) {
  if (!calm) sched_.Yield();
  Fd* f = Get(fd, "read");
  if (!f) return -1;
  Conn* c = f->conn;
  if (!c) { errno = ENOTCONN; return -1; }
  if (n == 0) return 0;
  if (Fails(rates.eintr, "read-interrupted")) { errno = EINTR; sim_.Log("read() interrupted"); return -1; }
  if (Fails(rates.read, "read-fails")) { c->reset = true; c->read_errors++; errno = ECONNRESET; sim_.Log("read() fails"); return -1; }
  auto ready = [c] { return !c->to_server.empty() || c->client_fin || c->reset || c->shut_rd; };
  if (!ready()) {
    if (nowait) { errno = EAGAIN; return -1; }
    f->busy++;
    sched_.Block("read", ready);
    f->busy--;
  }
  if (c->reset) { c->read_errors++; errno = ECONNRESET; return -1; }
  if (c->to_server.empty()) return 0;
  size_t k = std::min(n, c->to_server.size());
  if (k > 1 && Fails(rates.shorts, "short-read")) k = 1 + sim_.Pick(k - 1);
  for (size_t i = 0; i < k; ++i) p[i] = c->to_server[i];
  if (!peek) {
    c->server_read.append(p, k);
    c->to_server.erase(c->to_server.begin(), c->to_server.begin() + k);
  }
  return k;
}
long SockLayer::Write(int fd, const char* p, size_t n) {
  if (!calm) sched_.Yield();
  Fd* f = Get(fd, "write");
  if (!f) return -1;
  Conn* c = f->conn;
  if (!c) { errno = ENOTCONN; return -1; }
  if (n == 0) return 0;
  if (Fails(rates.eintr, "write-interrupted")) { errno = EINTR; sim_.Log("write() interrupted"); return -1; }
  if (Fails(rates.write, "write-fails")) { c->write_errors++; errno = ENOBUFS; sim_.Log("write() fails"); return -1; }
  auto ready = [c] { return c->to_client.size() < c->capacity || c->client_gone || c->reset || c->shut_wr; };
  if (!ready()) {
    f->busy++;
    sched_.Block("write", ready);
    f->busy--;
  }
  if (c->client_gone || c->reset || c->shut_wr) { c->write_errors++; errno = EPIPE; return -1; }
  size_t k = std::min(n, c->capacity - c->to_client.size());
  if (k < n) sim_.Fault("full-send-buffer");
  if (k > 1 && Fails(rates.shorts, "short-write")) k = 1 + sim_.Pick(k - 1);
  c->to_client.insert(c->to_client.end(), p, p + k);
  c->server_written.append(p, k);
  return k;
}
int SockLayer::Shutdown(int fd, int how) {
  sched_.Yield();
  Fd* f = Get(fd, "shutdown");
  if (!f) return -1;
  sim_.Log("shutdown(%d)", fd - kFirst);
  if (f->conn) {
    if (how != SHUT_WR) f->conn->shut_rd = true;
    if (how != SHUT_RD) f->conn->shut_wr = true;
    return 0;
  }
  if (!f->listening) { errno = ENOTCONN; return -1; }
  f->shut = true;
  return 0;
}
int SockLayer::Close(int fd) {
  sched_.Yield();
  Fd* f = Get(fd, "close");
  if (!f) return -1;
  f->open = false;
  if (f->conn) f->conn->server_closed = true;
  for (Conn* c : f->backlog) c->server_closed = true;   // never accepted
  sim_.Log("close(%d)", fd - kFirst);
  if (Fails(rates.close, "close-reports-error")) { errno = EIO; return -1; }   // closed all the same
  return 0;
}
int SockLayer::Fcntl(int fd, int cmd) {
  if (!Get(fd, "fcntl")) return -1;
  (void)cmd;
  return 0;
}

}  // namespace dst

using dst::SockLayer;
#define SIMFD(fd) (SockLayer::active != nullptr && dst::Sched::active != nullptr && dst::Sched::active->in_task() && ((fd) < 0 || (fd) >= SockLayer::kFirst))

extern "C" {
int socket(int d, int t, int p) {
  if (SockLayer::active && dst::Sched::active && dst::Sched::active->in_task()) return SockLayer::active->Socket();
  return syscall(SYS_socket, d, t, p);
}
int setsockopt(int fd, int l, int o, const void* v, socklen_t n) noexcept {
  if (SIMFD(fd)) return SockLayer::active->SetOpt(fd);
  return syscall(SYS_setsockopt, fd, l, o, v, n);
}
int bind(int fd, const struct sockaddr* a, socklen_t n) noexcept {
  if (SIMFD(fd)) return SockLayer::active->Bind(fd, ntohs(reinterpret_cast<const sockaddr_in*>(a)->sin_port));
  return syscall(SYS_bind, fd, a, n);
}
int listen(int fd, int n) noexcept {
  if (SIMFD(fd)) return SockLayer::active->Listen(fd);
  return syscall(SYS_listen, fd, n);
}
int accept(int fd, struct sockaddr* a, socklen_t* n) {
  if (SIMFD(fd)) return SockLayer::active->Accept(fd);
  return syscall(SYS_accept, fd, a, n);
}
int accept4(int fd, struct sockaddr* a, socklen_t* n, int fl) {
  if (SIMFD(fd)) return SockLayer::active->Accept(fd);
  return syscall(SYS_accept4, fd, a, n, fl);
}
ssize_t read(int fd, void* p, size_t n) {
  if (SIMFD(fd)) return SockLayer::active->Read(fd, static_cast<char*>(p), n, false, false);
  return syscall(SYS_read, fd, p, n);
}
ssize_t recv(int fd, void* p, size_t n, int fl) {
  if (SIMFD(fd)) return SockLayer::active->Read(fd, static_cast<char*>(p), n, fl & MSG_DONTWAIT, fl & MSG_PEEK);
  return syscall(SYS_recvfrom, fd, p, n, fl, nullptr, nullptr);
}
ssize_t write(int fd, const void* p, size_t n) {
  if (SIMFD(fd)) return SockLayer::active->Write(fd, static_cast<const char*>(p), n);
  return syscall(SYS_write, fd, p, n);
}
ssize_t send(int fd, const void* p, size_t n, int fl) {
  if (SIMFD(fd)) return SockLayer::active->Write(fd, static_cast<const char*>(p), n);
  return syscall(SYS_sendto, fd, p, n, fl, nullptr, 0);
}
ssize_t writev(int fd, const struct iovec* v, int k) {
  if (SIMFD(fd)) {
    std::string all;
    for (int i = 0; i < k; ++i) all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
    return SockLayer::active->Write(fd, all.data(), all.size());
  }
  return syscall(SYS_writev, fd, v, k);
}
int shutdown(int fd, int how) noexcept {
  if (SIMFD(fd)) return SockLayer::active->Shutdown(fd, how);
  return syscall(SYS_shutdown, fd, how);
}
int close(int fd) {
  if (SIMFD(fd)) return SockLayer::active->Close(fd);
  return syscall(SYS_close, fd);
}
int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  if (SIMFD(fd)) return SockLayer::active->Fcntl(fd, cmd);
  return syscall(SYS_fcntl, fd, cmd, arg);
}
}
