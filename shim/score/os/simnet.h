// Simulated local sockets, pipes and poll for executions under the fiber scheduler (one address space, virtual time).
// Off by default; harnesses switch it on. Addresses: what follows a '#' names the client and is ignored for lookup.
#ifndef VSHIM_SIMNET_H
#define VSHIM_SIMNET_H
#include "score/os/vshim_os.h"
#include <cerrno>
#include <cstring>
#include <deque>
#include <map>
#include <poll.h>
#include <string>
#include <sys/socket.h>
#include <netinet/in.h>
#include <sys/un.h>
namespace vshim { namespace net {
constexpr int kBase = 500000;
struct End {
    enum Kind { kSocket, kListener, kStream, kPipeR, kPipeW } kind{kSocket};
    std::deque<unsigned char> in;
    int peer{-1};              // -1: none or gone
    bool had_peer{false};
    int err{0};
    std::string addr;
    std::deque<int> backlog;
    int x{0};                  // number of the connection
    bool server_side{false};
    bool nonblock{false};
    bool shut{false};          // shut down by its own side
    bool peer_shut{false};     // ... by the other side
};
struct Net {
    bool on{false};
    int next{kBase};
    int conns{0};
    std::map<int, End> ends;
    std::map<std::string, int> bound;
    // observers / faults (may be empty)
    std::function<int(const std::string& addr, int x)> connect_fault;       // non-zero: errno
    std::function<void(const std::string& addr, int x, int res)> connected;
    std::function<int(int x, bool server_side, const std::string& bytes)> send_fault;
    std::function<int(int x, bool server_side)> recv_fault;
    std::function<void(int x, bool server_side)> closed;
    std::function<int()> accept_fault;
    std::function<long(int x, bool server_side, std::size_t n)> send_part;  // how much of n bytes is taken (negative: errno)
    std::function<long(int x, bool server_side, std::size_t n)> recv_part;
    std::function<void(int x, bool server_side)> shut_down;
    void Reset() { *this = Net{}; }
};
inline Net& sim() { static Net n; return n; }
inline bool mine(int fd) { return sim().on && fd >= kBase; }
inline bool on() { return sim().on; }
inline int fresh(End e) { const int fd = sim().next++; sim().ends.emplace(fd, std::move(e)); return fd; }
inline End* get(int fd) { auto i = sim().ends.find(fd); return i == sim().ends.end() ? nullptr : &i->second; }
inline int no(int e) { errno = e; return -1; }
inline std::string addr_of(const sockaddr* a) { if (a->sa_family == AF_INET) return "p" + std::to_string(ntohs(reinterpret_cast<const sockaddr_in*>(a)->sin_port)); const auto* u = reinterpret_cast<const sockaddr_un*>(a); return u->sun_path[0] == 0 ? "@" + std::string(u->sun_path + 1) : std::string(u->sun_path); }
inline std::string host_of(const std::string& a) { return a.substr(0, a.find('#')); }
inline int socket(int type = 0) { End e; e.nonblock = (type & SOCK_NONBLOCK) != 0; return fresh(e); }
inline int pipe(int* f) { End r; r.kind = End::kPipeR; End w; w.kind = End::kPipeW; f[0] = fresh(r); f[1] = fresh(w); get(f[0])->peer = f[1]; get(f[1])->peer = f[0]; return 0; }
inline int bind(int fd, const sockaddr* a) { End* e = get(fd); if (e == nullptr) return no(EBADF); const auto h = host_of(addr_of(a)); if (sim().bound.count(h) != 0) return no(EADDRINUSE); sim().bound[h] = fd; e->addr = h; return 0; }
inline int listen(int fd) { End* e = get(fd); if (e == nullptr) return no(EBADF); e->kind = End::kListener; return 0; }
inline int connect(int fd, const sockaddr* a) {
    if (get(fd) == nullptr) return no(EBADF);
    const std::string ad = addr_of(a);
    const int x = ++sim().conns;
    auto done = [&](int r) { if (sim().connected) sim().connected(ad, x, r); return r == 0 ? 0 : no(r); };
    if (const int f = sim().connect_fault ? sim().connect_fault(ad, x) : 0) return done(f);
    auto b = sim().bound.find(host_of(ad));
    End* l = b == sim().bound.end() ? nullptr : get(b->second);
    if (l == nullptr || l->kind != End::kListener) return done(ECONNREFUSED);
    if (l->backlog.size() > 20) return done(EAGAIN);
    End s; s.kind = End::kStream; s.peer = fd; s.had_peer = true; s.x = x; s.server_side = true;
    const int sf = fresh(s);
    End* e = get(fd); e->kind = End::kStream; e->peer = sf; e->had_peer = true; e->x = x;
    get(b->second)->backlog.push_back(sf);
    return done(0);
}
inline int accept(int fd) {
    End* e = get(fd);
    if (e == nullptr || e->kind != End::kListener) return no(EBADF);
    if (const int f = sim().accept_fault ? sim().accept_fault() : 0) return no(f);
    if (vsched::InFiber() && !e->nonblock) (void)vsched::BlockUntil([fd] { End* q = get(fd); return q == nullptr || q->shut || !q->backlog.empty(); }, -1);
    e = get(fd);
    if (e == nullptr) return no(EBADF);
    if (e->shut) return no(EINVAL);
    if (e->backlog.empty()) return no(EAGAIN);
    const int r = e->backlog.front(); e->backlog.pop_front();
    return r;
}
inline void gone(int fd) {
    End* e = get(fd); if (e == nullptr) return;
    End* p = e->peer >= 0 ? get(e->peer) : nullptr;
    if (p != nullptr) { p->peer = -1; if (!e->in.empty() && e->kind == End::kStream) p->err = ECONNRESET; }
    const int x = e->x; const bool ss = e->server_side; const bool st = e->kind == End::kStream;
    std::deque<int> b = e->backlog;
    if (e->kind == End::kListener || !e->addr.empty()) sim().bound.erase(e->addr);
    sim().ends.erase(fd);
    if (st && sim().closed) sim().closed(x, ss);
    for (int f : b) gone(f);
}
inline int close(int fd) { if (get(fd) == nullptr) return no(EBADF); gone(fd); return 0; }
inline ssize_t put(int fd, const std::string& s) { End* e = get(fd); if (e == nullptr) return no(EBADF); End* p = e->peer >= 0 ? get(e->peer) : nullptr; if (p == nullptr || e->shut || e->peer_shut) return no(e->kind == End::kStream || e->kind == End::kPipeW ? EPIPE : ENOTCONN); for (char c : s) p->in.push_back(static_cast<unsigned char>(c)); return static_cast<ssize_t>(s.size()); }
inline ssize_t sendmsg(int fd, const msghdr* m) {
    std::string s;
    for (std::size_t i = 0; i < m->msg_iovlen; ++i) s.append(static_cast<const char*>(m->msg_iov[i].iov_base), m->msg_iov[i].iov_len);
    End* e = get(fd);
    if (e != nullptr && e->kind == End::kStream && sim().send_fault) { if (const int f = sim().send_fault(e->x, e->server_side, s)) return no(f); }
    return put(fd, s);
}
inline ssize_t read(int fd, void* b, std::size_t n, bool all) {
    End* e = get(fd);
    if (e == nullptr) return no(EBADF);
    if (e->kind != End::kStream && e->kind != End::kPipeR) return no(e->kind == End::kSocket ? ENOTCONN : EINVAL);
    auto ready = [fd, n, all] { End* q = get(fd); return q == nullptr || q->peer < 0 || q->shut || q->peer_shut || q->in.size() >= (all ? n : 1U); };
    if (vsched::InFiber()) (void)vsched::BlockUntil(ready, -1);
    e = get(fd);
    if (e == nullptr) return no(EBADF);
    std::size_t k = 0;
    for (; k < n && !e->in.empty(); ++k) { static_cast<unsigned char*>(b)[k] = e->in.front(); e->in.pop_front(); }
    if (k == 0 && n > 0 && e->err != 0) { const int r = e->err; e->err = 0; return no(r); }
    return static_cast<ssize_t>(k);
}
inline ssize_t recvmsg(int fd, msghdr* m, bool all) {
    End* e = get(fd);
    if (e != nullptr && e->kind == End::kStream && sim().recv_fault) { if (const int f = sim().recv_fault(e->x, e->server_side)) return no(f); }
    std::size_t n = 0;
    for (std::size_t i = 0; i < m->msg_iovlen; ++i) n += m->msg_iov[i].iov_len;
    std::string s(n, '\0');
    const ssize_t r = read(fd, s.data(), n, all);
    std::size_t off = 0;
    for (std::size_t i = 0; r > 0 && i < m->msg_iovlen && off < static_cast<std::size_t>(r); ++i) { const std::size_t k = std::min(m->msg_iov[i].iov_len, static_cast<std::size_t>(r) - off); std::memcpy(m->msg_iov[i].iov_base, s.data() + off, k); off += k; }
    return r;
}
inline ssize_t sendto(int fd, const void* b, std::size_t n) {
    End* e = get(fd);
    if (e == nullptr) return no(EBADF);
    std::size_t k = n;
    if (e->kind == End::kStream && sim().send_part) { const long r = sim().send_part(e->x, e->server_side, n); if (r < 0) return no(static_cast<int>(-r)); k = static_cast<std::size_t>(r); }
    return put(fd, std::string(static_cast<const char*>(b), k));
}
inline ssize_t recv(int fd, void* b, std::size_t n, bool all) {
    End* e = get(fd);
    if (e == nullptr) return no(EBADF);
    std::size_t k = n;
    if (e->kind == End::kStream && sim().recv_part) { const long r = sim().recv_part(e->x, e->server_side, n); if (r < 0) return no(static_cast<int>(-r)); k = static_cast<std::size_t>(r); }
    return read(fd, b, k, all);
}
inline int shutdown(int fd) {
    End* e = get(fd);
    if (e == nullptr) return no(EBADF);
    if (e->shut) return 0;
    e->shut = true;
    if (End* p = e->peer >= 0 ? get(e->peer) : nullptr) p->peer_shut = true;
    if (e->kind == End::kStream && sim().shut_down) sim().shut_down(e->x, e->server_side);
    return 0;
}
inline short ready(int fd, short ev) {
    if (fd < 0) return 0;
    End* e = get(fd);
    if (e == nullptr) return POLLNVAL;
    short r = 0;
    if (e->kind == End::kListener) { if ((ev & POLLIN) != 0 && !e->backlog.empty()) r |= POLLIN; return r; }
    if ((ev & POLLIN) != 0 && (!e->in.empty() || (e->had_peer && e->peer < 0) || e->shut || e->peer_shut || e->err != 0)) r |= POLLIN;
    if (e->had_peer && e->peer < 0) r |= POLLHUP;
    if ((ev & POLLOUT) != 0 && e->peer >= 0) r |= POLLOUT;
    return r;
}
inline int poll(pollfd* f, nfds_t n, int timeout_ms) {
    auto scan = [f, n] { int c = 0; for (nfds_t i = 0; i < n; ++i) { f[i].revents = ready(f[i].fd, f[i].events); c += f[i].revents != 0 ? 1 : 0; } return c; };
    if (vsched::InFiber() && timeout_ms != 0) (void)vsched::BlockUntil([&scan] { return scan() > 0; }, timeout_ms < 0 ? -1 : vsched::NowNs() + static_cast<std::int64_t>(timeout_ms) * 1000000);
    return scan();
}
}}
#endif
