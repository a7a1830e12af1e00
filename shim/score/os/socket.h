#ifndef VSHIM_OS_SOCKET_H
#define VSHIM_OS_SOCKET_H
#include "score/memory.hpp"
#include "score/os/ObjectSeam.h"
#include "score/os/vshim_os.h"
#include "score/os/simnet.h"
#include <memory>
#include <sys/socket.h>
#include <sys/types.h>
#include <type_traits>
namespace score { namespace os {
class Socket : public ObjectSeam<Socket>
{
  public:
    enum class Domain : std::int32_t { kIPv4 = AF_INET, kIPv6 = AF_INET6, kUnix = AF_UNIX };
    enum class MessageFlag : std::int32_t { kNone = 0, kWaitAll = MSG_WAITALL, kNoSignal = MSG_NOSIGNAL, kPeek = MSG_PEEK, kWaitForOne = 0x10000, kDontWait = MSG_DONTWAIT };
    static Socket& vshim_real() { static Socket s; return s; }
    static score::cpp::pmr::unique_ptr<Socket> Default(score::cpp::pmr::memory_resource* r) noexcept { return score::cpp::pmr::make_unique<Socket>(r); }
    virtual ~Socket() = default;
    virtual score::cpp::expected<std::int32_t, Error> socket(const Domain d, const std::int32_t t, const std::int32_t p) const noexcept { if (int e = ::vshim::pre("socket", "")) { return vshim_detail::fail<std::int32_t>(e); } const int r = ::vshim::net::on() ? ::vshim::net::socket(t) : ::socket(static_cast<int>(d), t, p); if (r < 0) { return vshim_detail::fail<std::int32_t>(errno); } return r; }
    virtual score::cpp::expected_blank<Error> bind(const std::int32_t s, const struct sockaddr* a, const socklen_t n) const noexcept { if ((::vshim::net::mine(s) ? ::vshim::net::bind(s, a) : ::bind(s, a, n)) != 0) { return vshim_detail::failb(errno); } return score::cpp::blank{}; }
    virtual score::cpp::expected_blank<Error> listen(const std::int32_t s, const std::int32_t b) const noexcept { if ((::vshim::net::mine(s) ? ::vshim::net::listen(s) : ::listen(s, b)) != 0) { return vshim_detail::failb(errno); } return score::cpp::blank{}; }
    virtual score::cpp::expected<std::int32_t, Error> accept(const std::int32_t s, struct sockaddr* a, socklen_t* n) const noexcept { if (int e = ::vshim::pre("accept", "")) { return vshim_detail::fail<std::int32_t>(e); } const int r = ::vshim::net::mine(s) ? ::vshim::net::accept(s) : ::accept(s, a, n); if (r < 0) { return vshim_detail::fail<std::int32_t>(errno); } return r; }
    virtual score::cpp::expected_blank<Error> connect(const std::int32_t s, const struct sockaddr* a, const socklen_t n) const noexcept { if (int e = ::vshim::pre("connect", "")) { return vshim_detail::failb(e); } if ((::vshim::net::mine(s) ? ::vshim::net::connect(s, a) : ::connect(s, a, n)) != 0) { return vshim_detail::failb(errno); } return score::cpp::blank{}; }
    virtual score::cpp::expected_blank<Error> setsockopt(const std::int32_t s, const std::int32_t l, const std::int32_t o, const void* v, const socklen_t n) const noexcept { if (::vshim::net::mine(s)) { return score::cpp::blank{}; } if (::setsockopt(s, l, o, v, n) != 0) { return vshim_detail::failb(errno); } return score::cpp::blank{}; }
    virtual score::cpp::expected_blank<Error> getsockopt(const std::int32_t s, const std::int32_t l, const std::int32_t o, void* v, socklen_t* n) const noexcept { if (::vshim::net::mine(s) && l == SOL_SOCKET && o == SO_PEERCRED) { auto* e = ::vshim::net::get(s); if (e == nullptr) { return vshim_detail::failb(EBADF); } auto* c = static_cast<struct ucred*>(v); c->pid = e->x; c->uid = 0; c->gid = 0; *n = sizeof(*c); return score::cpp::blank{}; } if (::getsockopt(s, l, o, v, n) != 0) { return vshim_detail::failb(errno); } return score::cpp::blank{}; }
    virtual score::cpp::expected<ssize_t, Error> recv(const std::int32_t s, void* b, const std::size_t n, const MessageFlag f) const noexcept { if (int e = ::vshim::pre("recv", "")) { return vshim_detail::fail<ssize_t>(e); } return ret(::vshim::net::mine(s) ? ::vshim::net::recv(s, b, n, (static_cast<int>(f) & MSG_WAITALL) != 0) : ::recv(s, b, n, static_cast<int>(f))); }
    virtual score::cpp::expected<ssize_t, Error> send(const std::int32_t s, const void* b, const std::size_t n, const MessageFlag f) const noexcept { if (::vshim::net::mine(s)) { (void)::vshim::pre("send", ""); return ret(::vshim::net::put(s, std::string(static_cast<const char*>(b), n))); } return ret(::send(s, b, n, static_cast<int>(f))); }
    virtual score::cpp::expected<ssize_t, Error> sendto(const std::int32_t s, const void* b, const std::size_t n, const MessageFlag f, const struct sockaddr* a, const socklen_t l) const noexcept { if (int e = ::vshim::pre("sendto", "")) { return vshim_detail::fail<ssize_t>(e); } return ret(::vshim::net::on() ? ::vshim::net::sendto(s, b, n) : ::sendto(s, b, n, static_cast<int>(f), a, l)); }
    virtual score::cpp::expected<ssize_t, Error> sendmsg(const std::int32_t s, const struct msghdr* m, const MessageFlag f) const noexcept { if (int e = ::vshim::pre("sendmsg", "")) { return vshim_detail::fail<ssize_t>(e); } return ret(::vshim::net::on() ? ::vshim::net::sendmsg(s, m) : ::sendmsg(s, m, static_cast<int>(f))); }
    virtual score::cpp::expected<ssize_t, Error> recvmsg(const std::int32_t s, struct msghdr* m, const MessageFlag f) const noexcept { if (int e = ::vshim::pre("recvmsg", "")) { return vshim_detail::fail<ssize_t>(e); } return ret(::vshim::net::on() ? ::vshim::net::recvmsg(s, m, (static_cast<int>(f) & MSG_WAITALL) != 0) : ::recvmsg(s, m, static_cast<int>(f))); }
  private:
    static score::cpp::expected<ssize_t, Error> ret(ssize_t r) { if (r < 0) { return vshim_detail::fail<ssize_t>(errno); } return r; }
};
VSHIM_BITENUM(Socket::MessageFlag)
}}
#endif
