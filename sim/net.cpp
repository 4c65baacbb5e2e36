// The simulated network: one HTTP server whose script decides what each connection gets and when.
#include "vos.h"
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <deque>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <poll.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <sys/ioctl.h>

#define REAL(ret, name, ...) \
    typedef ret (*name##_real_t)(__VA_ARGS__); \
    static name##_real_t real_##name() { static name##_real_t f = 0; if (!f) f = (name##_real_t)dlsym(RTLD_NEXT, #name); return f; }
REAL(int, poll, struct pollfd*, nfds_t, int)
REAL(int, ioctl, int, unsigned long, ...)
REAL(int, fcntl, int, int, ...)
REAL(int, socket, int, int, int)
REAL(int, connect, int, const struct sockaddr*, socklen_t)
REAL(ssize_t, send, int, const void*, size_t, int)
REAL(ssize_t, recv, int, void*, size_t, int)
REAL(ssize_t, sendto, int, const void*, size_t, int, const struct sockaddr*, socklen_t)
REAL(ssize_t, recvfrom, int, void*, size_t, int, struct sockaddr*, socklen_t*)
REAL(int, getsockopt, int, int, int, void*, socklen_t*)
REAL(int, setsockopt, int, int, int, const void*, socklen_t)
REAL(int, getsockname, int, struct sockaddr*, socklen_t*)
REAL(int, getpeername, int, struct sockaddr*, socklen_t*)
REAL(int, shutdown, int, int)
REAL(int, pipe, int*)
REAL(int, pipe2, int*, int)
REAL(int, socketpair, int, int, int, int*)
REAL(int, getaddrinfo, const char*, const char*, const struct addrinfo*, struct addrinfo**)

using sim::Host;
using sim::u64;
namespace vos { void* netOf(int fd, int* kind); bool simpleFault(const char* cls); u64 tickNet(const char*); }

namespace net
{
    struct Ev { u64 at; int what; str bytes; };   // what: 0 data, 1 end of stream, 2 reset
    struct Sock
    {
        int state = 0;             // 0 new, 1 connecting, 2 connected, 3 failed
        int err = 0;
        u64 connectAt = 0;
        str connectKind;
        std::deque<Ev> ev;
        str rx, tx;
        bool eof = false, rst = false, answered = false;
        int script = -1;
    };
    static Server gServer;
    static std::vector<Sock*> socks;
    Server& server() { return gServer; }
    void reset() { gServer = Server(); for (auto s : socks) delete s; socks.clear(); }

    void run()
    {
        u64 t = vos::nowNs();
        for (auto s : socks)
        {
            if (s->state == 1 && s->connectAt <= t)
            {
                if (s->connectKind == "ok") s->state = 2;
                else
                {
                    s->state = 3;
                    s->err = s->connectKind == "refused" ? ECONNREFUSED : s->connectKind == "unreachable" ? ENETUNREACH : ETIMEDOUT;
                    vos::hard(("net.connect-" + s->connectKind).c_str());
                }
            }
            while (!s->ev.empty() && s->ev.front().at <= t)
            {
                Ev& e = s->ev.front();
                if (e.what == 0) s->rx += e.bytes;
                else if (e.what == 1) s->eof = true;
                else { s->rst = true; vos::hard("net.reset"); }
                s->ev.pop_front();
            }
        }
    }
    bool nextEvent(u64& at)
    {
        bool any = false;
        for (auto s : socks)
        {
            if (s->state == 1) { if (!any || s->connectAt < at) at = s->connectAt; any = true; }
            if (!s->ev.empty()) { if (!any || s->ev.front().at < at) at = s->ev.front().at; any = true; }
        }
        return any;
    }
    bool readable(void* p) { Sock* s = (Sock*)p; return !s->rx.empty() || s->eof || s->rst || s->state == 3; }
    bool writable(void* p) { Sock* s = (Sock*)p; return s->state == 2 || s->state == 3; }
    bool hup(void* p) { Sock* s = (Sock*)p; return s->rst || s->state == 3; }
    ssize_t sread(void* p, char* b, size_t n, bool peek)
    {
        Sock* s = (Sock*)p;
        run();
        vos::FaultHit f = vos::check("recv");
        if (f.hit)
        {
            if (f.kind == "eintr") { vos::benign("recv.eintr"); errno = EINTR; return -1; }
            if (f.kind == "eagain") { vos::benign("recv.eagain"); errno = EAGAIN; return -1; }
            if (f.kind == "short") { n = std::min<size_t>(n, f.arg > 0 ? f.arg : 1); vos::benign("recv.short"); }
            if (f.kind == "econnreset") { vos::hard("recv.econnreset"); errno = ECONNRESET; return -1; }
        }
        if (s->rx.empty())
        {
            if (s->rst) { errno = ECONNRESET; return -1; }
            if (s->eof) return 0;
            if (s->state != 2) { errno = s->err ? s->err : ENOTCONN; return -1; }
            errno = EAGAIN;
            return -1;
        }
        size_t k = std::min(n, s->rx.size());
        memcpy(b, s->rx.data(), k);
        if (!peek) s->rx.erase(0, k);
        return k;
    }
    ssize_t swrite(void* p, const char* b, size_t n)
    {
        Sock* s = (Sock*)p;
        run();
        if (s->state != 2) { errno = s->state == 3 ? s->err : ENOTCONN; return -1; }
        vos::FaultHit f = vos::check("send");
        if (f.hit)
        {
            if (f.kind == "eintr") { vos::benign("send.eintr"); errno = EINTR; return -1; }
            if (f.kind == "eagain") { vos::benign("send.eagain"); errno = EAGAIN; return -1; }
            if (f.kind == "short") { n = std::min<size_t>(n, f.arg > 0 ? f.arg : 1); vos::benign("send.short"); }
            if (f.kind == "epipe") { vos::hard("send.epipe"); errno = EPIPE; return -1; }
        }
        if (s->rst) { errno = EPIPE; return -1; }
        s->tx.append(b, n);
        if (!s->answered && s->tx.find("\r\n\r\n") != str::npos)
        {
            s->answered = true;
            gServer.requests.push_back(s->tx);
            if (s->script >= 0)
            {
                Response& r = gServer.script[s->script];
                u64 t = vos::nowNs();
                for (auto& q : r.pieces)
                {
                    t += q.delayNs + 1000;
                    s->ev.push_back({ t, 0, q.bytes });
                }
                if (r.end == "close") s->ev.push_back({ t + 2000, 1, "" });
                if (r.end == "reset") s->ev.push_back({ t + 2000, 2, "" });
                if (r.end == "late-close") s->ev.push_back({ t + 30000000000ull, 1, "" });
            }
        }
        return n;
    }
    int sclose(void*) { return 0; }
    static Sock* make() { Sock* s = new Sock; socks.push_back(s); return s; }
    static int start(Sock* s)
    {
        run();
        if (s->state == 2) { errno = EISCONN; return -1; }
        if (s->state == 1) { errno = EALREADY; return -1; }
        if (s->state == 3) { errno = s->err; return -1; }
        gServer.connections++;
        s->state = 1;
        s->connectKind = "refused";
        long d = 0;
        if (gServer.next < gServer.script.size())
        {
            s->script = gServer.next++;
            s->connectKind = gServer.script[s->script].connect;
            d = gServer.script[s->script].connectDelay;
        }
        s->connectAt = vos::nowNs() + d + 1000;
        errno = EINPROGRESS;
        return -1;
    }
}

#define KIND(fd) int kd = -1; net::Sock* s = vos::active() ? (net::Sock*)vos::netOf(fd, &kd) : 0; (void)s
extern "C"
{
    int socket(int d, int t, int p)
    {
        if (!vos::active() || (d != AF_INET && d != AF_INET6)) return real_socket()(d, t, p);
        Host h;
        vos::tickNet("socket");
        if (d == AF_INET6) { errno = EAFNOSUPPORT; return -1; }
        if (vos::simpleFault("socket")) return -1;
        return vos::newFd(3, net::make());
    }
    int connect(int fd, const struct sockaddr* a, socklen_t n)
    {
        KIND(fd);
        if (kd < 0) return real_connect()(fd, a, n);
        Host h;
        vos::tickNet("connect");
        if (!s) { errno = EBADF; return -1; }
        if (vos::simpleFault("connect")) return -1;
        return net::start(s);
    }
    ssize_t send(int fd, const void* b, size_t n, int fl) { KIND(fd); if (kd < 0) return real_send()(fd, b, n, fl); return write(fd, b, n); }
    ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t l) { KIND(fd); if (kd < 0) return real_sendto()(fd, b, n, fl, a, l); return write(fd, b, n); }
    ssize_t recv(int fd, void* b, size_t n, int fl)
    {
        KIND(fd);
        if (kd < 0) return real_recv()(fd, b, n, fl);
        if (kd == 3 && s) { Host h; vos::tickNet("recv"); return net::sread(s, (char*)b, n, fl & MSG_PEEK); }
        if (kd == 4) { errno = EAGAIN; return -1; }
        return read(fd, b, n);
    }
    ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l) { KIND(fd); if (kd < 0) return real_recvfrom()(fd, b, n, fl, a, l); return recv(fd, b, n, fl); }
    int getsockopt(int fd, int lv, int o, void* v, socklen_t* n)
    {
        KIND(fd);
        if (kd < 0) return real_getsockopt()(fd, lv, o, v, n);
        Host h;
        if (s) net::run();
        if (v && n && *n >= sizeof(int)) { *(int*)v = (lv == SOL_SOCKET && o == SO_ERROR && s) ? s->err : 0; *n = sizeof(int); }
        return 0;
    }
    int setsockopt(int fd, int lv, int o, const void* v, socklen_t n) { KIND(fd); return kd < 0 ? real_setsockopt()(fd, lv, o, v, n) : 0; }
    static int addr(struct sockaddr* a, socklen_t* n, int port)
    {
        struct sockaddr_in in;
        memset(&in, 0, sizeof in);
        in.sin_family = AF_INET;
        in.sin_port = htons(port);
        in.sin_addr.s_addr = htonl(0x0a000001);
        memcpy(a, &in, std::min<size_t>(*n, sizeof in));
        *n = sizeof in;
        return 0;
    }
    int getsockname(int fd, struct sockaddr* a, socklen_t* n) { KIND(fd); return kd < 0 ? real_getsockname()(fd, a, n) : addr(a, n, 40000); }
    int getpeername(int fd, struct sockaddr* a, socklen_t* n) { KIND(fd); return kd < 0 ? real_getpeername()(fd, a, n) : addr(a, n, 80); }
    int shutdown(int fd, int how) { KIND(fd); return kd < 0 ? real_shutdown()(fd, how) : 0; }
    int fcntl(int fd, int c, ...)
    {
        va_list ap; va_start(ap, c); void* x = va_arg(ap, void*); va_end(ap);
        KIND(fd);
        return kd < 0 ? real_fcntl()(fd, c, x) : 0;
    }
    int fcntl64(int fd, int c, ...)
    {
        va_list ap; va_start(ap, c); void* x = va_arg(ap, void*); va_end(ap);
        KIND(fd);
        return kd < 0 ? real_fcntl()(fd, c, x) : 0;
    }
    int ioctl(int fd, unsigned long c, ...)
    {
        va_list ap; va_start(ap, c); void* x = va_arg(ap, void*); va_end(ap);
        KIND(fd);
        if (kd < 0) return real_ioctl()(fd, c, x);
        if (c == FIONREAD) { errno = ENOTTY; return -1; }
        return 0;
    }
    int pipe(int* f)
    {
        if (!vos::active()) return real_pipe()(f);
        Host h;
        f[0] = vos::newFd(4, 0);
        f[1] = vos::newFd(4, 0);
        return f[0] >= 0 && f[1] >= 0 ? 0 : -1;
    }
    int pipe2(int* f, int fl) { return vos::active() ? pipe(f) : real_pipe2()(f, fl); }
    int socketpair(int d, int t, int p, int* f) { return vos::active() ? pipe(f) : real_socketpair()(d, t, p, f); }
    int poll(struct pollfd* v, nfds_t n, int timeout)
    {
        bool ours = false;
        int k;
        if (vos::active()) for (nfds_t i = 0; i < n; i++) { vos::netOf(v[i].fd, &k); if (k >= 0) ours = true; }
        if (!ours)
        {
            if (vos::active() && n == 0) { vos::advance((timeout > 0 ? timeout : 0) * 1000000ull); return 0; }
            return real_poll()(v, n, timeout);
        }
        Host h;
        vos::tickNet("poll");
        u64 deadline = vos::nowNs() + (timeout > 0 ? timeout * 1000000ull : 0);
        for (;;)
        {
            net::run();
            int r = 0;
            for (nfds_t i = 0; i < n; i++)
            {
                v[i].revents = 0;
                int kd = -1;
                net::Sock* s = (net::Sock*)vos::netOf(v[i].fd, &kd);
                if (kd < 0) { continue; }
                if (kd == 4) { if (v[i].events & POLLOUT) v[i].revents |= POLLOUT; }
                else if (kd == 3 && s)
                {
                    if ((v[i].events & POLLIN) && net::readable(s)) v[i].revents |= POLLIN;
                    if ((v[i].events & POLLOUT) && net::writable(s)) v[i].revents |= POLLOUT;
                    if (net::hup(s)) v[i].revents |= s->state == 3 ? POLLERR | POLLHUP : POLLHUP | POLLERR;
                }
                else if (kd == 3) v[i].revents |= POLLNVAL;
                else v[i].revents |= v[i].events & (POLLIN | POLLOUT);
                if (v[i].revents) r++;
            }
            if (r || timeout == 0) return r;
            u64 now = vos::nowNs(), at = 0;
            bool any = net::nextEvent(at);
            if (timeout > 0 && now >= deadline) return 0;
            if (!any && timeout < 0) sim::harness("poll without end: nothing will ever happen");
            u64 to = timeout > 0 ? (any ? std::min(at, deadline) : deadline) : at;
            vos::advance(to > now ? to - now : 1);
        }
    }
    int __poll_chk(struct pollfd* v, nfds_t n, int t, size_t) { return poll(v, n, t); }
    ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
    ssize_t __recv_chk(int fd, void* b, size_t n, size_t, int fl) { return recv(fd, b, n, fl); }
    int __open_2(const char* p, int f) { return open(p, f); }
    int __openat_2(int d, const char* p, int f) { return openat(d, p, f); }
}
