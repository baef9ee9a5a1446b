// Control over the network system calls of the library. The functions below replace the C library's within the
// program; the harness itself calls the real ones through net::real. What a call of the library on a connection may
// do is looked up by the connection's remote port.
#pragma once
#include <functional>
#include <arpa/inet.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <set>
#include <string>
#include <string.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <unistd.h>
#include <vector>

namespace net
{
struct Real
{
    ssize_t (*send)(int, const void*, size_t, int);
    ssize_t (*sendmsg)(int, const msghdr*, int);
    ssize_t (*recv)(int, void*, size_t, int);
    ssize_t (*recvmsg)(int, msghdr*, int);
    ssize_t (*read)(int, void*, size_t);
    ssize_t (*write)(int, const void*, size_t);
    int (*accept)(int, sockaddr*, socklen_t*);
    int (*accept4)(int, sockaddr*, socklen_t*, int);
    int (*socket)(int, int, int);
    int (*bind)(int, const sockaddr*, socklen_t);
    int (*connect)(int, const sockaddr*, socklen_t);
    int (*close)(int);
    int (*epoll_ctl)(int, int, int, epoll_event*);
    int (*getaddrinfo)(const char*, const char*, const addrinfo*, addrinfo**);
    void (*freeaddrinfo)(addrinfo*);
};
template <typename F> void load(F& f, const char* n) { f = reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
inline Real& real()
{
    static Real r = [] {
        Real x;
        load(x.send, "send"); load(x.sendmsg, "sendmsg"); load(x.recv, "recv"); load(x.recvmsg, "recvmsg");
        load(x.read, "read"); load(x.write, "write"); load(x.accept, "accept"); load(x.accept4, "accept4");
        load(x.socket, "socket"); load(x.bind, "bind"); load(x.connect, "connect"); load(x.close, "close");
        load(x.epoll_ctl, "epoll_ctl"); load(x.getaddrinfo, "getaddrinfo"); load(x.freeaddrinfo, "freeaddrinfo");
        return x;
    }();
    return r;
}

struct Limit
{
    long budget = -1;   // bytes that may still be written, -1: any
    long chunk = -1;    // bytes per write call
    long rchunk = -1;   // bytes per read call
    int err = 0;        // the next write fails with this
};
struct Ctl
{
    bool on = false;
    std::map<int, Limit> limits;                    // remote port ->, or minus the local port
    std::vector<int> accept_errors;                 // for the next calls of accept
    int socket_errors = 0, bind_errors = 0;         // how many of the next calls fail
    std::set<std::pair<uint32_t, uint16_t>> bound;  // the addresses that sockets were bound to
    int resolve = 0;                                // 1: fails, 2: several addresses
    std::string ip, other;                          // the address names resolve to, and one where nothing listens
    std::map<int, std::pair<int, epoll_event>> armed; // fd -> epoll fd and its registration
    std::function<void(int)> failed;                // told of every write that was made to fail
    long sent = 0;                                  // bytes the library has written
};
inline Ctl& ctl()
{
    static Ctl c;
    return c;
}

// what is written reaches the peer at once, so that nothing is under way when nothing is left to do
inline int prompt(int fd)
{
    int one = 1, e = errno;
    if (ctl().on && fd >= 0) setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    errno = e;
    return fd;
}

inline int remote_port(int fd)
{
    sockaddr_in a{};
    socklen_t n = sizeof a;
    if (getpeername(fd, reinterpret_cast<sockaddr*>(&a), &n) != 0) return -1;
    return ntohs(a.sin_port);
}
inline int local_port(int fd)
{
    sockaddr_in a{};
    socklen_t n = sizeof a;
    if (getsockname(fd, reinterpret_cast<sockaddr*>(&a), &n) != 0) return -1;
    return ntohs(a.sin_port);
}
inline Limit* limit(int fd)
{
    if (!ctl().on) return nullptr;
    auto it = ctl().limits.find(remote_port(fd));
    if (it == ctl().limits.end()) it = ctl().limits.find(-local_port(fd));
    return it == ctl().limits.end() ? nullptr : &it->second;
}

// How many of n bytes may be written now; < 0: an error is set
inline ssize_t allowed(int fd, size_t n)
{
    auto* l = limit(fd);
    if (!l) return n;
    if (l->err)
    {
        int e = l->err;
        l->err = 0;
        if (ctl().failed) ctl().failed(remote_port(fd));
        errno = e;
        return -1;
    }
    if (l->budget == 0) { errno = EAGAIN; return -1; }
    if (l->budget > 0 && (long)n > l->budget) n = l->budget;
    if (l->chunk > 0 && (long)n > l->chunk) n = l->chunk;
    return n;
}
inline void rearm(int fd = -1)
{
    for (auto& a : ctl().armed)
    {
        if (fd >= 0 && a.first != fd) continue;
        epoll_event ev = a.second.second;
        real().epoll_ctl(a.second.first, EPOLL_CTL_MOD, a.first, &ev);
    }
}
// like a socket whose buffer gets free again, one that took less than it was given reports that it can take more
inline void wrote(int fd, ssize_t r, size_t n)
{
    if (r <= 0) return;
    if ((size_t)r < n) rearm(fd);
    ctl().sent += r;
    auto* l = limit(fd);
    if (l && l->budget > 0) l->budget -= r;
}
// Whether every other thread of the process sleeps
inline bool others_asleep()
{
    DIR* d = opendir("/proc/self/task");
    if (!d) return true;
    bool ok = true;
    int me = gettid();
    while (dirent* e = readdir(d))
    {
        int t = atoi(e->d_name);
        if (t == 0 || t == me) continue;
        char path[64], buf[256];
        snprintf(path, sizeof path, "/proc/self/task/%d/stat", t);
        int fd = open(path, O_RDONLY);
        if (fd < 0) continue;
        ssize_t n = real().read(fd, buf, sizeof buf - 1);
        real().close(fd);
        if (n <= 0) continue;
        buf[n] = 0;
        const char* p = strrchr(buf, ')');
        if (!p || p[2] != 'S') { ok = false; break; }
    }
    closedir(d);
    return ok;
}
} // namespace net

extern "C" {
ssize_t send(int fd, const void* b, size_t n, int f)
{
    ssize_t k = net::allowed(fd, n);
    if (k < 0) return k;
    ssize_t r = net::real().send(fd, b, k, f);
    net::wrote(fd, r, n);
    return r;
}
ssize_t sendmsg(int fd, const msghdr* m, int f)
{
    size_t n = 0;
    for (size_t i = 0; i < m->msg_iovlen; ++i) n += m->msg_iov[i].iov_len;
    ssize_t k = net::allowed(fd, n);
    if (k < 0) return k;
    std::vector<iovec> v;
    size_t left = k;
    for (size_t i = 0; i < m->msg_iovlen && left; ++i)
    {
        iovec x = m->msg_iov[i];
        if (x.iov_len > left) x.iov_len = left;
        left -= x.iov_len;
        v.push_back(x);
    }
    msghdr c = *m;
    c.msg_iov = v.data();
    c.msg_iovlen = v.size();
    ssize_t r = net::real().sendmsg(fd, &c, f);
    net::wrote(fd, r, n);
    return r;
}
ssize_t recv(int fd, void* b, size_t n, int f)
{
    auto* l = net::limit(fd);
    if (l && l->rchunk > 0 && (long)n > l->rchunk) n = l->rchunk;
    return net::real().recv(fd, b, n, f);
}
ssize_t recvmsg(int fd, msghdr* m, int f)
{
    auto* l = net::limit(fd);
    if (l && l->rchunk > 0 && m->msg_iovlen >= 1)
    {
        iovec x = m->msg_iov[0];
        if ((long)x.iov_len > l->rchunk) x.iov_len = l->rchunk;
        msghdr c = *m;
        c.msg_iov = &x;
        c.msg_iovlen = 1;
        return net::real().recvmsg(fd, &c, f);
    }
    return net::real().recvmsg(fd, m, f);
}
int accept(int fd, sockaddr* a, socklen_t* n)
{
    auto& e = net::ctl().accept_errors;
    if (net::ctl().on && !e.empty())
    {
        // like a real failure, it needs a connection that waits
        int s = net::real().accept4(fd, nullptr, nullptr, SOCK_NONBLOCK);
        if (s < 0) return s;
        int err = e.front();
        e.erase(e.begin());
        net::real().close(s);
        errno = err;
        return -1;
    }
    return net::prompt(net::real().accept(fd, a, n));
}
int socket(int d, int t, int p)
{
    if (net::ctl().on && net::ctl().socket_errors > 0 && d == AF_INET)
    {
        --net::ctl().socket_errors;
        errno = EMFILE;
        return -1;
    }
    return net::prompt(net::real().socket(d, t, p));
}
int bind(int fd, const sockaddr* a, socklen_t n)
{
    if (net::ctl().on && net::ctl().bind_errors > 0)
    {
        --net::ctl().bind_errors;
        errno = EADDRNOTAVAIL;
        return -1;
    }
    auto* s = reinterpret_cast<const sockaddr_in*>(a);
    int reuse = 0;
    socklen_t m = sizeof reuse;
    getsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &reuse, &m);
    if (net::ctl().on && a->sa_family == AF_INET && s->sin_port != 0 && !reuse && !net::ctl().bound.emplace(s->sin_addr.s_addr, s->sin_port).second)
    {
        // connections linger after their end, and so do their addresses
        errno = EADDRINUSE;
        return -1;
    }
    return net::real().bind(fd, a, n);
}
int epoll_ctl(int ep, int op, int fd, epoll_event* ev)
{
    int r = net::real().epoll_ctl(ep, op, fd, ev);
    if (r == 0 && ev && op != EPOLL_CTL_DEL) net::ctl().armed[fd] = {ep, *ev};
    if (r == 0 && op == EPOLL_CTL_DEL) net::ctl().armed.erase(fd);
    return r;
}
int close(int fd)
{
    net::ctl().armed.erase(fd);
    return net::real().close(fd);
}
int getaddrinfo(const char* node, const char* service, const addrinfo* hints, addrinfo** res)
{
    auto& c = net::ctl();
    if (!c.on || !node) return net::real().getaddrinfo(node, service, hints, res);
    in_addr a{};
    std::vector<in_addr> as;
    if (inet_pton(AF_INET, node, &a) == 1) as.push_back(a);
    else if (c.resolve == 1) return EAI_NONAME;
    else
    {
        if (c.resolve == 2) { inet_pton(AF_INET, c.other.c_str(), &a); as.push_back(a); }
        inet_pton(AF_INET, c.ip.c_str(), &a);
        as.push_back(a);
    }
    addrinfo* first = nullptr;
    addrinfo** tail = &first;
    for (auto& x : as)
    {
        auto* i = static_cast<addrinfo*>(calloc(1, sizeof(addrinfo) + sizeof(sockaddr_in)));
        auto* s = reinterpret_cast<sockaddr_in*>(i + 1);
        s->sin_family = AF_INET;
        s->sin_port = htons(service ? atoi(service) : 0);
        s->sin_addr = x;
        i->ai_family = AF_INET;
        i->ai_socktype = SOCK_STREAM;
        i->ai_protocol = IPPROTO_TCP;
        i->ai_addrlen = sizeof(sockaddr_in);
        i->ai_addr = reinterpret_cast<sockaddr*>(s);
        *tail = i;
        tail = &i->ai_next;
    }
    *res = first;
    return 0;
}
void freeaddrinfo(addrinfo* a)
{
    if (!net::ctl().on) return net::real().freeaddrinfo(a);
    while (a)
    {
        auto* n = a->ai_next;
        free(a);
        a = n;
    }
}
}
