// The operating system as seen by the reactor: descriptors, readiness registration, timers.  Every call may
// fail; what the code asks of each call is recorded and checked.  (Assumed contracts of the system calls.)
#pragma once
#include "verif.h"
#include <cerrno>
#include <cstdarg>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <sys/time.h>
#include <netinet/in.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <stdexcept>

// OS_PERFECT: no call fails (for the system as a whole)
#ifdef OS_PERFECT
#define OS_MAY(n) false
#else
#define OS_MAY(n) os::may(n)
#endif

namespace os
{
inline unsigned failed;          // calls that failed so far
inline bool may(char const* n)
{
    if (!nondet_bool(n)) return false;
    ++failed;
    return true;
}
enum Kind { none, sock, timer, event, epollk };
struct Fd { bool open; Kind kind; bool nonblock; bool listening; unsigned short port; bool bound; };
#ifndef OS_FDS
#define OS_FDS 8
#endif
constexpr int base = 100, count = OS_FDS;
inline Fd fds[count];
inline int used;                 // descriptors handed out so far
inline unsigned badCloses;
inline unsigned closes, writes, reads, connects, settimes, binds, accepts;
inline struct sockaddr_in lastAddr, lastConnect;
inline unsigned char const* wrData;
inline std::size_t wrLen;
inline long wrRc;
inline unsigned char* rdData;
inline std::size_t rdLen;
inline long rdRc;
inline int rdErr;
inline uint64_t evCount;
inline unsigned listens;
inline unsigned short listenPort[8];
inline unsigned wakes[count];    // OS_PERFECT: writes per descriptor
inline struct itimerspec lastTime;
inline int lastTimeFlags;
inline struct timespec now;
inline int connErr;

inline bool isOpen(int fd) { return fd >= base && fd < base + count && fds[fd - base].open; }
inline int openCount() { int n = 0; for (auto& f : fds) n += f.open; return n; }
inline bool canFail = true;
inline int make(Kind k)
{
    if (canFail && OS_MAY("noDescriptor")) { errno = 24; return -1; }
    fds[used] = Fd{true, k, false, false};
    return base + used++;
}
// a descriptor that exists already
inline int given(Kind k)
{
    fds[used] = Fd{true, k, k == sock, false};
    return base + used++;
}
}

extern "C"
{
#ifndef VERIF_NATIVE
static int v_errno;
int* __errno_location() noexcept { return &v_errno; }
#endif
int socket(int d, int t, int) noexcept
{
    check(d == AF_INET && (t & SOCK_STREAM), "a TCP socket is made");
    int f = os::make(os::sock);
    if (f != -1 && (t & SOCK_NONBLOCK)) os::fds[f - os::base].nonblock = true;
    return f;
}
__attribute__((used)) int v_os_fcntl(int fd, int cmd, int arg)
{
    check(os::isOpen(fd), "fcntl of an open descriptor");
    if (OS_MAY("fcntlFails")) { errno = 22; return -1; }
    if (cmd == F_GETFL) return 0;
    if (cmd == F_SETFL) os::fds[fd - os::base].nonblock = (arg & O_NONBLOCK) != 0;
    return 0;
}
#ifdef VERIF_NATIVE
int fcntl(int fd, int cmd, ...)
{
    va_list ap;
    va_start(ap, cmd);
    int a = va_arg(ap, int);
    va_end(ap);
    return v_os_fcntl(fd, cmd, a);
}
#endif
int connect(int fd, const struct sockaddr* a, socklen_t n)
{
    check(os::isOpen(fd) && n == sizeof(struct sockaddr_in), "connect of an open descriptor");
    check(os::fds[fd - os::base].nonblock, "connecting does not block");
    ++os::connects;
    os::lastAddr = os::lastConnect = *reinterpret_cast<struct sockaddr_in const*>(a);
    #ifdef OS_PERFECT
    int rc = -1;
#else
    int rc = nondet_bool("connectNow") ? 0 : -1;
#endif
    os::connErr = 0;
    if (rc)
    {
#ifdef OS_PERFECT
        os::connErr = EINPROGRESS;
#else
        os::connErr = nondet_bool("inProgress") ? EINPROGRESS : nondet<int>("connectErrno");
#endif
        if (os::connErr != EINPROGRESS) ++os::failed;
        errno = os::connErr;
    }
    return rc;
}
int bind(int fd, const struct sockaddr* a, socklen_t n) noexcept
{
    check(os::isOpen(fd) && n == sizeof(struct sockaddr_in), "bind of an open descriptor");
    ++os::binds;
    os::lastAddr = *reinterpret_cast<struct sockaddr_in const*>(a);
    if (OS_MAY("bindFails")) { errno = 98; return -1; }
    os::fds[fd - os::base].bound = true;
    os::fds[fd - os::base].port = os::lastAddr.sin_port;
    return 0;
}
int listen(int fd, int backlog) noexcept
{
    check(os::isOpen(fd), "listen on an open descriptor");
    check(backlog > 0, "connections may wait to be accepted");
    if (OS_MAY("listenFails")) { errno = 98; return -1; }
    os::fds[fd - os::base].listening = true;
    if (os::listens < 8) os::listenPort[os::listens] = os::fds[fd - os::base].port;
    ++os::listens;
    return 0;
}
int setsockopt(int fd, int, int, const void*, socklen_t) noexcept
{
    check(os::isOpen(fd), "options of an open descriptor");
    return 0;
}
int accept(int fd, struct sockaddr*, socklen_t*)
{
    check(os::isOpen(fd), "accept on an open descriptor");
    ++os::accepts;
    return os::make(os::sock);
}
int close(int fd)
{
    ++os::closes;
    if (!os::isOpen(fd)) { ++os::badCloses; errno = EBADF; return -1; }
    os::fds[fd - os::base].open = false;
    return os::canFail && OS_MAY("closeReportsError") ? -1 : 0;
}
ssize_t write(int fd, const void* p, size_t n)
{
    check(os::isOpen(fd), "write to an open descriptor");
    ++os::writes;
    os::wrData = static_cast<unsigned char const*>(p);
    os::wrLen = n;
#ifdef OS_PERFECT
    ++os::wakes[fd - os::base];
    return os::wrRc = static_cast<long>(n);
#endif
    long rc = nondet<long>("written");
    assume(rc >= -1 && rc <= static_cast<long>(n));
    if (os::fds[fd - os::base].kind == os::event) assume(rc == -1 || rc == 8);
    if (rc == -1) { ++os::failed; errno = nondet<int>("writeErrno"); }
    os::wrRc = rc;
    return rc;
}
ssize_t read(int fd, void* p, size_t n)
{
    ++os::reads;
    os::rdData = static_cast<unsigned char*>(p);
    os::rdLen = n;
    os::rdErr = 0;
    if (!os::isOpen(fd)) { errno = os::rdErr = EBADF; return os::rdRc = -1; }
    long rc = nondet<long>("readBytes");
    assume(rc >= -1 && rc <= static_cast<long>(n));
    if (os::fds[fd - os::base].kind != os::sock) assume(rc == -1 || rc == 8);
    if (rc == -1) errno = os::rdErr = nondet_bool("again") ? EAGAIN : nondet<int>("readErrno");
    if (rc > 0) __v_bytes(p, rc, "readData");
    if (rc == 8 && os::fds[fd - os::base].kind == os::event) __builtin_memcpy(&os::evCount, p, 8);
    os::rdRc = rc;
    return rc;
}
int timerfd_create(clockid_t c, int flags) noexcept
{
    check(c == CLOCK_MONOTONIC, "timers run on the monotonic clock");
    int f = os::make(os::timer);
    if (f != -1) os::fds[f - os::base].nonblock = (flags & TFD_NONBLOCK) != 0;
    return f;
}
int timerfd_settime(int fd, int flags, const struct itimerspec* v, struct itimerspec*) noexcept
{
    if (!os::isOpen(fd)) { errno = EBADF; return -1; }
    ++os::settimes;
    os::lastTime = *v;
    os::lastTimeFlags = flags;
    if (v->it_value.tv_sec < 0 || v->it_value.tv_nsec < 0 || v->it_value.tv_nsec >= 1000000000L) { ++os::failed; errno = EINVAL; return -1; }
    return 0;
}
int clock_gettime(clockid_t c, struct timespec* t) noexcept
{
    check(c == CLOCK_MONOTONIC, "timers run on the monotonic clock");
#ifdef OS_PERFECT
    *t = os::now;
    return 0;
#endif
    os::now.tv_sec = nondet<long>("nowSec");
    os::now.tv_nsec = nondet<long>("nowNsec");
    assume(os::now.tv_sec >= 0 && os::now.tv_sec < (1L << 33) && os::now.tv_nsec >= 0 && os::now.tv_nsec < 1000000000L);
    *t = os::now;
    return 0;
}
int epoll_create1(int) noexcept { return os::make(os::epollk); }
#ifdef OS_EPOLL
int epoll_ctl(int epfd, int op, int fd, struct epoll_event* ev) noexcept { return os_epoll_ctl(epfd, op, fd, ev); }
int epoll_wait(int epfd, struct epoll_event* ev, int max, int timeout) { return os_epoll_wait(epfd, ev, max, timeout); }
#endif
int eventfd(unsigned, int) noexcept { return os::make(os::event); }
}
