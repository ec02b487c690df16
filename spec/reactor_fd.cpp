// Links, acceptors, timers and events: descriptors, and what is reported to their users.
// SOURCES: common/reactor/Link.cpp common/reactor/Acceptor.cpp common/reactor/Timer.cpp common/reactor/Event.cpp
// ASSUMES: system calls behave as modelled in spec/env_os.h: each may fail, descriptors are fresh, read/write return at most the asked length
#include "env_os.h"
#include "Link.hpp"
#include "Acceptor.hpp"
#include "Timer.hpp"
#include "Event.hpp"
#include "EpollInterface.hpp"
#include "EventHandler.hpp"
#include <cstring>
using namespace app;
using namespace app::reactor;

namespace
{
// the readiness registration: at most one descriptor at a time here
struct Ep : EpollInterface
{
    int fd = -1;
    int events = 0;
    unsigned adds = 0, mods = 0, dels = 0;
    FileDescriptorInterface* who = nullptr;
    int add(FileDescriptorInterface& f, int e) override
    {
        ++adds;
        check(os::isOpen(f.fileDescriptor()), "only an open descriptor is registered");
        if (os::may("addFails")) { errno = 12; return -1; }
        fd = f.fileDescriptor();
        events = e;
        who = &f;
        return 0;
    }
    int mod(FileDescriptorInterface& f, int e) override
    {
        ++mods;
        check(fd != -1 && f.fileDescriptor() == fd, "only a registered descriptor is modified");
        if (os::may("modFails")) { errno = 12; return -1; }
        events = e;
        return 0;
    }
    int del(FileDescriptorInterface& f) override
    {
        ++dels;
        check(os::isOpen(f.fileDescriptor()), "a descriptor is deregistered before it is closed");
        if (fd == f.fileDescriptor()) { fd = -1; who = nullptr; }
        return nondet_bool("delFails") ? -1 : 0;
    }
};
Ep ep;
Link* lk;
unsigned calls;
LinkEvent lastEv;
bool openAtCall;
unsigned nested;
bool lkSet;

bool closedState() { return static_cast<FileDescriptorInterface*>(lk)->fileDescriptor() == -1 && os::openCount() == 0 && ep.fd == -1; }
bool openState(int f) { return f != -1 && static_cast<FileDescriptorInterface*>(lk)->fileDescriptor() == f && os::openCount() == 1 && os::isOpen(f) && ep.fd == f && ep.who == lk; }
void onEv(LinkEvent e)
{
    ++calls;
    lastEv = e;
    openAtCall = os::openCount() != 0;
    if (nested == 1) lk->close();
}

// any link: not connected, or with an open registered descriptor; returns the descriptor or -1
int anyLink()
{
    lk = new Link(ep);
    nested = 0;
    lkSet = split(nondet_bool("handlerSet"));
    if (lkSet) lk->setHandler(onEv);
    if (nondet_bool("notConnected")) return -1;
    int f = os::given(os::sock);
    static_cast<FileDescriptorInterface*>(lk)->setFileDescriptor(f);
    ep.fd = f;
    ep.who = lk;
    ep.events = EPOLLIN | EPOLLET;
    return f;
}
void noStray() { check(os::badCloses == 0, "no descriptor is closed twice"); }
}

HARNESS(h_link_connect, "props=R06;covers=ok,failed,again")
{
    int f = anyLink();
    LinkAddr a;
    a.type = LinkAddr::Type::ipv4;
    __v_bytes(a.data, sizeof a.data, "address");
    bool threw = false;
    try { lk->connect(a); }
    catch (std::exception const&) { threw = true; }
    noStray();
    if (f != -1)
    {
        cover("again");
        check(threw && openState(f) && os::connects == 0, "a connected link is not connected again");
        return;
    }
    if (threw)
    {
        cover("failed");
        check(closedState(), "a failed connect leaves nothing open");
        check(os::failed, "connecting fails only when the system refuses");
        return;
    }
    cover("ok");
    int n = static_cast<FileDescriptorInterface*>(lk)->fileDescriptor();
    check(openState(n) && os::fds[n - os::base].nonblock && os::fds[n - os::base].kind == os::sock, "connect opens one registered non-blocking socket");
    check(os::connects == 1 && (os::connErr == 0 || os::connErr == EINPROGRESS), "connect is under way or done");
    check((ep.events & (EPOLLIN | EPOLLOUT)) == (EPOLLIN | EPOLLOUT), "the end of connecting and data are reported");
    uint8_t const* d = reinterpret_cast<uint8_t const*>(a.data);
    uint8_t const* ip = reinterpret_cast<uint8_t const*>(&os::lastAddr.sin_addr.s_addr);
    uint8_t const* port = reinterpret_cast<uint8_t const*>(&os::lastAddr.sin_port);
    check(os::lastAddr.sin_family == AF_INET && ip[0] == d[0] && ip[1] == d[1] && ip[2] == d[2] && ip[3] == d[3]
        && port[0] == d[4] && port[1] == d[5], "the connection goes to the address and port asked for");
}

HARNESS(h_link_close, "props=R06;covers=open,closed")
{
    int f = anyLink();
    unsigned how = choose(3, "how");
    if (how == 0) lk->close();
    else if (how == 1) lk->release();
    else { delete lk; lk = nullptr; }
    noStray();
    if (f != -1) { cover("open"); check(os::closes == 1 && ep.dels == 1, "the descriptor is deregistered and closed once"); }
    else { cover("closed"); check(os::closes == 0, "a closed link is not closed again"); }
    check(os::openCount() == 0 && ep.fd == -1, "nothing stays open");
    if (!lk) return;
    check(closedState(), "nothing stays open");
    if (how == 1)
    {
        static_cast<FileDescriptorInterface*>(lk)->onFileDescriptorEvent(EPOLLIN);
        check(calls == 0, "a released link reports nothing");
    }
    // and it can be used again
    int g = os::given(os::sock);
    static_cast<FileDescriptorInterface*>(lk)->setFileDescriptor(g);
    check(static_cast<FileDescriptorInterface*>(lk)->fileDescriptor() == g, "a closed link can be used again");
}

HARNESS(h_link_send, "props=R06;covers=sent,failed,closed")
{
    int f = anyLink();
    unsigned char buf[512];
    std::size_t n = nondet<std::size_t>("n");
    assume(n >= 1 && n <= sizeof buf);
    int rc = lk->send(buf, n);
    check(os::openCount() == (f != -1), "sending keeps the link as it is");
    if (f == -1) { cover("closed"); check(rc < 0 && os::writes == 0, "nothing is sent on a closed link"); return; }
    check(os::writes == 1 && os::wrData == buf && os::wrLen == n, "exactly the data is sent");
    if (rc > 0) { cover("sent"); check(os::wrRc == static_cast<long>(n), "success is reported only when everything was sent"); }
    else { cover("failed"); check(os::wrRc != static_cast<long>(n), "failure is reported only when not everything was sent"); }
    check(rc != 0, "the result is success or failure");
}

HARNESS(h_link_receive, "props=R06;covers=data,eof,none,failed,closed")
{
    int f = anyLink();
    uint8_t buf[512];
    std::size_t n = nondet<std::size_t>("n");
    assume(n >= 1 && n <= sizeof buf);
    LinkResult r = lk->receive(buf, n);
    check(os::openCount() == (f != -1), "receiving keeps the link as it is");
    if (f == -1) { cover("closed"); check(r.status == LinkResult::error && os::reads <= 1, "a closed link reports an error"); return; }
    check(os::reads == 1 && os::rdData == buf && os::rdLen <= n && os::rdLen >= 1, "data is read once, into the buffer");
    if (os::rdRc > 0) { cover("data"); check(r.status == LinkResult::ok && r.len == os::rdRc, "received data is reported with its length"); }
    else if (os::rdRc == 0) { cover("eof"); check(r.status == LinkResult::closed || r.status == LinkResult::error, "the end of the connection is reported"); }
    else if (os::rdErr == EAGAIN) { cover("none"); check(r.status == LinkResult::na, "no data is reported as no data"); }
    else { cover("failed"); check(r.status == LinkResult::error || os::rdErr == EINTR, "a failure is reported"); }
    check(r.status != LinkResult::ok || (r.len >= 1 && static_cast<std::size_t>(r.len) <= n), "a successful read has at least one byte");
}

HARNESS(h_link_event, "props=R06;covers=data,connected,error,modfail,nohandler")
{
    int f = anyLink();
    assume(f != -1);
    bool conn = nondet_bool("connecting");
    if (conn) ep.events |= EPOLLOUT;
    nested = choose(2, "nested");
    int e = nondet<int>("events");
    static_cast<FileDescriptorInterface*>(lk)->onFileDescriptorEvent(e);
    noStray();
    if (!lkSet) { cover("nohandler"); check(calls == 0, "nothing is reported without a handler"); return; }
    check(calls == 1, "an event is reported once");
    bool closed = closedState();
    check(closed || openState(f), "the link is open and registered, or closed");
    if (e == EPOLLIN)
    {
        cover("data");
        check(lastEv == LinkEvent::data && openAtCall, "data is reported as data");
    }
    else if (e == EPOLLOUT && ep.mods == 1 && lastEv == LinkEvent::connected)
    {
        cover("connected");
        check(openAtCall && (ep.events & EPOLLIN) && (closed || !(ep.events & EPOLLOUT)), "a connected link waits for data");
    }
    else if (e == EPOLLOUT)
    {
        cover("modfail");
        check(lastEv == LinkEvent::error && !openAtCall && os::failed, "a link that can not be watched is closed and reported as failed");
    }
    else if (e & (EPOLLERR | EPOLLHUP))
    {
        cover("error");
        check(lastEv == LinkEvent::error && !openAtCall && closed, "a failed link is closed and then reported");
    }
    else if (e == (EPOLLIN | EPOLLOUT))
    {
        check(lastEv == LinkEvent::connected || (lastEv == LinkEvent::error && !openAtCall && os::failed), "a connection with data is a connection");
        check(lastEv == LinkEvent::connected || ep.mods == 1, "a connection with data is a connection");
    }
    if (nested == 0) check(lastEv == LinkEvent::error ? closed : !closed, "a link reported as failed is closed, any other is open");
}

// ---- acceptor
namespace
{
Acceptor* ac;
unsigned acCalls;
bool acSet, tmSet;
int anyAcceptor()
{
    ac = new Acceptor(ep);
    acSet = split(nondet_bool("handlerSet"));
    if (acSet) ac->setHandler([] { ++acCalls; });
    if (nondet_bool("notListening")) return -1;
    // reached by listening
    LinkAddr a{};
    try { ac->listen(a); }
    catch (std::exception const&) { assume(false); }
    os::binds = 0;
    ep.adds = 0;
    return static_cast<FileDescriptorInterface*>(ac)->fileDescriptor();
}
bool acClosed() { return static_cast<FileDescriptorInterface*>(ac)->fileDescriptor() == -1 && os::openCount() == 0 && ep.fd == -1; }
bool acOpen(int f) { return f != -1 && static_cast<FileDescriptorInterface*>(ac)->fileDescriptor() == f && os::isOpen(f) && os::fds[f - os::base].listening; }
}

HARNESS(h_acceptor_listen, "props=R06;covers=ok,failed,again")
{
    int f = anyAcceptor();
    LinkAddr a;
    a.type = LinkAddr::Type::ipv4;
    __v_bytes(a.data, sizeof a.data, "address");
    bool threw = false;
    try { ac->listen(a); }
    catch (std::exception const&) { threw = true; }
    noStray();
    if (f != -1) { cover("again"); check(threw && acOpen(f) && os::openCount() == 1 && os::binds == 0, "a listening acceptor does not listen again"); return; }
    if (threw) { cover("failed"); check(acClosed(), "a failed listen leaves nothing open"); check(os::failed, "listening fails only when the system refuses"); return; }
    cover("ok");
    int n = static_cast<FileDescriptorInterface*>(ac)->fileDescriptor();
    check(acOpen(n) && os::openCount() == 1 && ep.fd == n && (ep.events & EPOLLIN) && os::fds[n - os::base].bound && os::fds[n - os::base].listening, "listen opens one registered listening socket");
    uint8_t const* d = reinterpret_cast<uint8_t const*>(a.data);
    uint8_t const* ip = reinterpret_cast<uint8_t const*>(&os::lastAddr.sin_addr.s_addr);
    uint8_t const* port = reinterpret_cast<uint8_t const*>(&os::lastAddr.sin_port);
    check(os::lastAddr.sin_family == AF_INET && ip[0] == d[0] && ip[1] == d[1] && ip[2] == d[2] && ip[3] == d[3]
        && port[0] == d[4] && port[1] == d[5], "it listens on the address and port asked for");
}

HARNESS(h_acceptor_accept, "props=R06;covers=ok,failed")
{
    int f = anyAcceptor();
    assume(f != -1);
    lk = new Link(ep);
    bool threw = false;
    try { ac->accept(*lk); }
    catch (std::exception const&) { threw = true; }
    noStray();
    check(acOpen(f), "the acceptor goes on listening");
    int n = static_cast<FileDescriptorInterface*>(lk)->fileDescriptor();
    if (threw) { cover("failed"); check(os::openCount() == 1 && n == -1, "a failed accept leaves nothing open"); check(os::failed, "accepting fails only when the system refuses"); return; }
    cover("ok");
    check(os::accepts == 1 && os::isOpen(n) && n != f && os::openCount() == 2, "an accepted link has its own descriptor");
    check(os::fds[n - os::base].nonblock && ep.fd == n && ep.who == lk && (ep.events & EPOLLIN), "an accepted link is non-blocking and registered for data");
}

HARNESS(h_acceptor_close, "props=R06;covers=open,closed")
{
    int f = anyAcceptor();
    unsigned how = choose(3, "how");
    static_cast<FileDescriptorInterface*>(ac)->onFileDescriptorEvent(EPOLLIN);
    check(acCalls <= 1 && (acCalls == 1 || !acSet || f == -1), "an incoming connection is reported once");
    if (how == 0) ac->close();
    else if (how == 1) ac->release();
    else { delete ac; ac = nullptr; }
    noStray();
    if (f != -1) { cover("open"); check(os::closes == 1, "the descriptor is closed once"); }
    else { cover("closed"); check(os::closes == 0, "a closed acceptor is not closed again"); }
    check(os::openCount() == 0 && ep.fd == -1, "nothing stays open");
    if (how == 1)
    {
        unsigned c = acCalls;
        static_cast<FileDescriptorInterface*>(ac)->onFileDescriptorEvent(EPOLLIN);
        check(acCalls == c, "a released acceptor reports nothing");
    }
}

// ---- timer
namespace
{
Timer* tm_;
unsigned tmCalls;
TimerInterface& ti() { return *tm_; }
FileDescriptorInterface& tf() { return *tm_; }
int anyTimer()
{
    tm_ = new Timer(ep);
    if (nondet_bool("notCreated")) return -1;
    try { tm_->create(); }
    catch (std::exception const&) { assume(false); }
    tmSet = split(nondet_bool("handlerSet"));
    if (tmSet) tm_->setHandler([] { ++tmCalls; });
    return tf().fileDescriptor();
}
}

HARNESS(h_timer_create, "props=R06;covers=ok,failed,again")
{
    int f = anyTimer();
    bool threw = false;
    try { tm_->create(); }
    catch (std::exception const&) { threw = true; }
    noStray();
    int n = tf().fileDescriptor();
    if (f != -1) { cover("again"); check(threw && n == f && os::openCount() == 1 && ep.fd == f, "a timer is not created twice"); return; }
    if (threw) { cover("failed"); check(n == -1 && os::openCount() == 0 && ep.fd == -1, "a timer that can not be created leaves nothing open"); check(os::failed, "creating a timer fails only when the system refuses"); return; }
    cover("ok");
    check(os::isOpen(n) && os::openCount() == 1 && os::fds[n - os::base].kind == os::timer && os::fds[n - os::base].nonblock
        && ep.fd == n && (ep.events & EPOLLIN), "a timer has one registered descriptor");
    check(os::settimes == 0, "a new timer is not armed");
}

HARNESS(h_timer_start, "props=R06;covers=started,stopped")
{
    int f = anyTimer();
    assume(f != -1);
    if (nondet_bool("stop"))
    {
        cover("stopped");
        ti().stop();
        check(os::settimes == 1 && os::lastTime.it_value.tv_sec == 0 && os::lastTime.it_value.tv_nsec == 0, "a stopped timer is disarmed");
        return;
    }
    long t = nondet<long>("interval");
    assume(t >= 1 && t < (1L << 40));
    ti().start(t);
    cover("started");
    check(os::settimes == 1 && os::lastTime.it_interval.tv_sec == 0 && os::lastTime.it_interval.tv_nsec == 0, "a timer fires once");
    long const nano = 1000000000L;
    long s = os::lastTime.it_value.tv_sec, n = os::lastTime.it_value.tv_nsec;
    check(n >= 0 && n < nano, "the expiration is a valid time");
    if (os::lastTimeFlags & TFD_TIMER_ABSTIME)
        check((s - os::now.tv_sec) * nano + n == os::now.tv_nsec + t * 1000, "the timer expires after the interval, in microseconds");
    else
        check(s * nano + n == t * 1000, "the timer expires after the interval, in microseconds");
}

HARNESS(h_timer_event, "props=R06;covers=fired,spurious,failed")
{
    int f = anyTimer();
    bool threw = false;
    try { tf().onFileDescriptorEvent(EPOLLIN); }
    catch (std::exception const&) { threw = true; }
    if (f != -1 && os::rdRc == 8) { cover("fired"); check(tmCalls == tmSet && !threw, "an expired timer is reported once"); }
    else if (f != -1 && os::rdErr == EAGAIN) { cover("spurious"); check(tmCalls == 0 && !threw, "a timer that has not expired is not reported"); }
    else { cover("failed"); check(tmCalls == 0, "a timer that has not expired is not reported"); }
    check(os::openCount() == (f != -1), "the timer stays as it is");
}

HARNESS(h_timer_close, "props=R06;covers=open,closed")
{
    int f = anyTimer();
    unsigned how = choose(3, "how");
    if (how == 0) tm_->close();
    else if (how == 1) { if (f == -1) return; ti().release(); }
    else { delete tm_; tm_ = nullptr; }
    noStray();
    if (f != -1) { cover("open"); check(os::closes == 1, "the descriptor is closed once"); }
    else { cover("closed"); check(os::closes == 0, "a closed timer is not closed again"); }
    check(os::openCount() == 0 && ep.fd == -1, "nothing stays open");
    if (how != 1) return;
    try { tf().onFileDescriptorEvent(EPOLLIN); } catch (std::exception const&) {}
    check(tmCalls == 0, "a released timer reports nothing");
    try { tm_->create(); } catch (std::exception const&) { assume(false); }
    check(os::openCount() == 1, "a released timer can be used again");
}

// ---- event
namespace
{
struct EvH : EventHandler
{
    unsigned n = 0;
    uint64_t v = 0;
    void onFdEvent(uint64_t x) override { ++n; v = x; }
};
}
HARNESS(h_event, "props=R04,R06;covers=failed,sent,nosend,got,nogot")
{
    static EvH h;
    Event* e = nullptr;
    try { e = new Event(ep, h); }
    catch (std::exception const&) {}
    noStray();
    if (!e) { cover("failed"); check(os::openCount() == 0 && ep.fd == -1, "an event that can not be made leaves nothing open"); return; }
    check(os::openCount() == 1 && ep.who == e && (ep.events & EPOLLIN), "an event is registered");
    bool threw = false;
    try { e->send(); } catch (std::exception const&) { threw = true; }
    check(os::writes == 1 && os::wrLen == 8, "an event is raised by one write");
    if (threw) { cover("nosend"); check(os::wrRc == -1, "a raised event is not reported as failed"); }
    else { cover("sent"); check(os::wrRc == 8, "an event that could not be raised is reported"); }
    check(h.n == 0, "the handler is called by the reactor only");
    threw = false;
    try { static_cast<FileDescriptorInterface*>(e)->onFileDescriptorEvent(EPOLLIN); } catch (std::exception const&) { threw = true; }
    if (os::rdRc == 8) { cover("got"); check(!threw && h.n == 1 && h.v == os::evCount, "the number of raised events is passed on"); }
    else { cover("nogot"); check(h.n == 0, "nothing is passed on when nothing was read"); }
    delete e;
    noStray();
    check(os::openCount() == 0 && ep.fd == -1, "nothing stays open");
}
