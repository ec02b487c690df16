// The reactor: messages, handlers, pooled entities, readiness events; and the routing between reactors.
// SOURCES: common/reactor/*.cpp
// FLAGS: -DOS_FDS=112
// ASSUMES: system calls behave as modelled in spec/env_os.h and spec/reactor.cpp
// ASSUMES: bounded: at most 3 registered message handlers, 3 messages per wake-up (each step from the state a history of sends leaves)
// ASSUMES: one thread at a time uses the message storage (std::mutex is modelled as a no-op; its use is not verified)
#include "verif.h"
#include <sys/epoll.h>
namespace
{
int os_epoll_ctl(int epfd, int op, int fd, struct epoll_event* ev);
int os_epoll_wait(int epfd, struct epoll_event* ev, int max, int timeout);
}
#define OS_EPOLL
#include "env_os.h"
#include "Reactor.hpp"
#include "ReactorManager.hpp"
#include "Epoll.hpp"
#include "Event.hpp"
#include "Thread.hpp"
#include "MsgMemStorage.hpp"
#include "MsgInterface.hpp"
#include "ComponentInterface.hpp"
#include <cstring>
using namespace app;
using namespace app::reactor;

namespace
{
unsigned ctls, waits;
bool ctlFails = true;
int lastEp, lastOp, lastFd;
struct epoll_event lastEvent;
int os_epoll_ctl(int epfd, int op, int fd, struct epoll_event* ev)
{
    ++ctls;
    check(os::isOpen(epfd), "the readiness descriptor is open");
    lastEp = epfd;
    lastOp = op;
    lastFd = fd;
    lastEvent = *ev;
    if (ctlFails && nondet_bool("ctlFails")) { errno = 22; return -1; }
    return 0;
}
int waitRc;
struct epoll_event waiting[16];
int os_epoll_wait(int epfd, struct epoll_event* ev, int max, int)
{
    ++waits;
    check(os::isOpen(epfd) && max >= 1, "the readiness descriptor is open");
    waitRc = nondet<int>("ready");
    assume(waitRc >= -1 && waitRc <= max && waitRc <= 16);
    waitRc = split(static_cast<unsigned>(waitRc));
    for (int i = 0; i < waitRc; ++i) ev[i] = waiting[i];
    if (waitRc == -1) errno = 4;
    return waitRc;
}

struct FdObj : FileDescriptorInterface
{
    int fd = 5;
    unsigned n = 0;
    unsigned order[12];
    int ev[12];
    bool throws = false;
    int fileDescriptor() const override { return fd; }
    void setFileDescriptor(int f) override { fd = f; }
    void onFileDescriptorEvent(int e) override;
};
unsigned eventNo;
void FdObj::onFileDescriptorEvent(int e)
{
    order[n] = eventNo++;
    ev[n++] = e;
    if (throws) throw std::runtime_error("handler");
}
}

HARNESS(h_epoll_ctl, "props=R04;covers=add,mod,del")
{
    os::canFail = false;
    Epoll e(0);
    EpollInterface& i = e;
    FdObj f;
    f.fd = nondet<int>("fd");
    int ev = nondet<int>("events");
    int rc = 0;
    unsigned c = choose(3, "op");
    if (c == 0) { cover("add"); rc = i.add(f, ev); check(lastOp == EPOLL_CTL_ADD && static_cast<int>(lastEvent.events) == ev, "registers the events asked for"); }
    else if (c == 1) { cover("mod"); rc = i.mod(f, ev); check(lastOp == EPOLL_CTL_MOD && static_cast<int>(lastEvent.events) == ev, "changes the events asked for"); }
    else { cover("del"); rc = i.del(f); check(lastOp == EPOLL_CTL_DEL, "deregisters"); }
    check(ctls == 1 && lastFd == f.fd && (c == 2 || lastEvent.data.ptr == &f), "the descriptor of the object is registered for it");
    check(rc == 0 || rc == -1, "the result is passed on");
}

HARNESS(h_epoll_wait, "bound=ten events of three descriptors;props=R04;covers=failed,some,none,threw;time=300")
{
    os::canFail = false;
    Epoll e(0);
    static FdObj f[3];
    unsigned who[10];
    int evs[10];
    // ten waiting events: the first three and the last arbitrary
    for (unsigned i = 0; i < 10; ++i)
    {
        who[i] = i < 2 ? choose(3, "who") : i % 3;
        who[i] = split(who[i]);
        evs[i] = nondet<int>("ev");
        waiting[i].events = evs[i];
        waiting[i].data.ptr = static_cast<FileDescriptorInterface*>(&f[who[i]]);
    }
    unsigned t = split(choose(4, "throwing"));
    if (t < 3) f[t].throws = true;
    bool threw = false;
    try { e.wait(); } catch (std::exception const&) { threw = true; }
    check(waits == 1, "waits once");
    if (waitRc < 0) { cover("failed"); check(f[0].n + f[1].n + f[2].n == 0, "a failed wait reports nothing"); return; }
    if (waitRc == 0) cover("none");
    if (waitRc > 3) cover("some");
    if (t < 3 && f[t].n) cover("threw");
    check(!threw, "an exception of one handler stays with it");
    unsigned n[3] = {0, 0, 0};
    for (int i = 0; i < waitRc; ++i)
    {
        unsigned w = who[i];
        check(n[w] < f[w].n, "every ready descriptor is reported");
        check(f[w].order[n[w]] == static_cast<unsigned>(i) && f[w].ev[n[w]] == evs[i], "with its events, in order");
        ++n[w];
    }
    check(n[0] == f[0].n && n[1] == f[1].n && n[2] == f[2].n, "nothing else is reported");
}

// ---- messages
namespace
{
struct Msg : MsgInterface
{
    MsgId id;
    ComponentId comp;
    std::size_t len;
    uint64_t payload;
    MsgId getMsgId() const override { return id; }
    ComponentId getCompId() const override { return comp; }
    std::size_t size() const override { return len; }
};
Reactor* rx()
{
    os::canFail = false;
    ctlFails = false;
    return new Reactor(Reactor::Init{0, 1, 0});
}
unsigned got;
unsigned gotBy[8];
MsgId gotId[8];
uint64_t gotPayload[8];
unsigned thrower;
void handle(unsigned who, MsgInterface const& m)
{
    gotBy[got] = who;
    gotId[got] = m.getMsgId();
    gotPayload[got] = static_cast<Msg const&>(m).payload;
    ++got;
    if (who == thrower) throw std::runtime_error("handler");
}
}

HARNESS(h_reactor_send, "props=R04;covers=sent,failed")
{
    auto* r = rx();
    r->registerHandler(7, [](MsgInterface const& m) { handle(1, m); });
    Msg m;
    m.id = nondet<MsgId>("msgId");
    m.payload = nondet<uint64_t>("payload");
    m.comp = 1;
    m.len = sizeof(Msg);
    bool threw = false;
    try { r->send(m); } catch (std::exception const&) { threw = true; }
    check(os::writes == 1, "every sent message wakes the reactor");
    check(threw == (os::wrRc == -1), "sending fails only when the reactor can not be woken");
    check(got == 0, "a message is handled by the reactor's thread");
    if (threw) cover("failed"); else cover("sent");
}

HARNESS(h_reactor_replace, "props=R04;covers=replaced,other")
{
    auto* r = rx();
    MsgId a = nondet<MsgId>("a"), b = nondet<MsgId>("b");
    thrower = 9;
    r->registerHandler(a, [](MsgInterface const& m) { handle(1, m); });
    r->registerHandlers({{b, [](MsgInterface const& m) { handle(2, m); }}});
    Msg m;
    m.id = a;
    m.payload = nondet<uint64_t>("payload");
    m.len = sizeof(Msg);
    try { r->send(m); } catch (std::exception const&) {}
    r->onFdEvent(1);
    if (a == b) cover("replaced"); else cover("other");
    check(got == 1 && gotBy[0] == (a == b ? 2u : 1u), "the last handler registered for an id is used");
}

// k messages are pending, the reactor is woken v times
HARNESS(h_reactor_dispatch, "bound=up to 3 pending messages and 4 wake-ups;props=R04;cases=20;covers=handled,unhandled,threw,stopped;time=600")
{
    unsigned c = vcase(20);
    unsigned k = c / 5;
    uint64_t v = c % 5;
    auto* r = rx();
    MsgId id[3];
    for (auto& i : id) i = nondet<MsgId>("handlerId");
    assume(id[0] < id[1] && id[1] < id[2]);
    thrower = split(choose(4, "thrower"));
    if (nondet_bool("vector"))
    {
        MsgHandlerVector h;
        for (unsigned i = 3; i-- > 0;) h.push_back({id[i], [i](MsgInterface const& m) { handle(i, m); }});
        r->registerHandlers(h);
    }
    else
        for (unsigned i = 0; i < 3; ++i) r->registerHandler(id[i], [i](MsgInterface const& m) { handle(i, m); });
    Msg m[3];
    for (unsigned i = 0; i < k; ++i)
    {
        m[i].id = i == 0 ? nondet<MsgId>("msgId") : id[i];
        m[i].payload = nondet<uint64_t>("payload");
        m[i].comp = 1;
        m[i].len = sizeof(Msg);
        try { r->send(m[i]); } catch (std::exception const&) {}
        assume(os::wrRc == 8);
    }
    bool stop = nondet_bool("stopped");
    if (stop) { r->stop(); cover("stopped"); }
    r->onFdEvent(v);
    if (stop) { check(got == 0, "a stopped reactor handles nothing"); return; }
    unsigned n = 0;
    for (unsigned i = 0; i < k && i < v; ++i)
    {
        unsigned h = m[i].id == id[2] ? 2 : m[i].id == id[1] ? 1 : m[i].id == id[0] ? 0 : 3;
        if (h == 3) { cover("unhandled"); continue; }
        cover("handled");
        if (h == thrower && i + 1 < k && i + 1 < v) cover("threw");
        check(n < got && gotBy[n] == h && gotId[n] == m[i].id && gotPayload[n] == m[i].payload, "each message goes to the handler of its id, as sent and in order");
        ++n;
    }
    check(n == got, "nothing else is handled");
    // what was not handled yet comes with the next wake-up
    unsigned rest = v < k ? k - v : 0;
    got = 0;
    r->onFdEvent(4);
    n = 0;
    for (unsigned i = k - rest; i < k; ++i)
    {
        unsigned h = m[i].id == id[2] ? 2 : m[i].id == id[1] ? 1 : m[i].id == id[0] ? 0 : 3;
        if (h == 3) continue;
        check(n < got && gotBy[n] == h && gotPayload[n] == m[i].payload, "no message is lost");
        ++n;
    }
    check(n == got, "no message is handled twice");
}

HARNESS(h_reactor_full, "props=R04;covers=x")
{
    auto* r = rx();
    r->registerHandler(7, [](MsgInterface const& m) { check(static_cast<Msg const&>(m).payload == got, "messages are handled in order"); ++got; });
    Msg m;
    m.id = 7;
    m.len = sizeof m;
    unsigned sent = 0;
    for (unsigned i = 0; i < 66; ++i)
    {
        m.payload = i;
        unsigned w = os::writes;
        try { r->send(m); } catch (std::exception const&) {}
        check(os::writes == w + (i < 64), "a message that can not be stored does not wake the reactor");
        assume(os::wrRc == 8);
    }
    // a message longer than the storage's chunks is dropped as well
    r->onFdEvent(64);
    check(got == 64, "every stored message is handled");
    unsigned w = os::writes;
    m.len = nondet<std::size_t>("len");
    assume(m.len > 4096);
    r->send(m);
    check(os::writes == w, "a message that does not fit is not sent");
    cover("x");
}

// ---- pooled entities
HARNESS(h_reactor_links, "bound=all 32 places taken in order, any one of them released;props=R03;covers=x;time=300")
{
    auto* r = rx();
    unsigned which = split(choose(2, "kind"));
    bool threw = false;
    unsigned const v = split(choose(32, "victim"));
    if (which == 0)
    {
        std::vector<LinkPtr> l;
        for (unsigned i = 0; i < 32; ++i)
        {
            l.push_back(r->createLink([i](LinkEvent) { gotBy[0] = i; ++got; }));
            for (unsigned j = 0; j < i; ++j) check(l[j].get() != l[i].get(), "no link is given out twice");
        }
        try { auto x = r->createLink([](LinkEvent) {}); } catch (std::exception const&) { threw = true; }
        check(threw, "no link is given out when all are in use");
        // an event reaches the owner
        l[v]->setFileDescriptor(os::given(os::sock));
        l[v]->onFileDescriptorEvent(EPOLLIN);
        check(got == 1 && gotBy[0] == v, "an event reaches the owner of the link");
        auto* old = l[v].get();
        unsigned c = os::closes;
        l[v].reset();
        check(os::closes == c + 1, "a released link is closed");
        old->onFileDescriptorEvent(EPOLLIN);
        check(got == 1, "a released link reports nothing");
        auto x = r->createLink([](LinkEvent) { got += 10; });
        check(x.get() == old && x->fileDescriptor() == -1, "a released link can be used again");
        x->onFileDescriptorEvent(EPOLLIN);
        check(got == 11, "an event reaches the new owner of the link");
    }
    else
    {
        std::vector<AcceptorPtr> l;
        for (unsigned i = 0; i < 32; ++i)
        {
            l.push_back(r->createAcceptor([i]() { gotBy[0] = i; ++got; }));
            for (unsigned j = 0; j < i; ++j) check(l[j].get() != l[i].get(), "no acceptor is given out twice");
        }
        try { auto x = r->createAcceptor([]() {}); } catch (std::exception const&) { threw = true; }
        check(threw, "no acceptor is given out when all are in use");
        auto* old = l[v].get();
        static_cast<Acceptor*>(old)->onFileDescriptorEvent(EPOLLIN);
        check(got == 1 && gotBy[0] == v, "an event reaches the owner of the acceptor");
        l[v].reset();
        static_cast<Acceptor*>(old)->onFileDescriptorEvent(EPOLLIN);
        check(got == 1, "a released acceptor reports nothing");
        auto x = r->createAcceptor([]() { got += 10; });
        check(x.get() == old, "a released acceptor can be used again");
    }
    cover("x");
}

HARNESS(h_reactor_timers, "bound=all 32 places taken in order, any one of them released;props=R03;covers=x,failed;time=300")
{
    auto* r = rx();
    std::vector<TimerPtr> l;
    // one creation in between fails
    unsigned at = split(choose(33, "failsAt"));
    unsigned open0 = os::openCount();
    for (unsigned i = 0; i < 32; ++i)
    {
        if (i == at)
        {
            ctlFails = true;
            bool failed = false;
            try { auto t = r->createTimer([] {}); } catch (std::exception const&) { failed = true; }
            ctlFails = false;
            if (failed) cover("failed");
            check(os::openCount() == static_cast<int>(open0 + i), "nothing stays of a timer that could not be created or was released");
        }
        l.push_back(r->createTimer([i] { gotBy[0] = i; ++got; }));
        for (unsigned j = 0; j < i; ++j) check(l[j].get() != l[i].get(), "no timer is given out twice");
    }
    bool threw = false;
    try { auto x = r->createTimer([] {}); } catch (std::exception const&) { threw = true; }
    check(threw, "no timer is given out when all are in use");
    check(os::openCount() == static_cast<int>(open0 + 32), "every timer has its descriptor");
    l.clear();
    check(os::openCount() == static_cast<int>(open0) && os::badCloses == 0, "released timers are closed, each once");
    auto x = r->createTimer([] { ++got; });
    check(os::openCount() == static_cast<int>(open0 + 1), "a released timer can be used again");
    cover("x");
}

// ---- routing between components
namespace
{
struct FakeReactor : ReactorInterface
{
    unsigned n = 0;
    MsgInterface const* last = nullptr;
    void registerHandler(MsgId, MsgHandler) override {}
    void registerHandlers(MsgHandlerVector const&) override {}
    TimerPtr createTimer(TimerHandler) override { return nullptr; }
    LinkPtr createLink(LinkHandler) override { return nullptr; }
    AcceptorPtr createAcceptor(AcceptorHandler) override { return nullptr; }
    void send(MsgInterface const& m) override { ++n; last = &m; }
    unsigned starts = 0, stops = 0;
    void start() override { ++starts; }
    void stop() override { ++stops; }
};
struct FakeComp : ComponentInterface
{
    ComponentId id;
    ReactorInterface& r;
    FakeComp(ComponentId i, ReactorInterface& rr) : id(i), r(rr) {}
    ComponentId getCompId() const override { return id; }
    SenderInterface& getSender() override { return *static_cast<SenderInterface*>(nullptr); }
    ReactorInterface& getReactor() override { return r; }
};
}
HARNESS(h_manager_send, "bound=up to 4 reactors;props=R04;cases=5;covers=routed,nowhere,duplicate;time=300")
{
    auto* mgr = new ReactorManager;
    static FakeReactor r[4];
    ComponentId id[4];
    unsigned c = vcase(5);
    for (unsigned i = 0; i < 4; ++i) id[i] = nondet<ComponentId>("compId");
    // three different components; the fourth differs too, or repeats one of them
    assume(id[0] < id[2] && id[2] < id[1]);
    if (c < 3) assume(id[3] == id[c]);
    else if (c == 3) assume(id[3] > id[1]);
    else assume(id[3] < id[2] && id[3] > id[0]);
    for (unsigned i = 0; i < 4; ++i)
    {
        mgr->addComponent(std::make_unique<FakeComp>(id[i], r[i]));
    }
    if (id[3] == id[1]) cover("duplicate");
    for (unsigned k = 0; k < 2; ++k)
    {
        Msg m;
        m.comp = nondet<ComponentId>("to");
        m.id = 3;
        m.len = sizeof m;
        for (auto& x : r) x.n = 0;
        mgr->send(m);
        unsigned want = 4;
        for (unsigned i = 4; i-- > 0;) if (id[i] == m.comp) want = i;
        if (want < 4) cover("routed"); else cover("nowhere");
        for (unsigned i = 0; i < 4; ++i)
            check(r[i].n == (i == want) && (i != want || r[i].last == &m), "a message goes to the reactor of the component it names, once");
    }
}
HARNESS(h_manager_start, "props=R04;covers=x")
{
    auto* mgr = new ReactorManager;
    unsigned n = split(choose(5, "n"));
    FakeReactor* p[5];
    for (unsigned i = 0; i < n; ++i) { auto u = std::make_unique<FakeReactor>(); p[i] = u.get(); mgr->addReactor(std::move(u)); }
    mgr->start();
    for (unsigned i = 0; i < n; ++i) check(p[i]->starts == 1 && p[i]->stops == 0, "every reactor is started once");
    cover("x");
}
