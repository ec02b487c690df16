// The OPC UA transport component: connections are accepted while there are places, messages reach the connection they name.
// SOURCES: ua/transport/*.cpp
// SOURCES: ua/transport/server/*.cpp
// SOURCES: common/ua/common/*.cpp
#include "verif.h"
#include "env_reactor.h"
#include "UaTransportComponent.hpp"
#include "UaTransport.hpp"
#include "UaTcpConnectionInit.hpp"
#include "UaTcpConnectionReceiveHello.hpp"
#include "UaTcpConnectionConnected.hpp"
using namespace app;
using namespace app::ua::transport;
using reactor::LinkPtr; using reactor::TimerPtr; using reactor::LinkHandler; using reactor::TimerHandler; using reactor::LinkInterface; using reactor::TimerInterface;

namespace
{
constexpr unsigned N = 32;
struct Acc : env::Acceptor
{
    reactor::LinkAddr addr{};
    void listen(reactor::LinkAddr const& a) override { ++listens; addr = a; }
} acc;
env::Link links[N + 2];
env::Timer timers[N + 2];
unsigned linkFreed[N + 2], timerFreed[N + 2];
unsigned nl, nt;
struct Rea : env::Reactor
{
    TimerPtr createTimer(TimerHandler h) override
    {
        check(nt < N + 2, "U03: a timer for each connection");
        timers[nt].handler = h;
        return TimerPtr(&timers[nt++], [](TimerInterface* t) { ++timerFreed[static_cast<env::Timer*>(t) - timers]; });
    }
    LinkPtr createLink(LinkHandler h) override
    {
        check(nl < N + 2, "U03: a link for each connection");
        links[nl].handler = h;
        return LinkPtr(&links[nl++], [](LinkInterface* l) { ++linkFreed[static_cast<env::Link*>(l) - links]; });
    }
} rea;
UaTransportComponent* comp;
unsigned initRsp, releaseRsp, inds, others;
unsigned indCon, indChan;
struct Snd : reactor::SenderInterface
{
    void send(reactor::MsgInterface const& m) override
    {
        if (m.getMsgId() == MsgUaTransportInitRsp::msgId()) { ++initRsp; check(m.getCompId() == CompIds::compController, "U03: answers go to the controller"); }
        else if (m.getMsgId() == MsgUaTransportReleaseRsp::msgId()) { ++releaseRsp; check(m.getCompId() == CompIds::compController, "U03: answers go to the controller"); }
        else if (m.getMsgId() == MsgUaConnectionReleaseInd::msgId())
        {
            ++inds;
            auto const& i = static_cast<MsgUaConnectionReleaseInd const&>(m);
            indCon = i.connectionId;
            indChan = i.secureChannelId;
            check(m.getCompId() == CompIds::compUaSecChannel, "U03: channels are told through their component");
        }
        else ++others;
    }
} snd;
// the place a connection has, 1.. (0: none)
unsigned placeOf(unsigned link)
{
    unsigned n = 0;
    for (unsigned u = 1; u <= N; ++u) if (comp->uaTransport->server.connectionPool.get(u).link.get() == &links[link]) n = u;
    return n;
}
void make()
{
    env::theAcceptor = &acc;
    comp = new UaTransportComponent(snd, rea);
}
void init()
{
    MsgUaTransportInitReq r;
    check(rea.dispatch(r) == 1 && initRsp == 1, "U03: initialisation is answered once");
    MsgUaTransportConfigReq c;
    __v_bytes(&c.addr, sizeof c.addr, "addr");
    check(rea.dispatch(c) == 1, "U03: every request has one handler");
    check(acc.listens == 1 && env::acceptorsMade == 1 && std::memcmp(&acc.addr, &c.addr, sizeof c.addr) == 0, "U03: the server listens where it is configured to");
}
// n connections arrive
void arrive(unsigned n)
{
    for (unsigned i = 0; i < n; ++i)
    {
        acc.handler();
        check(acc.accepts == i + 1 && acc.accepted == &links[i] && nl == i + 1, "U03: a connection is accepted on a link of its own");
    }
}
template <typename M> struct Msg { M m; uint8_t more[8]; };
}
HARNESS(h_uatr_life, "bound=3 connections;props=U03;covers=x;time=300;steps=20000000")
{
    make();
    // nothing is there before the initialisation
    MsgUaConnectionReleaseReq rr; rr.connectionId = nondet<unsigned>("any");
    check(rea.dispatch(rr) == 1, "U03: every request has one handler");
    init();
    arrive(3);
    MsgUaTransportReleaseReq e;
    check(rea.dispatch(e) == 1 && releaseRsp == 1 && initRsp == 1, "U03: release is answered once");
    for (unsigned i = 0; i < 3; ++i) check(linkFreed[i] == 1 && timerFreed[i] == 1, "U03: a released transport gives back links and timers");
    check(env::acceptorsFreed == 1, "U03: a released transport no longer listens");
    check(others == 0 && inds == 0, "U03: nothing else is sent");
    // and nothing is there any more
    check(rea.dispatch(rr) == 1, "U03: every request has one handler");
    cover("x");
    check(others == 0 && inds == 0 && releaseRsp == 1, "U03: nothing else is sent");
}
// all places are taken, one is given back and taken again
HARNESS(h_uatr_full, "bound=32 connections (all there are), each of them ending first;props=U03;covers=x;time=600;steps=40000000;cases=32;cost=8")
{
    make();
    init();
    arrive(N);
    bool seen[N + 1] = {};
    unsigned place[N];
    for (unsigned i = 0; i < N; ++i)
    {
        unsigned u = place[i] = placeOf(i);
        check(u != 0 && !seen[u], "U03: every connection has a place of its own");
        seen[u] = true;
        check(linkFreed[i] == 0 && timerFreed[i] == 0 && timers[i].armed, "U03: every connection is served");
    }
    acc.handler();
    check(linkFreed[N] == 1 && nt == N, "U03: a connection without a place is closed");
    for (unsigned i = 0; i < N; ++i) check(placeOf(i) == place[i], "U03: the others keep their places");
    unsigned k = vcase(N);
    links[k].handler(reactor::LinkEvent::error);
    check(linkFreed[k] == 1 && timerFreed[k] == 1 && placeOf(k) == 0, "U03: an ended connection leaves its place");
    acc.handler();
    check(placeOf(N + 1) == place[k] && linkFreed[N + 1] == 0, "U03: a free place is used again");
    for (unsigned i = 0; i < N; ++i) if (i != k) check(placeOf(i) == place[i] && linkFreed[i] == 0, "U03: the others keep their places");
    cover("x");
}
// messages are for the connection they name, and for no other
HARNESS(h_uatr_route, "bound=4 connections;props=U03;covers=known,unknown;time=600;steps=40000000;cases=4;cost=8")
{
    make();
    init();
    arrive(4);
    unsigned kind = vcase(4);
    unsigned place[4];
    auto& pool = comp->uaTransport->server.connectionPool;
    for (unsigned i = 0; i < 4; ++i)
    {
        place[i] = placeOf(i);
        auto& c = pool.get(place[i]);
        c.state = &app::getSingleton<UaTcpConnectionConnected>();
        c.associatedSecureChannelId = 100 + i;
    }
    unsigned to = nondet<unsigned>("to");
    unsigned chan = nondet<unsigned>("channel");
    assume(chan >= 100 && chan < 104);
    unsigned rx = 4;
    for (unsigned i = 0; i < 4; ++i) if (to == place[i]) rx = i;
    rx = split(rx);
    bool thrown = false;
    Msg<MsgUaSecuredMessageSendReq> s; Msg<MsgUaOpenSecureChannelRsp> o; Msg<MsgUaCloseSecureChannelRsp> c; MsgUaConnectionReleaseReq r;
    s.m.connectionId = o.m.connectionId = c.m.connectionId = r.connectionId = to;
    s.m.secureChannelId = o.m.secureChannelId = c.m.secureChannelId = chan;
    s.m.chunkType.val = o.m.chunkType.val = c.m.chunkType.val = UaChunkTypeEnum::final;
    s.m.length = o.m.length = c.m.length = 4;
    try
    {
        unsigned n = kind == 0 ? rea.dispatch(s.m) : kind == 1 ? rea.dispatch(o.m) : kind == 2 ? rea.dispatch(c.m) : rea.dispatch(r);
        check(n == 1, "U03: every request has one handler");
    }
    catch (std::exception const&) { thrown = true; }
    if (rx < 4)
    {
        cover("known");
        check(!thrown, "U03: a message for a connection is accepted");
        if (kind == 3) check(linkFreed[rx] == 1, "U03: a connection is released on request");
        else if (kind == 1 || chan == 100 + rx) check(links[rx].sends == 1, "U03: a message reaches the connection it names");
    }
    else
    {
        cover("unknown");
        if (to == 0 || to > N) check(inds == 0, "U03: a message for no connection has no effect");
        if (inds) check(kind == 1 && indCon == to && indChan == chan, "U03: a channel opened for a connection that is gone is told so");
    }
    for (unsigned i = 0; i < 4; ++i)
        if (i != rx) check(links[i].sends == 0 && linkFreed[i] == 0 && placeOf(i) == place[i], "U03: a message has no effect on other connections");
    check(others == 0, "U03: nothing else is sent");
}
