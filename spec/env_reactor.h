// Environment contracts of the reactor interfaces, as seen by the protocol entities: links, timers and
// acceptors are arbitrary implementations of LinkInterface / TimerInterface / AcceptorInterface.
#pragma once
#include "verif.h"
#include "ReactorInterface.hpp"
#include "LinkInterface.hpp"
#include "TimerInterface.hpp"
#include "AcceptorInterface.hpp"
#include "LinkAddr.hpp"
#include "MsgInterface.hpp"
#include <tuple>
#include <cstring>

namespace env
{
using namespace app;
using namespace app::reactor;

// Every reading: status na/error/closed, or ok with 1..cap arbitrary bytes (Link::receive's contract, R06)
struct Link : LinkInterface
{
    LinkHandler handler;
    unsigned connects = 0, closes = 0, sends = 0, receives = 0, releases = 0;
    LinkAddr lastAddr{};
    int lastStatus = -9;
    unsigned lastLen = 0;
    void (*onSend)(void const*, std::size_t) = nullptr;
    int sendRc = 0;

    void connect(LinkAddr const& a) override { ++connects; lastAddr = a; }
    void close() override { ++closes; }
    void release() override { ++releases; }
    int send(void const* p, std::size_t n) override
    {
        ++sends;
        if (onSend) onSend(p, n);
        sendRc = nondet<int>("sendRc");
        assume(sendRc >= -1 && (sendRc < 0 || static_cast<std::size_t>(sendRc) <= n));
        return sendRc;
    }
    LinkResult receive(std::uint8_t* p, std::size_t cap) override
    {
        ++receives;
        int st = nondet<int>("rxStatus");
        assume(st >= -2 && st <= 1);
        LinkResult r{};
        lastStatus = st;
        lastLen = 0;
        if (st == 1)
        {
            check(cap != 0, "link is read with room for data");
            unsigned n = nondet<unsigned>("rxLen");
            assume(n >= 1 && n <= cap);
            __v_bytes(p, n, "rx");
            r.status = LinkResult::ok;
            r.len = static_cast<int>(n);
            lastLen = n;
        }
        else
        {
            r.status = st == 0 ? LinkResult::closed : st == -1 ? LinkResult::error : LinkResult::na;
            r.len = nondet<int>("rxNoLen");
        }
        return r;
    }
    void setHandler(LinkHandler h) override { handler = h; }
    int fileDescriptor() const override { return 5; }
    void setFileDescriptor(int) override {}
    void onFileDescriptorEvent(int) override {}
};

struct Timer : TimerInterface
{
    TimerHandler handler;
    bool armed = false;
    unsigned starts = 0, stops = 0, releases = 0;
    long timeout = 0;
    void start(long t) override { armed = t > 0; ++starts; timeout = t; }  // a timer set to 0 never fires (timerfd)
    void stop() override { armed = false; ++stops; }
    void release() override { ++releases; armed = false; }
};

struct Acceptor : AcceptorInterface
{
    AcceptorHandler handler;
    LinkAddr lastAddr{};
    unsigned listens = 0, accepts = 0, closes = 0;
    LinkInterface* accepted = nullptr;
    void listen(LinkAddr const& a) override { ++listens; lastAddr = a; }
    void accept(LinkInterface& l) override { ++accepts; accepted = &l; }
    void close() override { ++closes; }
    void release() override {}
};

inline Link* theLink;
inline Timer* theTimer;
inline Acceptor* theAcceptor;
inline unsigned linksMade, timersMade, acceptorsMade, linksFreed, timersFreed, acceptorsFreed;

struct Reactor : ReactorInterface
{
    void registerHandler(MsgId, MsgHandler) override {}
    MsgHandlerVector* handlers = nullptr;
    void registerHandlers(MsgHandlerVector const& v) override { handlers = new MsgHandlerVector(v); }
    // what the reactor does with a message (R04)
    unsigned dispatch(MsgInterface const& m)
    {
        unsigned n = 0;
        for (auto& h : *handlers) if (std::get<0>(h) == m.getMsgId()) { ++n; std::get<1>(h)(m); }
        return n;
    }
    TimerPtr createTimer(TimerHandler h) override
    {
        ++timersMade;
        theTimer->handler = h;
        return TimerPtr(theTimer, [](TimerInterface*) { ++timersFreed; });
    }
    LinkPtr createLink(LinkHandler h) override
    {
        ++linksMade;
        theLink->handler = h;
        return LinkPtr(theLink, [](LinkInterface*) { ++linksFreed; });
    }
    AcceptorPtr createAcceptor(AcceptorHandler h) override
    {
        ++acceptorsMade;
        theAcceptor->handler = h;
        return AcceptorPtr(theAcceptor, [](AcceptorInterface*) { ++acceptorsFreed; });
    }
    void send(MsgInterface const&) override {}
    void start() override {}
    void stop() override {}
};

// fields of an object that the specification does not know (added by a change, or padding) hold anything
struct Known { void const* p; std::size_t n; };
template <typename T, typename... K>
inline void havoc_rest(T& obj, K const&... k)
{
    if (!__v_is_symbolic()) return;
    Known ks[] = { Known{&k, sizeof k}... };
    unsigned char* base = reinterpret_cast<unsigned char*>(&obj);
    std::size_t pos = 0;
    while (pos < sizeof obj)
    {
        std::size_t next = sizeof obj;
        bool in = false;
        for (auto const& kn : ks)
        {
            std::size_t o = static_cast<unsigned char const*>(kn.p) - base;
            if (o <= pos && pos < o + kn.n) { pos = o + kn.n; in = true; break; }
            if (o > pos && o < next) next = o;
        }
        if (in) continue;
        __v_havoc_data(base + pos, next - pos);
        pos = next;
    }
}
}
