// small scripted environment for the demonstrations
#pragma once
#include "ReactorInterface.hpp"
#include "LinkInterface.hpp"
#include "TimerInterface.hpp"
#include "AcceptorInterface.hpp"
#include "LinkAddr.hpp"
#include "MsgInterface.hpp"
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <deque>
#include <tuple>
#define REQUIRE(c) do { if (!(c)) { std::fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); std::_Exit(1); } } while (0)
namespace demo
{
using namespace app;
using namespace app::reactor;
typedef std::string Bytes;
struct Link : LinkInterface
{
    LinkHandler handler;
    std::deque<Bytes> rx;        // an empty string is end of file
    std::vector<Bytes> tx;
    unsigned connects = 0, closes = 0;
    bool alive = true;
    int sendRc = 1;
    void connect(LinkAddr const&) override { ++connects; }
    void close() override { ++closes; }
    void release() override {}
    int send(void const* p, std::size_t n) override { tx.push_back(Bytes(static_cast<char const*>(p), n)); return sendRc > 0 ? static_cast<int>(n) : sendRc; }
    LinkResult receive(std::uint8_t* p, std::size_t cap) override
    {
        LinkResult r{};
        r.len = 0;
        if (rx.empty()) { r.status = LinkResult::na; return r; }
        Bytes b = rx.front();
        rx.pop_front();
        if (b.empty()) { r.status = LinkResult::closed; return r; }
        if (b.size() > cap) b.resize(cap);
        std::memcpy(p, b.data(), b.size());
        r.status = LinkResult::ok;
        r.len = static_cast<int>(b.size());
        return r;
    }
    void setHandler(LinkHandler h) override { handler = h; }
    int fileDescriptor() const override { return 5; }
    void setFileDescriptor(int) override {}
    void onFileDescriptorEvent(int) override {}
    void data(Bytes const& b) { rx.push_back(b); auto h = handler; h(LinkEvent::data); }
    void event(LinkEvent e) { auto h = handler; h(e); }
};
struct Timer : TimerInterface
{
    TimerHandler handler;
    bool armed = false, alive = true;
    void start(long t) override { armed = t > 0; }
    void stop() override { armed = false; }
    void release() override { armed = false; }
    void fire() { if (!armed) { std::fprintf(stderr, "FAILED: timer is not armed\n"); std::_Exit(1); } armed = false; auto h = handler; h(); }
};
struct Acceptor : AcceptorInterface
{
    AcceptorHandler handler;
    unsigned listens = 0, accepts = 0;
    LinkInterface* last = nullptr;
    void listen(LinkAddr const&) override { ++listens; }
    void accept(LinkInterface& l) override { ++accepts; last = &l; }
    void close() override {}
    void release() override {}
};
struct Reactor : ReactorInterface
{
    std::vector<Link*> links;
    std::vector<Timer*> timers;
    std::vector<Acceptor*> acceptors;
    std::vector<std::tuple<MsgId, MsgHandler>> handlers;
    void registerHandler(MsgId i, MsgHandler h) override { handlers.push_back(std::make_tuple(i, h)); }
    void registerHandlers(MsgHandlerVector const& v) override { for (auto& h : v) handlers.push_back(h); }
    void dispatch(MsgInterface const& m) { for (auto& h : handlers) if (std::get<0>(h) == m.getMsgId()) { std::get<1>(h)(m); return; } }
    TimerPtr createTimer(TimerHandler h) override { auto* t = new Timer; t->handler = h; timers.push_back(t); return TimerPtr(t, [t](TimerInterface*) { t->alive = false; t->armed = false; }); }
    LinkPtr createLink(LinkHandler h) override { auto* l = new Link; l->handler = h; links.push_back(l); return LinkPtr(l, [l](LinkInterface*) { l->alive = false; }); }
    AcceptorPtr createAcceptor(AcceptorHandler h) override { auto* a = new Acceptor; a->handler = h; acceptors.push_back(a); return AcceptorPtr(a, [](AcceptorInterface*) {}); }
    void send(MsgInterface const&) override {}
    void start() override {}
    void stop() override {}
};
inline Bytes hex(char const* s)
{
    Bytes b;
    for (; *s; )
    {
        if (*s == ' ') { ++s; continue; }
        char t[3] = {s[0], s[1], 0};
        b += static_cast<char>(std::strtoul(t, nullptr, 16));
        s += 2;
    }
    return b;
}
}
