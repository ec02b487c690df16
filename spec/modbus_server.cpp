// The Modbus server and its pool of sessions: the pool never gives out a session that is in use.
// SOURCES: modbus/server/*.cpp
// SOURCES: modbus/server/session/*.cpp
// SOURCES: modbus/ModbusCodec.cpp
#include "verif.h"
#include "env_reactor.h"
#include "modbus_contracts.h"
#include "ModbusServer.hpp"
#include "ModbusSessionInit.hpp"
#include "ModbusSessionConnected.hpp"
#include "ModbusReactor.hpp"
#include "ModbusSender.hpp"
using namespace app;
using namespace app::modbus;

namespace
{
env::Link lnk;
env::Timer tmr;
env::Acceptor acc;
env::Reactor rea;
ModbusServer* srv;
unsigned theId;
unsigned delivered, deliveredTo;
MsgModbusAduRsp const* deliveredMsg;
constexpr unsigned N = 256;

std::size_t at(Queue<unsigned> const& q, std::size_t k)
{
    std::size_t i = q.begin + k;
    return i >= N ? i - N : i;
}
void make()
{
    env::theLink = &lnk;
    env::theTimer = &tmr;
    env::theAcceptor = &acc;
    static app::modbus::Reactor r(rea);
    static reactor::LinkAddr addr;
    theId = nondet<unsigned>("serverId");
    ModbusServer::Init init{theId, addr};
    srv = new ModbusServer(init);
}
// ghost: the free ids, oldest first, are ids[beg .. beg + len)
unsigned ids[N + 1];
unsigned beg, len;
// any set of free sessions, in any order (each free id once: distinctness is instantiated where it is needed)
void anyPool()
{
    len = nondet<unsigned>("free");
    assume(len <= N);
    __v_bytes(ids, sizeof ids, "freeIds");
    if (!__v_is_symbolic())
    {
        Queue<unsigned>& q = srv->sessionPool.ids;
        while (!q.empty()) q.pop();
        for (unsigned i = 0; i < len; ++i) q.push(ids[i] %= N);
    }
}
// the content now: number, element k
unsigned freeNow() { return __v_is_symbolic() ? len : static_cast<unsigned>(srv->sessionPool.ids.len); }
unsigned freeAt(unsigned k) { return __v_is_symbolic() ? ids[beg + k] : srv->sessionPool.ids.data[at(srv->sessionPool.ids, k)]; }
}
CONTRACT("app::Queue<unsigned int>::push(unsigned int const&)", "proved=h_queue_push+h_queue_new")
void c_pool_push(Queue<unsigned>*, unsigned const& v)
{
    check(len < N, "M09: no push to a full queue");
    ids[beg + len] = v;
    ++len;
}
CONTRACT("app::Queue<unsigned int>::pop()", "proved=h_queue_pop")
void c_pool_pop(Queue<unsigned>*)
{
    check(len > 0, "M09: no pop from an empty queue");
    ++beg;
    --len;
}
CONTRACT("app::Queue<unsigned int>::front() const", "proved=h_queue_pop")
unsigned const& c_pool_front(Queue<unsigned> const*)
{
    check(len > 0, "M09: no front of an empty queue");
    return ids[beg];
}
CONTRACT("app::Queue<unsigned int>::empty() const", "proved=h_queue_pop")
bool c_pool_empty(Queue<unsigned> const*) { return len == 0; }

CONTRACT("app::modbus::ModbusSession::receive(app::MsgModbusAduRsp const&)", "proved=h_session_step")
void c_session_receive(ModbusSession* s, MsgModbusAduRsp const& m)
{
    ++delivered;
    deliveredTo = s->uid;
    deliveredMsg = &m;
}

HARNESS(h_server_init, "props=M09;covers=x;steps=20000000;time=300")
{
    make();
    Queue<unsigned>& q = srv->sessionPool.ids;
    bool seen[N] = {};
    unsigned n = 0;
    for (; n < N && !q.empty(); ++n)
    {
        unsigned u;
        check(srv->sessionPool.alloc(u), "M09: a free session can be taken");
        check(u < N && !seen[u], "M09: every session is free once, at first");
        seen[u] = true;
        ModbusSession& s = srv->sessionPool.get(u);
        check(s.uid == u, "M09: a session is found by its number");
    }
    check(n == N && q.empty(), "M09: all sessions are free at first");
    unsigned u;
    check(!srv->sessionPool.alloc(u), "M09: no session is given out when all are in use");
    srv->start();
    cover("x");
    check(acc.listens == 1, "M09: a started server listens");
}

// a connection arrives
HARNESS(h_server_accept, "props=M09;uses=c_pool_push,c_pool_pop,c_pool_front,c_pool_empty;covers=full,taken;steps=20000000;time=300")
{
    make();
    beg = len = 0;
    srv->start();
    anyPool();
    unsigned n = freeNow();
    // invariant, instantiated: ids are below 256 and pairwise distinct
    unsigned p = nondet<unsigned>("p");
    assume(p >= 1 && p < N);
    unsigned u0 = ids[0], up = ids[p];
    if (n) assume(u0 < N);
    if (p < n) assume(up < N && up != u0);
    acc.handler();
    if (n == 0)
    {
        cover("full");
        check(acc.accepts == 0 && env::linksMade == 0 && freeNow() == 0, "M09: no connection is accepted without a free session");
        return;
    }
    cover("taken");
    check(acc.accepts == 1 && acc.accepted == &lnk && env::linksMade == 1, "M09: the connection goes to the link of the new session");
    check(freeNow() == n - 1, "M09: the session is no longer free");
    if (p < n) check(freeAt(p - 1) == up && up != u0, "M09: a session in use is not given out again");
    unsigned u = split(u0);
    ModbusSession& s = srv->sessionPool.get(u);
    check(s.link.get() == &lnk && s.timer.get() == &tmr && s.serverId == theId && tmr.armed, "M09: the oldest free session serves the connection");
}

// a session ends
HARNESS(h_server_release, "props=M09;uses=c_pool_push,c_pool_pop,c_pool_front,c_pool_empty;covers=x;steps=20000000;time=300")
{
    make();
    beg = len = 0;
    srv->start();
    anyPool();
    unsigned n = freeNow();
    assume(n < N);          // one session is in use
    unsigned u = nondet<unsigned>("session");
    assume(u < N);
    unsigned p = nondet<unsigned>("p");
    assume(p < N);
    unsigned up = ids[p];
    if (p < n) assume(up < N && up != u);
    static_cast<ModbusSessionHandler*>(srv)->onReleaseSession(u);
    cover("x");
    check(freeNow() == n + 1 && freeAt(n) == u, "M09: an ended session is free again");
    if (p < n) check(freeAt(p) == up, "M09: the other free sessions stay free");
}

// a response of the application
HARNESS(h_server_rsp, "props=M08,M09;uses=c_session_receive;covers=routed,unknown;steps=20000000;time=300")
{
    make();
    srv->start();
    MsgModbusAduRsp rsp;
    rsp.serverId = theId;
    rsp.sessionId = nondet<unsigned>("rspSession");
    srv->receive(rsp);
    if (!__v_is_symbolic()) return;     // a native replay has no contract in place of the session
    if (rsp.sessionId < N)
    {
        cover("routed");
        check(delivered == 1 && deliveredTo == rsp.sessionId && deliveredMsg == &rsp, "M08: a response goes to the session it names");
    }
    else
    {
        cover("unknown");
        check(delivered == 0, "M08: a response for an unknown session is ignored");
    }
}
