// The OPC UA TCP connection: inductive step over every state and event; the server and its pool.
// SOURCES: ua/transport/*.cpp
// SOURCES: ua/transport/server/*.cpp
// SOURCES: common/ua/common/*.cpp
// ASSUMES: Link::receive reports ok only with at least one byte (proved for the real Link under R06)
// ASSUMES: a message between components is at most 4096 octets long with its header (the message storage refuses others, R02)
#include "verif.h"
#include "env_reactor.h"
#include "UaTcpConnection.hpp"
#include "UaTcpConnectionInit.hpp"
#include "UaTcpConnectionReceiveHello.hpp"
#include "UaTcpConnectionConnected.hpp"
#include "UaTcpServer.hpp"
#include "UaTransportReactor.hpp"
#include "UaTransportSender.hpp"
#include "OpcUaBinaryCodec.hpp"
#include <stdexcept>
using namespace app;
using namespace app::ua;
using namespace app::ua::transport;

CONTRACT("app::ua::operator>>(app::ua::OpcUaBinaryCodec&, app::ua::String&)", "proved=h_dec_string")
OpcUaBinaryCodec& c_tr_string(OpcUaBinaryCodec& c, app::ua::String& v)
{
    OpcUaSduBuffer& b = c.buf();
    unsigned r = b.head - b.tail;
    if (r < 4) throw std::runtime_error("refused");
    uint32_t n = 0;
    for (unsigned i = 0; i < 4; ++i) n |= uint32_t(b.packet[b.tail + i]) << (8 * i);
    if (n != 0xFFFFFFFF && n > r - 4) throw std::runtime_error("refused");
    unsigned len = n == 0xFFFFFFFF ? 0 : n;
    v.val.reserve(4096);
    v.val._M_string_length = len;
    b.tail += 4 + len;
    return c;
}

namespace
{
constexpr unsigned CAP = 4096;
constexpr long TIMEOUT = 30000000;
env::Timer tmr;
env::Reactor rea;
unsigned theId;
UaTcpConnection* con;

struct Releaser : ReleaserInterface
{
    unsigned n = 0;
    void release(EntityId u) override
    {
        ++n;
        check(u == theId, "U03: a connection gives back its own place");
    }
} rel;

// what was sent towards the secure channels
struct Snd : Sender
{
    unsigned msgs = 0, opens = 0, closes = 0, inds = 0;
    unsigned con[2] = {}, chan[2] = {};
    unsigned chunk = 0, len = 0;
    uint8_t data[CAP];
    void send(MsgUaTransportInitRsp const&) override { check(false, "U03: a connection sends no such message"); }
    void send(MsgUaTransportConfigRsp const&) override { check(false, "U03: a connection sends no such message"); }
    void send(MsgUaTransportReleaseRsp const&) override { check(false, "U03: a connection sends no such message"); }
    template <typename M> void forwarded(M const& m)
    {
        check(m.size() <= CAP && m.length <= m.size(), "U03: a forwarded message fits");
        con[0] = m.connectionId;
        chan[0] = m.secureChannelId;
        chunk = static_cast<unsigned>(m.chunkType.val);
        len = m.length;
        std::memcpy(data, m.data, m.length);
    }
    void send(MsgUaOpenSecureChannelReq const& m) override { ++opens; forwarded(m); }
    void send(MsgUaCloseSecureChannelReq const& m) override { ++closes; forwarded(m); }
    void send(MsgUaSecuredMessageReceiveInd const& m) override { ++msgs; forwarded(m); }
    void send(MsgUaConnectionReleaseInd const& m) override
    {
        if (inds < 2) { con[inds] = m.connectionId; chan[inds] = m.secureChannelId; }
        ++inds;
    }
    unsigned total() const { return msgs + opens + closes + inds; }
} snd;

// the link: one reading adds any octets; what has been received with it is noted in got
uint8_t got[CAP];
struct Lnk : env::Link
{
    unsigned room = 0;
    uint8_t* at = nullptr;
    uint8_t sent[CAP];
    unsigned sentLen = 0;
    env::LinkResult receive(std::uint8_t* p, std::size_t cap) override;
    int send(void const* p, std::size_t n) override
    {
        sentLen = static_cast<unsigned>(n);
        check(n <= CAP, "U03: what is sent fits");
        std::memcpy(sent, p, n);
        return env::Link::send(p, n);
    }
} lnk;

template <typename S>
bool isState(UaTcpConnectionState& s) { S ref; return *reinterpret_cast<void**>(&s) == *reinterpret_cast<void**>(&ref); }
enum { INIT, HELLO, CONNECTED, OTHER };
unsigned state()
{
    auto& s = con->getState();
    if (isState<UaTcpConnectionInit>(s)) return INIT;
    if (isState<UaTcpConnectionReceiveHello>(s)) return HELLO;
    if (isState<UaTcpConnectionConnected>(s)) return CONNECTED;
    return OTHER;
}
uint32_t le(uint8_t const* p) { return uint32_t(p[0]) | uint32_t(p[1]) << 8 | uint32_t(p[2]) << 16 | uint32_t(p[3]) << 24; }

void make()
{
    env::theLink = &lnk;
    env::theTimer = &tmr;
    theId = nondet<unsigned>("connectionId");
    con = new UaTcpConnection(theId, rea, rel);
    check(state() == INIT, "U03: a new connection is idle");
}
bool assoc;
unsigned chan;
uint8_t old[CAP];
unsigned had;
// any state between two events: part of a frame was received (head octets), a channel may be associated
void any(unsigned st)
{
    make();
    reactor::LinkPtr l(&lnk, [](reactor::LinkInterface*) { ++env::linksFreed; });
    con->getState().onAcceptLink(*con, l);
    check(state() == HELLO && !l && con->link.get() == &lnk && tmr.armed && tmr.timeout == TIMEOUT && env::timersMade == 1,
        "U03: an accepted link is served under a time limit");
    check(con->rxBuffer.head == 0 && con->rxBuffer.tail == 0 && !con->associatedSecureChannelId, "U03: a connection starts empty");
    check(rel.n == 0 && snd.total() == 0 && lnk.sends == 0, "U03: accepting sends nothing");
    if (st == CONNECTED)
    {
        con->state = &app::getSingleton<UaTcpConnectionConnected>();
        assoc = nondet_bool("associated");
        chan = nondet<unsigned>("channel");
        if (assoc) con->associatedSecureChannelId = chan;
    }
    else assoc = false;
    tmr.armed = true;
    tmr.starts = tmr.stops = 0;
    tmr.timeout = nondet<long>("timeout");
    __v_bytes(con->rxBuffer.packet.data(), CAP, "received");
    had = nondet<unsigned>("had");
    con->rxBuffer.head = had;
    con->rxBuffer.tail = 0;
    assume(had <= CAP);
    if (had >= 8) assume(had < le(con->rxBuffer.packet.data() + 4));
    env::havoc_rest(*con, static_cast<FsmBase<UaTcpConnection, UaTcpConnectionState>&>(*con), con->connectionId, con->link, con->timer, con->rxBuffer, con->associatedSecureChannelId);
}
// the connection is over: everything is given back exactly once, the channel is told
void ended(bool tell)
{
    check(state() == INIT, "U03: an ended connection is idle");
    check(rel.n == 1, "U03: an ended connection gives its place back exactly once");
    check(env::linksFreed == 1 && env::timersFreed == 1 && !con->link && !con->timer, "U03: an ended connection gives back link and timer");
    check(!con->associatedSecureChannelId, "U03: an ended connection has no channel");
    check(snd.inds == (tell && assoc ? 1u : 0u) && snd.opens + snd.closes + snd.msgs == 0, "U03: the end of a connection is told to its channel, once");
    if (snd.inds) check(snd.con[0] == theId && snd.chan[0] == chan, "U03: the end of a connection is told to its channel");
}
void alive(unsigned st)
{
    check(state() == st, "U03: the connection goes on");
    check(rel.n == 0 && env::linksFreed == 0 && env::timersFreed == 0 && con->link.get() == &lnk && con->timer, "U03: a connection in use keeps its link, timer and place");
    check(tmr.armed, "U03: a connection in use is under a time limit");
}
void sameChannel()
{
    check(bool(con->associatedSecureChannelId) == assoc && (!assoc || *con->associatedSecureChannelId == chan), "U03: the associated channel stays");
}
env::LinkResult Lnk::receive(std::uint8_t* p, std::size_t cap)
{
    at = p;
    room = static_cast<unsigned>(cap);
    check(receives == 0 && p == con->rxBuffer.packet.data() + had && cap <= CAP - had && cap > 0, "U03: octets are appended to those received before");
    env::LinkResult r = env::Link::receive(p, cap);
    std::memcpy(got, con->rxBuffer.packet.data(), CAP);
    return r;
}
// one reading
enum Got { WAIT, FRAME, BAD, LONG };
unsigned total;
Got reading()
{
    lnk.handler(reactor::LinkEvent::data);
    total = had;
    if (had == CAP) return BAD;
    check(lnk.receives == 1, "U03: data is read once per event");
    if (lnk.lastStatus == -2) return had >= 8 && le(got + 4) > CAP ? LONG : WAIT;
    if (lnk.lastStatus != 1) return BAD;
    total = had + lnk.lastLen;
    if (total < 8) return WAIT;
    uint32_t size = le(got + 4);
    if (size > CAP) return LONG;
    return total < size ? WAIT : total > size ? BAD : FRAME;
}
void waiting(unsigned st)
{
    cover("partial");
    alive(st);
    sameChannel();
    unsigned j = nondet<unsigned>("j");
    assume(j < CAP);
    check(con->rxBuffer.head == total && con->rxBuffer.tail == 0, "U03: a part of a frame is kept");
    if (j < total) check(con->rxBuffer.packet[j] == got[j], "U03: a part of a frame is kept as received");
    check(snd.total() == 0 && lnk.sends == 0, "U03: a part of a frame has no effect");
}
// announced longer than can be received: given up, now or when the buffer is full
bool tooLong(Got g, unsigned st)
{
    if (g != LONG) return false;
    cover("long");
    if (state() == st) waiting(st);
    else ended(true);
    check(snd.opens + snd.closes + snd.msgs == 0 && lnk.sends == 0, "U03: a part of a frame has no effect");
    return true;
}
void ready(unsigned st)
{
    alive(st);
    check(con->rxBuffer.head == 0 && con->rxBuffer.tail == 0, "U03: after a frame the next one is awaited");
    check(tmr.starts >= 1 && tmr.timeout == TIMEOUT, "U03: after a frame the time limit starts anew");
}
}

HARNESS(h_uacon_hello, "props=U03;uses=c_tr_string;covers=partial,long,ack,refused,bad;time=300")
{
    any(HELLO);
    Got g = reading();
    if (tooLong(g, HELLO)) return;
    if (g == WAIT) { waiting(HELLO); return; }
    uint8_t const ack[28] = {'A','C','K','F', 28,0,0,0, 0,0,0,0, 0,0,1,0, 0,0,1,0, 0,0,0x88,0x13, 0x88,0x13,0,0};
    bool hel = g == FRAME && got[0] == 'H' && got[1] == 'E' && got[2] == 'L' && total >= 32;
    bool fit = hel && (le(got + 28) == 0xFFFFFFFF || le(got + 28) <= total - 32);
    bool exact = fit && (le(got + 28) == total - 32 || (le(got + 28) == 0xFFFFFFFF && total == 32));
    if (lnk.sends)
    {
        check(fit, "U03: only a Hello is acknowledged");
        check(lnk.sends == 1 && lnk.sentLen == 28, "U03: a Hello is acknowledged once");
        for (unsigned i = 0; i < 28; ++i) check(lnk.sent[i] == ack[i], "U03: the Acknowledge carries the limits of this server");
        if (lnk.sendRc > 0)
        {
            cover("ack");
            ready(CONNECTED);
            check(!con->associatedSecureChannelId, "U03: a connection has no channel before one is opened");
            check(snd.total() == 0, "U03: the handshake is not forwarded");
        }
        else { cover("refused"); ended(false); }
    }
    else
    {
        cover("bad");
        check(!exact, "U03: a Hello is acknowledged");
        ended(false);
    }
}

HARNESS(h_uacon_frame, "props=U03;covers=partial,long,msg,opn,clo,bad,data;time=600;cost=5")
{
    any(CONNECTED);
    Got g = reading();
    if (tooLong(g, CONNECTED)) return;
    check(lnk.sends == 0, "U03: receiving sends nothing to the peer");
    if (g == WAIT) { waiting(CONNECTED); return; }
    unsigned len = total - 12, c = 0;
    bool good = g == FRAME && total >= 12;
    unsigned kind = 0;
    if (good)
    {
        if (got[0] == 'M' && got[1] == 'S' && got[2] == 'G') kind = 1;
        else if (got[0] == 'O' && got[1] == 'P' && got[2] == 'N') kind = 2;
        else if (got[0] == 'C' && got[1] == 'L' && got[2] == 'O') kind = 3;
        c = le(got + 8);
        good = kind && (kind == 2 || (assoc && chan == c)) && sizeof(MsgUaSecuredMessageReceiveInd) + len <= CAP;
    }
    if (!good) { cover("bad"); ended(true); return; }
    ready(CONNECTED);
    sameChannel();
    check(snd.inds == 0 && snd.msgs == (kind == 1) && snd.opens == (kind == 2) && snd.closes == (kind == 3), "U03: a frame is forwarded once, as what it is");
    cover(kind == 1 ? "msg" : kind == 2 ? "opn" : "clo");
    check(snd.con[0] == theId && snd.chan[0] == c, "U03: a frame is forwarded with its connection and channel");
    check(snd.chunk == (got[3] == 'C' ? 1u : got[3] == 'F' ? 2u : got[3] == 'A' ? 3u : 0u), "U03: a frame is forwarded with its chunk type");
    check(snd.len == len, "U03: a frame is forwarded with its length");
    unsigned j = nondet<unsigned>("j");
    if (j < len) { cover("data"); check(snd.data[j] == got[12 + j], "U03: a frame is forwarded as received"); }
}

// what the secure channel wants sent
namespace
{
struct Raw { uint8_t b[CAP]; } raw;
template <typename M> M& message()
{
    M* m = new (&raw.b[0]) M;
    m->connectionId = theId;
    m->secureChannelId = nondet<unsigned>("msgChannel");
    m->chunkType.val = static_cast<UaChunkTypeEnum>(choose(4, "msgChunk"));
    m->length = nondet<unsigned>("msgLength");
    assume(m->length <= CAP - sizeof(M));
    __v_bytes(&m->data[0], CAP - sizeof(M), "msgData");
    return *m;
}
template <typename M> void wire(M const& m, char const* type)
{
    check(lnk.sends == 1 && lnk.sentLen == 12 + m.length, "U03: a message is sent as one frame");
    for (unsigned i = 0; i < 3; ++i) check(lnk.sent[i] == uint8_t(type[i]), "U03: a frame carries its type");
    unsigned k = static_cast<unsigned>(m.chunkType.val);
    check(lnk.sent[3] == (k == 1 ? 'C' : k == 2 ? 'F' : k == 3 ? 'A' : 0), "U03: a frame carries its chunk type");
    check(le(lnk.sent + 4) == 12 + m.length, "U03: a frame carries its length");
    check(le(lnk.sent + 8) == m.secureChannelId, "U03: a frame carries its channel");
    unsigned j = nondet<unsigned>("j");
    if (j < m.length) { cover("data"); check(lnk.sent[12 + j] == m.data[j], "U03: a frame carries the message"); }
}
void buffered()
{
    unsigned j = nondet<unsigned>("jb");
    if (j < had) check(con->rxBuffer.packet[j] == old[j], "U03: sending keeps what has been received");
    check(con->rxBuffer.head == had && con->rxBuffer.tail == 0, "U03: sending keeps what has been received");
}
template <typename M> void toSend(char const* type)
{
    any(CONNECTED);
    std::memcpy(old, con->rxBuffer.packet.data(), CAP);
    M& m = message<M>();
    con->getState().onReceive(*con, m);
    if (!assoc || chan != m.secureChannelId)
    {
        cover("foreign");
        check(lnk.sends == 0, "U03: only the associated channel sends");
        if (state() == CONNECTED) { alive(CONNECTED); check(snd.total() == 0, "U03: only the associated channel sends"); }
        else ended(true);
        return;
    }
    wire(m, type);
    if (lnk.sendRc > 0) { cover("sent"); alive(CONNECTED); sameChannel(); buffered(); check(snd.total() == 0, "U03: sending reports nothing"); }
    else { cover("failed"); ended(true); }
}
}
HARNESS(h_uacon_send, "props=U03;covers=data,foreign,sent,failed;time=300") { toSend<MsgUaSecuredMessageSendReq>("MSG"); }
HARNESS(h_uacon_close_rsp, "props=U03;covers=data,foreign,sent,failed;time=300") { toSend<MsgUaCloseSecureChannelRsp>("CLO"); }
HARNESS(h_uacon_open_rsp, "props=U03;covers=data,replaced,sent,failed;time=300")
{
    any(CONNECTED);
    std::memcpy(old, con->rxBuffer.packet.data(), CAP);
    MsgUaOpenSecureChannelRsp& m = message<MsgUaOpenSecureChannelRsp>();
    unsigned before = chan;
    bool other = assoc && chan != m.secureChannelId;
    con->getState().onReceive(*con, m);
    wire(m, "OPN");
    if (other)
    {
        cover("replaced");
        check(snd.inds >= 1 && snd.con[0] == theId && snd.chan[0] == before, "U03: a replaced channel is told that it has lost the connection");
    }
    if (lnk.sendRc > 0)
    {
        cover("sent");
        alive(CONNECTED);
        buffered();
        check(snd.total() == (other ? 1u : 0u), "U03: sending reports nothing");
        check(con->associatedSecureChannelId && *con->associatedSecureChannelId == m.secureChannelId, "U03: the opened channel is the one of the connection");
    }
    else
    {
        cover("failed");
        unsigned i = other ? 1 : 0;
        check(snd.inds == i + 1 && snd.con[i] == theId && snd.chan[i] == m.secureChannelId, "U03: the end of a connection is told to its channel");
        snd.inds = 0; assoc = false;
        ended(false);
    }
}

// the other events, in every state
HARNESS(h_uacon_events, "props=U03;cases=15;covers=idle,ignored,end,unknown;time=300")
{
    unsigned k = vcase(15), st = k / 5, ev = k % 5;
    if (st == INIT) make();
    else any(st);
    if (st == INIT) { assoc = false; had = 0; }
    unsigned before = tmr.starts;
    switch (ev)
    {
    case 0:
        if (st == INIT) assume(false);
        lnk.handler(reactor::LinkEvent::error);
        break;
    case 1:
        if (st == INIT) assume(false);
        tmr.armed = false;
        tmr.handler();
        break;
    case 2:
    {
        MsgUaConnectionReleaseReq m;
        m.connectionId = theId;
        con->getState().onReceive(*con, m);
        break;
    }
    case 3:
        if (st == INIT) assume(false);
        lnk.handler(reactor::LinkEvent::connected);
        break;
    default:
    {
        if (st == CONNECTED) assume(false);     // above
        MsgUaOpenSecureChannelRsp& m = message<MsgUaOpenSecureChannelRsp>();
        con->getState().onReceive(*con, m);
        cover("unknown");
        check(snd.total() == 1 && snd.inds == 1 && snd.con[0] == theId && snd.chan[0] == m.secureChannelId, "U03: a channel opened for a connection that is gone is told so");
        snd.inds = 0;
        break;
    }
    }
    check(lnk.sends == 0 && lnk.receives == 0, "U03: nothing is sent unasked");
    if (st == INIT)
    {
        cover("idle");
        check(state() == INIT && rel.n == 0 && snd.total() == 0 && env::timersMade == 0 && env::linksMade == 0, "U03: an idle connection stays idle");
    }
    else if (ev == 0 || ev == 1) { cover("end"); ended(true); }
    else if (ev == 2 && st == CONNECTED) { cover("end"); ended(false); }
    else if (ev == 2 && state() == INIT) ended(false);
    else
    {
        cover("ignored");
        alive(st);
        sameChannel();
        check(con->rxBuffer.head == had && tmr.starts == before && snd.total() == 0, "U03: other events have no effect");
    }
}

// messages of a secure channel that come before the handshake or after the end
HARNESS(h_uacon_early, "props=U03;cases=4;covers=x;time=300")
{
    unsigned k = vcase(4);
    unsigned st = k & 1 ? HELLO : INIT;
    if (st == INIT) make();
    else any(st);
    if (k & 2) con->getState().onReceive(*con, message<MsgUaSecuredMessageSendReq>());
    else con->getState().onReceive(*con, message<MsgUaCloseSecureChannelRsp>());
    cover("x");
    check(lnk.sends == 0 && snd.total() == 0, "U03: nothing is sent on a connection without a channel");
    if (st == INIT) check(state() == INIT && rel.n == 0, "U03: an idle connection stays idle");
    else if (state() == INIT) ended(false);
    else alive(st);
}
