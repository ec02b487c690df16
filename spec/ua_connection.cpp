// The OPC UA connection library (both ends): inductive step over every state and event.
// SOURCES: common/ua/protocols/connection/*.cpp
// SOURCES: common/ua/common/*.cpp
// ASSUMES: Link::receive reports ok only with at least one byte (proved for the real Link under R06)
// ASSUMES: the owner of a connection may close it, but not destroy it, while it is told about an event
#include "verif.h"
#include "env_reactor.h"
#include "ClientConnection.hpp"
#include "ClientConnectionInit.hpp"
#include "ClientConnectionConnecting.hpp"
#include "ClientConnectionReceiveAck.hpp"
#include "ClientConnectionConnected.hpp"
#include "ServerConnection.hpp"
#include "ServerConnectionInit.hpp"
#include "ServerConnectionConnecting.hpp"
#include "ServerConnectionReceiveHello.hpp"
#include "ServerConnectionConnected.hpp"
#include "OpcUaBinaryCodec.hpp"
#include <stdexcept>
using namespace app;
using namespace app::ua;

CONTRACT("app::ua::operator>>(app::ua::OpcUaBinaryCodec&, app::ua::String&)", "proved=h_dec_string")
OpcUaBinaryCodec& c_con_string(OpcUaBinaryCodec& c, app::ua::String& v)
{
    OpcUaSduBuffer& b = c.buf();
    unsigned r = b.head - b.tail;
    if (r < 4) throw std::runtime_error("refused");
    uint32_t n = 0;
    for (unsigned i = 0; i < 4; ++i) n |= uint32_t(b.packet[b.tail + i]) << (8 * i);
    if (n != 0xFFFFFFFF && n > r - 4) throw std::runtime_error("refused");
    unsigned len = n == 0xFFFFFFFF ? 0 : n;
    v.val.reserve(4096);
    v.val._M_string_length = len;
    b.tail += 4 + len;
    return c;
}

namespace
{
constexpr unsigned CAP = 4096;
env::Timer tmr;
env::Reactor rea;
uint32_t le(uint8_t const* p) { return uint32_t(p[0]) | uint32_t(p[1]) << 8 | uint32_t(p[2]) << 16 | uint32_t(p[3]) << 24; }
enum { INIT, CONNECTING, HANDSHAKE, CONNECTED, OTHER };

ClientConnection* cl;
ServerConnection* sv;
bool server;
OpcUaConnection& base() { if (server) return *sv; return *cl; }
template <typename S, typename T>
bool is(T& s) { S ref; return *reinterpret_cast<void**>(&s) == *reinterpret_cast<void**>(&ref); }
unsigned state()
{
    if (server)
    {
        auto& s = sv->getState();
        return is<ServerConnectionInit>(s) ? INIT : is<ServerConnectionConnecting>(s) ? CONNECTING : is<ServerConnectionReceiveHello>(s) ? HANDSHAKE : is<ServerConnectionConnected>(s) ? CONNECTED : OTHER;
    }
    auto& s = cl->getState();
    return is<ClientConnectionInit>(s) ? INIT : is<ClientConnectionConnecting>(s) ? CONNECTING : is<ClientConnectionReceiveAck>(s) ? HANDSHAKE : is<ClientConnectionConnected>(s) ? CONNECTED : OTHER;
}
void close() { if (server) sv->close(); else cl->close(); }
void event(reactor::LinkEvent e) { if (server) sv->onLinkEvent(e); else cl->onLinkEvent(e); }

uint8_t got[CAP];
unsigned had, total;
struct Lnk : env::Link
{
    uint8_t sent[CAP];
    unsigned sentLen = 0;
    env::LinkResult receive(std::uint8_t* p, std::size_t cap) override
    {
        auto& rx = base().rx;
        check(receives == 0 && p == rx.packet.data() + had && cap <= CAP - had && cap > 0, "U07: octets are appended to those received before");
        env::LinkResult r = env::Link::receive(p, cap);
        std::memcpy(got, rx.packet.data(), CAP);
        return r;
    }
    int send(void const* p, std::size_t n) override
    {
        sentLen = static_cast<unsigned>(n);
        check(n <= CAP, "U07: what is sent fits");
        std::memcpy(sent, p, n);
        return env::Link::send(p, n);
    }
} lnk;

// the owner: told about everything, may close the connection when told
struct Owner : OpcUaConnectionHandler
{
    unsigned connected = 0, data = 0, errors = 0, closed = 0;
    bool closing = false;
    void onConnectionConnectedEvent() override { ++connected; react(); }
    void onConnectionDataReceivedEvent() override
    {
        ++data;
        auto& rx = base().getRxBuffer();
        check(rx.size() == had + lnk.lastLen && rx.size() == le(got + 4) && rx.begin() == rx.packet.data(), "U07: the owner is told about whole messages");
        unsigned j = nondet<unsigned>("d");
        if (j < rx.size()) check(rx.begin()[j] == got[j], "U07: a message is handed over as received");
        react();
    }
    void onConnectionErrorEvent() override { ++errors; react(); }
    void onConnectionClosedEvent() override { ++closed; react(); }
    void react() { if (closing) close(); }
    unsigned told() const { return connected + data + errors + closed; }
} owner;

void make()
{
    env::theLink = &lnk;
    env::theTimer = &tmr;
    if (server) sv = new ServerConnection(rea, owner); else cl = new ClientConnection(rea, owner);
    check(state() == INIT && !base().link && !base().timer, "U07: a new connection is idle");
}
// what an earlier connection of the same object may have left behind
void leftovers()
{
    auto& rx = base().rx;
    __v_bytes(rx.packet.data(), CAP, "left");
    unsigned h = nondet<unsigned>("leftHead"), t = nondet<unsigned>("leftTail");
    assume(h <= CAP && t <= h);
    rx.head = h;
    rx.tail = t;
}
bool byAccept;
void start()
{
    leftovers();
    reactor::LinkAddr a;
    __v_bytes(&a, sizeof a, "addr");
    if (byAccept)
    {
        reactor::LinkPtr l(&lnk, [](reactor::LinkInterface*) { ++env::linksFreed; });
        sv->accept(l);
        check(!l && lnk.connects == 0 && env::linksMade == 0 && lnk.handler, "U07: an accepted link is taken over");
    }
    else
    {
        if (server) sv->connect(a); else cl->connect(a);
        check(lnk.connects == 1 && std::memcmp(&lnk.lastAddr, &a, sizeof a) == 0 && env::linksMade == 1, "U07: a connection goes where it was asked to");
    }
    check(state() == (byAccept ? HANDSHAKE : CONNECTING) && base().link.get() == &lnk && base().timer && env::timersMade == 1, "U07: a connection has a link and a timer");
    check(tmr.armed && tmr.timeout > 0, "U07: a connection is under a time limit");
    check(owner.told() == 0 && lnk.sends == 0, "U07: starting is silent");
    if (byAccept) check(base().rx.head == 0 && base().rx.tail == 0, "U07: a connection starts empty");
}
void any(unsigned st)
{
    make();
    byAccept = server && st >= HANDSHAKE && nondet_bool("accepted");
    byAccept = split(byAccept);
    start();
    if (server) sv->state = st == CONNECTING ? static_cast<ServerConnectionState*>(&app::getSingleton<ServerConnectionConnecting>())
        : st == HANDSHAKE ? static_cast<ServerConnectionState*>(&app::getSingleton<ServerConnectionReceiveHello>()) : &app::getSingleton<ServerConnectionConnected>();
    else cl->state = st == CONNECTING ? static_cast<ClientConnectionState*>(&app::getSingleton<ClientConnectionConnecting>())
        : st == HANDSHAKE ? static_cast<ClientConnectionState*>(&app::getSingleton<ClientConnectionReceiveAck>()) : &app::getSingleton<ClientConnectionConnected>();
    tmr.armed = true;
    tmr.starts = tmr.stops = 0;
    tmr.timeout = nondet<long>("timeout");
    assume(tmr.timeout > 0);
    auto& rx = base().rx;
    __v_bytes(rx.packet.data(), CAP, "received");
    had = nondet<unsigned>("had");
    rx.head = had;
    rx.tail = 0;
    assume(had <= CAP);
    if (st == CONNECTING) leftovers();
    else if (had >= 8) assume(had < le(rx.packet.data() + 4));
    owner.closing = split(nondet_bool("ownerCloses"));
}
void ended(unsigned errors, unsigned closed)
{
    check(state() == INIT, "U07: an ended connection is idle");
    check(env::linksFreed == 1 && env::timersFreed == 1 && !base().link && !base().timer, "U07: an ended connection gives back link and timer exactly once");
    check(owner.errors == errors && owner.closed == closed, "U07: the owner is told once that, and why, the connection ended");
}
void alive(unsigned st)
{
    check(state() == st, "U07: the connection goes on");
    check(env::linksFreed == 0 && env::timersFreed == 0 && base().link.get() == &lnk && base().timer, "U07: a connection in use keeps link and timer");
    check(tmr.armed, "U07: a connection in use is under a time limit");
    check(owner.errors == 0 && owner.closed == 0, "U07: only the end is told as the end");
}
enum Got { WAIT, FRAME, BAD, LONG };
Got reading()
{
    event(reactor::LinkEvent::data);
    total = had;
    if (had == CAP) return BAD;
    check(lnk.receives == 1, "U07: data is read once per event");
    if (lnk.lastStatus == -2) return had >= 8 && le(got + 4) > CAP ? LONG : WAIT;
    if (lnk.lastStatus != 1) return BAD;
    total = had + lnk.lastLen;
    if (total < 8) return WAIT;
    uint32_t size = le(got + 4);
    if (size > CAP) return LONG;
    return total < size ? WAIT : total > size ? BAD : FRAME;
}
void waiting(unsigned st)
{
    alive(st);
    unsigned j = nondet<unsigned>("j");
    assume(j < CAP);
    auto& rx = base().rx;
    check(rx.head == total && rx.tail == 0, "U07: a part of a message is kept");
    if (j < total) check(rx.packet[j] == got[j], "U07: a part of a message is kept as received");
    check(owner.told() == 0 && lnk.sends == 0, "U07: a part of a message has no effect");
}
void empty() { check(base().rx.head == 0 && base().rx.tail == 0, "U07: after a message the next one is awaited"); }
void nothing(unsigned st)
{
    alive(st);
    check(owner.told() == 0 && lnk.sends == 0 && lnk.receives == 0, "U07: an event that does not belong here has no effect");
    if (st != CONNECTING) check(base().rx.head == had && base().rx.tail == 0, "U07: an event that does not belong here has no effect");
}
void bytes(uint8_t const* p, unsigned n, char const*)
{
    check(lnk.sends == 1 && lnk.sentLen == n, "U07: a handshake message is sent once");
    for (unsigned i = 0; i < n; ++i) check(lnk.sent[i] == p[i], "U07: a handshake message carries the limits of this side");
}
uint8_t const HEL[32] = {'H','E','L','F', 32,0,0,0, 0,0,0,0, 0,0,1,0, 0,0,1,0, 0,0,1,0, 0x88,0x13,0,0, 255,255,255,255};
uint8_t const ACK[28] = {'A','C','K','F', 28,0,0,0, 0,0,0,0, 0,0,1,0, 0,0,1,0, 0,0,0x88,0x13, 0x88,0x13,0,0};
uint8_t const RHE[16] = {'R','H','E','F', 16,0,0,0, 255,255,255,255, 255,255,255,255};
}

HARNESS(h_uac_start, "props=U07;cases=3;covers=x;time=300")
{
    unsigned k = vcase(3);
    server = k != 0;
    byAccept = k == 2;
    make();
    start();
    cover("x");
}
// the link is up: the handshake begins
HARNESS(h_uac_connected, "props=U07;cases=2;covers=sent,failed;time=300")
{
    server = vcase(2);
    any(CONNECTING);
    event(reactor::LinkEvent::connected);
    if (server) bytes(RHE, 16, ""); else bytes(HEL, 32, "");
    check(owner.connected == 0 && owner.data == 0, "U07: the owner is told after the handshake");
    if (lnk.sendRc > 0) { cover("sent"); alive(HANDSHAKE); empty(); check(tmr.timeout > 0 && tmr.starts >= 1, "U07: a connection in use is under a time limit"); }
    else { cover("failed"); ended(1, 0); }
}
HARNESS(h_uac_handshake, "props=U07;cases=2;uses=c_con_string;covers=partial,done,bad;time=300")
{
    server = vcase(2);
    any(HANDSHAKE);
    Got g = reading();
    check(owner.data == 0, "U07: the handshake is not handed over");
    if (g == WAIT || (g == LONG && state() == HANDSHAKE)) { cover("partial"); waiting(HANDSHAKE); return; }
    bool fit, exact;
    if (server)
    {
        fit = g == FRAME && got[0] == 'H' && got[1] == 'E' && got[2] == 'L' && total >= 32 && (le(got + 28) == 0xFFFFFFFF || le(got + 28) <= total - 32);
        exact = fit && (le(got + 28) == total - 32 || (le(got + 28) == 0xFFFFFFFF && total == 32));
    }
    else
    {
        fit = g == FRAME && got[0] == 'A' && got[1] == 'C' && got[2] == 'K' && total >= 28;
        exact = fit && total == 28;
    }
    if (owner.connected)
    {
        cover("done");
        check(fit && owner.connected == 1, "U07: the owner is told once that the handshake is done");
        if (server) { bytes(ACK, 28, ""); check(lnk.sendRc > 0, "U07: a handshake is done when it was answered"); }
        else check(lnk.sends == 0, "U07: an Acknowledge is not answered");
        if (owner.closing) { ended(0, 0); return; }
        alive(CONNECTED);
        empty();
        check(tmr.starts >= 1 && tmr.timeout > 0, "U07: a connection in use is under a time limit");
        return;
    }
    cover("bad");
    check(!exact || (server && lnk.sends == 1 && lnk.sendRc <= 0), "U07: a well formed handshake succeeds");
    if (lnk.sends) { check(fit && server, "U07: only a Hello is answered"); bytes(ACK, 28, ""); }
    ended(1, 0);
}
HARNESS(h_uac_data, "props=U07;cases=2;covers=partial,message,bad;time=300")
{
    server = vcase(2);
    any(CONNECTED);
    Got g = reading();
    check(owner.connected == 0 && lnk.sends == 0, "U07: receiving sends nothing");
    if (g == WAIT || (g == LONG && state() == CONNECTED)) { cover("partial"); waiting(CONNECTED); return; }
    if (g == FRAME)
    {
        cover("message");
        check(owner.data == 1, "U07: every message is handed over once");
        if (owner.closing) { ended(0, 0); return; }
        alive(CONNECTED);
        empty();
        return;
    }
    cover("bad");
    check(owner.data == 0, "U07: what is not a message is not handed over");
    ended(1, 0);
}
HARNESS(h_uac_end, "props=U07;cases=16;covers=x;time=300")
{
    unsigned k = vcase(16);
    server = k & 1;
    unsigned st = (k >> 1) & 3, ev = k >> 3;
    if (st == 0) { cover("x"); return; }
    any(st);
    if (ev == 0) event(reactor::LinkEvent::error);
    else if (server) sv->onTimerEvent(); else cl->onTimerEvent();
    cover("x");
    check(owner.connected + owner.data == 0 && lnk.sends == 0, "U07: the end is told as the end");
    if (ev == 1 && st == CONNECTED) ended(0, 1); else ended(1, 0);
}
HARNESS(h_uac_close, "props=U07;cases=2;covers=x;time=300")
{
    server = vcase(2);
    any(CONNECTED);
    close();
    cover("x");
    check(owner.told() == 0 && lnk.sends == 0 && lnk.closes >= 1, "U07: closing is silent");
    ended(0, 0);
}
HARNESS(h_uac_send, "props=U07;cases=2;covers=ok,failed;time=300")
{
    server = vcase(2);
    any(CONNECTED);
    static OpcUaSduBuffer tx;
    __v_bytes(tx.packet.data(), CAP, "tx");
    unsigned n = nondet<unsigned>("txLen");
    assume(n >= 1 && n <= CAP);
    tx.head = n;
    tx.tail = 0;
    auto r = base().send(tx);
    check(lnk.sends == 1 && lnk.sentLen == n, "U07: a message is sent once with its length");
    unsigned j = nondet<unsigned>("j");
    if (j < n) check(lnk.sent[j] == tx.packet[j], "U07: a message is sent unchanged");
    if (lnk.sendRc > 0) { cover("ok"); check(r == OpcUaConnection::Result::done, "U07: the outcome of sending is told"); }
    else { cover("failed"); check(r == OpcUaConnection::Result::error, "U07: the outcome of sending is told"); }
    alive(CONNECTED);
    check(owner.told() == 0, "U07: sending is silent");
}
// events that do not belong to the state
HARNESS(h_uac_idle, "props=U07;cases=8;covers=x;time=300")
{
    unsigned k = vcase(8);
    server = k & 1;
    switch (k >> 1)
    {
    case 0: any(CONNECTING); event(reactor::LinkEvent::data); nothing(CONNECTING); break;
    case 1: any(HANDSHAKE); event(reactor::LinkEvent::connected); nothing(HANDSHAKE); break;
    case 2: any(CONNECTED); event(reactor::LinkEvent::connected); nothing(CONNECTED); break;
    default:
    {
        make();
        close();
        check(state() == INIT && owner.told() == 0 && env::linksMade == 0 && env::timersMade == 0, "U07: an event that does not belong here has no effect");
    }
    }
    cover("x");
}
