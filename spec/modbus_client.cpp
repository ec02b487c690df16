// The Modbus client: inductive step over every state and every event.  The pending requests are any sequence
// of 0..64 requests; the link, the timer and the peer are arbitrary.
// SOURCES: modbus/client/*.cpp
// SOURCES: modbus/ModbusCodec.cpp
// ASSUMES: Link::receive reports ok only with at least one byte (proved for the real Link under R06)
#include "verif.h"
#include "env_reactor.h"
#include "modbus_spec.h"
#include "modbus_contracts.h"
#include "ModbusClient.hpp"
#include "ModbusClientInit.hpp"
#include "ModbusClientConnect.hpp"
#include "ModbusClientConnected.hpp"
#include "ModbusClientSend.hpp"
#include "ModbusClientReceive.hpp"
#include "ModbusClientBackoff.hpp"
#include "ModbusReactor.hpp"
#include "ModbusSender.hpp"
using namespace app;
using namespace app::modbus;

namespace
{
constexpr unsigned maxPending = 64;
struct Pending { unsigned clientId, transactId; uint16_t addr, startItem, numItems, numBytes; uint8_t func; };
// ghost: every request ever pending in this step, oldest first; [head, tail) is what the storage holds
Pending q[maxPending + 1];
uint8_t qdata[maxPending + 1][260];
unsigned head, tail, answered;
AduRequest frontAdu;      // what front() refers to
bool rejected;            // the request was refused by the storage
ModbusClient* client;
env::Link lnk;
env::Timer tmr;
env::Reactor rea;
bool sentInReceive;

AduRequest request(unsigned i)
{
    AduRequest a;
    a.clientId = q[i].clientId;
    a.transactId = q[i].transactId;
    a.func = static_cast<ModbusFunction>(q[i].func);
    a.addr = q[i].addr;
    a.startItem = q[i].startItem;
    a.numItems = q[i].numItems;
    a.numBytes = q[i].numBytes;
    a.data = &qdata[i][0];
    // a request without data has no data pointer (only the oldest one is looked at)
    if (i == 0 && a.numBytes == 0) a.data = nullptr;
    return a;
}
// which response the pending request deserves, given the bytes received so far
bool frame_answers(unsigned char const* w, unsigned n, Pending const& p)
{
    return n >= 6 && n < 260 && spec::be(w + 4) + 6 == n && spec::response_frame_ok(w, n)
        && spec::be(w) == p.transactId && w[6] == p.addr && (w[7] == p.func || w[7] == 0x8f);
}
bool inReceive;
struct Snd : Sender
{
    void send(MsgModbusInitRsp const&) override { check(false, "M05: client sends only client responses"); }
    void send(MsgModbusConfigRsp const&) override { check(false, "M05: client sends only client responses"); }
    void send(MsgModbusAduReq const&) override { check(false, "M05: client sends only client responses"); }
    void send(MsgModbusReleaseRsp const&) override { check(false, "M05: client sends only client responses"); }
    void send(MsgModbusClientAduRsp const& r) override
    {
        if (rejected)
        {
            // the refused request is not in the queue: it is the newest one
            check(r.clientId == q[tail].clientId && r.transactId == q[tail].transactId && r.status == MsgStatus::error,
                "M05: a refused request is answered with an error");
            rejected = false;
            ++tail;
            ++head;
            ++answered;
            return;
        }
        check(answered < tail, "M05,M06: no response without a pending request");
        Pending const& p = q[answered];
        check(r.clientId == p.clientId && r.transactId == p.transactId,
            "M05,M06: responses go to the oldest unanswered request, with its client and transaction ids");
        PduBuffer const& b = client->pduBuf;
        bool good = inReceive && lnk.lastStatus == 1 && answered == 0 && frame_answers(b.begin(), b.size(), p);
        check((r.status == MsgStatus::success) == good,
            "M04,M06: success is reported exactly for a well formed response of the same transaction, unit and function");
        if (r.status == MsgStatus::success)
        {
            unsigned char const* w = b.begin();
            if (w[7] == 0x8f)
            {
                cover("exception");
                check(static_cast<unsigned>(r.error) == w[8] && r.numBytes == 0, "M06: exception code is handed over");
            }
            else
            {
                check(r.error == ModbusError::noerror, "M06: no exception reported for a normal response");
                unsigned nb = p.func == 3 || p.func == 4 ? w[8] : p.func == 16 ? 0 : 2;
                unsigned off = p.func == 3 || p.func == 4 ? 9 : 10;
                check(r.numBytes == nb, "M06: number of data bytes handed over");
                unsigned j = nondet<unsigned>("j");
                if (j < r.numBytes) { cover("data"); check(r.data[j] == w[off + (j ^ 1)], "M06: data handed over is the data received"); }
            }
        }
        else check(r.numBytes == 0, "M06: an error carries no data");
        ++answered;
    }
};
Snd* snd;

void wireCheck(void const* p, std::size_t n)
{
    cover("sent");
    check(!inReceive, "M07: no request is sent while another one waits for its response");
    check(lnk.sends == 1, "M07: one request at a time");
    check(answered < tail, "M07: only a pending request is sent");
    AduRequest a = request(answered);
    unsigned char const* w = static_cast<unsigned char const*>(p);
    check(spec::request_ok(a) && n == spec::request_len(a), "M01,M07: the frame sent is the oldest pending request: length");
    for (unsigned i = 0; i < 12; ++i) check(w[i] == spec::request_head(a, i), "M01,M07: the frame sent is the oldest pending request: header");
    if (n > 12)
    {
        check(w[12] == spec::request_head(a, 12), "M01,M07: the frame sent is the oldest pending request: header");
        unsigned i = nondet<unsigned>("i");
        if (i < n - 13) check(w[13 + i] == a.data[i ^ 1], "M01,M07: the frame sent is the oldest pending request: data");
    }
}
}

// ---- contracts of the storage (proved on its body in modbus_storage.cpp: h_storage_*)
CONTRACT("app::modbus::ModbusAduStorage::push(app::modbus::AduRequest const&)", "proved=h_storage_push+h_storage_new")
bool c_storage_push(ModbusAduStorage*, AduRequest const& a)
{
    check(a.clientId == q[tail].clientId && a.transactId == q[tail].transactId && a.addr == q[tail].addr
        && static_cast<uint8_t>(a.func) == q[tail].func && a.startItem == q[tail].startItem
        && a.numItems == q[tail].numItems && a.numBytes == q[tail].numBytes, "M05,M07: the request is stored as received");
    if (tail - head >= maxPending || a.numBytes > 260) { rejected = true; return false; }
    unsigned j = nondet<unsigned>("k");
    if (j < a.numBytes) check(a.data && a.data[j] == qdata[tail][j], "M05,M07: the request data is stored as received");
    ++tail;
    return true;
}
CONTRACT("app::modbus::ModbusAduStorage::empty() const", "proved=h_storage_ops")
bool c_storage_empty(ModbusAduStorage const*) { return head == tail; }
CONTRACT("app::modbus::ModbusAduStorage::front()", "proved=h_storage_ops")
AduRequest const& c_storage_front(ModbusAduStorage*)
{
    check(head != tail, "M05,M07: front of a non empty storage");
    frontAdu = request(head);
    return frontAdu;
}
CONTRACT("app::modbus::ModbusAduStorage::pop()", "proved=h_storage_ops")
void c_storage_pop(ModbusAduStorage*)
{
    if (head != tail) ++head;
}

// states are compared by type: the repository has one instance per translation unit
template <typename S>
static bool isState(ModbusClientState& s) { S ref; return *reinterpret_cast<void**>(&s) == *reinterpret_cast<void**>(&ref); }
static unsigned stateNo(ModbusClient& c)
{
    ModbusClientState& s = c.fsm.getState();
    if (isState<ModbusClientInit>(s)) return 0;
    if (isState<ModbusClientConnect>(s)) return 1;
    if (isState<ModbusClientConnected>(s)) return 2;
    if (isState<ModbusClientSend>(s)) return 3;
    if (isState<ModbusClientReceive>(s)) return 4;
    if (isState<ModbusClientBackoff>(s)) return 5;
    return 6;
}

// a response is incomplete: fewer bytes than the header, or than the announced (acceptable) length
static bool partial(PduBuffer const& b)
{
    if (b.size() < 6) return true;
    unsigned t = spec::be(b.begin() + 4) + 6;
    return t < 260 && b.size() < t;
}

static ModbusClient* makeClient()
{
    env::theLink = &lnk;
    env::theTimer = &tmr;
    static app::modbus::Reactor r(rea);
    snd = new Snd;
    static reactor::LinkAddr addr;
    ModbusClient::Init init{7, addr};
    return new ModbusClient(init);
}

HARNESS(h_client_init, "props=M05;uses=c_storage_push,c_storage_empty,c_storage_front,c_storage_pop,c_pdu_toString")
{
    client = makeClient();
    check(stateNo(*client) == 0, "M05: the client starts idle");
    check(env::linksMade == 1 && env::timersMade == 1, "M05: one link, one timer");
    check(client->pduBuf.size() == 0, "M05: nothing received");
}

// invariant of the client between two events, given the number of unanswered requests:
//  idle, connecting, backoff, connected: nothing pending; sending, receiving: a timer is armed;
//  receiving: something pending and the response so far is incomplete
HARNESS(h_client_step,
    "props=M04,M05,M06,M07;cases=36;uses=c_storage_push,c_storage_empty,c_storage_front,c_storage_pop,c_pdu_toString,"
    "c_encode_request,c_decode_response;covers=answered,queued,rejected,drained,sent,data,exception,timeout,incomplete,encodeError,lost,connect;cost=5")
{
    client = makeClient();
    unsigned k = vcase(36);
    unsigned st = k / 6, ev = k % 6;
    switch (st)
    {
    case 0: client->fsm.state = &getSingleton<ModbusClientInit>(); break;
    case 1: client->fsm.state = &getSingleton<ModbusClientConnect>(); break;
    case 2: client->fsm.state = &getSingleton<ModbusClientConnected>(); break;
    case 3: client->fsm.state = &getSingleton<ModbusClientSend>(); break;
    case 4: client->fsm.state = &getSingleton<ModbusClientReceive>(); break;
    default: client->fsm.state = &getSingleton<ModbusClientBackoff>(); break;
    }
    // pending requests
    unsigned n = nondet<unsigned>("pending");
    assume(n <= maxPending);
    if (st == 0 || st == 1 || st == 2 || st == 5) assume(n == 0);
    if (st == 4) assume(n != 0);
    __v_bytes(q, sizeof q, "requests");
    __v_bytes(qdata, sizeof qdata, "requestData");
    tmr.armed = st == 1 || st == 3 || st == 4 || st == 5;
    if (__v_is_symbolic()) tail = n;
    else for (; tail < n; )
    {
        if (q[tail].numBytes > 260) q[tail].numBytes = 260;
        AduRequest a = request(tail);
        assume(client->aduStorage.push(a));
        ++tail;
    }
    // stored requests carry at most 260 bytes (push refuses more)
    {
        unsigned i = nondet<unsigned>("anyRequest");
        (void)i;
        if (n) assume(q[0].numBytes <= 260);
    }
    // what was received so far
    unsigned got = 0;
    if (st == 4)
    {
        unsigned m = nondet<unsigned>("have");
        assume(m < 260);
        __v_bytes(client->pduBuf.begin(), 512, "earlier");
        client->pduBuf.reset();
        client->pduBuf.seek(m);
        got = m;
        assume(partial(client->pduBuf));
    }
    else
    {
        // stale content of an earlier exchange
        unsigned m = nondet<unsigned>("stale");
        assume(m <= 512);
        __v_bytes(client->pduBuf.begin(), 512, "earlier");
        client->pduBuf.reset();
        client->pduBuf.seek(m);
    }
    env::havoc_rest(*client, client->uid, client->addr, client->fsm, client->link, client->timer, client->aduStorage, client->pduBuf);
    lnk.onSend = wireCheck;
    inReceive = st == 4;
    unsigned before = tail;
    answered = 0;

    struct { ModbusClientAduReqItem item; uint8_t more[0x10000]; } msg;
    bool isReq = false;
    switch (ev)
    {
    case 0: client->start(); break;
    case 1: lnk.handler(reactor::LinkEvent::connected); break;
    case 2: lnk.handler(reactor::LinkEvent::data); break;
    case 3: lnk.handler(reactor::LinkEvent::error); break;
    case 4:
        assume(tmr.armed);
        tmr.armed = false;          // single shot
        tmr.handler();
        break;
    default:
    {
        isReq = true;
        Pending& p = q[tail];
        msg.item.clientId = p.clientId;
        msg.item.transactId = p.transactId;
        msg.item.func = static_cast<ModbusFunction>(p.func);
        msg.item.addr = p.addr;
        msg.item.startItem = p.startItem;
        msg.item.numItems = p.numItems;
        msg.item.numBytes = p.numBytes;
        uint8_t* d = reinterpret_cast<uint8_t*>(&msg) + offsetof(ModbusClientAduReqItem, data);
        if (p.numBytes <= 260) memcpy(d, &qdata[tail][0], p.numBytes);
        if (!__v_is_symbolic()) { rejected = tail >= maxPending || p.numBytes > 260; bool r = rejected; client->receive(msg.item); if (!r) ++tail; }
        else client->receive(msg.item);
    }
    break;
    }

    // every request is answered exactly once, oldest first; the others stay pending
    unsigned now = stateNo(*client);
    check(!rejected, "M05: a request that can not be queued is answered at once");
    if (isReq) check(tail == before + 1, "M05: a request is queued or answered");
    if (isReq && tail == before + 1 && answered == 0) cover("queued");
    if (isReq && before == maxPending) cover("rejected");
    unsigned left = tail - answered;
    if (__v_is_symbolic())
    {
        if (!(isReq && before == maxPending)) check(head == answered || (isReq && q[before].numBytes > 260), "M05,M07: exactly the answered requests leave the queue");
    }
    else if (!isReq || before < maxPending)
    {
        unsigned c = 0;
        for (unsigned i = answered; i < tail; ++i)
        {
            check(!client->aduStorage.empty(), "M05,M07: exactly the answered requests leave the queue");
            AduRequest const& a = client->aduStorage.front();
            check(a.clientId == q[i].clientId && a.transactId == q[i].transactId, "M05,M07: exactly the answered requests leave the queue");
            client->aduStorage.pop();
            ++c;
        }
        check(client->aduStorage.empty(), "M05,M07: exactly the answered requests leave the queue");
    }
    if (answered) cover("answered");
    if (answered > 3) cover("drained");
    if (ev == 4 && st == 4 && answered == 1) cover("timeout");
    if (ev == 4 && st == 3 && answered == 1 && now == 3) cover("encodeError");
    check(now < 6, "M05: known state");
    if (now == 0 || now == 1 || now == 2 || now == 5) check(left == 0, "M05: nothing stays pending without a connection or while nothing is sent");
    if (now == 4) { check(left != 0, "M05: a response is awaited only for a pending request"); check(partial(client->pduBuf), "M04,M05: a complete or impossible response ends the wait"); }
    if (now == 4 && st == 4 && ev == 2) cover("incomplete");
    if (now == 4 && st != 4) { check(lnk.sends == 1 && lnk.sendRc > 0, "M05,M07: a response is awaited only after the request was sent"); check(client->pduBuf.size() == 0, "M04,M06: a response starts with an empty buffer"); }
    if (now == 5 && st >= 2 && st <= 4) { cover("lost"); check(lnk.closes == 1, "M05: a lost connection is closed before it is made again"); }
    if (st == 1 && ev == 4) check(lnk.closes == 1, "M05: a connection attempt that takes too long is given up");
    if (now == 1 && st != 1) { cover("connect"); check(lnk.connects == 1, "M05: the client connects when it is due"); }
    else check(lnk.connects == 0, "M05: the client connects only when it is due");
    if ((st == 0 && ev == 0) || (st == 5 && ev == 4)) check(now == 1, "M05: the client connects when it is due");
    if (st == 4 && ev == 2 && lnk.lastStatus == 1 && now != 4) check(answered == 1 && now == 3, "M05,M06: a received response answers its request only");
    if (st == 4 && ev == 2 && lnk.lastStatus == 1)
    {
        PduBuffer const& b = client->pduBuf;
        unsigned h = got + lnk.lastLen;
        bool whole = h >= 6 && (spec::be(b.begin() + 4) + 6 >= 260 || h >= spec::be(b.begin() + 4) + 6);
        check((now == 4) != whole, "M04,M06: the wait ends exactly when the response is complete or impossible");
        if (now == 4) check(b.size() == h, "M04: received bytes are appended to those already there");
    }
    if (left) check(tmr.armed, "M05: while a request is pending a timer is armed, so it is answered");
    if (now == 1 || now == 5) check(tmr.armed, "M05: reconnection is always scheduled");
    if (st == 4 && ev == 4) check(answered == 1, "M05: a response timeout answers the request");
    if (st == 3 && ev == 4 && n) check(answered >= 1 || now == 4, "M05,M07: a pending request is sent or answered");
}
