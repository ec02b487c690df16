// The Modbus server session: inductive step over every state and event.
// SOURCES: modbus/server/session/*.cpp
// SOURCES: modbus/ModbusCodec.cpp
// ASSUMES: Link::receive reports ok only with at least one byte (proved for the real Link under R06)
#include "verif.h"
#include "env_reactor.h"
#include "modbus_spec.h"
#include "modbus_contracts.h"
#include "ModbusSession.hpp"
#include "ModbusSessionHandler.hpp"
#include "ModbusSessionInit.hpp"
#include "ModbusSessionConnected.hpp"
#include "ModbusSessionWaitModbusAduRsp.hpp"
#include "ModbusReactor.hpp"
#include "ModbusSender.hpp"
using namespace app;
using namespace app::modbus;

namespace
{
env::Link lnk;
env::Timer tmr;
env::Reactor rea;
unsigned theUid, theServer;
unsigned released, forwarded;
unsigned st;
ModbusSession* ses;
MsgModbusAduRsp const* curRsp;
AduRequest last;             // identity of the last accepted request

struct Handler : ModbusSessionHandler
{
    void onReleaseSession(ModbusSession::Uid u) override
    {
        check(u == theUid, "M09: a session releases itself");
        ++released;
    }
} hnd;

struct Snd : Sender
{
    void send(MsgModbusInitRsp const&) override { check(false, "M08: session forwards only requests"); }
    void send(MsgModbusConfigRsp const&) override { check(false, "M08: session forwards only requests"); }
    void send(MsgModbusClientAduRsp const&) override { check(false, "M08: session forwards only requests"); }
    void send(MsgModbusReleaseRsp const&) override { check(false, "M08: session forwards only requests"); }
    void send(MsgModbusAduReq const& r) override
    {
        ++forwarded;
        cover("forwarded");
        check(st == 1, "M08: a request is forwarded only when none is in progress");
        check(forwarded == 1, "M08: a frame is forwarded once");
        PduBuffer const& b = ses->pduBuf;
        unsigned char const* w = b.begin();
        unsigned n = b.size();
        check(n >= 6 && n < 260 && spec::be(w + 4) + 6 == n && spec::request_frame_ok(w, n), "M08: only well formed requests are forwarded");
        unsigned f = w[7];
        check(r.serverId == theServer && r.sessionId == theUid, "M08: the request names its server and session");
        check(r.transactId == spec::be(w) && static_cast<unsigned>(r.func) == f && r.addr == w[6] && r.startItem == spec::be(w + 8),
            "M08: the request is forwarded as received");
        check(r.numItems == (f == 5 || f == 6 ? 0 : spec::be(w + 10)), "M08: the request is forwarded as received");
        unsigned nb = f == 5 || f == 6 ? 2 : f == 16 ? w[12] : 0;
        unsigned off = f == 16 ? 13 : 10;
        check(r.numBytes == nb, "M08: the request is forwarded as received");
        unsigned j = nondet<unsigned>("j");
        if (j < r.numBytes) { cover("data"); check(r.data[j] == w[off + (j ^ 1)], "M08: the request data is forwarded as received"); }
    }
};

bool answerable()
{
    MsgModbusAduRsp const& r = *curRsp;
    return r.transactId == last.transactId && r.status == MsgStatus::success && r.numBytes <= 260;
}
AduRespond answer()
{
    MsgModbusAduRsp const& r = *curRsp;
    AduRespond a;
    a.transactId = r.transactId;
    a.func = r.error == ModbusError::noerror ? last.func : ModbusFunction::modbusError;
    a.addr = last.addr;
    a.error = r.error;
    a.startItem = last.startItem;
    a.numItems = last.numItems;
    a.numBytes = r.numBytes;
    memcpy(a.data, r.data, r.numBytes);
    return a;
}
void wireCheck(void const* p, std::size_t n)
{
    cover("responded");
    check(st == 2 && curRsp, "M08: a response goes out only for a response of the application, while a request is in progress");
    check(lnk.sends == 1, "M08: at most one response per request");
    check(answerable(), "M08: a response goes out only for the transaction in progress");
    AduRespond a = answer();
    check(spec::response_ok(a) && n == spec::response_len(a) && n < 260, "M08: the response is the application's answer to that request: length");
    unsigned f = static_cast<unsigned>(a.func);
    unsigned char const* w = static_cast<unsigned char const*>(p);
    for (unsigned i = 0; i < 8; ++i) check(w[i] == spec::response_head(a, i), "M08: the response carries the request's transaction, unit and function");
    if (f == 0x8f)
    {
        unsigned e = static_cast<unsigned>(a.error);
        check(w[8] == ((e <= 8 || e == 10 || e == 11 || e == 255) ? e : 255u), "M08: the exception code is the application's");
    }
    else if (f == 3 || f == 4)
    {
        check(w[8] == a.numBytes, "M08: the response data is the application's");
        unsigned j = nondet<unsigned>("i");
        if (j < a.numBytes) check(w[9 + j] == a.data[j ^ 1], "M08: the response data is the application's");
    }
    else for (unsigned i = 8; i < 12; ++i) check(w[i] == spec::response_head(a, i), "M08: the response data is the application's");
}

template <typename S>
bool isState(ModbusSessionState& s) { S ref; return *reinterpret_cast<void**>(&s) == *reinterpret_cast<void**>(&ref); }
unsigned stateNo()
{
    ModbusSessionState& s = ses->fsm.getState();
    if (isState<ModbusSessionInit>(s)) return 0;
    if (isState<ModbusSessionConnected>(s)) return 1;
    if (isState<ModbusSessionWaitModbusAduRsp>(s)) return 2;
    return 3;
}
bool partial(PduBuffer const& b)
{
    if (b.size() < 6) return true;
    unsigned t = spec::be(b.begin() + 4) + 6;
    return t < 260 && b.size() < t;
}
bool complete(PduBuffer const& b)
{
    return b.size() >= 6 && b.size() <= 512 && spec::be(b.begin() + 4) + 6 < 260 && b.size() >= spec::be(b.begin() + 4) + 6;
}
void make()
{
    env::theLink = &lnk;
    env::theTimer = &tmr;
    static app::modbus::Reactor r(rea);
    new Snd;
    theUid = nondet<unsigned>("uid");
    theServer = nondet<unsigned>("server");
    ses = new ModbusSession(hnd, theUid);
}
}

HARNESS(h_session_init, "props=M09;covers=x")
{
    make();
    check(stateNo() == 0, "M09: a session starts idle");
    ses->prepare(theServer);
    check(env::linksMade == 1 && env::timersMade == 1 && &ses->getLink() == &lnk, "M09: a prepared session has its own link and timer");
    ses->start();
    cover("x");
    check(stateNo() == 1 && tmr.armed && ses->pduBuf.size() == 0, "M09: a started session waits for a request, with the inactivity timer armed");
}

HARNESS(h_session_step,
    "props=M04,M08,M09;cases=18;uses=c_pdu_toString,c_decode_request,c_encode_response;"
    "covers=forwarded,data,responded,released,incomplete,mismatch;cost=5")
{
    make();
    unsigned k = vcase(18);
    st = k / 6;
    unsigned ev = k % 6;
    if (st != 0 || ev == 0) ses->prepare(theServer);
    // the states other than idle have a link and a timer; idle has none unless it is being started
    switch (st)
    {
    case 0: ses->fsm.state = &getSingleton<ModbusSessionInit>(); break;
    case 1: ses->fsm.state = &getSingleton<ModbusSessionConnected>(); break;
    default: ses->fsm.state = &getSingleton<ModbusSessionWaitModbusAduRsp>(); break;
    }
    tmr.armed = st != 0;
    unsigned m = nondet<unsigned>("have");
    assume(m <= 512);
    __v_bytes(ses->pduBuf.begin(), 512, "earlier");
    ses->pduBuf.reset();
    ses->pduBuf.seek(m);
    if (st == 1) assume(partial(ses->pduBuf) && m < 260);
    if (st == 2) assume(complete(ses->pduBuf));
    last.clientId = 0;
    last.transactId = nondet<uint16_t>("lastTransact");
    last.func = static_cast<ModbusFunction>(nondet<uint8_t>("lastFunc"));
    last.addr = nondet<uint8_t>("lastAddr");
    last.startItem = nondet<uint16_t>("lastStart");
    last.numItems = nondet<uint16_t>("lastItems");
    last.numBytes = nondet<uint16_t>("lastBytes");
    assume(last.numBytes <= 260);
    last.data = ses->storedAduBuf.data();
    __v_bytes(ses->storedAduBuf.data(), 260, "lastData");
    ses->storedAdu = last;
    env::havoc_rest(*ses, ses->uid, ses->serverId, ses->fsm, ses->timer, ses->link, ses->pduBuf, ses->storedAduBuf, ses->storedAdu);
    unsigned lf0 = env::linksFreed, tf0 = env::timersFreed;
    lnk.onSend = wireCheck;

    struct { MsgModbusAduRsp rsp; uint8_t more[0x10000]; } msg;
    switch (ev)
    {
    case 0: assume(st == 0); ses->start(); break;
    case 1: assume(st != 0); lnk.handler(reactor::LinkEvent::connected); break;
    case 2: assume(st != 0); lnk.handler(reactor::LinkEvent::data); break;
    case 3: assume(st != 0); lnk.handler(reactor::LinkEvent::error); break;
    case 4:
        assume(st != 0 && tmr.armed);
        tmr.armed = false;
        tmr.handler();
        break;
    default:
        msg.rsp.serverId = nondet<unsigned>("rspServer");
        msg.rsp.sessionId = nondet<unsigned>("rspSession");
        msg.rsp.transactId = nondet<uint16_t>("rspTransact");
        msg.rsp.error = static_cast<ModbusError>(nondet<uint8_t>("rspError"));
        msg.rsp.status = nondet_bool("rspOk") ? MsgStatus::success : MsgStatus::error;
        msg.rsp.numBytes = nondet<uint16_t>("rspBytes");
        __v_bytes(&msg.rsp.data[0], msg.rsp.numBytes, "rspData");
        curRsp = &msg.rsp;
        ses->receive(msg.rsp);
        break;
    }
    unsigned now = stateNo();
    check(now < 3, "M09: known state");
    if (ev == 5 && st == 2)
    {
        bool due = false;
        if (answerable())
        {
            AduRespond a = answer();
            due = spec::response_ok(a) && spec::response_len(a) < 260;
        }
        else cover("mismatch");
        check((lnk.sends == 1) == due, "M08: the application's answer to the request in progress is sent");
        check(now != 2, "M08: an answer ends the request");
    }
    else check(lnk.sends == 0, "M08: nothing is sent unasked");
    // frames
    if (st == 1 && ev == 2)
    {
        PduBuffer const& b = ses->pduBuf;
        if (lnk.lastStatus == 1)
        {
            unsigned n = m + lnk.lastLen;
            bool hdr = n >= 6;
            unsigned total = hdr ? spec::be(b.begin() + 4) + 6 : 0;
            bool valid = hdr && total < 260 && n == total && spec::request_frame_ok(b.begin(), n);
            if (now != 0) check(b.size() == n, "M04: received bytes are appended to those already there");
            check((forwarded == 1) == valid, "M04,M08: a request is forwarded exactly when its last byte has arrived");
            check((now == 1) == (!hdr || (total < 260 && n < total)), "M04: an incomplete frame is waited for");
            check((now == 0) == (hdr && total >= 260), "M04: an impossible length ends the session");
            if (now == 1) cover("incomplete");
        }
        else
        {
            check(forwarded == 0, "M08: nothing is forwarded without data");
            if (lnk.lastStatus == -2) check(now == 1 && b.size() == m, "M04: no data, no change");
            else check(now == 0, "M09: a closed or failed connection ends the session");
        }
    }
    else check(forwarded == 0, "M08: only received data is forwarded");
    if (st == 2 && ev == 2 && lnk.receives && (lnk.lastStatus == 0 || lnk.lastStatus == -1)) check(now == 0, "M09: a closed or failed connection ends the session");
    if (st != 0 && ev == 3) check(now == 0, "M09: a failed connection ends the session");
    if (st == 1 && ev == 4) check(now == 0, "M09: the inactivity timer ends the session");
    // invariant
    if (now == 1) { check(partial(ses->pduBuf) && ses->pduBuf.size() < 260, "M04: while a frame is waited for, the buffer holds only a part of one"); check(tmr.armed, "M09: the inactivity timer is armed"); }
    if (now == 1 && st != 1) check(ses->pduBuf.size() == 0, "M04: a new frame starts with an empty buffer");
    if (now == 2) { check(tmr.armed, "M08: the response timer is armed while a request is in progress"); check(complete(ses->pduBuf), "M04: a request is in progress only after a complete frame"); }
    if (forwarded) check(now == 2, "M08: a forwarded request is in progress");
    // the stored identity is that of the last forwarded request
    if (forwarded == 0)
    {
        check(ses->storedAdu.transactId == last.transactId && ses->storedAdu.func == last.func && ses->storedAdu.addr == last.addr
            && ses->storedAdu.startItem == last.startItem && ses->storedAdu.numItems == last.numItems, "M08: only an accepted request changes what is answered");
    }
    else
    {
        unsigned char const* w = const_cast<PduBuffer const&>(ses->pduBuf).begin();
        check(ses->storedAdu.transactId == spec::be(w) && static_cast<unsigned>(ses->storedAdu.func) == w[7] && ses->storedAdu.addr == w[6]
            && ses->storedAdu.startItem == spec::be(w + 8), "M08: the accepted request is what will be answered");
    }
    check(ses->storedAdu.numBytes <= 260, "M08: stored request data fits");
    // release
    if (st != 0 && now == 0)
    {
        cover("released");
        check(released == 1 && env::linksFreed == lf0 + 1 && env::timersFreed == tf0 + 1, "M09: an ended session releases its link, its timer and its place once");
    }
    else check(released == 0 && env::linksFreed == lf0 && env::timersFreed == tf0, "M09: a live session keeps its link, its timer and its place");
}
