// The controller: starts, configures and stops the subsystems, and plays the Modbus device of the demonstration.
// SOURCES: controller/*.cpp
// SOURCES: controller/modbus/*.cpp
// SOURCES: controller/ua/*.cpp
// ASSUMES: rand() gives any value, sleeping returns
#include "verif.h"
#include "env_reactor.h"
#include "ControllerComponent.hpp"
#include "ModbusTestInit.hpp"
#include "ModbusTestConfigure.hpp"
#include "ModbusTestRun.hpp"
#include "ModbusTestSetup.hpp"
#include <vector>
#include <ctime>
using namespace app;
using namespace app::controller;

extern "C" int rand() noexcept { return 77; }
extern "C" void srand(unsigned) noexcept {}
extern "C" int nanosleep(struct timespec const*, struct timespec*) { return 0; }

// a table of len octets, whatever they are
CONTRACT("app::controller::(anonymous namespace)::randVector(unsigned int)", "proved=h_ctl_table")
std::vector<uint8_t> c_ctl_rand(unsigned len)
{
    return std::vector<uint8_t>(len);
}
#define C_CTL "c_ctl_rand"

namespace
{
constexpr unsigned CASES = 16, TABLE = 2048;
env::Reactor rea;
env::Timer tmr;
ControllerComponent* comp;
unsigned mInit, mRel, mCfg, mReq, mRsp, sInit, sCfg, sRel, tInit, tCfg, tRel, vInit, vCfg, vRel;
uint8_t const MB[6] = {127, 0, 0, 1, 0x2f, 0x71}, UA[6] = {127, 0, 0, 1, 0x11, 0x11};
alignas(16) uint8_t out[4096];
MsgModbusAduRsp const& rsp() { return *reinterpret_cast<MsgModbusAduRsp const*>(out); }
ModbusTestController& mb() { return *comp->modbus; }

struct Snd : reactor::SenderInterface
{
    void send(reactor::MsgInterface const& m) override
    {
        auto id = m.getMsgId();
        auto to = [&](decltype(m.getCompId()) c) { check(m.getCompId() == c, "C01: a message goes to the component it is for"); };
        if (id == MsgModbusInitReq::msgId())
        {
            ++mInit; to(CompIds::compModbus);
            auto& r = static_cast<MsgModbusInitReq const&>(m);
            check(r.maxNumServers == 1 && r.maxNumClients == 1, "C01: one Modbus server and one client are asked for");
        }
        else if (id == MsgModbusReleaseReq::msgId()) { ++mRel; to(CompIds::compModbus); }
        else if (id == MsgModbusConfigReq::msgId())
        {
            ++mCfg; to(CompIds::compModbus);
            auto& r = static_cast<MsgModbusConfigReq const&>(m);
            check(r.numItems == 2, "C01: one Modbus server and one client are configured");
            unsigned srv = 0, cli = 0;
            for (unsigned i = 0; i < 2; ++i)
            {
                check(r.items[i].id == 0, "C01: one Modbus server and one client are configured");
                if (r.items[i].mode == ModbusConfig::Mode::server) ++srv; else ++cli;
                for (unsigned j = 0; j < 6; ++j) check(r.items[i].addr.data[j] == MB[j], "C01: the Modbus server and client are configured with their address");
            }
            check(srv == 1 && cli == 1, "C01: one Modbus server and one client are configured");
        }
        else if (id == MsgModbusClientAduReq::msgId()) { ++mReq; to(CompIds::compModbus); script(static_cast<MsgModbusClientAduReq const&>(m)); }
        else if (id == MsgModbusAduRsp::msgId())
        {
            ++mRsp; to(CompIds::compModbus);
            check(m.size() <= 4088, "C01: an answer fits into a message");
            std::memcpy(static_cast<void*>(out), &m, m.size());
        }
        else if (id == MsgUaSecureChannelInitReq::msgId()) { ++sInit; to(CompIds::compUaSecChannel); }
        else if (id == MsgUaSecureChannelConfigReq::msgId()) { ++sCfg; to(CompIds::compUaSecChannel); }
        else if (id == MsgUaSecureChannelReleaseReq::msgId()) { ++sRel; to(CompIds::compUaSecChannel); }
        else if (id == MsgUaTransportInitReq::msgId()) { ++tInit; to(CompIds::compUaTransport); }
        else if (id == MsgUaTransportConfigReq::msgId())
        {
            ++tCfg; to(CompIds::compUaTransport);
            for (unsigned j = 0; j < 6; ++j) check(static_cast<MsgUaTransportConfigReq const&>(m).addr.data[j] == UA[j], "C01: the OPC UA transport is configured with its address");
        }
        else if (id == MsgUaTransportReleaseReq::msgId()) { ++tRel; to(CompIds::compUaTransport); }
        else if (id == MsgUaServiceInitReq::msgId()) { ++vInit; to(CompIds::compUaService); }
        else if (id == MsgUaServiceConfigReq::msgId()) { ++vCfg; to(CompIds::compUaService); }
        else if (id == MsgUaServiceReleaseReq::msgId()) { ++vRel; to(CompIds::compUaService); }
        else check(false, "C01: nothing else is sent");
    }
    // every case of the script is asked once, as it is
    void script(MsgModbusClientAduReq const& r)
    {
        check(r.size() <= 4088, "C01: the script fits into a message");
        check(r.numItems == mb().testCases.size(), "C01: every case of the script is asked");
        for (unsigned i = 0; i < r.numItems; ++i)
        {
            auto& a = r.item(i);
            auto& b = mb().testCases[i].req;
            check(a.clientId == b.clientId && a.transactId == i && a.addr == b.addr && a.func == b.func && a.startItem == b.startItem && a.numItems == b.numItems
                && a.numBytes == b.data.size(), "C01: every case of the script is asked as it is");
            for (unsigned j = 0; j < b.data.size(); ++j) check(a.data[j] == b.data[j], "C01: every case of the script is asked as it is");
        }
    }
} snd;
unsigned total() { return mInit + mRel + mCfg + mReq + mRsp + sInit + sCfg + sRel + tInit + tCfg + tRel + vInit + vCfg + vRel; }

template <typename M> void give(M const& m) { check(rea.dispatch(m) == 1, "C01: every message has one handler"); }
template <typename M> void give() { M m; give(m); }

alignas(16) uint8_t raw[4096];
MsgModbusAduReq& aduReq()
{
    auto* m = new (&raw[0]) MsgModbusAduReq;
    m->serverId = nondet<EntityId>("serverId");
    m->sessionId = nondet<EntityId>("sessionId");
    m->transactId = nondet<uint16_t>("transactId");
    m->func = static_cast<ModbusFunction>(nondet<uint8_t>("func"));
    m->addr = nondet<uint16_t>("addr");
    m->startItem = nondet<uint16_t>("startItem");
    m->numItems = nondet<uint16_t>("numItems");
    m->numBytes = nondet<uint16_t>("numBytes");
    assume(m->numBytes <= 4096 - sizeof *m);   // what is received as a message (R02)
    __v_bytes(m->data, 4096 - sizeof *m, "data");
    return *m;
}
MsgModbusClientAduRsp& cliRsp()
{
    auto* m = new (&raw[0]) MsgModbusClientAduRsp;
    m->clientId = nondet<EntityId>("clientId");
    m->transactId = nondet<TransactId>("transactId");
    m->error = static_cast<ModbusError>(nondet<uint8_t>("error"));
    m->status = split(nondet_bool("ok")) ? MsgStatus::success : MsgStatus::error;
    m->numBytes = nondet<uint16_t>("numBytes");
    assume(m->numBytes <= 4096 - sizeof *m);
    __v_bytes(m->data, 4096 - sizeof *m, "data");
    return *m;
}
void make()
{
    env::theTimer = &tmr;
    comp = new ControllerComponent(snd, rea);
}
void started()
{
    make();
    give<MsgControllerStartReq>();
}
template <typename S> bool in() { S ref; return *reinterpret_cast<void**>(&mb().fsm.getState()) == *reinterpret_cast<void**>(&ref); }
enum { INIT, CONFIGURE, RUN, SETUP };
void put(unsigned st)
{
    mb().fsm.state = st == INIT ? static_cast<ModbusTestState*>(&app::getSingleton<ModbusTestInit>()) : st == CONFIGURE ? static_cast<ModbusTestState*>(&app::getSingleton<ModbusTestConfigure>())
        : st == RUN ? static_cast<ModbusTestState*>(&app::getSingleton<ModbusTestRun>()) : &app::getSingleton<ModbusTestSetup>();
}
void silent()
{
    unsigned t = total();
    give<MsgModbusInitRsp>(); give<MsgModbusReleaseRsp>(); give<MsgModbusConfigRsp>(); give(cliRsp()); give(aduReq());
    give<MsgUaSecureChannelInitRsp>(); give<MsgUaSecureChannelConfigRsp>(); give<MsgUaSecureChannelReleaseRsp>();
    give<MsgUaTransportInitRsp>(); give<MsgUaTransportConfigRsp>(); give<MsgUaTransportReleaseRsp>();
    give<MsgUaServiceInitRsp>(); give<MsgUaServiceConfigRsp>(); give<MsgUaServiceReleaseRsp>();
    check(total() == t, "C01: nothing is sent unless started");
}
}

HARNESS(h_ctl_table, "props=C01;covers=x;time=600;steps=80000000")
{
    started();
    check(mb().testCases.size() == CASES, "C01: the script is complete");
    for (auto& t : mb().testCases)
    {
        check(t.rsp.data.size() == TABLE && t.req.data.size() <= 250, "C01: the script is complete");
        check(t.req.startItem * 2u + t.req.numItems * 2u <= TABLE && t.req.startItem * 2u + t.req.data.size() <= TABLE, "C01: the script is complete");
    }
    cover("x");
}
HARNESS(h_ctl_life, "props=C01;cases=3;covers=x;time=600;steps=40000000;uses=" C_CTL)
{
    unsigned k = vcase(3);
    make();
    silent();
    if (k == 0) { give<MsgControllerStopReq>(); check(total() == 0, "C01: stopping what was not started has no effect"); silent(); }
    give<MsgControllerStartReq>();
    check(mInit == 1 && sInit == 1 && tInit == 1 && vInit == 1 && total() == 4, "C01: starting initialises every subsystem once");
    if (k != 1)
    {
        give<MsgUaSecureChannelInitRsp>(); check(sCfg == 1 && total() == 5, "C01: a subsystem is configured once it is initialised");
        give<MsgUaTransportInitRsp>(); check(tCfg == 1 && total() == 6, "C01: a subsystem is configured once it is initialised");
        give<MsgUaServiceInitRsp>(); check(vCfg == 1 && total() == 7, "C01: a subsystem is configured once it is initialised");
        give<MsgModbusInitRsp>(); check(mCfg == 1 && total() == 8, "C01: a subsystem is configured once it is initialised");
        give<MsgUaSecureChannelConfigRsp>(); give<MsgUaTransportConfigRsp>(); give<MsgUaServiceConfigRsp>();
        check(total() == 8, "C01: every subsystem is configured once");
        if (k == 2)
        {
            give<MsgModbusConfigRsp>();
            check(mReq == 1 && total() == 9, "C01: the script runs when Modbus is configured");
        }
    }
    unsigned t = total();
    give<MsgControllerStopReq>();
    check(mRel == 1 && sRel == 1 && tRel == 1 && vRel == 1 && total() == t + 4, "C01: stopping releases every subsystem once");
    check(env::timersMade == 1 && env::timersFreed == 1, "C01: stopping gives back the timer");
    silent();
    give<MsgControllerStopReq>();
    check(total() == t + 4, "C01: stopping what was not started has no effect");
    give<MsgControllerStartReq>();
    check(mInit == 2 && sInit == 2 && tInit == 2 && vInit == 2 && total() == t + 8, "C01: the controller can be started again");
    cover("x");
}
HARNESS(h_ctl_stop, "props=C01;cases=4;covers=x;time=600;steps=40000000;uses=" C_CTL)
{
    unsigned k = vcase(4);
    started();
    put(k);
    unsigned t = total();
    give<MsgControllerStopReq>();
    check(mRel == 1 && sRel == 1 && tRel == 1 && vRel == 1 && total() == t + 4, "C01: stopping releases every subsystem once");
    check(env::timersFreed == 1, "C01: stopping gives back the timer");
    cover("x");
}
// messages that do not belong to the phase
HARNESS(h_ctl_phase, "props=C01;cases=4;covers=x;time=600;steps=40000000;uses=" C_CTL)
{
    unsigned k = vcase(4);
    started();
    put(k);
    unsigned t = total();
    if (k != INIT) give<MsgModbusInitRsp>();
    if (k != CONFIGURE) give<MsgModbusConfigRsp>();
    give<MsgModbusReleaseRsp>();
    if (k != RUN) { give(cliRsp()); give(aduReq()); }
    if (k != SETUP) mb().onTimerEvent();
    check(total() == t && tmr.starts == 0, "C01: what does not belong to the phase has no effect");
    check(k == INIT ? in<ModbusTestInit>() : k == CONFIGURE ? in<ModbusTestConfigure>() : k == RUN ? in<ModbusTestRun>() : in<ModbusTestSetup>(), "C01: what does not belong to the phase has no effect");
    if (k == SETUP)
    {
        mb().testCaseCounter = nondet<unsigned>("count");
        mb().onTimerEvent();
        check(in<ModbusTestRun>() && mb().testCaseCounter == 0 && mReq == 1 && total() == t + 1, "C01: the script is repeated");
    }
    cover("x");
}
// the Modbus device: every request is answered once, within its table
HARNESS(h_ctl_serve, "props=C01;cases=17;covers=;time=600;steps=40000000;cost=4;uses=" C_CTL)
{
    unsigned k = vcase(17);
    started();
    put(RUN);
    auto& q = aduReq();
    if (k < CASES) q.transactId = k; else assume(q.transactId >= CASES);
    static uint8_t before[TABLE];
    auto* table = k < CASES ? &mb().testCases[k].rsp : nullptr;
    if (table)
    {
        __v_bytes(table->data.data(), TABLE, "table");
        std::memcpy(before, table->data.data(), TABLE);
    }
    bool read = q.func == ModbusFunction::readHoldingRegisters || q.func == ModbusFunction::readInputRegisters;
    bool one = q.func == ModbusFunction::presetSingleRegister, many = q.func == ModbusFunction::presetMultipleRegisters;
    unsigned n = read ? q.numItems * 2u : one || many ? q.numBytes : 0;
    unsigned t = total(), from = q.startItem * 2u;
    bool inside = table && from + n <= TABLE;
    give(q);
    check(mRsp == 1 && total() == t + 1, "C01: a Modbus request is answered once");
    check(rsp().serverId == q.serverId && rsp().sessionId == q.sessionId && rsp().transactId == q.transactId, "C01: an answer goes to the session that asked");
    check(in<ModbusTestRun>(), "C01: a Modbus request does not end the script");
    unsigned j = nondet<unsigned>("j"), w = nondet<unsigned>("w");
    if (read || one || many)
    {
        if (!inside)
        {
            check(rsp().error != ModbusError::noerror && rsp().numBytes == 0, "C01: what lies outside of the table is refused");
        }
        else
        {
            check(rsp().error == table->error && rsp().status == table->status, "C01: an answer tells what the script says");
            check(rsp().numBytes == (many ? 0 : n), "C01: an answer has its length");
            if (!many && j < n) check(rsp().data[j] == (read ? before[from + j] : q.data[j]), "C01: an answer has its data");
        }
    }
    else check(rsp().numBytes == 0, "C01: an answer has its length");
    if (table && w < TABLE)
    {
        bool hit = inside && (one || many) && w >= from && w < from + n;
        check(table->data.data()[w] == (hit ? q.data[w - from] : before[w]), "C01: writing changes what is written, and nothing else");
    }
}
// the Modbus client: every answer is judged by its case
HARNESS(h_ctl_judge, "props=C01;cases=17;covers=;time=600;steps=40000000;cost=4;uses=" C_CTL)
{
    unsigned k = vcase(17);
    started();
    put(RUN);
    auto& m = cliRsp();
    if (k < CASES) m.transactId = k; else assume(m.transactId >= CASES);
    unsigned count = nondet<unsigned>("count");
    assume(count < CASES);
    mb().testCaseCounter = count;
    unsigned t = total();
    bool good = k < CASES;
    if (good)
    {
        auto& c = mb().testCases[k];
        __v_bytes(c.rsp.data.data(), TABLE, "table");
        if (c.req.data.size()) __v_bytes(c.req.data.data(), c.req.data.size(), "asked");
        good = m.clientId == c.req.clientId && m.status == c.rsp.status && m.error == c.rsp.error;
        if (m.status != MsgStatus::error && m.error == ModbusError::noerror)
        {
            unsigned n = c.req.numItems * 2u, at = c.req.startItem * 2u;
            switch (c.req.func)
            {
            case ModbusFunction::readHoldingRegisters:
            case ModbusFunction::readInputRegisters:
                good = good && m.numBytes == n && std::memcmp(m.data, c.rsp.data.data() + at, n) == 0;
                break;
            case ModbusFunction::presetSingleRegister:
            case ModbusFunction::presetMultipleRegisters:
                good = good && m.numBytes == (c.req.func == ModbusFunction::presetSingleRegister ? 2 : 0) && std::memcmp(c.req.data.data(), c.rsp.data.data() + at, c.req.data.size()) == 0;
                break;
            default: good = false;
            }
        }
    }
    give(m);
    if (!good) check(in<ModbusTestInit>() && mRel == 1 && total() == t + 1, "C01: a wrong answer ends the script");
    else if (count + 1 == CASES) check(in<ModbusTestSetup>() && total() == t && tmr.armed && tmr.timeout == ModbusTestController::runDelay, "C01: the script is repeated after its delay");
    else check(in<ModbusTestRun>() && total() == t && mb().testCaseCounter == count + 1, "C01: the other answers are awaited");
}
