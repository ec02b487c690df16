// The Modbus component: messages reach the client or server they name.
// SOURCES: modbus/*.cpp
// SOURCES: modbus/client/*.cpp
// SOURCES: modbus/server/*.cpp
// SOURCES: modbus/server/session/*.cpp
// ASSUMES: a message's item counts agree with its storage (messages are at most 4096 bytes, MsgStore)
// ASSUMES: bounded: the routing of request messages is checked for messages of up to 4 items and up to 16 configured clients or servers
#include "verif.h"
#include "env_reactor.h"
#include "modbus_contracts.h"
#include "ModbusComponent.hpp"
#include "Modbus.hpp"
#include "MsgModbusInitReq.hpp"
#include "MsgModbusReleaseReq.hpp"
using namespace app;
using namespace app::modbus;

namespace
{
env::Link lnk;
env::Timer tmr;
env::Acceptor acc;
env::Reactor rea;
ModbusComponent* comp;
unsigned initRsp, configRsp, releaseRsp, aduRsp, aduReq, others;

struct Out { unsigned kind; unsigned client; unsigned transact; void const* item; ModbusClient* to; };
Out out[16];
unsigned outs;
unsigned cfgItems, cfgId[4];
bool cfgOk[4];

struct Snd : reactor::SenderInterface
{
    void send(reactor::MsgInterface const& m) override
    {
        if (m.getMsgId() == MsgModbusInitRsp::msgId()) ++initRsp;
        else if (m.getMsgId() == MsgModbusReleaseRsp::msgId()) ++releaseRsp;
        else if (m.getMsgId() == MsgModbusConfigRsp::msgId())
        {
            ++configRsp;
            auto const& r = static_cast<MsgModbusConfigRsp const&>(m);
            cfgItems = r.numItems;
            for (unsigned i = 0; i < 4 && i < r.numItems; ++i) { cfgId[i] = r.items[i].id; cfgOk[i] = r.items[i].status == MsgStatus::success; }
        }
        else if (m.getMsgId() == MsgModbusClientAduRsp::msgId())
        {
            auto const& r = static_cast<MsgModbusClientAduRsp const&>(m);
            ++aduRsp;
            if (outs < 16) { out[outs] = Out{2, r.clientId, r.transactId, nullptr, nullptr}; ++outs; }
            check(r.status == MsgStatus::error, "M10: a request that reaches no client is answered with an error");
            check(r.numBytes == 0, "M10: a request that reaches no client is answered without data");
        }
        else ++others;
        check(m.getCompId() == CompIds::compController, "M10: answers go to the controller");
    }
} snd;
struct { ModbusServer* to; MsgModbusAduRsp const* msg; unsigned n; } routed;
}
CONTRACT("app::modbus::ModbusClient::receive(app::ModbusClientAduReqItem const&)", "proved=h_client_step")
void c_client_receive(ModbusClient* c, ModbusClientAduReqItem const& i)
{
    if (outs < 16) { out[outs] = Out{1, i.clientId, i.transactId, &i, c}; ++outs; }
}
CONTRACT("app::modbus::ModbusServer::receive(app::MsgModbusAduRsp const&)", "proved=h_server_rsp")
void c_server_receive(ModbusServer* s, MsgModbusAduRsp const& m)
{
    routed.to = s;
    routed.msg = &m;
    ++routed.n;
}
// creating and starting a server or client: see h_server_init, h_client_init
CONTRACT("app::modbus::ModbusSessionPool::ModbusSessionPool(app::modbus::ModbusSessionHandler&, unsigned int)", "proved=h_server_init")
void c_pool_new(ModbusSessionPool* p, ModbusSessionHandler&, unsigned n)
{
    new (&p->ids) Queue<unsigned>(1);
    new (&p->sessions) std::vector<std::unique_ptr<ModbusSession>>();
}

static void make(bool init, unsigned slots = 16)
{
    env::theLink = &lnk;
    env::theTimer = &tmr;
    env::theAcceptor = &acc;
    comp = new ModbusComponent(snd, rea);
    if (init)
    {
        MsgModbusInitReq r;
        r.maxNumServers = slots;
        r.maxNumClients = slots;
        check(rea.dispatch(r) == 1, "M10: every request has one handler");
    }
}

HARNESS(h_component_init, "bound=up to 4 servers and 4 clients;props=M10;covers=x;uses=c_pool_new")
{
    make(false);
    MsgModbusInitReq r;
    r.maxNumServers = choose(5, "servers");
    r.maxNumClients = choose(5, "clients");
    check(rea.dispatch(r) == 1 && initRsp == 1, "M10: initialisation is answered once");
    check(comp->modbus && comp->modbus->servers.size() == r.maxNumServers && comp->modbus->clients.size() == r.maxNumClients,
        "M10: there is room for as many servers and clients as asked for");
    unsigned i = nondet<unsigned>("i");
    if (i < r.maxNumClients) { i = split(i); check(!comp->modbus->clients[i], "M10: no client before it is configured"); }
    MsgModbusReleaseReq e;
    cover("x");
    check(rea.dispatch(e) == 1 && releaseRsp == 1 && !comp->modbus, "M10: release is answered once");
    check(initRsp == 1 && configRsp == 0 && aduRsp == 0 && others == 0, "M10: nothing else is sent");
}

// configuration of one client or server, over any earlier configuration
HARNESS(h_component_config, "bound=16 servers and 16 clients, one item;props=M10;covers=client,server,badid,replaced;uses=c_pool_new")
{
    make(true);
    Modbus& m = *comp->modbus;
    struct { MsgModbusConfigReq req; ModbusConfig more[2]; } msg;
    msg.req.numItems = 1;
    ModbusConfig& it = *reinterpret_cast<ModbusConfig*>(&msg.req.items[0]);
    it.id = nondet<unsigned>("id");
    bool client = nondet_bool("client");
    it.mode = client ? ModbusConfig::Mode::client : ModbusConfig::Mode::server;
    it.addr = reactor::LinkAddr{};
    unsigned other = nondet<unsigned>("other");
    assume(other < 16 && other != it.id);
    other = split(other);
    it.id = it.id < 16 ? split(it.id) : it.id;
    static reactor::LinkAddr addr;
    ModbusClient::Init ci{other, addr};
    ModbusClient* oc = new ModbusClient(ci);
    m.clients[other].reset(oc);
    if (nondet_bool("again") && it.id < 16 && client)
    {
        cover("replaced");
        ModbusClient::Init di{it.id, addr};
        m.clients[it.id].reset(new ModbusClient(di));
    }
    unsigned c0 = lnk.connects, l0 = acc.listens;
    check(rea.dispatch(msg.req) == 1, "M10: every request has one handler");
    check(configRsp == 1 && cfgItems == 1 && cfgId[0] == it.id, "M10: a configuration is answered once, naming what was configured");
    check(m.clients[other].get() == oc && m.clients.size() == 16 && m.servers.size() == 16, "M10: the others stay as they are");
    if (it.id >= 16)
    {
        cover("badid");
        check(lnk.connects == c0 && acc.listens == l0, "M10: an impossible number configures nothing");
    }
    else if (client)
    {
        cover("client");
        check(m.clients[it.id] && m.clients[it.id]->uid == it.id && lnk.connects == c0 + 1, "M10: the client asked for is there and started");
    }
    else
    {
        cover("server");
        check(m.servers[it.id] && m.servers[it.id]->id == it.id && acc.listens == l0 + 1, "M10: the server asked for is there and started");
    }
}

// two items in one configuration, with different numbers of servers and clients
HARNESS(h_component_config2, "bound=five combinations of up to 4 servers and clients, two items;props=M10;cases=5;covers=x;uses=c_pool_new;time=400")
{
    static unsigned const sizes[5][2] = {{1, 4}, {4, 1}, {0, 3}, {3, 0}, {2, 3}};
    unsigned k = vcase(5);
    env::theLink = &lnk;
    env::theTimer = &tmr;
    env::theAcceptor = &acc;
    comp = new ModbusComponent(snd, rea);
    MsgModbusInitReq r;
    r.maxNumServers = sizes[k][0];
    r.maxNumClients = sizes[k][1];
    check(rea.dispatch(r) == 1, "M10: every request has one handler");
    Modbus& m = *comp->modbus;
    struct { MsgModbusConfigReq req; ModbusConfig more[3]; } msg;
    msg.req.numItems = 2;
    unsigned id[2];
    bool client[2], good[2];
    unsigned connects = lnk.connects, listens = acc.listens;
    for (unsigned i = 0; i < 2; ++i)
    {
        ModbusConfig& it = msg.req.items[i];
        unsigned v = nondet<unsigned>("id");
        client[i] = split(nondet_bool("client"));
        good[i] = v < sizes[k][client[i] ? 1 : 0];
        it.id = id[i] = split(good[i]) ? split(v) : v;
        it.mode = client[i] ? ModbusConfig::Mode::client : ModbusConfig::Mode::server;
        __v_bytes(&it.addr, sizeof it.addr, "addr");
        if (good[i]) ++(client[i] ? connects : listens);
    }
    check(rea.dispatch(msg.req) == 1, "M10: every request has one handler");
    cover("x");
    check(configRsp == 1 && cfgItems == 2 && cfgId[0] == id[0] && cfgId[1] == id[1], "M10: a configuration is answered once, naming what was configured");
    check(lnk.connects == connects && acc.listens == listens, "M10: every client and server asked for is started");
    check(m.clients.size() == sizes[k][1] && m.servers.size() == sizes[k][0], "M10: there is room for as many servers and clients as asked for");
    for (unsigned j = 0; j < sizes[k][1]; ++j)
    {
        bool asked = (client[0] && good[0] && id[0] == j) || (client[1] && good[1] && id[1] == j);
        check(!!m.clients[j] == asked, "M10: the clients asked for, and no others, are there");
        if (m.clients[j]) check(m.clients[j]->uid == j, "M10: the client asked for is there and started");
    }
    for (unsigned j = 0; j < sizes[k][0]; ++j)
    {
        bool asked = (!client[0] && good[0] && id[0] == j) || (!client[1] && good[1] && id[1] == j);
        check(!!m.servers[j] == asked, "M10: the servers asked for, and no others, are there");
        if (m.servers[j]) check(m.servers[j]->id == j, "M10: the server asked for is there and started");
    }
    for (unsigned i = 0; i < 2; ++i)
    {
        if (!good[i] || (i == 0 && client[1] == client[0] && id[1] == id[0] && good[1])) continue;
        bool last = i == 1 || client[1] != client[0] || !good[1];
        reactor::LinkAddr const& want = msg.req.items[i].addr;
        if (last) check(std::memcmp(client[i] ? &lnk.lastAddr : &acc.lastAddr, &want, sizeof want) == 0, "M10: a client connects, and a server listens, where it was asked to");
    }
}

// requests to clients: any number of items up to 4
HARNESS(h_component_request, "bound=up to 4 items in a request;props=M10;cases=5;covers=delivered,unknown,unconfigured,off;uses=c_client_receive,c_pool_new;time=400")
{
    unsigned n = vcase(5);
    bool on = n == 0 ? nondet_bool("on") : true;
    unsigned slots = n < 2 ? 16 : 5;
    make(on, slots);
    struct { MsgModbusClientAduReq req; alignas(8) unsigned char items[4096]; } msg;
    msg.req.numItems = static_cast<uint16_t>(n);
    ModbusClient* a = nullptr;
    unsigned ida = 3;
    static reactor::LinkAddr addr;
    if (on)
    {
        Modbus& m = *comp->modbus;
        ModbusClient::Init ci{ida, addr};
        a = new ModbusClient(ci);
        m.clients[ida].reset(a);
    }
    unsigned id[4], tr[4];
    unsigned char const* pos[5] = {};
    for (unsigned i = 0; i < n; ++i)
    {
        // as the controller fills it
        auto& it = msg.req.item(i);
        pos[i] = reinterpret_cast<unsigned char const*>(&it);
        if (i) check(pos[i] >= pos[i - 1] + sizeof(ModbusClientAduReqItem) + msg.req.item(i - 1).numBytes, "M10: the items of a message do not overlap");
        it.clientId = id[i] = nondet<unsigned>("client");
        it.transactId = static_cast<TransactId>(tr[i] = nondet<TransactId>("transact"));
        unsigned b = nondet<uint16_t>("bytes");
        assume(b <= 260);
        it.numBytes = n == 1 ? b : i == 0 ? 3 : i == 1 ? 0 : 8 * i;
        check(&const_cast<MsgModbusClientAduReq const&>(msg.req).item(i) == &it, "M10: an item is read where it was written");
    }
    if (n) check(msg.req.size() >= static_cast<std::size_t>(pos[n - 1] - reinterpret_cast<unsigned char const*>(&msg)) + sizeof(ModbusClientAduReqItem) + msg.req.item(n - 1).numBytes,
        "M10: the size of a message covers its items");
    check(rea.dispatch(msg.req) == 1, "M10: every request has one handler");
    if (!on) { cover("off"); check(outs == 0, "M10: nothing is done before initialisation"); return; }
    if (!__v_is_symbolic()) return;
    check(outs == n, "M10: every item is handed over or answered, once");
    for (unsigned i = 0; i < n && i < outs; ++i)
    {
        Out const& o = out[i];
        if (id[i] == ida)
        {
            cover("delivered");
            check(o.kind == 1 && o.to == a && o.item == pos[i], "M10: a request goes to the client it names, in order");
        }
        else
        {
            if (id[i] < slots) cover("unconfigured"); else cover("unknown");
            check(o.kind == 2 && o.client == id[i] && o.transact == tr[i], "M10: a request for an unknown client is answered with its ids");
        }
    }
}

HARNESS(h_component_response, "bound=16 servers;props=M10;covers=routed,unknown,unconfigured,off;uses=c_server_receive,c_pool_new")
{
    bool on = nondet_bool("on");
    make(on);
    ModbusServer* s = nullptr;
    static reactor::LinkAddr addr;
    unsigned t = 0;
    if (on)
    {
        t = choose(16, "configured");
        t = split(t);
        ModbusServer::Init si{t, addr};
        s = new ModbusServer(si);
        comp->modbus->servers[t].reset(s);
    }
    MsgModbusAduRsp r;
    r.serverId = nondet<unsigned>("server");
    r.sessionId = 1;
    check(rea.dispatch(r) == 1, "M10: every request has one handler");
    if (!__v_is_symbolic()) return;
    if (on && r.serverId == t)
    {
        cover("routed");
        check(routed.n == 1 && routed.to == s && routed.msg == &r, "M10: a response goes to the server it names");
    }
    else
    {
        if (!on) cover("off"); else if (r.serverId < 16) cover("unconfigured"); else cover("unknown");
        check(routed.n == 0, "M10: a response for an unknown server goes nowhere");
    }
    check(aduRsp == 0 && others == 0 && configRsp == 0, "M10: a response is not answered");
}
