// The OPC UA services of a server: sessions and the requests that need one.
// SOURCES: ua/service/*.cpp
// SOURCES: ua/service/session/*.cpp
// SOURCES: ua/service/attribute/*.cpp
// SOURCES: ua/service/discovery/*.cpp
// SOURCES: common/ua/common/*.cpp
// ASSUMES: a message between components is at most 4088 octets long with its header (the message storage refuses others, R02)
// ASSUMES: gettimeofday gives a time between 1970 and 2106
#include "ua_fields.h"
#include "env_reactor.h"
#include "UaServiceComponent.hpp"
#include "UaService.hpp"
#include "UaSessionInit.hpp"
#include "UaSessionCreated.hpp"
#include "UaSessionActivated.hpp"
#include "TimeUtils.hpp"
#include <sys/time.h>
#include <stdexcept>
using namespace app;
using namespace app::ua;
using namespace app::ua::service;
using namespace uaspec;

namespace
{
constexpr unsigned CAP = 4096, ROOM = 4088, N = 32, NONE = 0x7FFFFFFF;
int64_t nowSec, nowUsec, nowStamp;
}
extern "C" int gettimeofday(struct timeval* __restrict t, void* __restrict) noexcept { t->tv_sec = nowSec; t->tv_usec = nowUsec; return 0; }

CONTRACT("app::utils::getCurrentDateTime()", "proved=h_uses_now")
int64_t c_srv_now() { return nowStamp; }
// any request message: refused, or decoded to something
static bool ghostRefused;
static uint32_t ghostService, ghostToken, ghostHandle;
static bool ghostOtherService, ghostOtherToken;
static void part(OpcUaBinaryCodec& c)
{
    OpcUaSduBuffer& b = c.buf();
    unsigned t = nondet<unsigned>("taken");
    if (nondet_bool("refused")) { ghostRefused = true; throw std::runtime_error("refused"); }
    assume(t >= b.tail && t <= b.head);
    b.tail = t;
}
static void name(NodeId& n, bool other, uint32_t id)
{
    if (other) n.value.emplace<1>(); else n.value.emplace<0>() = id;
}
template <typename T> static OpcUaBinaryCodec& request(OpcUaBinaryCodec& c, T& v)
{
    part(c);
    name(v.requestHdr.authentificationToken, ghostOtherToken, ghostToken);
    v.requestHdr.requestHandle = ghostHandle;
    return c;
}
CONTRACT("app::ua::operator>>(app::ua::OpcUaBinaryCodec&, app::ua::ExpandedNodeId&)", "proved=h_dec_expandednodeid")
OpcUaBinaryCodec& c_srv_enode(OpcUaBinaryCodec& c, ExpandedNodeId& v) { part(c); name(v.nodeId, ghostOtherService, ghostService); return c; }
CONTRACT("app::ua::operator>>(app::ua::OpcUaBinaryCodec&, app::ua::UaGetEndpointsReq&)", "proved=h_dec_getendpointsreq")
OpcUaBinaryCodec& c_srv_endpoints(OpcUaBinaryCodec& c, UaGetEndpointsReq& v) { return request(c, v); }
CONTRACT("app::ua::operator>>(app::ua::OpcUaBinaryCodec&, app::ua::UaCreateSessionReq&)", "proved=h_dec_createreq")
OpcUaBinaryCodec& c_srv_create(OpcUaBinaryCodec& c, UaCreateSessionReq& v) { return request(c, v); }
CONTRACT("app::ua::operator>>(app::ua::OpcUaBinaryCodec&, app::ua::UaActivateSessionReq&)", "proved=h_dec_activatereq")
OpcUaBinaryCodec& c_srv_activate(OpcUaBinaryCodec& c, UaActivateSessionReq& v) { return request(c, v); }
CONTRACT("app::ua::operator>>(app::ua::OpcUaBinaryCodec&, app::ua::UaCloseSessionReq&)", "proved=h_dec_closesessionreq")
OpcUaBinaryCodec& c_srv_close(OpcUaBinaryCodec& c, UaCloseSessionReq& v) { return request(c, v); }
CONTRACT("app::ua::operator>>(app::ua::OpcUaBinaryCodec&, app::ua::UaReadReq&)", "proved=h_dec_readreq")
OpcUaBinaryCodec& c_srv_read(OpcUaBinaryCodec& c, UaReadReq& v) { return request(c, v); }
#define C_SRV_ALL "c_srv_now,c_srv_enode,c_srv_endpoints,c_srv_create,c_srv_activate,c_srv_close,c_srv_read"

namespace
{
env::Reactor rea;
UaServiceComponent* comp;
struct Snd : reactor::SenderInterface
{
    unsigned inits = 0, configs = 0, releases = 0, answers = 0, assocs = 0, order = 0, answerAt = 0, assocAt = 0;
    UaEncodedMessageHdr hdr{}, assocHdr{};
    unsigned len = 0;
    uint8_t data[CAP];
    unsigned total() const { return answers + assocs; }
    void to(reactor::MsgInterface const& m, decltype(m.getCompId()) c) { check(m.getCompId() == c, "U05: a message goes to the component it is for"); }
    void send(reactor::MsgInterface const& m) override
    {
        auto id = m.getMsgId();
        if (id == MsgUaServiceInitRsp::msgId()) { ++inits; to(m, CompIds::compController); }
        else if (id == MsgUaServiceConfigRsp::msgId()) { ++configs; to(m, CompIds::compController); }
        else if (id == MsgUaServiceReleaseRsp::msgId()) { ++releases; to(m, CompIds::compController); }
        else if (id == MsgUaAssociateSecureChannelReq::msgId())
        {
            ++assocs; assocAt = ++order; to(m, CompIds::compUaSecChannel);
            assocHdr = static_cast<MsgUaAssociateSecureChannelReq const&>(m).hdr;
        }
        else if (id == MsgUaEncodedMessageSendReq::msgId())
        {
            ++answers; answerAt = ++order; to(m, CompIds::compUaSecChannel);
            auto const& a = static_cast<MsgUaEncodedMessageSendReq const&>(m);
            check(a.size() <= CAP && a.length <= a.size(), "U05: a message fits");
            hdr = a.hdr;
            len = a.length;
            std::memcpy(data, a.data, a.length);
        }
        else check(false, "U05: nothing else is sent");
    }
} snd;
void now()
{
    nowSec = nondet<int64_t>("sec");
    nowUsec = nondet<int64_t>("usec");
    assume(nowSec >= 0 && nowSec < (int64_t(1) << 32) && nowUsec >= 0 && nowUsec < 1000000);
    // 100 ns since 1601
    nowStamp = nondet<int64_t>("stamp");
    assume(nowStamp == (nowSec + 11644473600LL) * 10000000 + nowUsec * 10);
}
void make()
{
    comp = new UaServiceComponent(snd, rea);
}
void init()
{
    MsgUaServiceInitReq r;
    check(rea.dispatch(r) == 1 && snd.inits == 1, "U05: initialisation is answered once");
    MsgUaServiceConfigReq c;
    check(rea.dispatch(c) == 1 && snd.configs <= 1, "U05: every request has one handler");
}
auto& pool() { return comp->service->sessionSrv.sessionPool; }
template <typename S>
bool isState(UaSessionState& s) { S ref; return *reinterpret_cast<void**>(&s) == *reinterpret_cast<void**>(&ref); }
enum { INIT, CREATED, ACTIVATED, OTHER };
unsigned state(unsigned uid)
{
    auto& s = pool().get(uid).getState();
    return isState<UaSessionInit>(s) ? INIT : isState<UaSessionCreated>(s) ? CREATED : isState<UaSessionActivated>(s) ? ACTIVATED : OTHER;
}
// what is known about each place
struct Ghost { unsigned st = INIT; unsigned chan = 0; } ghost[N + 1];
void everySession(unsigned except = 0)
{
    for (unsigned u = 1; u <= N; ++u)
    {
        if (u == except) continue;
        check(state(u) == ghost[u].st, "U05: a session is not changed by requests of others");
        auto& c = pool().get(u).secureChannelId;
        check(bool(c) == (ghost[u].st == ACTIVATED) && (!c || *c == ghost[u].chan), "U05: a session stays with its channel");
    }
}
// the free places are exactly those without a session
void places()
{
    unsigned n = 0;
    for (unsigned u = 1; u <= N; ++u) if (ghost[u].st == INIT) ++n;
    bool seen[N + 1] = {};
    for (unsigned i = 0; i < n; ++i)
    {
        EntityId u = 0;
        check(pool().alloc(u) && u >= 1 && u <= N, "U05: a place without a session is free");
        check(ghost[u].st == INIT && !seen[u], "U05: a place is given to one session at a time");
        seen[u] = true;
    }
    EntityId u = 0;
    check(!pool().alloc(u), "U05: a place with a session is not free");
}
alignas(16) uint8_t raw[CAP];
MsgUaEncodedMessageReceiveInd& message()
{
    auto* m = new (&raw[0]) MsgUaEncodedMessageReceiveInd;
    m->hdr.connectionId = nondet<unsigned>("connection");
    m->hdr.secureChannelId = nondet<unsigned>("channel");
    m->hdr.requestId = nondet<unsigned>("request");
    m->hdr.sessionId = nondet<unsigned>("session");
    m->length = nondet<unsigned>("length");
    assume(m->length <= ROOM - sizeof *m);
    return *m;
}
bool sameHdr(UaEncodedMessageHdr const& a, UaEncodedMessageHdr const& b, unsigned session)
{
    return a.connectionId == b.connectionId && a.secureChannelId == b.secureChannelId && a.requestId == b.requestId && a.sessionId == session;
}
// the octets of a well formed request
template <typename C> void wire(MsgUaEncodedMessageReceiveInd& m)
{
    static Ref in;
    C q;
    name(q.msg.requestHdr.authentificationToken, ghostOtherToken, ghostToken);
    q.msg.requestHdr.requestHandle = ghostHandle;
    in(q);
    m.length = in.n;
    std::memcpy(m.data, in.out, in.n);
}
enum { ENDPOINTS, CREATE, ACTIVATE, CLOSE, READ, KINDS };
constexpr uint32_t ids[KINDS] = { 428, 461, 467, 473, 631 };
}

HARNESS(h_uses_now, "props=U05;covers=x;time=300")
{
    now();
    cover("x");
    check(utils::getCurrentDateTime() == nowStamp, "U05: times are counted in 100 ns since 1601");
}

HARNESS(h_usrv_life, "props=U05;covers=x;time=300;uses=" C_SRV_ALL)
{
    now();
    make();
    auto& m = message();
    m.length = 0;
    check(rea.dispatch(m) == 1 && snd.total() == 0, "U05: without initialisation nothing happens");
    init();
    MsgUaServiceReleaseReq e;
    check(rea.dispatch(e) == 1 && snd.releases == 1 && snd.inits == 1, "U05: release is answered once");
    check(rea.dispatch(m) == 1 && snd.total() == 0, "U05: without initialisation nothing happens");
    cover("x");
    // and again
    MsgUaServiceInitReq r;
    check(rea.dispatch(r) == 1 && snd.inits == 2, "U05: initialisation is answered once");
    everySession();
    places();
}

// any octets, with three sessions in any state on any channels and all others free
HARNESS(h_usrv_any, "bound=three sessions in any state, all other places free;props=U05;cases=6;covers=answered,refused;time=600;steps=40000000;cost=8;uses=" C_SRV_ALL)
{
    unsigned kind = vcase(6);
    now();
    make();
    init();
    for (unsigned i = 0; i < 3; ++i)
    {
        EntityId u = 0;
        check(pool().alloc(u), "U05: a place without a session is free");
        auto& s = pool().get(u);
        // the second one is active for certain, the others may be: all combinations that differ to a request
        ghost[u].st = i == 1 ? ACTIVATED : i == 2 ? CREATED : split(nondet_bool("activated")) ? ACTIVATED : CREATED;
        if (ghost[u].st == ACTIVATED)
        {
            s.state = &app::getSingleton<UaSessionActivated>();
            s.secureChannelId = ghost[u].chan = nondet<unsigned>("sessionChannel");
        }
        else s.state = &app::getSingleton<UaSessionCreated>();
    }
    ghostHandle = nondet<uint32_t>("handle");
    ghostToken = nondet<uint32_t>("token");
    ghostOtherToken = nondet_bool("otherToken");
    ghostService = nondet<uint32_t>("service");
    if (kind < KINDS) ghostService = ids[kind];
    else
    {
        ghostOtherService = nondet_bool("otherService");
        for (unsigned i = 0; i < KINDS; ++i) assume(ghostOtherService || ghostService != ids[i]);
    }
    auto& m = message();
    bool thrown = false;
    if (!__v_is_symbolic())
    {
        switch (kind)
        {
        case ENDPOINTS: wire<UaGetEndpointsReqCont>(m); break;
        case CREATE: wire<UaCreateSessionReqCont>(m); break;
        case ACTIVATE: wire<UaActivateSessionReqCont>(m); break;
        case CLOSE: wire<UaCloseSessionReqCont>(m); break;
        case READ: wire<UaReadReqCont>(m); break;
        default:
        {
            static Ref in;
            ExpandedNodeId e;
            name(e.nodeId, ghostOtherService, ghostService);
            in(e);
            m.length = in.n;
            std::memcpy(m.data, in.out, in.n);
        }
        }
    }
    try { check(rea.dispatch(m) == 1, "U05: every request has one handler"); }
    catch (std::exception const&) { thrown = true; }
    // which session it is about
    unsigned about = kind == READ ? m.hdr.sessionId : ghostToken, uid = 0;
    if (kind == READ || !ghostOtherToken)
        for (unsigned u = 1; u <= N; ++u) if (about == u && ghost[u].st != INIT) uid = u;
    uid = split(uid);
    bool ok = !ghostRefused && kind < KINDS;
    if (kind == ACTIVATE || kind == CLOSE) ok = ok && uid != 0;
    if (kind == READ) ok = ok && uid != 0 && ghost[uid].st == ACTIVATED && ghost[uid].chan == m.hdr.secureChannelId;
    if (!ok)
    {
        cover("refused");
        check(snd.total() == 0, "U05: a request that is malformed, unknown or not allowed is not served");
        everySession();
        places();
        return;
    }
    cover("answered");
    check(!thrown && snd.answers == 1 && snd.assocs == (kind == ACTIVATE), "U05: a request is answered once");
    check(sameHdr(snd.hdr, m.hdr, kind == ACTIVATE ? uid : m.hdr.sessionId), "U05: an answer goes to the connection, channel and request it is for");
    if (kind == CREATE)
    {
        // a new session, nobody else's
        unsigned n = 0;
        for (unsigned u = 1; u <= N; ++u) if (ghost[u].st == INIT && state(u) == CREATED) { ++n; uid = u; }
        check(n == 1, "U05: a new session has a place of its own");
        check(!pool().get(uid).secureChannelId, "U05: a new session is not active on any channel");
        everySession(uid);
        ghost[uid].st = CREATED;
    }
    else if (kind == ACTIVATE)
    {
        check(sameHdr(snd.assocHdr, m.hdr, uid) && snd.assocAt < snd.answerAt, "U05: the channel knows its session before the client does");
        ghost[uid].st = ACTIVATED;
        ghost[uid].chan = m.hdr.secureChannelId;
        everySession();
    }
    else if (kind == CLOSE)
    {
        ghost[uid].st = INIT;
        everySession();
    }
    else everySession();
    places();
}
// no place is left
HARNESS(h_usrv_full, "bound=all 32 sessions taken in one order;props=U05;covers=x;time=600;steps=40000000;uses=" C_SRV_ALL)
{
    now();
    make();
    init();
    for (unsigned i = 0; i < N; ++i)
    {
        EntityId u = 0;
        check(pool().alloc(u), "U05: a place without a session is free");
        pool().get(u).state = &app::getSingleton<UaSessionCreated>();
        ghost[u].st = CREATED;
    }
    ghostService = ids[CREATE];
    auto& m = message();
    if (!__v_is_symbolic()) wire<UaCreateSessionReqCont>(m);
    try { rea.dispatch(m); } catch (std::exception const&) {}
    cover("x");
    check(snd.total() == 0, "U05: without a place there is no session");
    everySession();
    places();
}

namespace
{
// a well formed request of the wire, and the answer that is due
template <typename C> void ask(MsgUaEncodedMessageReceiveInd& m, C& req)
{
    static Ref in;
    in.n = 0;
    in(req);
    m.length = in.n;
    std::memcpy(m.data, in.out, in.n);
    unsigned a = snd.answers;
    check(rea.dispatch(m) == 1, "U05: every request has one handler");
    check(snd.answers == a + 1, "U05: a well formed request is answered once");
}
template <typename R> void due(R& rsp, uint32_t node, uint32_t handle)
{
    static Ref ref;
    ref.n = 0;
    ref.b(1); ref.b(0); ref.le(node, 2);
    rsp.responseHdr.timestamp = nowStamp;
    rsp.responseHdr.requestHandle = handle;
    ref(rsp);
    check(snd.len == ref.n, "U05: the answer has the right length");
    for (unsigned i = 0; i < ref.n; ++i) check(snd.data[i] == ref.out[i], "U05: the answer is the one that is due");
}
void endpoint(UaEndpointDescription& d)
{
    d.endpointUrl = "opc.tcp://localhost:4369";
    d.server.applicationUri = "urn:youkozlov-VivoBook-ASUSLaptop-X513EAN-K513EA:uscada";
    d.server.productUri = "urn:uscada";
    d.securityMode = 1;
    d.securityPolicyUri = "http://opcfoundation.org/UA/SecurityPolicy#None";
}
void token(UaRequestHeader& h, unsigned uid) { h.authentificationToken.namespaceIndex = 0; h.authentificationToken.value.template emplace<0>() = uid; }
}
// the life of a session with the real octets
HARNESS(h_usrv_flow, "bound=4 flows over one session;props=U05;cases=4;covers=x;time=600;steps=40000000;cost=4;uses=c_srv_now")
{
    unsigned shape = vcase(4);
    now();
    make();
    init();
    auto& m = message();
    {
        Gen g(shape);
        UaGetEndpointsReqCont q; g(q);
        ask(m, q);
        check(sameHdr(snd.hdr, m.hdr, m.hdr.sessionId), "U05: an answer goes to the connection, channel and request it is for");
        UaGetEndpointsRsp r; endpoint(r.endpointDescription.emplace_back());
        due(r, 431, bits(q.msg.requestHdr.requestHandle));
    }
    unsigned uid = 0;
    {
        Gen g(shape);
        UaCreateSessionReqCont q; g(q);
        ask(m, q);
        for (unsigned u = 1; u <= N; ++u) if (state(u) == CREATED) uid = u;
        check(uid != 0, "U05: a session is created on request");
        UaCreateSessionRsp r;
        r.sessionId.value.emplace<0>() = uid;
        r.authenticationToken.value.emplace<0>() = uid;
        r.revisedSessionTimeout = q.msg.requestedSessionTimeout;
        endpoint(r.serverEndpoints.emplace_back());
        r.maxRequestMessageSize = q.msg.maxResponseMessageSize;
        due(r, 464, bits(q.msg.requestHdr.requestHandle));
        ghost[uid].st = CREATED;
        everySession();
    }
    {
        Gen g(shape);
        UaActivateSessionReqCont q; g(q); token(q.msg.requestHdr, uid);
        ask(m, q);
        check(snd.assocs == 1, "U05: the channel is told about its session");
        UaActivateSessionRsp r;
        due(r, 470, bits(q.msg.requestHdr.requestHandle));
        ghost[uid].st = ACTIVATED; ghost[uid].chan = m.hdr.secureChannelId;
        everySession();
    }
    {
        Gen g(shape);
        UaReadReqCont q; g(q); token(q.msg.requestHdr, uid);
        m.hdr.sessionId = uid;
        ask(m, q);
        UaReadRsp r;
        due(r, 634, bits(q.msg.requestHdr.requestHandle));
        everySession();
    }
    {
        Gen g(shape);
        UaCloseSessionReqCont q; g(q); token(q.msg.requestHdr, uid);
        ask(m, q);
        UaCloseSessionRsp r;
        due(r, 476, bits(q.msg.requestHdr.requestHandle));
        ghost[uid].st = INIT;
        everySession();
    }
    check(snd.assocs == 1, "U05: nothing else is sent");
    places();
    cover("x");
}
