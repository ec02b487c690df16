// The OPC UA secure channel of a server: inductive step over every state and event.
// SOURCES: ua/securechannel/channel/*.cpp
// SOURCES: common/ua/common/*.cpp
// ASSUMES: a message between components is at most 4088 octets long with its header (the message storage refuses others, R02)
// ASSUMES: gettimeofday gives a time between 1970 and 2106, rand any non-negative number
#include "ua_fields.h"
#include "env_reactor.h"
#include "UaServerSecureChannel.hpp"
#include "UaServerSecureChannelInit.hpp"
#include "UaServerSecureChannelEstablished.hpp"
#include "UaSecureChannelSender.hpp"
#include "TimeUtils.hpp"
#include <sys/time.h>
#include <stdexcept>
using namespace app;
using namespace app::ua;
using namespace app::ua::securechannel;
using namespace uaspec;

namespace
{
constexpr unsigned CAP = 4096, ROOM = 4088;
int64_t nowSec, nowUsec, nowStamp;
int random_;
}
extern "C" int gettimeofday(struct timeval* __restrict t, void* __restrict) noexcept { t->tv_sec = nowSec; t->tv_usec = nowUsec; return 0; }
extern "C" int rand() noexcept { return random_; }

// any request message: refused, or decoded to something
static bool refuse(OpcUaBinaryCodec& c)
{
    OpcUaSduBuffer& b = c.buf();
    unsigned t = nondet<unsigned>("taken");
    if (nondet_bool("refused")) return true;
    assume(t >= b.tail && t <= b.head);
    b.tail = t;
    return false;
}
CONTRACT("app::utils::getCurrentDateTime()", "proved=h_uasc_now")
int64_t c_ch_now() { return nowStamp; }
static uint32_t ghostHandle, ghostLife;
static bool ghostRefused;
CONTRACT("app::ua::operator>>(app::ua::OpcUaBinaryCodec&, app::ua::UaOpenSecureChannelReq&)", "proved=h_dec_openreq")
OpcUaBinaryCodec& c_ch_openreq(OpcUaBinaryCodec& c, UaOpenSecureChannelReq& v)
{
    if (refuse(c)) { ghostRefused = true; throw std::runtime_error("refused"); }
    v.requestHdr.requestHandle = ghostHandle;
    v.requestLifetime = ghostLife;
    return c;
}
CONTRACT("app::ua::operator>>(app::ua::OpcUaBinaryCodec&, app::ua::UaCloseSecureChannelReq&)", "proved=h_dec_closereq")
OpcUaBinaryCodec& c_ch_closereq(OpcUaBinaryCodec& c, UaCloseSecureChannelReq& v)
{
    if (refuse(c)) { ghostRefused = true; throw std::runtime_error("refused"); }
    v.requestHdr.requestHandle = ghostHandle;
    return c;
}
CONTRACT("app::ua::operator>>(app::ua::OpcUaBinaryCodec&, app::ua::ExpandedNodeId&)", "proved=h_dec_expandednodeid")
OpcUaBinaryCodec& c_ch_enode(OpcUaBinaryCodec& c, ExpandedNodeId&)
{
    if (refuse(c)) { ghostRefused = true; throw std::runtime_error("refused"); }
    return c;
}
CONTRACT("app::ua::operator>>(app::ua::OpcUaBinaryCodec&, app::ua::UaSecurityHeader&)", "proved=h_dec_securityheader")
OpcUaBinaryCodec& c_ch_sechdr(OpcUaBinaryCodec& c, UaSecurityHeader&)
{
    if (refuse(c)) { ghostRefused = true; throw std::runtime_error("refused"); }
    return c;
}

namespace
{
env::Reactor rea;
unsigned theId;
UaServerSecureChannel* ch;
struct Releaser : ReleaserInterface
{
    unsigned n = 0;
    void release(EntityId u) override { ++n; check(u == theId, "U04: a channel gives back its own place"); }
} rel;

struct Snd : app::ua::securechannel::Sender
{
    unsigned order = 0, opens = 0, closes = 0, sends = 0, inds = 0, reqs = 0;
    unsigned closeAt = 0, reqAt = 0;
    unsigned con = 0, chan = 0, chunk = 0, len = 0, reqCon = 0;
    UaEncodedMessageHdr hdr{};
    uint8_t data[CAP];
    void send(MsgUaSecureChannelInitRsp const&) override { check(false, "U04: a channel sends no such message"); }
    void send(MsgUaSecureChannelConfigRsp const&) override { check(false, "U04: a channel sends no such message"); }
    void send(MsgUaSecureChannelReleaseRsp const&) override { check(false, "U04: a channel sends no such message"); }
    template <typename M> void out(M const& m)
    {
        ++order;
        check(m.size() <= CAP && m.length <= m.size(), "U04: a message fits");
        con = m.connectionId;
        chan = m.secureChannelId;
        chunk = static_cast<unsigned>(m.chunkType.val);
        len = m.length;
        std::memcpy(data, m.data, m.length);
    }
    void send(MsgUaOpenSecureChannelRsp const& m) override { ++opens; out(m); }
    void send(MsgUaCloseSecureChannelRsp const& m) override { ++closes; out(m); closeAt = order; }
    void send(MsgUaSecuredMessageSendReq const& m) override { ++sends; out(m); }
    void send(MsgUaEncodedMessageReceiveInd const& m) override
    {
        ++inds;
        ++order;
        check(m.size() <= CAP && m.length <= m.size(), "U04: a message fits");
        hdr = m.hdr;
        len = m.length;
        std::memcpy(data, m.data, m.length);
    }
    void send(MsgUaConnectionReleaseReq const& m) override { ++reqs; reqAt = ++order; reqCon = m.connectionId; }
    unsigned total() const { return order; }
} snd;

template <typename S>
bool isState(UaServerSecureChannelState& s) { S ref; return *reinterpret_cast<void**>(&s) == *reinterpret_cast<void**>(&ref); }
enum { INIT, ESTABLISHED, OTHER };
unsigned state()
{
    auto& s = ch->getState();
    return isState<UaServerSecureChannelInit>(s) ? INIT : isState<UaServerSecureChannelEstablished>(s) ? ESTABLISHED : OTHER;
}
uint32_t le(uint8_t const* p) { return uint32_t(p[0]) | uint32_t(p[1]) << 8 | uint32_t(p[2]) << 16 | uint32_t(p[3]) << 24; }

uint32_t con, seqRx, seqTx, token, session;
bool hasSession;
void any(unsigned st)
{
    nowSec = nondet<int64_t>("sec");
    nowUsec = nondet<int64_t>("usec");
    assume(nowSec >= 0 && nowSec < (int64_t(1) << 32) && nowUsec >= 0 && nowUsec < 1000000);
    // 100 ns since 1601
    nowStamp = nondet<int64_t>("stamp");
    assume(nowStamp == (nowSec + 11644473600LL) * 10000000 + nowUsec * 10);
    random_ = nondet<int>("rand");
    assume(random_ >= 0);
    ghostHandle = nondet<uint32_t>("handle");
    ghostLife = nondet<uint32_t>("life");
    theId = nondet<unsigned>("channelId");
    ch = new UaServerSecureChannel(theId, rea, rel);
    check(state() == INIT && !ch->connectionId && !ch->sessionId, "U04: a new channel belongs to nobody");
    ch->sequenceNumberTx = seqTx = nondet<uint32_t>("seqTx");
    ch->storedRxSequenceNumber = seqRx = nondet<uint32_t>("seqRx");
    ch->storedTokenId = token = nondet<uint32_t>("token");
    if (st == ESTABLISHED)
    {
        ch->state = &app::getSingleton<UaServerSecureChannelEstablished>();
        ch->connectionId = con = nondet<unsigned>("connection");
        hasSession = nondet_bool("hasSession");
        session = nondet<unsigned>("session");
        if (hasSession) ch->sessionId = session;
    }
    env::havoc_rest(*ch, static_cast<FsmBase<UaServerSecureChannel, UaServerSecureChannelState>&>(*ch), ch->secureChannelId, ch->sequenceNumberTx, ch->storedRxSequenceNumber,
        ch->storedTokenId, ch->connectionId, ch->sessionId);
}
// the channel is over
void ended()
{
    check(state() == INIT && rel.n == 1, "U04: an ended channel gives its place back exactly once");
    check(!ch->connectionId && !ch->sessionId, "U04: an ended channel keeps neither connection nor session");
}
void same(unsigned st)
{
    check(state() == st && rel.n == 0, "U04: the channel goes on");
    if (st != ESTABLISHED) return;
    check(ch->connectionId && *ch->connectionId == con, "U04: a channel stays with its connection");
    check(bool(ch->sessionId) == hasSession && (!hasSession || *ch->sessionId == session), "U04: a channel stays with its session");
    check(ch->storedTokenId == token, "U04: the token stays");
}
void noEffect(unsigned st)
{
    same(st);
    check(ch->sequenceNumberTx == seqTx && ch->storedRxSequenceNumber == seqRx, "U04: the sequence numbers stay");
}
alignas(16) uint8_t raw[CAP];
template <typename M> M& message()
{
    M* m = new (&raw[0]) M;
    m->connectionId = nondet<unsigned>("msgConnection");
    m->secureChannelId = theId;
    m->chunkType.val = static_cast<UaChunkTypeEnum>(choose(4, "msgChunk"));
    m->length = nondet<unsigned>("msgLength");
    assume(m->length <= ROOM - sizeof(M));
    __v_bytes(&m->data[0], CAP - sizeof(M), "msgData");
    return *m;
}
// the answer is exactly the one the specification gives
template <typename H, typename R> void answer(H& hdr, UaSequenceHeader& seq, R& rsp, uint32_t node)
{
    static Ref ref;
    ref(hdr);
    ref(seq);
    // the type of the message: a four octet node id
    ref.b(1); ref.b(0); ref.le(node, 2);
    ref(rsp.msg);
    check(snd.len == ref.n, "U04: the answer has the right length");
    for (unsigned i = 0; i < ref.n; ++i) check(snd.data[i] == ref.out[i], "U04: the answer carries request id, handle, token and channel");
}
void plain(UaResponseHeader& h, uint32_t handle) { h.timestamp = nowStamp; h.requestHandle = handle; }
template <typename M> bool wellFormed(M& m, bool open, unsigned shape, UaSequenceHeader& seq, uint32_t& handle, uint32_t& life);
}

HARNESS(h_uasc_now, "props=U04;covers=x;time=300")
{
    any(INIT);
    cover("x");
    check(utils::getCurrentDateTime() == nowStamp, "U04: times are counted in 100 ns since 1601");
}

// opening with a well formed request
HARNESS(h_uasc_open, "bound=4 shapes of a well formed request (texts of 0 to 3 octets);props=U04;uses=c_ch_now;cases=4;covers=x;time=300")
{
    unsigned shape = vcase(4);
    any(INIT);
    static Ref in;
    Gen g(shape);
    UaSecurityHeader sec; UaSequenceHeader seq; UaOpenSecureChannelReqCont req;
    g(sec); g(seq); g(req);
    in(sec); in(seq); in(req);
    MsgUaOpenSecureChannelReq& m = message<MsgUaOpenSecureChannelReq>();
    m.length = in.n;
    std::memcpy(m.data, in.out, in.n);
    ch->getState().onReceive(*ch, m);
    cover("x");
    check(state() == ESTABLISHED && rel.n == 0, "U04: a channel is opened on request");
    check(ch->connectionId && *ch->connectionId == m.connectionId && !ch->sessionId, "U04: a new channel belongs to the connection that asked for it and to no session");
    check(ch->storedRxSequenceNumber == bits(seq.sequenceNumber), "U04: the sequence numbers of the client are followed");
    check(ch->sequenceNumberTx == uint32_t(seqTx + 1), "U04: every message sent takes the next sequence number");
    check(snd.total() == 1 && snd.opens == 1 && snd.con == m.connectionId && snd.chan == theId && snd.chunk == 2, "U04: opening is answered once, to the connection that asked");
    UaSecurityHeader h; h.securityPolicyUri = "http://opcfoundation.org/UA/SecurityPolicy#None";
    UaSequenceHeader s; s.sequenceNumber = seqTx; s.requestId = bits(seq.requestId);
    UaOpenSecureChannelRspCont r;
    plain(r.msg.responseHdr, bits(req.msg.requestHdr.requestHandle));
    r.msg.serverProtocolVer = 0;
    r.msg.securityToken.secureChannelId = theId;
    r.msg.securityToken.tokenId = ch->storedTokenId;
    r.msg.securityToken.createdAt = nowStamp;
    r.msg.securityToken.revisedLifetime = bits(req.msg.requestLifetime);
    answer(h, s, r, 449);
}
// opening with anything
HARNESS(h_uasc_open_any, "props=U04;uses=c_ch_now,c_ch_sechdr,c_ch_enode,c_ch_openreq;covers=opened,refused;time=300")
{
    any(INIT);
    MsgUaOpenSecureChannelReq& m = message<MsgUaOpenSecureChannelReq>();
    ch->getState().onReceive(*ch, m);
    if (state() == ESTABLISHED)
    {
        cover("opened");
        check(rel.n == 0 && ch->connectionId && *ch->connectionId == m.connectionId && !ch->sessionId, "U04: a new channel belongs to the connection that asked for it and to no session");
        check(snd.total() == 1 && snd.opens == 1 && snd.con == m.connectionId && snd.chan == theId, "U04: opening is answered once, to the connection that asked");
        check(!ghostRefused, "U04: a malformed request opens nothing");
    }
    else
    {
        cover("refused");
        ended();
        check(snd.total() == 1 && snd.reqs == 1 && snd.reqCon == m.connectionId, "U04: a malformed message ends the connection it came from");
    }
}

// a message of the peer
HARNESS(h_uasc_msg, "props=U04;covers=forwarded,foreign,violation,data;time=300")
{
    any(ESTABLISHED);
    MsgUaSecuredMessageReceiveInd& m = message<MsgUaSecuredMessageReceiveInd>();
    ch->getState().onReceive(*ch, m);
    if (m.connectionId != con)
    {
        cover("foreign");
        check(snd.total() == snd.reqs && snd.reqs <= 1 && (!snd.reqs || snd.reqCon == m.connectionId), "U04: only the connection of a channel uses it");
        noEffect(ESTABLISHED);
        return;
    }
    if (m.length < 12 || le(m.data) != token || le(m.data + 4) != uint32_t(seqRx + 1))
    {
        cover("violation");
        ended();
        check(snd.total() == 1 && snd.reqs == 1 && snd.reqCon == con, "U04: a wrong token or sequence number ends channel and connection");
        return;
    }
    cover("forwarded");
    same(ESTABLISHED);
    check(ch->storedRxSequenceNumber == uint32_t(seqRx + 1) && ch->sequenceNumberTx == seqTx, "U04: the sequence numbers of the client are followed");
    check(snd.total() == 1 && snd.inds == 1, "U04: a message is passed on once");
    check(snd.hdr.connectionId == con && snd.hdr.secureChannelId == theId && snd.hdr.requestId == le(m.data + 8)
        && snd.hdr.sessionId == (hasSession ? session : 0x7FFFFFFFu), "U04: a message is passed on with its connection, channel, request and session");
    check(snd.len == m.length - 12, "U04: a message is passed on with its length");
    unsigned j = nondet<unsigned>("j");
    if (j < snd.len) { cover("data"); check(snd.data[j] == m.data[12 + j], "U04: a message is passed on unchanged"); }
}

// a message of a service
HARNESS(h_uasc_send, "props=U04;covers=sent,foreign,data;time=300")
{
    any(ESTABLISHED);
    auto* m = new (&raw[0]) MsgUaEncodedMessageSendReq;
    m->hdr.connectionId = nondet<unsigned>("msgConnection");
    m->hdr.secureChannelId = theId;
    m->hdr.requestId = nondet<unsigned>("msgRequest");
    m->hdr.sessionId = nondet<unsigned>("msgSession");
    m->length = nondet<unsigned>("msgLength");
    assume(m->length <= ROOM - sizeof *m);
    __v_bytes(&m->data[0], CAP - sizeof *m, "msgData");
    ch->getState().onReceive(*ch, *m);
    if (m->hdr.connectionId != con || (hasSession && m->hdr.sessionId != session))
    {
        cover("foreign");
        check(snd.total() == 0, "U04: an answer for another connection or session is not sent");
        noEffect(ESTABLISHED);
        return;
    }
    cover("sent");
    same(ESTABLISHED);
    check(ch->sequenceNumberTx == uint32_t(seqTx + 1) && ch->storedRxSequenceNumber == seqRx, "U04: every message sent takes the next sequence number");
    check(snd.total() == 1 && snd.sends == 1 && snd.con == con && snd.chan == theId && snd.chunk == 2, "U04: an answer is sent once, on the connection of the channel");
    check(snd.len == m->length + 12, "U04: an answer is sent with its length");
    check(le(snd.data) == token && le(snd.data + 4) == seqTx && le(snd.data + 8) == m->hdr.requestId, "U04: an answer carries token, sequence number and the request it answers");
    unsigned j = nondet<unsigned>("j");
    if (j < m->length) { cover("data"); check(snd.data[12 + j] == m->data[j], "U04: an answer is sent unchanged"); }
}

HARNESS(h_uasc_associate, "props=U04;covers=own,foreign;time=300")
{
    any(ESTABLISHED);
    MsgUaAssociateSecureChannelReq m;
    m.hdr.connectionId = nondet<unsigned>("msgConnection");
    m.hdr.secureChannelId = theId;
    m.hdr.requestId = nondet<unsigned>("msgRequest");
    m.hdr.sessionId = nondet<unsigned>("msgSession");
    ch->getState().onReceive(*ch, m);
    check(snd.total() == 0, "U04: associating sends nothing");
    if (m.hdr.connectionId == con) { cover("own"); hasSession = true; session = m.hdr.sessionId; }
    else cover("foreign");
    noEffect(ESTABLISHED);
}

// closing with a well formed request
HARNESS(h_uasc_close, "bound=4 shapes of a well formed request (texts of 0 to 3 octets);props=U04;uses=c_ch_now;cases=4;covers=x,wrong;time=300")
{
    unsigned shape = vcase(4);
    any(ESTABLISHED);
    static Ref in;
    Gen g(shape);
    UaSecurityTokenHeader sec; UaSequenceHeader seq; UaCloseSecureChannelReqCont req;
    g(sec); g(seq); g(req);
    in(sec); in(seq); in(req);
    MsgUaCloseSecureChannelReq& m = message<MsgUaCloseSecureChannelReq>();
    m.length = in.n;
    std::memcpy(m.data, in.out, in.n);
    assume(m.connectionId == con);
    ch->getState().onReceive(*ch, m);
    ended();
    check(snd.reqs == 1 && snd.reqCon == con, "U04: closing ends channel and connection");
    if (bits(sec.tokenId) != token || bits(seq.sequenceNumber) != uint32_t(seqRx + 1))
    {
        cover("wrong");
        check(snd.total() == 1, "U04: a wrong token or sequence number is not answered");
        return;
    }
    cover("x");
    check(snd.total() == 2 && snd.closes == 1 && snd.closeAt < snd.reqAt, "U04: closing is answered once, before the connection ends");
    check(snd.con == con && snd.chan == theId && snd.chunk == 2, "U04: closing is answered to the connection that asked");
    UaSecurityTokenHeader h; h.tokenId = token;
    UaSequenceHeader s; s.sequenceNumber = seqTx; s.requestId = bits(seq.requestId);
    UaCloseSecureChannelRspCont r;
    plain(r.msg.responseHdr, bits(req.msg.requestHdr.requestHandle));
    answer(h, s, r, 455);
}
HARNESS(h_uasc_close_any, "props=U04;uses=c_ch_now,c_ch_enode,c_ch_closereq;covers=closed,foreign,malformed;time=300")
{
    any(ESTABLISHED);
    MsgUaCloseSecureChannelReq& m = message<MsgUaCloseSecureChannelReq>();
    ch->getState().onReceive(*ch, m);
    if (m.connectionId != con)
    {
        cover("foreign");
        check(snd.total() == snd.reqs && snd.reqs <= 1 && (!snd.reqs || snd.reqCon == m.connectionId), "U04: only the connection of a channel uses it");
        noEffect(ESTABLISHED);
        return;
    }
    ended();
    check(snd.reqs == 1 && snd.reqCon == con && snd.total() == snd.reqs + snd.closes && snd.closes <= 1, "U04: closing ends channel and connection");
    bool good = m.length >= 12 && le(m.data) == token && le(m.data + 4) == uint32_t(seqRx + 1);
    if (!good || ghostRefused) { cover("malformed"); check(snd.closes == 0, "U04: a malformed message is not answered"); }
    else cover("closed");
    if (snd.closes) check(snd.closeAt < snd.reqAt && snd.con == con && snd.chan == theId, "U04: closing is answered once, before the connection ends");
}

// the connection is gone
HARNESS(h_uasc_gone, "props=U04;covers=own,foreign;time=300")
{
    any(ESTABLISHED);
    MsgUaConnectionReleaseInd m;
    m.connectionId = nondet<unsigned>("msgConnection");
    m.secureChannelId = theId;
    ch->getState().onReceive(*ch, m);
    check(snd.total() == 0, "U04: the end of a connection is not answered");
    if (m.connectionId == con) { cover("own"); ended(); }
    else { cover("foreign"); noEffect(ESTABLISHED); }
}

// events a channel has no use for
HARNESS(h_uasc_idle, "props=U04;cases=6;covers=x;time=300")
{
    unsigned k = vcase(6);
    any(k == 5 ? ESTABLISHED : INIT);
    switch (k)
    {
    case 0: ch->getState().onReceive(*ch, message<MsgUaCloseSecureChannelReq>()); break;
    case 1: ch->getState().onReceive(*ch, message<MsgUaSecuredMessageReceiveInd>()); break;
    case 2: { MsgUaConnectionReleaseInd m; m.connectionId = nondet<unsigned>("msgConnection"); m.secureChannelId = theId; ch->getState().onReceive(*ch, m); break; }
    case 3: { MsgUaAssociateSecureChannelReq m; m.hdr.connectionId = nondet<unsigned>("msgConnection"); m.hdr.secureChannelId = theId; m.hdr.sessionId = 1; ch->getState().onReceive(*ch, m); break; }
    case 4:
    {
        auto* m = new (&raw[0]) MsgUaEncodedMessageSendReq;
        m->hdr.connectionId = nondet<unsigned>("msgConnection");
        m->hdr.sessionId = nondet<unsigned>("msgSession");
        m->length = 8;
        ch->getState().onReceive(*ch, *m);
        break;
    }
    default: ch->getState().onReceive(*ch, message<MsgUaOpenSecureChannelReq>()); break;
    }
    cover("x");
    check(snd.total() == 0, "U04: a channel that is not open sends nothing");
    noEffect(k == 5 ? ESTABLISHED : INIT);
    if (k != 5) check(!ch->connectionId && !ch->sessionId, "U04: a channel that is not open belongs to nobody");
}
