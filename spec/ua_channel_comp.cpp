// The OPC UA secure channel component: channels are opened while there are places, messages reach the channel they name.
// SOURCES: ua/securechannel/*.cpp
// SOURCES: ua/securechannel/channel/*.cpp
// SOURCES: common/ua/common/*.cpp
#include "ua_fields.h"
#include "env_reactor.h"
#include "UaSecureChannelComponent.hpp"
#include "UaSecureChannel.hpp"
#include "UaServerSecureChannelInit.hpp"
#include "UaServerSecureChannelEstablished.hpp"
#include <sys/time.h>
using namespace app;
using namespace app::ua;
using namespace app::ua::securechannel;
using namespace uaspec;

extern "C" int gettimeofday(struct timeval* __restrict t, void* __restrict) noexcept { t->tv_sec = 1000; t->tv_usec = 7; return 0; }
extern "C" int rand() noexcept { return 77; }

namespace
{
constexpr unsigned N = 32;
env::Reactor rea;
UaSecureChannelComponent* comp;
unsigned initRsp, configRsp, releaseRsp, opens, closes, sends, inds, reqs;
unsigned lastCon, lastChan;
struct Snd : reactor::SenderInterface
{
    void send(reactor::MsgInterface const& m) override
    {
        auto id = m.getMsgId();
        if (id == MsgUaSecureChannelInitRsp::msgId()) { ++initRsp; to(m, CompIds::compController); }
        else if (id == MsgUaSecureChannelConfigRsp::msgId()) { ++configRsp; to(m, CompIds::compController); }
        else if (id == MsgUaSecureChannelReleaseRsp::msgId()) { ++releaseRsp; to(m, CompIds::compController); }
        else if (id == MsgUaOpenSecureChannelRsp::msgId()) { ++opens; out<MsgUaOpenSecureChannelRsp>(m); number(static_cast<MsgUaOpenSecureChannelRsp const&>(m)); to(m, CompIds::compUaTransport); }
        else if (id == MsgUaCloseSecureChannelRsp::msgId()) { ++closes; out<MsgUaCloseSecureChannelRsp>(m); to(m, CompIds::compUaTransport); }
        else if (id == MsgUaSecuredMessageSendReq::msgId()) { ++sends; out<MsgUaSecuredMessageSendReq>(m); to(m, CompIds::compUaTransport); }
        else if (id == MsgUaConnectionReleaseReq::msgId()) { ++reqs; lastCon = static_cast<MsgUaConnectionReleaseReq const&>(m).connectionId; to(m, CompIds::compUaTransport); }
        else if (id == MsgUaEncodedMessageReceiveInd::msgId())
        {
            ++inds;
            auto const& i = static_cast<MsgUaEncodedMessageReceiveInd const&>(m);
            lastCon = i.hdr.connectionId;
            lastChan = i.hdr.secureChannelId;
            to(m, CompIds::compUaService);
        }
        else check(false, "U04: nothing else is sent");
    }
    void to(reactor::MsgInterface const& m, decltype(m.getCompId()) c) { check(m.getCompId() == c, "U04: a message goes to the component it is for"); }
    // the sequence number follows the policy (47 octets) and two absent byte strings
    void number(MsgUaOpenSecureChannelRsp const& m)
    {
        uint32_t v = 0;
        check(m.length >= 67, "U04: the answer has the right length");
        for (unsigned i = 0; i < 4; ++i) v |= uint32_t(m.data[59 + i]) << (8 * i);
        check(v < 1024, "U04: the numbering of every channel starts anew, below 1024 as the standard demands");
    }
    template <typename M> void out(reactor::MsgInterface const& m) { lastCon = static_cast<M const&>(m).connectionId; lastChan = static_cast<M const&>(m).secureChannelId; }
} snd;
unsigned total() { return opens + closes + sends + inds + reqs; }
alignas(16) uint8_t raw[4096];
// a small well formed message
template <typename M, typename H, typename C> M& request(unsigned con, unsigned chan, H& sec, uint32_t seqNo)
{
    static Ref in;
    in.n = 0;
    UaSequenceHeader seq; seq.sequenceNumber = seqNo; seq.requestId = 3;
    C req;
    in(sec); in(seq); in(req);
    M* m = new (&raw[0]) M;
    m->connectionId = con;
    m->secureChannelId = chan;
    m->chunkType.val = UaChunkTypeEnum::final;
    m->length = in.n;
    std::memcpy(m->data, in.out, in.n);
    return *m;
}
MsgUaOpenSecureChannelReq& openReq(unsigned con)
{
    UaSecurityHeader sec;
    return request<MsgUaOpenSecureChannelReq, UaSecurityHeader, UaOpenSecureChannelReqCont>(con, 0, sec, 9);
}
void make()
{
    comp = new UaSecureChannelComponent(snd, rea);
}
void init()
{
    MsgUaSecureChannelInitReq r;
    check(rea.dispatch(r) == 1 && initRsp == 1, "U04: initialisation is answered once");
    MsgUaSecureChannelConfigReq c;
    check(rea.dispatch(c) == 1 && configRsp <= 1, "U04: every request has one handler");
}
unsigned place[N + 1];
unsigned conOf(unsigned i) { return 1000 + i; }
auto& chan(unsigned i) { return comp->secureChannel->serverSecureChannelPool.get(place[i]); }
void untouched(unsigned i)
{
    auto& c = chan(i);
    UaServerSecureChannelEstablished ref;
    check(*reinterpret_cast<void**>(&c.getState()) == *reinterpret_cast<void**>(&ref) && c.connectionId && *c.connectionId == conOf(i)
        && !c.sessionId && c.storedRxSequenceNumber == 9, "U04: a channel is not changed by messages for others");
}
void arrive(unsigned n)
{
    for (unsigned i = 0; i < n; ++i)
    {
        check(rea.dispatch(openReq(conOf(i))) == 1, "U04: every request has one handler");
        check(opens == i + 1 && total() == i + 1 && lastCon == conOf(i), "U04: a channel is opened for every connection that asks");
        place[i] = lastChan;
        check(place[i] >= 1 && place[i] <= N, "U04: a channel has a place");
        for (unsigned j = 0; j < i; ++j) check(place[j] != place[i], "U04: every channel has a place of its own");
        untouched(i);
    }
}
}
HARNESS(h_uascc_life, "bound=3 channels;props=U04;covers=x;time=300;steps=20000000")
{
    make();
    MsgUaConnectionReleaseInd ri; ri.connectionId = nondet<unsigned>("con"); ri.secureChannelId = nondet<unsigned>("chan");
    MsgUaAssociateSecureChannelReq as; as.hdr.connectionId = ri.connectionId; as.hdr.secureChannelId = ri.secureChannelId;
    auto nobody = [&]
    {
        unsigned t = total();
        check(rea.dispatch(ri) == 1 && rea.dispatch(as) == 1, "U04: every request has one handler");
        check(rea.dispatch(openReq(5)) == 1, "U04: every request has one handler");
        check(total() == t, "U04: without initialisation nothing happens");
    };
    nobody();
    init();
    arrive(3);
    MsgUaSecureChannelReleaseReq e;
    check(rea.dispatch(e) == 1 && releaseRsp == 1 && initRsp == 1 && total() == 3, "U04: release is answered once");
    nobody();
    cover("x");
    check(releaseRsp == 1 && initRsp == 1, "U04: release is answered once");
}
HARNESS(h_uascc_full, "bound=32 channels (all there are), each of them ending first;props=U04;covers=x;cases=32;time=600;steps=80000000;cost=8")
{
    make();
    init();
    arrive(N);
    rea.dispatch(openReq(5));
    check(opens == N && closes + sends + inds == 0 && (reqs == 0 || lastCon == 5), "U04: without a place no channel is opened");
    reqs = 0;
    for (unsigned i = 0; i < N; ++i) untouched(i);
    unsigned k = vcase(N);
    chan(k).sequenceNumberTx = nondet<uint32_t>("sentSoFar");      // any number of messages were sent on it
    MsgUaConnectionReleaseInd ri; ri.connectionId = conOf(k); ri.secureChannelId = place[k];
    check(rea.dispatch(ri) == 1 && total() == N, "U04: the end of a connection is not answered");
    rea.dispatch(openReq(6));
    check(opens == N + 1 && lastCon == 6 && lastChan == place[k], "U04: a free place is used again");
    for (unsigned i = 0; i < N; ++i) if (i != k) untouched(i);
    cover("x");
}
HARNESS(h_uascc_route, "bound=4 open channels;props=U04;covers=known,unknown;cases=5;time=600;steps=40000000;cost=8")
{
    make();
    init();
    arrive(4);
    unsigned kind = vcase(5);
    unsigned to = nondet<unsigned>("to");
    unsigned from = nondet<unsigned>("from");
    unsigned rx = 4;
    for (unsigned i = 0; i < 4; ++i) if (to == place[i]) rx = i;
    rx = split(rx);
    unsigned tok = rx < 4 ? chan(rx).storedTokenId : 1;
    UaSecurityTokenHeader sec; sec.tokenId = tok;
    bool thrown = false;
    try
    {
        unsigned n;
        if (kind == 0) n = rea.dispatch(request<MsgUaSecuredMessageReceiveInd, UaSecurityTokenHeader, UaCloseSecureChannelReqCont>(from, to, sec, 10));
        else if (kind == 1) n = rea.dispatch(request<MsgUaCloseSecureChannelReq, UaSecurityTokenHeader, UaCloseSecureChannelReqCont>(from, to, sec, 10));
        else if (kind == 2) { MsgUaAssociateSecureChannelReq m; m.hdr.connectionId = from; m.hdr.secureChannelId = to; m.hdr.sessionId = 44; n = rea.dispatch(m); }
        else if (kind == 3)
        {
            auto* m = new (&raw[0]) MsgUaEncodedMessageSendReq;
            m->hdr.connectionId = from; m->hdr.secureChannelId = to; m->hdr.sessionId = 44; m->hdr.requestId = 3; m->length = 16;
            n = rea.dispatch(*m);
        }
        else { MsgUaConnectionReleaseInd m; m.connectionId = from; m.secureChannelId = to; n = rea.dispatch(m); }
        check(n == 1, "U04: every request has one handler");
    }
    catch (std::exception const&) { thrown = true; }
    if (rx < 4)
    {
        check(!thrown, "U04: a message for a channel is accepted");
        if (from == conOf(rx))
        {
            cover("known");
            if (kind == 0) check(inds == 1 && lastCon == from && lastChan == to, "U04: a message reaches the channel it names");
            if (kind == 1) check(closes == 1 && reqs == 1, "U04: a message reaches the channel it names");
            if (kind == 2) check(chan(rx).sessionId && *chan(rx).sessionId == 44, "U04: a message reaches the channel it names");
            if (kind == 3) check(sends == 1 && lastCon == from && lastChan == to, "U04: a message reaches the channel it names");
            if (kind == 4) check(!chan(rx).connectionId, "U04: a message reaches the channel it names");
        }
        else untouched(rx);
    }
    else
    {
        cover("unknown");
        check(opens == 4 && closes + sends + inds == 0 && (reqs == 0 || lastCon == from), "U04: a message for no channel has no effect");
    }
    for (unsigned i = 0; i < 4; ++i) if (i != rx) untouched(i);
}
