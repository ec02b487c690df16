// The OPC UA binary encoding, stated independently of the codec: for each structure its fields in wire
// order, and an encoder of the built-in types (OPC UA part 6, little endian).  Gen builds a value of a given
// shape (which optional fields are there, how long strings and arrays are) with arbitrary contents.
#pragma once
#include "verif.h"
#include "OpcUaBinaryCodec.hpp"
#include <cstring>
#include <type_traits>

namespace uaspec
{
using namespace app;
using namespace app::ua;

// ------------------------------------------------------------- structures: the fields in wire order
#define UA_FIELDS(T, ...) template <typename F> void fields(F& f, T& x) { __VA_ARGS__ }
UA_FIELDS(Guid, f(x.data1); f(x.data2); f(x.data3); for (int i = 0; i < 8; ++i) f(x.data4[i]);)
UA_FIELDS(QualifiedName, f(x.namespaceIndex); f(x.name);)
UA_FIELDS(MessageHeader, f(x.messageType[0]); f(x.messageType[1]); f(x.messageType[2]); f(x.isFinal); f(x.messageSize);)
UA_FIELDS(UaMessageHeader, f(x.messageType[0]); f(x.messageType[1]); f(x.messageType[2]); f(x.isFinal); f(x.messageSize); f(x.secureChannelId);)
UA_FIELDS(HelloMessage, f(x.protocolVersion); f(x.receiveBufferSize); f(x.sendBufferSize); f(x.maxMessageSize); f(x.maxChunkCount); f(x.endpointUrl);)
UA_FIELDS(AcknowledgeMessage, f(x.protocolVersion); f(x.receiveBufferSize); f(x.sendBufferSize); f(x.maxMessageSize); f(x.maxChunkCount);)
UA_FIELDS(ErrorMessage, f(x.error); f(x.reason);)
UA_FIELDS(ReverseHelloMessage, f(x.serverUri); f(x.endpointUrl);)
UA_FIELDS(UaSecurityHeader, f(x.securityPolicyUri); f(x.senderCertificate); f(x.receiverCertificateThumbprint);)
UA_FIELDS(UaSecurityTokenHeader, f(x.tokenId);)
UA_FIELDS(UaSequenceHeader, f(x.sequenceNumber); f(x.requestId);)
UA_FIELDS(UaRequestHeader, f(x.authentificationToken); f(x.timestamp); f(x.requestHandle); f(x.returnDignostics); f(x.auditEntityId); f(x.timeoutHint); f(x.additionalHeader);)
UA_FIELDS(UaResponseHeader, f(x.timestamp); f(x.requestHandle); f(x.serviceResult); f(x.serviceDiagnostics); f(x.stringTable); f(x.additionalHeader);)
UA_FIELDS(UaOpenSecureChannelReq, f(x.requestHdr); f(x.clientProtocolVer); f(x.securityTokenRequestType); f(x.securityMode); f(x.clientNonce); f(x.requestLifetime);)
UA_FIELDS(UaChannelSecurityToken, f(x.secureChannelId); f(x.tokenId); f(x.createdAt); f(x.revisedLifetime);)
UA_FIELDS(UaOpenSecureChannelRsp, f(x.responseHdr); f(x.serverProtocolVer); f(x.securityToken); f(x.serverNonce);)
UA_FIELDS(UaCloseSecureChannelReq, f(x.requestHdr);)
UA_FIELDS(UaCloseSecureChannelRsp, f(x.responseHdr);)
UA_FIELDS(UaGetEndpointsReq, f(x.requestHdr); f(x.endpointUrl); f(x.localeIds); f(x.profileUris);)
UA_FIELDS(UaApplicationDescription, f(x.applicationUri); f(x.productUri); f(x.applicationName); f(x.applicationType); f(x.gatewayServerUri); f(x.discoveryProfileUri); f(x.discoveryUrls);)
UA_FIELDS(UaUserTokenPolicy, f(x.policyId); f(x.tokenType); f(x.issuedTokenType); f(x.issuerEndpointUrl); f(x.securityPolicyUri);)
UA_FIELDS(UaEndpointDescription, f(x.endpointUrl); f(x.server); f(x.serverCertificate); f(x.securityMode); f(x.securityPolicyUri); f(x.userIdentityTokens); f(x.transportProfileUri); f(x.securityLevel);)
UA_FIELDS(UaGetEndpointsRsp, f(x.responseHdr); f(x.endpointDescription);)
UA_FIELDS(UaSignatureData, f(x.algorithm); f(x.signature);)
UA_FIELDS(UaCreateSessionReq, f(x.requestHdr); f(x.clientDescription); f(x.serverUri); f(x.endpointUrl); f(x.sessionName); f(x.clientNonce); f(x.clientCertificate); f(x.requestedSessionTimeout); f(x.maxResponseMessageSize);)
UA_FIELDS(UaCreateSessionRsp, f(x.responseHdr); f(x.sessionId); f(x.authenticationToken); f(x.revisedSessionTimeout); f(x.serverNonce); f(x.serverCertificate); f(x.serverEndpoints); f(x.signedSoftwareCertificate); f(x.serverSignature); f(x.maxRequestMessageSize);)
UA_FIELDS(UaActivateSessionReq, f(x.requestHdr); f(x.clientSignature); f(x.clientSoftwareCertificates); f(x.localeIds); f(x.userIdentityToken); f(x.userTokenSignature);)
UA_FIELDS(UaActivateSessionRsp, f(x.responseHdr); f(x.serverNonce); f(x.results); f(x.diagnosticInfos);)
UA_FIELDS(UaCloseSessionReq, f(x.requestHdr); f(x.deleteSubscriptions);)
UA_FIELDS(UaCloseSessionRsp, f(x.responseHdr);)
UA_FIELDS(ReadValueId, f(x.nodeId); f(x.attributeId); f(x.indexRange); f(x.dataEncoding);)
UA_FIELDS(UaReadReq, f(x.requestHdr); f(x.maxAge); f(x.timestampsToReturn); f(x.nodesToRead);)
UA_FIELDS(UaReadRsp, f(x.responseHdr); f(x.results); f(x.diagnosticInfos);)

template <typename F, typename T, DataTypeId I> void fields(F& f, UaMsgCont<T, I>& x) { f(x.eNodeId); f(x.msg); }

template <typename T> struct is_num : std::false_type {};
template <DataTypeId I, typename T> struct is_num<NumericType<I, T>> : std::true_type {};
template <typename T> constexpr bool is_str = std::is_same_v<T, String> || std::is_same_v<T, ByteString>;
template <typename T> struct is_vec : std::false_type {};
template <typename T> struct is_vec<DynamicArray<T>> : std::true_type {};

template <typename T>
uint64_t bits(T const& v)   // the value of a number as the bits that go on the wire
{
    typename T::Type t = v;
    if constexpr (std::is_same_v<typename T::Type, bool>) return t ? 1 : 0;
    else { uint64_t r = 0; std::memcpy(&r, &t, sizeof t); return r; }
}

// ------------------------------------------------------------- values of a shape
struct Gen
{
    unsigned shape;      // decides which optional parts are there
    unsigned n = 0;      // counts the decisions
    unsigned strBase = 0;
    unsigned deep = 0;
    bool masked = false; // the two-way decisions are the bits of mask
    unsigned mask = 0;
    explicit Gen(unsigned s) : shape(s) {}
    // the kth decision: all 0, all 1, mixed
    unsigned pick(unsigned mod)
    {
        if (masked && mod == 2 && deep == 0) { unsigned r = mask & 1; mask >>= 1; return r; }
        unsigned k = n++;
        switch (shape)
        {
        case 0: return 0;
        case 1: return mod - 1;
        default: return (k * (2 * shape - 3) + shape + (k >> 2)) % mod;
        }
    }
    template <typename T>
    void operator()(T& x)
    {
        if constexpr (is_num<T>::value)
        {
            if constexpr (std::is_same_v<typename T::Type, bool>) x = nondet_bool("flag");
            else
            {
                typename T::Type t;
                uint64_t r = __v_nondet(sizeof t * 8, "number");
                std::memcpy(&t, &r, sizeof t);
                x = t;
            }
        }
        else if constexpr (is_str<T>) str(x, strBase + pick(4));
        else if constexpr (is_vec<T>::value)
        {
            unsigned len = deep > 1 ? 0 : pick(3);
            x.resize(len);
            ++deep;
            for (unsigned i = 0; i < len; ++i)
            {
                typename T::value_type e;
                (*this)(e);
                x[i] = std::move(e);
            }
            --deep;
        }
        else fields(*this, x);
    }
    template <typename T> void str(T& x, unsigned len)
    {
        x.resize(len);
        if (len) __v_bytes(&x[0], len, "text");
    }
    template <typename T> void opt(Opt<T>& o, bool nonempty = false)
    {
        if (!pick(2)) return;
        o.emplace();
        if constexpr (is_str<T>) { if (nonempty) { str(*o, 1 + pick(3)); return; } }
        (*this)(*o);
    }
    void operator()(NodeId& x) { node(x, pick(6)); }
    void node(NodeId& x, unsigned form)
    {
        uint16_t ns = nondet<uint16_t>("ns");
        uint32_t id = nondet<uint32_t>("id");
        switch (form)
        {
        case 0: ns = 0; assume(id < 256); break;
        case 1: assume(ns < 256 && id < 65536 && (ns != 0 || id >= 256)); break;
        case 2: assume(ns >= 256 || id >= 65536); break;
        }
        x.namespaceIndex = ns;
        switch (form)
        {
        case 3: (*this)(x.value.template emplace<1>()); break;
        case 4: (*this)(x.value.template emplace<2>()); break;
        case 5: (*this)(x.value.template emplace<3>()); break;
        default: x.value.template emplace<0>() = id; break;
        }
    }
    void operator()(ExpandedNodeId& x) { (*this)(x.nodeId); opt(x.namespaceUri, true); opt(x.serverIndex); }
    void operator()(LocalizedText& x) { opt(x.locale, true); opt(x.text, true); }
    void operator()(ExtensionObject& x) { (*this)(x.nodeId); opt(x.byteString, true); }
    void operator()(DiagnosticInfo& x)
    {
        opt(x.symbolicId); opt(x.namespaceUri); opt(x.locale); opt(x.localizedText); opt(x.additionalInfo); opt(x.innerStatusCode);
        if (deep < 2 && pick(2)) { ++deep; x.innerDiagnosticInfo = std::make_unique<DiagnosticInfo>(); (*this)(*x.innerDiagnosticInfo); --deep; }
    }
    void operator()(DataValue& x)
    {
        if (pick(2)) (*this)(x.value);
        opt(x.status); opt(x.sourceTimestampt); opt(x.sourcePicoSeconds); opt(x.serverTimeStampt); opt(x.serverPicoSeconds);
    }
    template <std::size_t K> void alt(Variant& x)
    {
        x.value = std::make_unique<Variant::Value>();
        (*this)(x.value->template emplace<K>());
    }
    void operator()(XmlElement&) {}
    template <typename T, DataTypeId I> void operator()(UaMsgCont<T, I>& x) { (*this)(x.msg); }   // its node id is fixed
    template <std::size_t K> void anyAlt(Variant& x, std::size_t k)
    {
        if constexpr (K < 44) { if (k == K) alt<K>(x); else anyAlt<K + 1>(x, k); }
    }
    void operator()(Variant& x)
    {
        switch (pick(5)) { case 0: alt<0>(x); break; case 1: alt<5>(x); break; case 2: alt<11>(x); break; case 3: alt<10>(x); break; default: alt<27>(x); break; }
    }
};

// ------------------------------------------------------------- the encoding
struct Ref
{
    uint8_t out[4096];
    unsigned n = 0;
    void b(uint8_t v) { out[n++] = v; }
    void le(uint64_t v, unsigned k) { for (unsigned i = 0; i < k; ++i) b(static_cast<uint8_t>(v >> (8 * i))); }
    template <typename T>
    void operator()(T& x)
    {
        if constexpr (is_num<T>::value) le(bits(x), std::is_same_v<typename T::Type, bool> ? 1 : sizeof(typename T::Type));
        else if constexpr (is_str<T>)
        {
            unsigned len = x.val.size();
            le(len ? len : 0xFFFFFFFFu, 4);                       // an empty string is sent as null
            for (unsigned i = 0; i < len; ++i) b(static_cast<uint8_t>(x.val[i]));
        }
        else if constexpr (is_vec<T>::value)
        {
            le(x.size(), 4);
            for (auto& e : x) (*this)(e);
        }
        else fields(*this, x);
    }
    template <typename T> void opt(Opt<T>& o) { if (o) (*this)(*o); }
    void operator()(NodeId& x) { node(x, 0); }
    void node(NodeId& x, uint8_t flags)
    {
        uint16_t ns = x.namespaceIndex;
        switch (x.value.index())
        {
        case 0:
        {
            uint32_t id = *std::get_if<0>(&x.value);
            if (ns == 0 && id < 256) { b(flags); b(id); }
            else if (ns < 256 && id < 65536) { b(1 | flags); b(ns); le(id, 2); }
            else { b(2 | flags); le(ns, 2); le(id, 4); }
        }
        break;
        case 1: b(3 | flags); le(ns, 2); (*this)(*std::get_if<1>(&x.value)); break;
        case 2: b(4 | flags); le(ns, 2); (*this)(*std::get_if<2>(&x.value)); break;
        default: b(5 | flags); le(ns, 2); (*this)(*std::get_if<3>(&x.value)); break;
        }
    }
    template <typename T> static bool has(Opt<T>& o) { return o.has_value(); }
    void operator()(ExpandedNodeId& x)
    {
        node(x.nodeId, (has(x.namespaceUri) ? 0x80 : 0) | (has(x.serverIndex) ? 0x40 : 0));
        opt(x.namespaceUri); opt(x.serverIndex);
    }
    void operator()(LocalizedText& x) { b((has(x.locale) ? 1 : 0) | (has(x.text) ? 2 : 0)); opt(x.locale); opt(x.text); }
    void operator()(ExtensionObject& x) { (*this)(x.nodeId); b(has(x.byteString) ? 1 : 0); opt(x.byteString); }
    void operator()(DiagnosticInfo& x)
    {
        b((has(x.symbolicId) ? 1 : 0) | (has(x.namespaceUri) ? 2 : 0) | (has(x.locale) ? 4 : 0) | (has(x.localizedText) ? 8 : 0)
            | (has(x.additionalInfo) ? 0x10 : 0) | (has(x.innerStatusCode) ? 0x20 : 0) | (x.innerDiagnosticInfo ? 0x40 : 0));
        opt(x.symbolicId); opt(x.namespaceUri); opt(x.locale); opt(x.localizedText); opt(x.additionalInfo); opt(x.innerStatusCode);
        if (x.innerDiagnosticInfo) (*this)(*x.innerDiagnosticInfo);
    }
    void operator()(DataValue& x)
    {
        b((x.value.value ? 1 : 0) | (has(x.status) ? 2 : 0) | (has(x.sourceTimestampt) ? 4 : 0) | (has(x.sourcePicoSeconds) ? 8 : 0)
            | (has(x.serverTimeStampt) ? 0x10 : 0) | (has(x.serverPicoSeconds) ? 0x20 : 0));
        if (x.value.value) (*this)(x.value);
        opt(x.status); opt(x.sourceTimestampt); opt(x.sourcePicoSeconds); opt(x.serverTimeStampt); opt(x.serverPicoSeconds);
    }
    void operator()(XmlElement&) {}
    void operator()(Variant& x)
    {
        if (!x.value) { b(0); return; }
        unsigned i = x.value->index();
        b(i < 22 ? i + 1 : (i - 21) | 0x80);
        std::visit([this](auto& v) { (*this)(v); }, *x.value);
    }
};

// ------------------------------------------------------------- equality of values
template <typename T> bool same(T& a, T& b);
template <typename T> bool sameOpt(Opt<T>& a, Opt<T>& b) { return a.has_value() == b.has_value() && (!a || same(*a, *b)); }

struct Collect { void* p[24]; unsigned n = 0; template <typename T> void operator()(T& x) { p[n++] = &x; } };
struct Compare { Collect& c; unsigned n = 0; bool ok = true; template <typename T> void operator()(T& x) { ok = ok & same(x, *static_cast<T*>(c.p[n++])); } };

inline bool sameNode(NodeId& a, NodeId& b)
{
    if (bits(a.namespaceIndex) != bits(b.namespaceIndex) || a.value.index() != b.value.index()) return false;
    switch (a.value.index())
    {
    case 0: return bits(*std::get_if<0>(&a.value)) == bits(*std::get_if<0>(&b.value));
    case 1: return same(*std::get_if<1>(&a.value), *std::get_if<1>(&b.value));
    case 2: return same(*std::get_if<2>(&a.value), *std::get_if<2>(&b.value));
    default: return same(*std::get_if<3>(&a.value), *std::get_if<3>(&b.value));
    }
}
template <std::size_t K> bool sameAlt(Variant& a, Variant& b)
{
    if constexpr (K < 44) { if (a.value->index() == K) return same(*std::get_if<K>(a.value.get()), *std::get_if<K>(b.value.get())); return sameAlt<K + 1>(a, b); }
    else return false;
}
template <typename T> bool same(T& a, T& b)
{
    if constexpr (is_num<T>::value) return bits(a) == bits(b);
    else if constexpr (is_str<T>)
    {
        if (a.val.size() != b.val.size()) return false;
        bool ok = true;
        for (unsigned i = 0; i < a.val.size(); ++i) ok = ok & (a.val[i] == b.val[i]);
        return ok;
    }
    else if constexpr (is_vec<T>::value)
    {
        if (a.size() != b.size()) return false;
        bool ok = true;
        for (unsigned i = 0; i < a.size(); ++i) ok = ok & same(a[i], b[i]);
        return ok;
    }
    else if constexpr (std::is_same_v<T, NodeId>) return sameNode(a, b);
    else if constexpr (std::is_same_v<T, ExpandedNodeId>) return same(a.nodeId, b.nodeId) & sameOpt(a.namespaceUri, b.namespaceUri) & sameOpt(a.serverIndex, b.serverIndex);
    else if constexpr (std::is_same_v<T, LocalizedText>) return sameOpt(a.locale, b.locale) & sameOpt(a.text, b.text);
    else if constexpr (std::is_same_v<T, ExtensionObject>) return same(a.nodeId, b.nodeId) & sameOpt(a.byteString, b.byteString);
    else if constexpr (std::is_same_v<T, DiagnosticInfo>)
        return sameOpt(a.symbolicId, b.symbolicId) & sameOpt(a.namespaceUri, b.namespaceUri) & sameOpt(a.locale, b.locale)
            & sameOpt(a.localizedText, b.localizedText) & sameOpt(a.additionalInfo, b.additionalInfo) & sameOpt(a.innerStatusCode, b.innerStatusCode)
            & (!a.innerDiagnosticInfo == !b.innerDiagnosticInfo && (!a.innerDiagnosticInfo || same(*a.innerDiagnosticInfo, *b.innerDiagnosticInfo)));
    else if constexpr (std::is_same_v<T, DataValue>)
        return same(a.value, b.value) & sameOpt(a.status, b.status) & sameOpt(a.sourceTimestampt, b.sourceTimestampt)
            & sameOpt(a.sourcePicoSeconds, b.sourcePicoSeconds) & sameOpt(a.serverTimeStampt, b.serverTimeStampt) & sameOpt(a.serverPicoSeconds, b.serverPicoSeconds);
    else if constexpr (std::is_same_v<T, Variant>)
    {
        if (!a.value != !b.value) return false;
        if (!a.value) return true;
        return a.value->index() == b.value->index() && sameAlt<0>(a, b);
    }
    else if constexpr (std::is_same_v<T, XmlElement>) return true;
    else
    {
        Collect c; fields(c, b);
        Compare m{c}; fields(m, a);
        return m.ok;
    }
}
}
