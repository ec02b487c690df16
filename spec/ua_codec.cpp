// The OPC UA binary codec: what is encoded is the standard's octets, and decoding gives the value back.
// SOURCES: common/ua/common/*.cpp
#include "ua_fields.h"
using namespace uaspec;

namespace
{
// an SDU with `at` arbitrary octets in it already
OpcUaSduBuffer* someSdu(unsigned at)
{
    auto* b = new OpcUaSduBuffer();
    __v_bytes(&b->packet[0], 4096, "sdu");
    b->head = at;
    b->tail = 0;
    return b;
}

// one number at any place of an SDU
template <typename T> void number()
{
    constexpr unsigned n = std::is_same_v<typename T::Type, bool> ? 1 : sizeof(typename T::Type);
    unsigned h = nondet<unsigned>("head");
    assume(h <= 4096 - n);
    OpcUaSduBuffer* b = someSdu(h);
    unsigned t = nondet<unsigned>("tail");
    assume(t <= h);
    b->tail = t;
    unsigned j = nondet<unsigned>("j");
    assume(j < 4096 && (j < h || j >= h + n));
    uint8_t old = b->packet[j];
    T v;
    Gen g(0);
    g(v);
    OpcUaBinaryCodec c(*b);
    c << v;
    check(b->head == h + n, "U01: a number takes its own size");
    check(b->tail == t, "U01: writing does not move the reading position");
    for (unsigned i = 0; i < n; ++i) check(b->packet[h + i] == static_cast<uint8_t>(bits(v) >> (8 * i)), "U01: a number is sent least significant octet first");
    check(b->packet[j] == old, "U01: writing a number changes no other octet");
    b->tail = h;
    T w;
    c >> w;
    check(bits(w) == bits(v), "U01: a number is read as it was written");
    check(b->tail == h + n && b->head == h + n, "U01: reading takes what was written");
    cover("done");
}
template <typename T> void roundTripOf(T* v)
{
    unsigned at = 5;
    OpcUaSduBuffer* b = someSdu(at);
    Ref* r = new Ref();
    (*r)(*v);
    OpcUaBinaryCodec c(*b);
    uint8_t before[5];
    for (unsigned i = 0; i < at; ++i) before[i] = b->packet[i];
    c << *v;
    check(b->head == at + r->n, "U01: the encoding has the standard's length");
    for (unsigned i = 0; i < r->n; ++i) check(b->packet[at + i] == r->out[i], "U01: the octets are the standard's");
    for (unsigned i = 0; i < at; ++i) check(b->packet[i] == before[i], "U01: encoding leaves what was encoded before");
    check(b->tail == 0, "U01: writing does not move the reading position");
    b->tail = at;
    T* w = new T();
    c >> *w;
    check(b->tail == b->head && b->head == at + r->n, "U01: decoding takes exactly what was encoded");
    check(same(*v, *w), "U01: what is decoded is what was encoded");
    cover("done");
}
template <typename T> void roundTrip(unsigned shape)
{
    Gen g(shape);
    T* v = new T();
    g(*v);
    roundTripOf(v);
}
// a message of the secure conversation begins with the node id of its type
template <typename T> void message(unsigned shape, unsigned id)
{
    Gen g(shape);
    T* v = new T();
    g(*v);
    check(v->eNodeId.nodeId.value.index() == 0 && *std::get_if<0>(&v->eNodeId.nodeId.value) == id && v->eNodeId.nodeId.namespaceIndex == 0
        && !v->eNodeId.namespaceUri && !v->eNodeId.serverIndex, "U01: a message names its type");
    roundTripOf(v);
}
}

HARNESS(h_ua_numbers, "props=U01;covers=done;cases=13;time=300")
{
    switch (vcase(13))
    {
    case 0: number<Boolean>(); break;
    case 1: number<SByte>(); break;
    case 2: number<Byte>(); break;
    case 3: number<Int16>(); break;
    case 4: number<UInt16>(); break;
    case 5: number<Int32>(); break;
    case 6: number<UInt32>(); break;
    case 7: number<Int64>(); break;
    case 8: number<UInt64>(); break;
    case 9: number<Float>(); break;
    case 10: number<Double>(); break;
    case 11: number<DateTime>(); break;
    default: number<StatusCode>(); break;
    }
}

template <typename T> static void text(unsigned n)
{
    // at the end of the SDU
    unsigned at = n > 100 ? 4092 - n : 7;
    OpcUaSduBuffer* b = someSdu(at);
    T* v = new T();
    v->resize(n);
    if (n) __v_bytes(&(*v)[0], n, "text");
    OpcUaBinaryCodec c(*b);
    c << *v;
    check(b->head == at + 4 + n, "U01: a text takes its length and itself");
    uint32_t len = n ? n : 0xFFFFFFFF;
    for (unsigned i = 0; i < 4; ++i) check(b->packet[at + i] == static_cast<uint8_t>(len >> (8 * i)), "U01: a text is sent after its length");
    bool ok = true;
    for (unsigned i = 0; i < n; ++i) ok = ok & (b->packet[at + 4 + i] == static_cast<uint8_t>(v->val[i]));
    check(ok, "U01: a text is sent as it is");
    b->tail = at;
    T* w = new T();
    w->resize(3);
    c >> *w;
    check(b->tail == b->head && b->head == at + 4 + n, "U01: decoding takes exactly what was encoded");
    check(w->val.size() == n, "U01: a text is read as it was written");
    ok = true;
    for (unsigned i = 0; i < n; ++i) ok = ok & (v->val[i] == w->val[i]);
    check(ok, "U01: a text is read as it was written");
    cover("done");
}
// a text of any length at any place of an SDU: what is written, and what is read
template <typename T> static void writeText()
{
    unsigned at = nondet<unsigned>("at"), n = nondet<unsigned>("n"), j = nondet<unsigned>("j"), q = nondet<unsigned>("q");
    assume(at <= 4096 && n <= 4096);
    OpcUaSduBuffer* b = someSdu(at);
    unsigned t = nondet<unsigned>("tail");
    assume(t <= at);
    b->tail = t;
    T* v = new T();
    v->resize(n);
    __v_bytes(&(*v)[0], n, "text");
    assume(j < n || n == 0);
    uint8_t want = n ? static_cast<uint8_t>(v->val[j]) : 0;
    assume(q < 4096 && (q < at || q >= at + 4 + n));
    uint8_t old = b->packet[q];
    OpcUaBinaryCodec c(*b);
    bool ok = false;
    try
    {
        c << *v;
        ok = true;
    }
    catch (std::exception const&) { cover("toolong"); }
    check(ok == (at + 4 + n <= 4096), "U01: a text is encoded just when it has room");
    check(b->tail == t, "U01: writing does not move the reading position");
    check(b->packet[q] == old, "U01: writing a text changes no other octet");
    check(v->val.size() == n && (!n || static_cast<uint8_t>(v->val[j]) == want), "U01: writing a text does not change it");
    if (!ok) return;
    check(b->head == at + 4 + n, "U01: a text takes its length and itself");
    uint32_t len = n ? n : 0xFFFFFFFF;
    for (unsigned i = 0; i < 4; ++i) check(b->packet[at + i] == static_cast<uint8_t>(len >> (8 * i)), "U01: a text is sent after its length");
    if (n) check(b->packet[at + 4 + j] == want, "U01: a text is sent as it is");
    cover("done");
}
template <typename T> static void readText()
{
    unsigned at = nondet<unsigned>("at"), n = nondet<unsigned>("n"), j = nondet<unsigned>("j"), end = nondet<unsigned>("end");
    assume(at <= 4092 && n <= 4092 - at && end <= 4096 && at + 4 + n <= end);
    OpcUaSduBuffer* b = someSdu(end);
    uint32_t len = n || nondet_bool("empty") ? n : 0xFFFFFFFF;
    for (unsigned i = 0; i < 4; ++i) assume(b->packet[at + i] == static_cast<uint8_t>(len >> (8 * i)));
    assume(j < n || n == 0);
    uint8_t want = n ? b->packet[at + 4 + j] : 0;
    b->tail = at;
    T* w = new T();
    w->resize(3);
    OpcUaBinaryCodec c(*b);
    c >> *w;
    check(b->tail == at + 4 + n && b->head == end, "U01: decoding takes exactly what was encoded");
    check(w->val.size() == n, "U01: a text is read as it was written");
    if (n) check(static_cast<uint8_t>(w->val[j]) == want && b->packet[at + 4 + j] == want, "U01: a text is read as it was written");
    cover("done");
}
#define TEXTS(name, T) \
HARNESS(h_ua_write_##name, "props=U01;covers=done,toolong;time=150;cost=9;loops=4!;instead=h_ua_" #name "_few") { writeText<T>(); } \
HARNESS(h_ua_read_##name, "props=U01;covers=done;time=150;cost=9;loops=4!;instead=h_ua_" #name "_few") { readText<T>(); }
TEXTS(string, String)
TEXTS(bytestring, ByteString)
static unsigned lengthOf(unsigned k)
{
    static const unsigned big[] = {127, 128, 129, 255, 256, 257, 1000, 4092};
    return k < 24 ? k : big[k - 24];
}
HARNESS(h_ua_string_few, "standin=1;bound=32 lengths up to the buffer;props=U01;covers=done;cases=32;time=900") { text<String>(lengthOf(vcase(32))); }
HARNESS(h_ua_bytestring_few, "standin=1;bound=32 lengths up to the buffer;props=U01;covers=done;cases=32;time=900") { text<ByteString>(lengthOf(vcase(32))); }

// the built-in types, all combinations of their optional parts
template <typename T> static void optional(unsigned shape, unsigned mask)
{
    Gen g(shape);
    g.masked = true;
    g.mask = mask;
    T* v = new T();
    g(*v);
    roundTripOf(v);
}
HARNESS(h_ua_nodeid, "bound=texts of sampled lengths;props=U01;covers=done;cases=24;time=300")
{
    unsigned k = vcase(24);
    Gen g(k / 6);
    NodeId* v = new NodeId();
    g.node(*v, k % 6);
    roundTripOf(v);
}
HARNESS(h_ua_expandednodeid, "bound=texts of sampled lengths;props=U01;covers=done;cases=24;time=300")
{
    unsigned k = vcase(24);
    Gen g(2);
    g.masked = true;
    g.mask = k / 6;
    ExpandedNodeId* v = new ExpandedNodeId();
    g.node(v->nodeId, k % 6);
    g.opt(v->namespaceUri, true);
    g.opt(v->serverIndex);
    roundTripOf(v);
}
HARNESS(h_ua_extensionobject, "bound=texts of sampled lengths;props=U01;covers=done;cases=12;time=300")
{
    unsigned k = vcase(12);
    Gen g(2);
    g.masked = true;
    g.mask = k / 6;
    ExtensionObject* v = new ExtensionObject();
    g.node(v->nodeId, k % 6);
    g.opt(v->byteString, true);
    roundTripOf(v);
}
HARNESS(h_ua_localizedtext, "bound=texts of sampled lengths;props=U01;covers=done;cases=8;time=300") { unsigned k = vcase(8); optional<LocalizedText>(k / 4, k % 4); }
HARNESS(h_ua_diagnosticinfo, "bound=texts of sampled lengths;props=U01;covers=done;cases=128;time=300") { optional<DiagnosticInfo>(2, vcase(128)); }
HARNESS(h_ua_datavalue, "bound=sampled shapes of the value;props=U01;covers=done;cases=64;time=300") { optional<DataValue>(3, vcase(64)); }
// every alternative of a variant (arrays of xml elements have no encoding)
HARNESS(h_ua_variant, "bound=texts and arrays of sampled lengths;props=U01;covers=done;cases=44;time=300")
{
    unsigned k = vcase(44);
    Variant* v = new Variant();
    if (k != 37) { Gen g(k == 0 ? 0 : 3); g.n = 1; g.anyAlt<0>(*v, k); }
    roundTripOf(v);
}
// arrays by length
template <typename T> static void array(unsigned n)
{
    auto* v = new DynamicArray<T>();
    v->resize(n);
    Gen g(4);
    for (unsigned i = 0; i < n; ++i) g((*v)[i]);
    roundTripOf(v);
}
HARNESS(h_ua_array, "bound=arrays of up to 2 elements;props=U01;covers=done;cases=18;time=300")
{
    unsigned k = vcase(18);
    switch (k / 6) { case 0: array<Byte>(k % 6 * 7); break; case 1: array<String>(k % 6); break; default: array<Int32>(k % 6 * 60); break; }
}
// an array of numbers of any length at any place of an SDU: what is written, and what is read
template <typename T> static void writeArray()
{
    using U = typename T::Type;
    static_assert(sizeof(T) == sizeof(U), "a number is its value");
    constexpr unsigned k = sizeof(U);
    unsigned at = nondet<unsigned>("at"), n = nondet<unsigned>("n"), j = nondet<unsigned>("j"), q = nondet<unsigned>("q");
    assume(at <= 4096 && n <= 4096 / k + 1);
    OpcUaSduBuffer* b = someSdu(at);
    unsigned t = nondet<unsigned>("tail");
    assume(t <= at);
    b->tail = t;
    auto* v = new DynamicArray<T>();
    v->resize(n);
    if (n) __v_bytes(&(*v)[0], n * k, "elements");
    assume(j < n || n == 0);
    uint64_t want = n ? bits((*v)[j]) : 0;
    assume(q < 4096 && (q < at || q >= at + 4 + n * k));
    uint8_t old = b->packet[q];
    OpcUaBinaryCodec c(*b);
    bool ok = false;
    try
    {
        c << *v;
        ok = true;
    }
    catch (std::exception const&) { cover("toolong"); }
    check(ok == (at + 4 + n * k <= 4096), "U01: an array is encoded just when it has room");
    check(b->tail == t, "U01: writing does not move the reading position");
    check(b->packet[q] == old, "U01: writing an array changes no other octet");
    if (!ok) return;
    check(b->head == at + 4 + n * k, "U01: an array takes its length and its elements");
    for (unsigned i = 0; i < 4; ++i) check(b->packet[at + i] == static_cast<uint8_t>(n >> (8 * i)), "U01: an array is sent after its length");
    if (n)
        for (unsigned i = 0; i < k; ++i) check(b->packet[at + 4 + j * k + i] == static_cast<uint8_t>(want >> (8 * i)), "U01: the elements are sent in order");
    cover("done");
}
template <typename T> static void readArray()
{
    constexpr unsigned k = sizeof(typename T::Type);
    unsigned at = k >= 4 ? 12 : nondet<unsigned>("at"), n = nondet<unsigned>("n"), j = nondet<unsigned>("j"), end = nondet<unsigned>("end");
    assume(at <= 4092 && n <= 4092 / k && end <= 4096 && at + 4 + n * k <= end);
    OpcUaSduBuffer* b = someSdu(end);
    for (unsigned i = 0; i < 4; ++i) assume(b->packet[at + i] == static_cast<uint8_t>(n >> (8 * i)));
    assume(j < n || n == 0);
    uint64_t want = 0;
    if (n)
        for (unsigned i = 0; i < k; ++i) want |= uint64_t(b->packet[at + 4 + j * k + i]) << (8 * i);
    b->tail = at;
    auto* w = new DynamicArray<T>();
    w->resize(3);
    OpcUaBinaryCodec c(*b);
    c >> *w;
    check(b->tail == at + 4 + n * k && b->head == end, "U01: decoding takes exactly what was encoded");
    check(w->size() == n, "U01: an array is read as it was written");
    if (n) check(bits((*w)[j]) == want, "U01: an array is read as it was written");
    cover("done");
}
#define NUMBERS(name, T, bound) \
HARNESS(h_ua_vec_write_##name, "props=U01;covers=done,toolong;time=150;cost=9;loops=4!;instead=h_ua_array") { writeArray<T>(); } \
HARNESS(h_ua_vec_read_##name, bound "props=U01;covers=done;time=150;cost=9;loops=4!;instead=h_ua_array") { readArray<T>(); }
NUMBERS(byte, Byte, "")
NUMBERS(sbyte, SByte, "")
NUMBERS(int16, Int16, "")
NUMBERS(uint16, UInt16, "")
NUMBERS(int32, Int32, "bound=arrays of any length at one place of an SDU;")
NUMBERS(uint32, UInt32, "bound=arrays of any length at one place of an SDU;")
NUMBERS(int64, Int64, "bound=arrays of any length at one place of an SDU;")
NUMBERS(uint64, UInt64, "bound=arrays of any length at one place of an SDU;")
NUMBERS(float, Float, "bound=arrays of any length at one place of an SDU;")
NUMBERS(double, Double, "bound=arrays of any length at one place of an SDU;")
NUMBERS(datetime, DateTime, "bound=arrays of any length at one place of an SDU;")
NUMBERS(statuscode, StatusCode, "bound=arrays of any length at one place of an SDU;")
// what a peer may send although this side would not: the other forms of a value
HARNESS(h_ua_forms, "props=U01;covers=node,text,array,bool;cases=4;time=300")
{
    OpcUaSduBuffer* b = someSdu(40);
    OpcUaBinaryCodec c(*b);
    uint8_t const* p = &b->packet[0];
    switch (vcase(4))
    {
    case 0:
    {
        unsigned form = split(b->packet[0] & 15u);
        assume(form < 3);
        uint32_t ns = form == 0 ? 0 : form == 1 ? p[1] : p[1] | p[2] << 8;
        uint32_t id = form == 0 ? p[1] : form == 1 ? p[2] | p[3] << 8 : p[3] | p[4] << 8 | p[5] << 16 | uint32_t(p[6]) << 24;
        NodeId n;
        n.namespaceIndex = 7;
        c >> n;
        cover("node");
        check(n.value.index() == 0 && n.namespaceIndex == ns && *std::get_if<0>(&n.value) == id, "U01: a numeric node id is read in any of its forms");
        check(b->tail == (form == 0 ? 2 : form == 1 ? 4 : 7), "U01: a numeric node id is read in any of its forms");
    }
    break;
    case 1:
    {
        bool null = nondet_bool("null");
        for (unsigned i = 0; i < 4; ++i) b->packet[i] = null ? 0xFF : 0;
        String s;
        s.resize(2);
        c >> s;
        cover("text");
        check(s.size() == 0 && b->tail == 4, "U01: a null or empty text is read as an empty one");
        b->tail = 0;
        ByteString t;
        t.resize(2);
        c >> t;
        check(t.size() == 0 && b->tail == 4, "U01: a null or empty text is read as an empty one");
    }
    break;
    case 2:
    {
        bool null = nondet_bool("null");
        for (unsigned i = 0; i < 4; ++i) b->packet[i] = null ? 0xFF : 0;
        DynamicArray<Byte> a;
        a.resize(2);
        c >> a;
        cover("array");
        check(a.size() == 0 && b->tail == 4, "U01: a null or empty array is read as an empty one");
    }
    break;
    default:
    {
        Boolean v;
        c >> v;
        cover("bool");
        check(static_cast<bool>(v) == (p[0] != 0), "U01: a boolean is true unless it is 0");
    }
    break;
    }
}

#define SHAPES 8
#define STRUCT(name, T) HARNESS(h_ua_##name, "bound=8 shapes: texts and arrays of sampled lengths, all field values;props=U01;covers=done;cases=8;time=300") { roundTrip<T>(vcase(SHAPES)); }
#define MESSAGE(name, T, id) HARNESS(h_ua_##name, "bound=8 shapes: texts and arrays of sampled lengths, all field values;props=U01;covers=done;cases=8;time=300") { message<T>(vcase(SHAPES), id); }
STRUCT(guid, Guid)
STRUCT(qualifiedname, QualifiedName)
STRUCT(messageheader, MessageHeader)
STRUCT(uamessageheader, UaMessageHeader)
STRUCT(hello, HelloMessage)
STRUCT(acknowledge, AcknowledgeMessage)
STRUCT(error, ErrorMessage)
STRUCT(reversehello, ReverseHelloMessage)
STRUCT(securityheader, UaSecurityHeader)
STRUCT(tokenheader, UaSecurityTokenHeader)
STRUCT(sequenceheader, UaSequenceHeader)
STRUCT(requestheader, UaRequestHeader)
STRUCT(responseheader, UaResponseHeader)
STRUCT(securitytoken, UaChannelSecurityToken)
STRUCT(application, UaApplicationDescription)
STRUCT(tokenpolicy, UaUserTokenPolicy)
STRUCT(endpoint, UaEndpointDescription)
STRUCT(signature, UaSignatureData)
STRUCT(readvalueid, ReadValueId)
MESSAGE(getendpointsreq, UaGetEndpointsReqCont, 428)
MESSAGE(getendpointsrsp, UaGetEndpointsRspCont, 431)
MESSAGE(openreq, UaOpenSecureChannelReqCont, 446)
MESSAGE(openrsp, UaOpenSecureChannelRspCont, 449)
MESSAGE(closereq, UaCloseSecureChannelReqCont, 452)
MESSAGE(closersp, UaCloseSecureChannelRspCont, 455)
MESSAGE(createreq, UaCreateSessionReqCont, 461)
MESSAGE(creatersp, UaCreateSessionRspCont, 464)
MESSAGE(activatereq, UaActivateSessionReqCont, 467)
MESSAGE(activatersp, UaActivateSessionRspCont, 470)
MESSAGE(closesessionreq, UaCloseSessionReqCont, 473)
MESSAGE(closesessionrsp, UaCloseSessionRspCont, 476)
MESSAGE(readreq, UaReadReqCont, 631)
MESSAGE(readrsp, UaReadRspCont, 634)
