// Decoding what a peer sent: any octets, any amount of them.
// SOURCES: common/ua/common/*.cpp
#include "ua_fields.h"
using namespace uaspec;

namespace
{
// any SDU that has been received, any part of it read
OpcUaSduBuffer* received()
{
    auto* b = new OpcUaSduBuffer();
    __v_bytes(&b->packet[0], 4096, "sdu");
    b->head = nondet<unsigned>("head");
    b->tail = nondet<unsigned>("tail");
    assume(b->head <= 4096 && b->tail <= b->head);
    return b;
}
// the effect of reading at least n octets, for callers
void taken(OpcUaBinaryCodec& c, unsigned n)
{
    OpcUaSduBuffer& b = c.buf();
    unsigned t = nondet<unsigned>("taken");
    if (b.head < b.tail + n || nondet_bool("refused")) throw std::runtime_error("refused");
    assume(t >= b.tail + n && t <= b.head);
    b.tail = t;
}
template <typename T> void someText(T& v)
{
    v.val.reserve(4096);
    unsigned n = nondet<unsigned>("length");
    assume(n <= 4092);
    v.val._M_string_length = n;
}
}
CONTRACT("app::ua::operator>>(app::ua::OpcUaBinaryCodec&, app::ua::String&)", "proved=h_dec_string")
OpcUaBinaryCodec& c_dec_string(OpcUaBinaryCodec& c, app::ua::String& v) { taken(c, 4); someText(v); return c; }

CONTRACT("app::ua::operator>>(app::ua::OpcUaBinaryCodec&, app::ua::ByteString&)", "proved=h_dec_bytestring")
OpcUaBinaryCodec& c_dec_bytestring(OpcUaBinaryCodec& c, app::ua::ByteString& v) { taken(c, 4); someText(v); return c; }

CONTRACT("app::ua::operator>>(app::ua::OpcUaBinaryCodec&, app::ua::NodeId&)", "proved=h_dec_nodeid")
OpcUaBinaryCodec& c_dec_nodeid(OpcUaBinaryCodec& c, app::ua::NodeId& v) { taken(c, 2); return c; }

CONTRACT("app::ua::operator>>(app::ua::OpcUaBinaryCodec&, app::ua::ExtensionObject&)", "proved=h_dec_extensionobject")
OpcUaBinaryCodec& c_dec_extensionobject(OpcUaBinaryCodec& c, app::ua::ExtensionObject& v) { taken(c, 3); return c; }

CONTRACT("app::ua::operator>>(app::ua::OpcUaBinaryCodec&, app::ua::LocalizedText&)", "proved=h_dec_localizedtext")
OpcUaBinaryCodec& c_dec_localizedtext(OpcUaBinaryCodec& c, app::ua::LocalizedText& v) { taken(c, 1); return c; }

CONTRACT("app::ua::operator>>(app::ua::OpcUaBinaryCodec&, app::ua::DiagnosticInfo&)", "proved=h_dec_diagnosticinfo")
OpcUaBinaryCodec& c_dec_diagnosticinfo(OpcUaBinaryCodec& c, app::ua::DiagnosticInfo& v) { taken(c, 1); return c; }

CONTRACT("app::ua::operator>>(app::ua::OpcUaBinaryCodec&, app::ua::Variant&)", "proved=h_dec_variant")
OpcUaBinaryCodec& c_dec_variant(OpcUaBinaryCodec& c, app::ua::Variant& v) { taken(c, 1); return c; }

CONTRACT("app::ua::operator>>(app::ua::OpcUaBinaryCodec&, app::ua::UaRequestHeader&)", "proved=h_dec_requestheader")
OpcUaBinaryCodec& c_dec_requestheader(OpcUaBinaryCodec& c, app::ua::UaRequestHeader& v) { taken(c, 29); return c; }

CONTRACT("app::ua::operator>>(app::ua::OpcUaBinaryCodec&, app::ua::UaResponseHeader&)", "proved=h_dec_responseheader")
OpcUaBinaryCodec& c_dec_responseheader(OpcUaBinaryCodec& c, app::ua::UaResponseHeader& v) { taken(c, 24); return c; }

CONTRACT("app::ua::operator>>(app::ua::OpcUaBinaryCodec&, app::ua::UaApplicationDescription&)", "proved=h_dec_application")
OpcUaBinaryCodec& c_dec_application(OpcUaBinaryCodec& c, app::ua::UaApplicationDescription& v) { taken(c, 25); return c; }

CONTRACT("app::ua::operator>>(app::ua::OpcUaBinaryCodec&, app::ua::UaEndpointDescription&)", "proved=h_dec_endpoint")
OpcUaBinaryCodec& c_dec_endpoint(OpcUaBinaryCodec& c, app::ua::UaEndpointDescription& v) { taken(c, 42); return c; }

CONTRACT("app::ua::operator>>(app::ua::OpcUaBinaryCodec&, app::ua::DataValue&)", "proved=h_dec_datavalue")
OpcUaBinaryCodec& c_dec_datavalue(OpcUaBinaryCodec& c, app::ua::DataValue& v) { taken(c, 1); return c; }

CONTRACT("app::ua::operator>>(app::ua::OpcUaBinaryCodec&, app::ua::ReadValueId&)", "proved=h_dec_readvalueid")
OpcUaBinaryCodec& c_dec_readvalueid(OpcUaBinaryCodec& c, app::ua::ReadValueId& v) { taken(c, 14); return c; }

CONTRACT("app::ua::operator>>(app::ua::OpcUaBinaryCodec&, app::ua::ExpandedNodeId&)", "proved=h_dec_expandednodeid")
OpcUaBinaryCodec& c_dec_expandednodeid(OpcUaBinaryCodec& c, app::ua::ExpandedNodeId& v) { taken(c, 2); return c; }

// arrays: the elements are taken by their contract
#define VEC(name, T, demangled) CONTRACT("app::ua::OpcUaBinaryCodec& app::ua::operator>><" demangled ">(app::ua::OpcUaBinaryCodec&, std::vector<" demangled ", std::allocator<" demangled ">>&)", "proved=h_dec_vec_" #name) \
OpcUaBinaryCodec& c_dec_vec_##name(OpcUaBinaryCodec& c, DynamicArray<T>& v) { taken(c, 4); v.clear(); if (nondet_bool("some")) v.resize(1); return c; }
VEC(byte, Byte, "app::ua::NumericType<(app::ua::DataTypeId)3, unsigned char>")
VEC(string, String, "app::ua::String")
VEC(diagnosticinfo, DiagnosticInfo, "app::ua::DiagnosticInfo")
VEC(uaendpointdescription, UaEndpointDescription, "app::ua::UaEndpointDescription")
VEC(uausertokenpolicy, UaUserTokenPolicy, "app::ua::UaUserTokenPolicy")
VEC(datavalue, DataValue, "app::ua::DataValue")
VEC(readvalueid, ReadValueId, "app::ua::ReadValueId")
VEC(statuscode, StatusCode, "app::ua::NumericType<(app::ua::DataTypeId)19, unsigned int>")
VEC(boolean, Boolean, "app::ua::NumericType<(app::ua::DataTypeId)1, bool>")
VEC(sbyte, SByte, "app::ua::NumericType<(app::ua::DataTypeId)2, signed char>")
VEC(int16, Int16, "app::ua::NumericType<(app::ua::DataTypeId)4, short>")
VEC(uint16, UInt16, "app::ua::NumericType<(app::ua::DataTypeId)5, unsigned short>")
VEC(int32, Int32, "app::ua::NumericType<(app::ua::DataTypeId)6, int>")
VEC(uint32, UInt32, "app::ua::NumericType<(app::ua::DataTypeId)7, unsigned int>")
VEC(int64, Int64, "app::ua::NumericType<(app::ua::DataTypeId)8, long>")
VEC(uint64, UInt64, "app::ua::NumericType<(app::ua::DataTypeId)9, unsigned long>")
VEC(float, Float, "app::ua::NumericType<(app::ua::DataTypeId)10, float>")
VEC(double, Double, "app::ua::NumericType<(app::ua::DataTypeId)11, double>")
VEC(datetime, DateTime, "app::ua::NumericType<(app::ua::DataTypeId)13, long>")
VEC(guid, Guid, "app::ua::Guid")
VEC(bytestring, ByteString, "app::ua::ByteString")
VEC(nodeid, NodeId, "app::ua::NodeId")
VEC(expandednodeid, ExpandedNodeId, "app::ua::ExpandedNodeId")
VEC(qualifiedname, QualifiedName, "app::ua::QualifiedName")
VEC(localizedtext, LocalizedText, "app::ua::LocalizedText")
VEC(extensionobject, ExtensionObject, "app::ua::ExtensionObject")
CONTRACT("app::ua::OpcUaBinaryCodec& app::ua::operator>><app::ua::DiagnosticInfo>(app::ua::OpcUaBinaryCodec&, std::unique_ptr<app::ua::DiagnosticInfo, std::default_delete<app::ua::DiagnosticInfo>>&)", "proved=h_dec_diagnosticptr")
OpcUaBinaryCodec& c_dec_diagnosticptr(OpcUaBinaryCodec& c, Ptr<DiagnosticInfo>& v) { taken(c, 1); v = std::make_unique<DiagnosticInfo>(); return c; }

template <typename T> static void decode(unsigned least)
{
    OpcUaSduBuffer* b = received();
    unsigned h = b->head, t = b->tail;
    T* v = new T();
    OpcUaBinaryCodec c(*b);
    bool ok = false;
    try
    {
        c >> *v;
        ok = true;
    }
    catch (std::exception const&) { cover("refused"); }
    check(b->head == h && b->tail >= t && b->tail <= h, "U02: decoding stays within what was received");
    if (ok) { cover("accepted"); check(b->tail >= t + least, "U02: nothing is decoded from nothing"); }
    delete v;
}
HARNESS(h_dec_boolean, "props=U02;covers=refused,accepted;time=300") { decode<Boolean>(1); }
HARNESS(h_dec_sbyte, "props=U02;covers=refused,accepted;time=300") { decode<SByte>(1); }
HARNESS(h_dec_byte, "props=U02;covers=refused,accepted;time=300") { decode<Byte>(1); }
HARNESS(h_dec_int16, "props=U02;covers=refused,accepted;time=300") { decode<Int16>(2); }
HARNESS(h_dec_uint16, "props=U02;covers=refused,accepted;time=300") { decode<UInt16>(2); }
HARNESS(h_dec_int32, "props=U02;covers=refused,accepted;time=300") { decode<Int32>(4); }
HARNESS(h_dec_uint32, "props=U02;covers=refused,accepted;time=300") { decode<UInt32>(4); }
HARNESS(h_dec_int64, "props=U02;covers=refused,accepted;time=300") { decode<Int64>(8); }
HARNESS(h_dec_uint64, "props=U02;covers=refused,accepted;time=300") { decode<UInt64>(8); }
HARNESS(h_dec_float, "props=U02;covers=refused,accepted;time=300") { decode<Float>(4); }
HARNESS(h_dec_double, "props=U02;covers=refused,accepted;time=300") { decode<Double>(8); }
HARNESS(h_dec_datetime, "props=U02;covers=refused,accepted;time=300") { decode<DateTime>(8); }
HARNESS(h_dec_statuscode, "props=U02;covers=refused,accepted;time=300") { decode<StatusCode>(4); }
HARNESS(h_dec_guid, "props=U02;covers=refused,accepted;time=300") { decode<Guid>(16); }
HARNESS(h_dec_securityheader, "props=U02;uses=c_dec_string,c_dec_bytestring;covers=refused,accepted;time=300") { decode<UaSecurityHeader>(12); }
HARNESS(h_dec_tokenheader, "props=U02;covers=refused,accepted;time=300") { decode<UaSecurityTokenHeader>(4); }
HARNESS(h_dec_sequenceheader, "props=U02;covers=refused,accepted;time=300") { decode<UaSequenceHeader>(8); }
HARNESS(h_dec_messageheader, "props=U02;covers=refused,accepted;time=300") { decode<MessageHeader>(8); }
HARNESS(h_dec_uamessageheader, "props=U02;covers=refused,accepted;time=300") { decode<UaMessageHeader>(12); }
HARNESS(h_dec_hello, "props=U02;uses=c_dec_string,c_dec_bytestring;covers=refused,accepted;time=300") { decode<HelloMessage>(24); }
HARNESS(h_dec_acknowledge, "props=U02;covers=refused,accepted;time=300") { decode<AcknowledgeMessage>(20); }
HARNESS(h_dec_error, "props=U02;uses=c_dec_string,c_dec_bytestring;covers=refused,accepted;time=300") { decode<ErrorMessage>(8); }
HARNESS(h_dec_reversehello, "props=U02;uses=c_dec_string,c_dec_bytestring;covers=refused,accepted;time=300") { decode<ReverseHelloMessage>(8); }
HARNESS(h_dec_nodeid, "props=U02;uses=c_dec_string,c_dec_bytestring;covers=refused,accepted;time=300") { decode<NodeId>(2); }
HARNESS(h_dec_expandednodeid, "props=U02;uses=c_dec_string,c_dec_bytestring,c_dec_nodeid;covers=refused,accepted;time=300") { decode<ExpandedNodeId>(2); }
HARNESS(h_dec_extensionobject, "props=U02;uses=c_dec_string,c_dec_bytestring,c_dec_nodeid;covers=refused,accepted;time=300") { decode<ExtensionObject>(3); }
HARNESS(h_dec_localizedtext, "props=U02;uses=c_dec_string,c_dec_bytestring;covers=refused,accepted;time=300") { decode<LocalizedText>(1); }
HARNESS(h_dec_qualifiedname, "props=U02;uses=c_dec_string,c_dec_bytestring;covers=refused,accepted;time=300") { decode<QualifiedName>(6); }
HARNESS(h_dec_diagnosticinfo, "props=U02;uses=c_dec_string,c_dec_bytestring,c_dec_diagnosticptr;covers=refused,accepted;time=300") { decode<DiagnosticInfo>(1); }
HARNESS(h_dec_diagnosticptr, "props=U02;uses=c_dec_diagnosticinfo;covers=refused,accepted;time=300") { decode<Ptr<DiagnosticInfo>>(1); }
HARNESS(h_dec_variant, "props=U02;uses=c_dec_string,c_dec_bytestring,c_dec_nodeid,c_dec_expandednodeid,c_dec_extensionobject,c_dec_localizedtext,c_dec_vec_byte,c_dec_vec_string,c_dec_vec_statuscode,c_dec_vec_boolean,c_dec_vec_sbyte,c_dec_vec_int16,c_dec_vec_uint16,c_dec_vec_int32,c_dec_vec_uint32,c_dec_vec_int64,c_dec_vec_uint64,c_dec_vec_float,c_dec_vec_double,c_dec_vec_datetime,c_dec_vec_guid,c_dec_vec_bytestring,c_dec_vec_nodeid,c_dec_vec_expandednodeid,c_dec_vec_qualifiedname,c_dec_vec_localizedtext,c_dec_vec_extensionobject;covers=refused,accepted;time=300") { decode<Variant>(1); }
HARNESS(h_dec_datavalue, "props=U02;uses=c_dec_variant;covers=refused,accepted;time=300") { decode<DataValue>(1); }
HARNESS(h_dec_requestheader, "props=U02;uses=c_dec_string,c_dec_bytestring,c_dec_nodeid,c_dec_extensionobject;covers=refused,accepted;time=300") { decode<UaRequestHeader>(29); }
HARNESS(h_dec_responseheader, "props=U02;uses=c_dec_string,c_dec_bytestring,c_dec_diagnosticinfo,c_dec_vec_string,c_dec_extensionobject;covers=refused,accepted;time=300") { decode<UaResponseHeader>(24); }
HARNESS(h_dec_application, "props=U02;uses=c_dec_string,c_dec_bytestring,c_dec_localizedtext,c_dec_vec_string;covers=refused,accepted;time=300") { decode<UaApplicationDescription>(25); }
HARNESS(h_dec_tokenpolicy, "props=U02;uses=c_dec_string,c_dec_bytestring;covers=refused,accepted;time=300") { decode<UaUserTokenPolicy>(20); }
HARNESS(h_dec_endpoint, "props=U02;uses=c_dec_string,c_dec_bytestring,c_dec_application,c_dec_vec_uausertokenpolicy;covers=refused,accepted;time=300") { decode<UaEndpointDescription>(42); }
HARNESS(h_dec_signature, "props=U02;uses=c_dec_string,c_dec_bytestring;covers=refused,accepted;time=300") { decode<UaSignatureData>(8); }
HARNESS(h_dec_securitytoken, "props=U02;covers=refused,accepted;time=300") { decode<UaChannelSecurityToken>(20); }
HARNESS(h_dec_readvalueid, "props=U02;uses=c_dec_string,c_dec_bytestring,c_dec_nodeid;covers=refused,accepted;time=300") { decode<ReadValueId>(14); }
HARNESS(h_dec_openreq, "props=U02;uses=c_dec_string,c_dec_bytestring,c_dec_requestheader;covers=refused,accepted;time=300") { decode<UaOpenSecureChannelReq>(49); }
HARNESS(h_dec_openreq_msg, "props=U02;uses=c_dec_string,c_dec_bytestring,c_dec_requestheader,c_dec_expandednodeid;covers=refused,accepted;time=300") { decode<UaOpenSecureChannelReqCont>(51); }
HARNESS(h_dec_openrsp, "props=U02;uses=c_dec_string,c_dec_bytestring,c_dec_responseheader;covers=refused,accepted;time=300") { decode<UaOpenSecureChannelRsp>(52); }
HARNESS(h_dec_openrsp_msg, "props=U02;uses=c_dec_string,c_dec_bytestring,c_dec_responseheader,c_dec_expandednodeid;covers=refused,accepted;time=300") { decode<UaOpenSecureChannelRspCont>(54); }
HARNESS(h_dec_closereq, "props=U02;uses=c_dec_requestheader;covers=refused,accepted;time=300") { decode<UaCloseSecureChannelReq>(29); }
HARNESS(h_dec_closereq_msg, "props=U02;uses=c_dec_requestheader,c_dec_expandednodeid;covers=refused,accepted;time=300") { decode<UaCloseSecureChannelReqCont>(31); }
HARNESS(h_dec_closersp, "props=U02;uses=c_dec_responseheader;covers=refused,accepted;time=300") { decode<UaCloseSecureChannelRsp>(24); }
HARNESS(h_dec_closersp_msg, "props=U02;uses=c_dec_responseheader,c_dec_expandednodeid;covers=refused,accepted;time=300") { decode<UaCloseSecureChannelRspCont>(26); }
HARNESS(h_dec_getendpointsreq, "props=U02;uses=c_dec_string,c_dec_bytestring,c_dec_requestheader,c_dec_vec_string;covers=refused,accepted;time=300") { decode<UaGetEndpointsReq>(41); }
HARNESS(h_dec_getendpointsreq_msg, "props=U02;uses=c_dec_string,c_dec_bytestring,c_dec_requestheader,c_dec_vec_string,c_dec_expandednodeid;covers=refused,accepted;time=300") { decode<UaGetEndpointsReqCont>(43); }
HARNESS(h_dec_getendpointsrsp, "props=U02;uses=c_dec_responseheader,c_dec_vec_uaendpointdescription;covers=refused,accepted;time=300") { decode<UaGetEndpointsRsp>(28); }
HARNESS(h_dec_getendpointsrsp_msg, "props=U02;uses=c_dec_responseheader,c_dec_vec_uaendpointdescription,c_dec_expandednodeid;covers=refused,accepted;time=300") { decode<UaGetEndpointsRspCont>(30); }
HARNESS(h_dec_createreq, "props=U02;uses=c_dec_string,c_dec_bytestring,c_dec_requestheader,c_dec_application;covers=refused,accepted;time=300") { decode<UaCreateSessionReq>(86); }
HARNESS(h_dec_createreq_msg, "props=U02;uses=c_dec_string,c_dec_bytestring,c_dec_requestheader,c_dec_application,c_dec_expandednodeid;covers=refused,accepted;time=300") { decode<UaCreateSessionReqCont>(88); }
HARNESS(h_dec_creatersp, "props=U02;uses=c_dec_string,c_dec_bytestring,c_dec_responseheader,c_dec_nodeid,c_dec_vec_byte,c_dec_vec_uaendpointdescription;covers=refused,accepted;time=300") { decode<UaCreateSessionRsp>(64); }
HARNESS(h_dec_creatersp_msg, "props=U02;uses=c_dec_string,c_dec_bytestring,c_dec_responseheader,c_dec_nodeid,c_dec_vec_byte,c_dec_vec_uaendpointdescription,c_dec_expandednodeid;covers=refused,accepted;time=300") { decode<UaCreateSessionRspCont>(66); }
HARNESS(h_dec_activatereq, "props=U02;uses=c_dec_string,c_dec_bytestring,c_dec_requestheader,c_dec_vec_byte,c_dec_vec_string,c_dec_extensionobject;covers=refused,accepted;time=300") { decode<UaActivateSessionReq>(56); }
HARNESS(h_dec_activatereq_msg, "props=U02;uses=c_dec_string,c_dec_bytestring,c_dec_requestheader,c_dec_vec_byte,c_dec_vec_string,c_dec_extensionobject,c_dec_expandednodeid;covers=refused,accepted;time=300") { decode<UaActivateSessionReqCont>(58); }
HARNESS(h_dec_activatersp, "props=U02;uses=c_dec_string,c_dec_bytestring,c_dec_responseheader,c_dec_vec_statuscode,c_dec_vec_diagnosticinfo;covers=refused,accepted;time=300") { decode<UaActivateSessionRsp>(36); }
HARNESS(h_dec_activatersp_msg, "props=U02;uses=c_dec_string,c_dec_bytestring,c_dec_responseheader,c_dec_vec_statuscode,c_dec_vec_diagnosticinfo,c_dec_expandednodeid;covers=refused,accepted;time=300") { decode<UaActivateSessionRspCont>(38); }
HARNESS(h_dec_closesessionreq, "props=U02;uses=c_dec_requestheader;covers=refused,accepted;time=300") { decode<UaCloseSessionReq>(30); }
HARNESS(h_dec_closesessionreq_msg, "props=U02;uses=c_dec_requestheader,c_dec_expandednodeid;covers=refused,accepted;time=300") { decode<UaCloseSessionReqCont>(32); }
HARNESS(h_dec_closesessionrsp, "props=U02;uses=c_dec_responseheader;covers=refused,accepted;time=300") { decode<UaCloseSessionRsp>(24); }
HARNESS(h_dec_closesessionrsp_msg, "props=U02;uses=c_dec_responseheader,c_dec_expandednodeid;covers=refused,accepted;time=300") { decode<UaCloseSessionRspCont>(26); }
HARNESS(h_dec_readreq, "props=U02;uses=c_dec_string,c_dec_bytestring,c_dec_requestheader,c_dec_vec_readvalueid;covers=refused,accepted;time=300") { decode<UaReadReq>(45); }
HARNESS(h_dec_readreq_msg, "props=U02;uses=c_dec_string,c_dec_bytestring,c_dec_requestheader,c_dec_vec_readvalueid,c_dec_expandednodeid;covers=refused,accepted;time=300") { decode<UaReadReqCont>(47); }
HARNESS(h_dec_readrsp, "props=U02;uses=c_dec_responseheader,c_dec_vec_datavalue,c_dec_vec_diagnosticinfo;covers=refused,accepted;time=300") { decode<UaReadRsp>(32); }
HARNESS(h_dec_readrsp_msg, "props=U02;uses=c_dec_responseheader,c_dec_vec_datavalue,c_dec_vec_diagnosticinfo,c_dec_expandednodeid;covers=refused,accepted;time=300") { decode<UaReadRspCont>(34); }

// arrays: the loop is unrolled up to the bound; longer arrays that were not received are refused
template <typename T> static void decodeArray(unsigned bound, unsigned least)
{
    OpcUaSduBuffer* b = received();
    unsigned h = b->head, t = b->tail, r = h - t;
    uint32_t n = 0;
    if (r >= 4)
    {
        for (unsigned i = 0; i < 4; ++i) n |= uint32_t(b->packet[t + i]) << (8 * i);
        assume(n <= bound || n > 4092);
    }
    auto* v = new DynamicArray<T>();
    v->resize(1);
    OpcUaBinaryCodec c(*b);
    bool ok = false;
    try
    {
        c >> *v;
        ok = true;
    }
    catch (std::exception const&) { cover("refused"); }
    check(b->head == h && b->tail >= t && b->tail <= h, "U02: decoding stays within what was received");
    if (n > 4092 && !(n >> 31)) check(!ok, "U02: an array that was not received is refused");
    if (ok)
    {
        cover("accepted");
        check(v->size() == (n >> 31 ? 0 : n), "U02: an array has the length received");
        check(b->tail >= t + 4 + (n >> 31 ? 0 : n * least), "U02: nothing is decoded from nothing");
    }
    delete v;
}
#define ARRAY(name, T, least, uses) \
HARNESS(h_dec_vec_##name, "bound=up to 3 elements;props=U02;covers=refused,accepted;time=300;uses=" uses) { decodeArray<T>(3, least); } \
HARNESS(h_dec_vec2_##name, "bound=up to 12 elements;props=U02;covers=refused,accepted;time=900;tier=thorough;uses=" uses) { decodeArray<T>(12, least); }
// arrays of numbers: the loop is decided by an invariant, for every length
#define NUMBERS(name, T, least, uses) \
HARNESS(h_dec_vec_##name, "props=U02;covers=refused,accepted;time=300;loops=4!;cost=9;instead=h_dec_vec_few_" #name) { decodeArray<T>(4096, least); } \
HARNESS(h_dec_vec_few_##name, "standin=1;bound=up to 3 elements;props=U02;covers=refused,accepted;time=300") { decodeArray<T>(3, least); }
NUMBERS(byte, Byte, 1, "")
ARRAY(string, String, 4, "c_dec_string")
ARRAY(diagnosticinfo, DiagnosticInfo, 1, "c_dec_diagnosticinfo")
ARRAY(uaendpointdescription, UaEndpointDescription, 42, "c_dec_endpoint")
ARRAY(uausertokenpolicy, UaUserTokenPolicy, 20, "c_dec_string,c_dec_bytestring")
ARRAY(datavalue, DataValue, 1, "c_dec_datavalue")
ARRAY(readvalueid, ReadValueId, 14, "c_dec_readvalueid")
NUMBERS(statuscode, StatusCode, 4, "")
ARRAY(boolean, Boolean, 1, "")
NUMBERS(sbyte, SByte, 1, "")
NUMBERS(int16, Int16, 2, "")
NUMBERS(uint16, UInt16, 2, "")
NUMBERS(int32, Int32, 4, "")
NUMBERS(uint32, UInt32, 4, "")
NUMBERS(int64, Int64, 8, "")
NUMBERS(uint64, UInt64, 8, "")
NUMBERS(float, Float, 4, "")
NUMBERS(double, Double, 8, "")
NUMBERS(datetime, DateTime, 8, "")
ARRAY(guid, Guid, 16, "")
ARRAY(bytestring, ByteString, 4, "c_dec_bytestring")
ARRAY(nodeid, NodeId, 2, "c_dec_nodeid")
ARRAY(expandednodeid, ExpandedNodeId, 2, "c_dec_expandednodeid")
ARRAY(qualifiedname, QualifiedName, 6, "c_dec_string")
ARRAY(localizedtext, LocalizedText, 1, "c_dec_localizedtext")
ARRAY(extensionobject, ExtensionObject, 3, "c_dec_extensionobject")

// a text: the length received decides; every length there can be
template <typename T> static void decodeText(uint32_t from, uint32_t to)
{
    OpcUaSduBuffer* b = received();
    unsigned h = b->head, t = b->tail, r = h - t;
    uint32_t len = 0;
    if (r >= 4)
    {
        for (unsigned i = 0; i < 4; ++i) len |= uint32_t(b->packet[t + i]) << (8 * i);
        assume((len >= from && len <= to) || len > 4092);
    }
    unsigned j = nondet<unsigned>("j");
    T* v = new T();
    v->resize(3);
    OpcUaBinaryCodec c(*b);
    bool ok = false;
    try
    {
        c >> *v;
        ok = true;
    }
    catch (std::exception const&) { cover("refused"); }
    bool null = len == 0xFFFFFFFF;
    check(ok == (r >= 4 && (null || len <= r - 4)), "U02: a text is accepted just when all of it was received");
    check(b->head == h && b->tail >= t && b->tail <= h, "U02: decoding stays within what was received");
    if (ok)
    {
        cover("accepted");
        check(v->val.size() == (null ? 0 : len), "U02: a text has the length received");
        check(b->tail == t + 4 + v->val.size(), "U02: a text takes its length and itself");
        if (j < v->val.size()) check(static_cast<uint8_t>(v->val[j]) == b->packet[t + 4 + j], "U02: a text is read as received");
    }
    delete v;
}
HARNESS(h_dec_string, "props=U02;covers=refused,accepted;time=300;loops=4!;cost=9;instead=h_dec_string_short+h_dec_string_long") { decodeText<String>(0, 4096); }
HARNESS(h_dec_string_short, "standin=1;bound=lengths up to 24 octets;props=U02;covers=refused,accepted;time=600") { decodeText<String>(0, 24); }
HARNESS(h_dec_bytestring, "props=U02;covers=refused,accepted;time=300;loops=4!;cost=9;instead=h_dec_bytestring_short+h_dec_bytestring_long") { decodeText<ByteString>(0, 4096); }
HARNESS(h_dec_bytestring_short, "standin=1;bound=lengths up to 24 octets;props=U02;covers=refused,accepted;time=600") { decodeText<ByteString>(0, 24); }

// stand-in for longer texts, should the loop be out of reach of an invariant
template <typename T> static void decodeLong(uint32_t len)
{
    auto* b = new OpcUaSduBuffer();
    __v_bytes(&b->packet[0], 4096, "sdu");
    b->head = nondet<unsigned>("head");
    assume(b->head >= 4 && b->head <= 4096);
    b->tail = 0;
    for (unsigned i = 0; i < 4; ++i) b->packet[i] = uint8_t(len >> (8 * i));
    unsigned h = b->head;
    T* v = new T();
    OpcUaBinaryCodec c(*b);
    bool ok = false;
    try
    {
        c >> *v;
        ok = true;
    }
    catch (std::exception const&) { cover("refused"); }
    check(ok == (len <= h - 4), "U02: a text is accepted just when all of it was received");
    check(b->head == h && b->tail <= h, "U02: decoding stays within what was received");
    if (ok)
    {
        cover("accepted");
        check(v->val.size() == len, "U02: a text has the length received");
        check(b->tail == 4 + len, "U02: a text takes its length and itself");
        for (unsigned i = 0; i < len; ++i) if (static_cast<uint8_t>(v->val[i]) != b->packet[4 + i]) check(false, "U02: a text is read as received");
    }
    delete v;
}
static uint32_t const lengths[] = {127, 128, 255, 256, 257, 1000, 4091, 4092};
HARNESS(h_dec_string_long, "standin=1;bound=8 lengths up to the buffer;props=U02;covers=refused,accepted;time=600;cases=8;cost=9") { decodeLong<String>(lengths[vcase(8)]); }
HARNESS(h_dec_bytestring_long, "standin=1;bound=8 lengths up to the buffer;props=U02;covers=refused,accepted;time=600;cases=8;cost=9") { decodeLong<ByteString>(lengths[vcase(8)]); }
