// Contracts of app::modbus::ModbusCodec and PduBuffer, proved on their bodies for every request, response
// and received frame.
// SOURCES: modbus/ModbusCodec.cpp
#include "verif.h"
#include "modbus_spec.h"
using namespace app;
using namespace app::modbus;

static void any_request(AduRequest& a)
{
    a.clientId = nondet<EntityId>("clientId");
    a.transactId = nondet<unsigned>("transactId");
    a.func = static_cast<ModbusFunction>(nondet<uint8_t>("func"));
    a.addr = nondet<uint16_t>("addr");
    a.startItem = nondet<uint16_t>("startItem");
    a.numItems = nondet<uint16_t>("numItems");
    a.numBytes = nondet<uint16_t>("numBytes");
    // exactly numBytes bytes of data are readable
    a.data = new uint8_t[a.numBytes];
    __v_bytes(a.data, a.numBytes, "data");
}

HARNESS(h_encode_request, "props=M01;covers=accepted,refused,f1,f3,f5,f6,f16")
{
    PduBuffer buf;
    AduRequest a;
    any_request(a);
    ModbusCodec codec(buf);
    bool ok = codec.encode(a);
    check(ok == spec::request_ok(a), "a request is encoded exactly when it is well formed");
    if (!ok) { cover("refused"); return; }
    cover("accepted");
    unsigned f = static_cast<unsigned>(a.func);
    if (f == 1 || f == 2) cover("f1");
    if (f == 3 || f == 4) cover("f3");
    if (f == 5) cover("f5");
    if (f == 6) cover("f6");
    if (f == 16) cover("f16");
    unsigned n = split(buf.size());
    check(n == spec::request_len(a), "frame length");
    check(n <= 260, "frame not longer than the Modbus maximum");
    unsigned char const* w = const_cast<PduBuffer const&>(buf).begin();
    for (unsigned i = 0; i < n && i < 13; ++i)
    {
        check(w[i] == spec::request_head(a, i), "frame header bytes");
    }
    for (unsigned i = 13; i < n; ++i)
    {
        check(w[i] == a.data[(i - 13) ^ 1], "register data, high byte first");
    }
}

// a received frame: 6 <= n < 260 bytes with a consistent length field (what isAduValid() accepts)
static unsigned any_frame(PduBuffer& buf)
{
    unsigned n = nondet<unsigned>("n");
    assume(n >= 6 && n < 260);
    __v_bytes(buf.begin(), 512, "wire");
    buf.seek(n);
    assume(spec::be(buf.begin() + 4) + 6 == n);
    return n;
}

HARNESS(h_decode_request, "props=M02;covers=accepted,refused,f1,f3,f5,f16")
{
    PduBuffer buf;
    unsigned n = any_frame(buf);
    unsigned char const* w = const_cast<PduBuffer const&>(buf).begin();
    uint8_t data[maxAduLen];
    AduRequest a(data);
    // fields of a previously decoded request
    a.numItems = nondet<uint16_t>("oldItems");
    a.numBytes = nondet<uint16_t>("oldBytes");
    ModbusCodec codec(buf);
    bool ok = codec.decode(a);
    check(ok == spec::request_frame_ok(w, n), "a frame is accepted exactly when it is a well formed request");
    if (!ok) { cover("refused"); return; }
    cover("accepted");
    unsigned f = w[7];
    check(a.transactId == spec::be(w), "transaction id");
    check(a.addr == w[6], "unit address");
    check(static_cast<unsigned>(a.func) == f, "function code");
    check(a.startItem == spec::be(w + 8), "start item");
    if (f == 5 || f == 6)
    {
        cover("f5");
        check(a.numItems == 0 && a.numBytes == 2, "single write counts");
        check(a.data[1] == w[10] && a.data[0] == w[11], "single write value");
    }
    else
    {
        check(a.numItems == spec::be(w + 10), "number of items");
        if (f == 16)
        {
            cover("f16");
            unsigned m = split(static_cast<unsigned>(a.numBytes));
            check(m == w[12], "number of bytes");
            for (unsigned i = 0; i < m; ++i) check(a.data[i] == w[13 + (i ^ 1)], "register data, low byte first");
        }
        else
        {
            if (f <= 2) cover("f1"); else cover("f3");
            check(a.numBytes == 0, "a read request carries no data");
        }
    }
}

HARNESS(h_encode_response, "props=M03;covers=accepted,refused,error,read,single,multi")
{
    PduBuffer buf;
    AduRespond a;
    a.transactId = nondet<unsigned>("transactId");
    a.func = static_cast<ModbusFunction>(nondet<uint8_t>("func"));
    a.addr = nondet<uint16_t>("addr");
    a.error = static_cast<ModbusError>(nondet<uint8_t>("error"));
    a.startItem = nondet<uint16_t>("startItem");
    a.numItems = nondet<uint16_t>("numItems");
    a.numBytes = nondet<uint16_t>("numBytes");
    __v_bytes(a.data, sizeof a.data, "data");
    unsigned e = static_cast<unsigned>(a.error);
    ModbusCodec codec(buf);
    bool ok = codec.encode(a);
    check(ok == spec::response_ok(a), "a response is encoded exactly when it is well formed");
    if (!ok) { cover("refused"); return; }
    cover("accepted");
    unsigned f = static_cast<unsigned>(a.func);
    if (f == 0x8f) cover("error");
    if (f == 3 || f == 4) cover("read");
    if (f == 5 || f == 6) cover("single");
    if (f == 16) cover("multi");
    unsigned n = split(buf.size());
    check(n == spec::response_len(a), "frame length");
    check(n <= 260, "frame not longer than the Modbus maximum");
    unsigned char const* w = const_cast<PduBuffer const&>(buf).begin();
    for (unsigned i = 0; i < n && i < ((f == 3 || f == 4) ? 9u : 12u); ++i)
    {
        if (f == 0x8f && i == 8)
        {
            // the defined exception codes go out unchanged, anything else as an unexpected-error code
            bool known = e <= 8 || e == 10 || e == 11 || e == 255;
            check(w[8] == (known ? e : 255u), "exception code");
        }
        else check(w[i] == spec::response_head(a, i), "frame header bytes");
    }
    if (f == 3 || f == 4)
    {
        for (unsigned i = 9; i < n; ++i) check(w[i] == a.data[(i - 9) ^ 1], "register data, high byte first");
    }
}

HARNESS(h_decode_response, "props=M03;covers=accepted,refused,error,read,single,multi")
{
    PduBuffer buf;
    unsigned n = any_frame(buf);
    unsigned char const* w = const_cast<PduBuffer const&>(buf).begin();
    AduRespond a;
    ModbusCodec codec(buf);
    bool ok = codec.decode(a);
    check(ok == spec::response_frame_ok(w, n), "a frame is accepted exactly when it is a well formed response");
    if (!ok) { cover("refused"); return; }
    cover("accepted");
    unsigned f = w[7];
    check(a.transactId == spec::be(w), "transaction id");
    check(a.addr == w[6], "unit address");
    check(static_cast<unsigned>(a.func) == f, "function code");
    if (f == 0x8f) { cover("error"); check(static_cast<unsigned>(a.error) == w[8], "exception code"); }
    else if (f == 3 || f == 4)
    {
        cover("read");
        unsigned m = split(static_cast<unsigned>(a.numBytes));
        check(m == w[8], "number of bytes");
        for (unsigned i = 0; i < m; ++i) check(a.data[i] == w[9 + (i ^ 1)], "register data, low byte first");
    }
    else
    {
        check(a.startItem == spec::be(w + 8), "start item");
        if (f == 16) { cover("multi"); check(a.numItems == spec::be(w + 10), "number of items"); }
        else
        {
            cover("single");
            check(a.numBytes == 2 && a.data[1] == w[10] && a.data[0] == w[11], "single write value");
        }
    }
}

// Framing decision: for every buffer content
HARNESS(h_framing, "props=M04;covers=complete,partial,invalid")
{
    PduBuffer buf;
    unsigned n = nondet<unsigned>("n");
    assume(n <= 512);
    __v_bytes(buf.begin(), 512, "wire");
    buf.seek(n);
    unsigned char const* w = const_cast<PduBuffer const&>(buf).begin();
    ModbusCodec codec(buf);
    unsigned total = spec::be(w + 4) + 6;
    check(codec.isAduHdrReceived() == (n >= 6), "header received once six bytes are there");
    if (n >= 6)
    {
        check(codec.isAduDataLenValid() == (total < 260), "announced length accepted exactly below the maximum");
        check(codec.isAduReceived() == (n >= total), "frame complete exactly when all announced bytes are there");
        check(codec.isAduValid() == (n == total && n < 260), "frame valid exactly when it fills the announced length");
        if (n == total && n < 260) cover("complete");
        if (n < total) cover("partial");
        if (total >= 260) cover("invalid");
    }
    check(buf.size() == n, "framing decisions consume nothing");
}
