// Contracts of the codec and of the pending-request storage, used in place of their bodies by the proofs of
// the client and the session.  Each is proved on the body by the harness named in it.
#pragma once
#include "verif.h"
#include "modbus_spec.h"
#include <string>

CONTRACT("app::modbus::PduBuffer::toString[abi:cxx11]()", "trusted=debug text for the log, three characters per byte; the longest text stands for all")
std::string c_pdu_toString(app::modbus::PduBuffer*) { return std::string(3 * 512, ':'); }

CONTRACT("app::modbus::ModbusCodec::encode(app::modbus::AduRequest const&)", "proved=h_encode_request")
bool c_encode_request(app::modbus::ModbusCodec* self, app::modbus::AduRequest const& a)
{
    auto& buf = self->buf;
    check(buf.size() == 0, "request is encoded into an empty buffer");
    if (!spec::request_ok(a)) return false;
    unsigned n = spec::request_len(a);
    unsigned char* w = buf.begin();
    for (unsigned i = 0; i < 12; ++i) w[i] = spec::request_head(a, i);
    if (n > 12)
    {
        w[12] = spec::request_head(a, 12);
        __v_copy_swap(w + 13, a.data, n - 13);
    }
    buf.seek(n);
    return true;
}

CONTRACT("app::modbus::ModbusCodec::decode(app::modbus::AduRequest&)", "proved=h_decode_request")
bool c_decode_request(app::modbus::ModbusCodec* self, app::modbus::AduRequest& a)
{
    auto& buf = self->buf;
    unsigned char const* w = const_cast<app::modbus::PduBuffer const&>(buf).begin();
    unsigned n = buf.size();
    check(n >= 6 && n < 260 && spec::be(w + 4) + 6 == n, "only complete frames are decoded");
    if (!spec::request_frame_ok(w, n))
    {
        // a refused frame leaves anything in the request
        uint8_t* d = a.data;
        __v_havoc(&a, sizeof a);
        a.data = d;
        return false;
    }
    unsigned f = w[7];
    a.transactId = spec::be(w);
    a.addr = w[6];
    a.func = static_cast<app::ModbusFunction>(f);
    a.startItem = spec::be(w + 8);
    if (f == 5 || f == 6)
    {
        a.numItems = 0;
        a.numBytes = 2;
        __v_copy_swap(a.data, w + 10, 2);
    }
    else
    {
        a.numItems = spec::be(w + 10);
        a.numBytes = f == 16 ? w[12] : 0;
        if (f == 16) __v_copy_swap(a.data, w + 13, a.numBytes);
    }
    return true;
}

CONTRACT("app::modbus::ModbusCodec::encode(app::modbus::AduRespond const&)", "proved=h_encode_response")
bool c_encode_response(app::modbus::ModbusCodec* self, app::modbus::AduRespond const& a)
{
    auto& buf = self->buf;
    check(buf.size() == 0, "response is encoded into an empty buffer");
    if (!spec::response_ok(a)) return false;
    unsigned n = spec::response_len(a);
    unsigned f = static_cast<unsigned>(a.func);
    unsigned char* w = buf.begin();
    for (unsigned i = 0; i < 9; ++i) w[i] = spec::response_head(a, i);
    if (f == 0x8f)
    {
        unsigned e = static_cast<unsigned>(a.error);
        w[8] = (e <= 8 || e == 10 || e == 11 || e == 255) ? e : 255u;
    }
    else if (f == 3 || f == 4) __v_copy_swap(w + 9, a.data, a.numBytes);
    else for (unsigned i = 9; i < 12; ++i) w[i] = spec::response_head(a, i);
    buf.seek(n);
    return true;
}

CONTRACT("app::modbus::ModbusCodec::decode(app::modbus::AduRespond&)", "proved=h_decode_response")
bool c_decode_response(app::modbus::ModbusCodec* self, app::modbus::AduRespond& a)
{
    auto& buf = self->buf;
    unsigned char const* w = const_cast<app::modbus::PduBuffer const&>(buf).begin();
    unsigned n = buf.size();
    check(n >= 6 && n < 260 && spec::be(w + 4) + 6 == n, "only complete frames are decoded");
    if (!spec::response_frame_ok(w, n)) { __v_havoc(&a, sizeof a); return false; }
    unsigned f = w[7];
    a.transactId = spec::be(w);
    a.addr = w[6];
    a.func = static_cast<app::ModbusFunction>(f);
    if (f == 0x8f) a.error = static_cast<app::ModbusError>(w[8]);
    else if (f == 3 || f == 4)
    {
        a.numBytes = w[8];
        __v_copy_swap(a.data, w + 9, a.numBytes);
    }
    else
    {
        a.startItem = spec::be(w + 8);
        if (f == 16) a.numItems = spec::be(w + 10);
        else { a.numBytes = 2; __v_copy_swap(a.data, w + 10, 2); }
    }
    return true;
}
