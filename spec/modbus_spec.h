// Functional specification of the Modbus/TCP application data unit, independent of the codec: what bytes a
// request or response is on the wire, and which ones are acceptable.  The codec is proved against it; the
// proofs of the client and of the server session use it in place of the codec's body.
#pragma once
#include "ModbusCodec.hpp"

namespace spec
{
using namespace app;
using namespace app::modbus;

inline unsigned be(unsigned char const* p) { return (static_cast<unsigned>(p[0]) << 8) | p[1]; }

// register data: `data` holds each 16-bit item low byte first, the wire high byte first
inline bool request_ok(AduRequest const& a)
{
    unsigned f = static_cast<unsigned>(a.func);
    if (a.addr > 247) return false;
    if (f == 1 || f == 2) return 1u + 1u + (a.numItems + 7u) / 8u <= 253u;
    if (f == 3 || f == 4) return 1u + 1u + a.numItems * 2u <= 253u;
    if (f == 5) return a.numItems == 0 && a.numBytes == 2 && a.data[0] == 0 && (a.data[1] == 0 || a.data[1] == 0xff);
    if (f == 6) return a.numItems == 0 && a.numBytes == 2;
    if (f == 16) return a.numBytes == a.numItems * 2u && 13u + a.numBytes <= 260u;
    return false;
}
inline unsigned request_len(AduRequest const& a)
{
    return static_cast<unsigned>(a.func) == 16 ? 13u + a.numBytes : 12u;
}
// the 12 or 13 leading bytes; true if byte i of the frame is `v` (i below request_len)
inline unsigned request_head(AduRequest const& a, unsigned i)
{
    unsigned f = static_cast<unsigned>(a.func);
    unsigned pl = request_len(a) - 6;
    switch (i)
    {
    case 0: return (a.transactId >> 8) & 0xff;
    case 1: return a.transactId & 0xff;
    case 2: return 0;
    case 3: return 0;
    case 4: return (pl >> 8) & 0xff;
    case 5: return pl & 0xff;
    case 6: return a.addr & 0xff;
    case 7: return f;
    case 8: return (a.startItem >> 8) & 0xff;
    case 9: return a.startItem & 0xff;
    case 10: return (f == 5 || f == 6) ? a.data[1] : (a.numItems >> 8) & 0xff;
    case 11: return (f == 5 || f == 6) ? a.data[0] : a.numItems & 0xff;
    default: return a.numBytes & 0xff;
    }
}
// w: a complete frame of n bytes whose length field is consistent (6 <= n < 260)
inline bool request_frame_ok(unsigned char const* w, unsigned n)
{
    if (n < 12 || be(w + 2) != 0 || w[6] > 247) return false;
    unsigned f = w[7];
    if (f == 1 || f == 2) return n == 12 && 2u + (be(w + 10) + 7u) / 8u <= 253u;
    if (f == 3 || f == 4) return n == 12 && 2u + be(w + 10) * 2u <= 253u;
    if (f == 5 || f == 6) return n == 12;
    if (f == 16) return n >= 13 && w[12] == be(w + 10) * 2u && n == 13u + w[12];
    return false;
}

inline bool response_ok(AduRespond const& a)
{
    unsigned f = static_cast<unsigned>(a.func);
    if (f == 0x8f || f == 16) return true;
    if (f == 3 || f == 4) return a.numBytes % 2 == 0 && 9u + a.numBytes <= 260u;
    if (f == 5) return a.numBytes == 2 && a.data[0] == 0 && (a.data[1] == 0 || a.data[1] == 0xff);
    if (f == 6) return a.numBytes == 2;
    return false;
}
inline unsigned response_len(AduRespond const& a)
{
    unsigned f = static_cast<unsigned>(a.func);
    if (f == 0x8f) return 9;
    if (f == 3 || f == 4) return 9u + a.numBytes;
    return 12;
}
inline unsigned response_head(AduRespond const& a, unsigned i)
{
    unsigned f = static_cast<unsigned>(a.func);
    unsigned pl = response_len(a) - 6;
    switch (i)
    {
    case 0: return (a.transactId >> 8) & 0xff;
    case 1: return a.transactId & 0xff;
    case 2: return 0;
    case 3: return 0;
    case 4: return (pl >> 8) & 0xff;
    case 5: return pl & 0xff;
    case 6: return a.addr & 0xff;
    case 7: return f;
    case 8: return f == 0x8f ? static_cast<unsigned>(a.error) : (f == 3 || f == 4) ? (a.numBytes & 0xffu) : (a.startItem >> 8) & 0xff;
    case 9: return a.startItem & 0xff;
    case 10: return f == 16 ? (a.numItems >> 8) & 0xff : a.data[1];
    default: return f == 16 ? a.numItems & 0xff : a.data[0];
    }
}
inline bool response_frame_ok(unsigned char const* w, unsigned n)
{
    if (n < 9 || be(w + 2) != 0) return false;
    unsigned f = w[7];
    if (f == 0x8f) return n == 9;
    if (f == 3 || f == 4) return w[8] % 2 == 0 && n == 9u + w[8];
    if (f == 5 || f == 6 || f == 16) return n == 12;
    return false;
}
}
