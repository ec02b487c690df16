// Self test of the verification condition generator: every t_ok_ harness has to be proved, every t_bad_
// harness has to be refuted.
#include "../spec/verif.h"
#include <cstring>
#include <vector>
#include <string>
#include <memory>
#include <functional>
#include <stdexcept>
#include <array>
#include <map>
#include <deque>

static int early = [] { return 41; }();
struct Early { int v; Early() : v(early + 1) {} } early2;

HARNESS(h_ok_ctor, "props=T00") { int a[3] = {early, early2.v, 7}; check(a[0] == 41 && a[1] == 42 && a[2] == 7, "static constructors ran"); }
HARNESS(h_ok_arith, "props=T00")
{
    uint32_t x = nondet<uint32_t>("x"), y = nondet<uint32_t>("y");
    check((x ^ y) + 2 * (x & y) == x + y, "adder");
    uint8_t a = static_cast<uint8_t>(x), b = static_cast<uint8_t>(y);
    if (b) check(static_cast<uint8_t>(a / b * b + a % b) == a, "division");
    int16_t s = nondet<int16_t>("s");
    check((s < 0) == ((static_cast<uint16_t>(s) >> 15) != 0), "sign");
}
HARNESS(h_bad_arith, "props=T00") { uint32_t x = nondet<uint32_t>("x"); check(x + 1 > x, "no overflow"); }
HARNESS(h_bad_div, "props=T00") { int x = nondet<int>("x"); volatile int z = 5 / x; }
HARNESS(h_bad_oob, "props=T00") { int a[4] = {}; unsigned i = nondet<unsigned>("i"); assume(i <= 4); a[i] = 1; }
HARNESS(h_ok_inb, "props=T00") { int a[4] = {}; unsigned i = nondet<unsigned>("i"); assume(i < 4); a[i] = 1; check(a[0] + a[1] + a[2] + a[3] == 1, "one"); }
HARNESS(h_bad_heap, "props=T00") { unsigned n = nondet<unsigned>("n"); assume(n < 100); auto* p = new uint8_t[n]; p[n] = 1; }
HARNESS(h_bad_uaf, "props=T00") { auto* p = new int(3); delete p; check(*p == 3, "x"); }
HARNESS(h_bad_dfree, "props=T00") { auto* p = new int(3); auto* q = p; delete p; delete q; }
HARNESS(h_bad_null, "props=T00") { int* p = nondet_bool("b") ? nullptr : &early; *p = 3; }
HARNESS(h_bad_memcpy, "props=T00") { uint8_t a[16], b[16]; __v_bytes(b, 16, "b"); unsigned n = nondet<unsigned>("n"); assume(n < 18); memcpy(a, b, n); }
HARNESS(h_ok_memcpy, "props=T00")
{
    uint8_t a[64], b[64];
    memset(a, 0x11, 64);
    __v_bytes(b, 64, "b");
    unsigned n = nondet<unsigned>("n"), o = nondet<unsigned>("o"), i = nondet<unsigned>("i");
    assume(n <= 64 && o <= 64 && n + o <= 64 && i < 64);
    memcpy(a + o, b, n);
    check(a[i] == (i >= o && i < o + n ? b[i - o] : 0x11), "copy");
}
HARNESS(h_bad_memcpy2, "props=T00")
{
    uint8_t a[64], b[64];
    memset(a, 0x11, 64);
    __v_bytes(b, 64, "b");
    unsigned n = nondet<unsigned>("n"), i = nondet<unsigned>("i");
    assume(n <= 64 && i < 64);
    memcpy(a, b, n);
    check(a[i] == (i <= n ? b[i] : 0x11), "copy");
}
struct B { virtual ~B() {} virtual int f() const { return 1; } };
struct D : B { int f() const override { return 2; } };
HARNESS(h_ok_virtual, "props=T00") { bool b = nondet_bool("b"); std::unique_ptr<B> p(b ? new D : new B); check(p->f() == (b ? 2 : 1), "dispatch"); }
HARNESS(h_bad_virtual, "props=T00") { bool b = nondet_bool("b"); std::unique_ptr<B> p(b ? new D : new B); check(p->f() == 2, "dispatch"); }
static int thrower(int x) { if (x > 3) throw std::runtime_error("x"); return x; }
HARNESS(h_ok_exc, "props=T00")
{
    int x = nondet<int>("x");
    bool c = false;
    try { thrower(x); } catch (std::exception const&) { c = true; }
    check(c == (x > 3), "caught");
}
HARNESS(h_bad_exc, "props=T00") { thrower(nondet<int>("x")); }
struct Guard { int& r; ~Guard() { ++r; } };
HARNESS(h_ok_unwind, "props=T00") { int n = 0; try { Guard g{n}; thrower(9); } catch (...) { check(n == 1, "destroyed"); ++n; } check(n == 2, "handled"); }
HARNESS(h_bad_noexcept, "props=T00") { auto f = []() noexcept { thrower(9); }; f(); }
HARNESS(h_ok_func, "props=T00") { int n = nondet<int>("n"); std::function<int(int)> f = [n](int a) { return a ^ n; }; check(f(n) == 0, "call"); }
HARNESS(h_ok_vector, "props=T00") { std::vector<int> v; for (int i = 0; i < 9; ++i) v.push_back(i * i); int k = nondet<int>("k"); assume(k >= 0 && k < 9); check(v[k] == k * k, "vector"); }
HARNESS(h_ok_string, "props=T00") { std::string s("abc"); s += "defghijklmnopqrstuvwxyz0123456789"; check(s.size() == 36 && s[3] == 'd' && s == std::string("abcdefghijklmnopqrstuvwxyz0123456789"), "string"); }
HARNESS(h_bad_struct, "props=T00") { struct S { uint8_t a[4]; uint8_t b; } s; unsigned i = nondet<unsigned>("i"); assume(i < 6); memset(&s, 0, sizeof s); (&s.a[0])[i] = 1; check(i < 5, "within"); }
struct Cnt { unsigned v = 0; };
static unsigned stubbed(unsigned x);
HARNESS(h_ok_union, "props=T00") { union { uint32_t w; uint8_t b[4]; } u; u.w = nondet<uint32_t>("w"); check(u.b[0] == (u.w & 0xff) && u.b[3] == u.w >> 24, "little endian"); }
HARNESS(h_ok_float, "props=T00") { float f; uint32_t w = nondet<uint32_t>("w"); memcpy(&f, &w, 4); uint32_t z; memcpy(&z, &f, 4); check(z == w, "bits"); }
HARNESS(h_bad_loop, "props=T00") { unsigned n = nondet<unsigned>("n"); assume(n < 20); unsigned s = 0; for (unsigned i = 0; i < n; ++i) s += i; check(s < 171, "sum"); }
HARNESS(h_ok_loop, "props=T00") { unsigned n = nondet<unsigned>("n"); assume(n < 20); unsigned s = 0; for (unsigned i = 0; i < n; ++i) s += i; check(s <= 171, "sum"); }
HARNESS(h_ok_switch, "props=T00") { unsigned n = nondet<unsigned>("n"), r; switch (n) { case 1: r = 10; break; case 5: r = 50; break; default: r = n * 10; } check(n > 5 || r == n * 10, "switch"); }
HARNESS(h_bad_switch, "props=T00") { unsigned n = nondet<unsigned>("n"), r; switch (n) { case 1: r = 10; break; case 5: r = 51; break; default: r = n * 10; } check(n > 5 || r == n * 10, "switch"); }
HARNESS(h_bad_abort, "props=T00") { std::vector<int> v(3); unsigned i = nondet<unsigned>("i"); assume(i < 4); v.at(i) = 1; }
HARNESS(h_ok_overlap, "props=T00") { uint8_t a[8]; __v_bytes(a, 8, "a"); uint8_t b[8]; memcpy(b, a, 8); memmove(a + 1, a, 7); unsigned i = nondet<unsigned>("i"); assume(i < 7); check(a[i + 1] == b[i], "memmove"); }
HARNESS(h_bad_stale, "props=T00") { static uint8_t g[32]; unsigned i = nondet<unsigned>("i"), j = nondet<unsigned>("j"); assume(i < 32 && j < 32); g[i] = 1; g[j] = 2; check(g[i] == 1, "aliasing"); }
HARNESS(h_ok_stale, "props=T00") { static uint8_t g[32]; unsigned i = nondet<unsigned>("i"), j = nondet<unsigned>("j"); assume(i < 32 && j < 32 && i != j); g[i] = 1; g[j] = 2; check(g[i] == 1, "aliasing"); }

// ---- loops of symbolic length, decided by an invariant
namespace
{
struct Reader
{
    uint8_t packet[4096];
    unsigned head;
    unsigned tail;
    uint8_t read()
    {
        if (tail >= head) throw std::runtime_error("end");
        return packet[tail++];
    }
};
unsigned anyLen(unsigned max)
{
    unsigned n = nondet<unsigned>("n");
    assume(n <= max);
    return n;
}
}
HARNESS(h_ok_loop_copy, "loops=4;time=20")
{
    static uint8_t a[300], b[300];
    __v_bytes(a, 300, "a");
    __v_bytes(b, 300, "b");
    unsigned n = anyLen(300), j = nondet<unsigned>("j");
    assume(j < 300);
    uint8_t old = b[j];
    for (unsigned i = 0; i < n; ++i) b[i] = a[i];
    check(b[j] == (j < n ? a[j] : old), "copied");
}
HARNESS(h_bad_loop_copy, "loops=4;time=20")
{
    static uint8_t a[300], b[300];
    __v_bytes(a, 300, "a");
    unsigned n = anyLen(301);
    for (unsigned i = 0; i < n; ++i) b[i] = a[i];
    check(true, "copied");
}
HARNESS(h_bad_loop_copy2, "loops=4;time=20")
{
    static uint8_t a[300], b[300];
    __v_bytes(a, 300, "a");
    unsigned n = anyLen(299);
    for (unsigned i = 0; i < n; ++i) b[i] = a[i + 1];
    if (n > 200) check(b[150] == a[150], "copied");
}
HARNESS(h_ok_loop_ptr, "loops=4;time=20")
{
    static uint8_t a[300], b[300];
    __v_bytes(a, 300, "a");
    unsigned n = anyLen(300), j = nondet<unsigned>("j");
    assume(j < n);
    uint8_t* d = b;
    for (uint8_t const* p = a; p != a + n; ++p) *d++ = *p;
    check(b[j] == a[j] && d == b + n, "copied");
}
HARNESS(h_ok_loop_down, "loops=4;time=20")
{
    static uint8_t b[300];
    unsigned n = anyLen(300), j = nondet<unsigned>("j"), left = n;
    assume(j < 300);
    uint8_t* d = b;
    while (left-- > 0) *d++ = 7;
    check(b[j] == (j < n ? 7 : 0), "filled");
}
HARNESS(h_ok_loop_text, "loops=4;time=40")
{
    static Reader r;
    __v_bytes(r.packet, 4096, "packet");
    r.head = anyLen(4096);
    r.tail = nondet<unsigned>("tail");
    assume(r.tail <= r.head);
    unsigned t = r.tail;
    int len = nondet<int>("len");
    assume(len >= 0 && len < 5000);
    std::string s;
    bool ok = true;
    try
    {
        s.resize(len);
        for (int i = 0; i < len; ++i) s[i] = r.read();
    }
    catch (std::exception const&)
    {
        ok = false;
    }
    check(ok == (unsigned(len) <= r.head - t), "refused exactly when not received");
    if (!ok) { check(r.tail == r.head, "all of it was read"); return; }
    check(r.tail == t + len && s.size() == unsigned(len), "length");
    unsigned j = nondet<unsigned>("j");
    assume(j < unsigned(len));
    check(uint8_t(s[j]) == r.packet[t + j], "content");
}
HARNESS(h_bad_loop_text, "loops=4;time=40")
{
    static Reader r;
    __v_bytes(r.packet, 4096, "packet");
    r.head = anyLen(4096);
    r.tail = 0;
    int len = nondet<int>("len");
    assume(len >= 0 && len < 4096);
    std::string s;
    try
    {
        s.resize(len);
        for (int i = 0; i < len; ++i) s[i] = r.read();
    }
    catch (std::exception const&)
    {
    }
    check(r.tail != 1000, "never exactly 1000");
}
HARNESS(h_ok_loop_sum, "loops=4;time=60")
{
    static uint8_t a[40];
    __v_bytes(a, 40, "a");
    unsigned n = anyLen(40), s = 0;
    for (unsigned i = 0; i < n; ++i) s += a[i];
    check(s <= 255 * n, "sum");
}
HARNESS(h_ok_loop_words, "loops=4!;time=60")
{
    static Reader r;
    __v_bytes(r.packet, 4096, "packet");
    r.head = 4096;
    r.tail = nondet<unsigned>("tail");
    assume(r.tail <= 100);
    unsigned t = r.tail, n = anyLen(900);
    std::vector<uint32_t> v;
    v.resize(n);
    for (auto& x : v) { uint32_t a = r.read(), b = r.read(), c = r.read(), d = r.read(); x = d << 24 | c << 16 | b << 8 | a; }
    check(r.tail == t + 4 * n, "consumed");
    unsigned j = nondet<unsigned>("j");
    assume(j < n);
    check(uint8_t(v[j] >> 8) == r.packet[t + 4 * j + 1], "content");
}
HARNESS(h_bad_loop_words, "loops=4;time=60")
{
    static Reader r;
    __v_bytes(r.packet, 4096, "packet");
    r.head = 4096;
    r.tail = 0;
    unsigned n = anyLen(900);
    std::vector<uint32_t> v;
    v.resize(n);
    for (auto& x : v) { uint32_t a = r.read(), b = r.read(), c = r.read(), d = r.read(); x = d << 24 | c << 16 | b << 8 | a; }
    unsigned j = nondet<unsigned>("j");
    assume(j < n);
    check(uint8_t(v[j] >> 8) == r.packet[4 * j + 2], "content");
}
