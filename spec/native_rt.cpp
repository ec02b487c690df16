// Native implementation of the verification primitives: replays a file of input values, or draws
// random ones (VERIF_RANDOM=<seed>).
#include "verif.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unistd.h>

namespace
{
FILE* in;
bool rnd;
uint64_t s;
FILE* rec;
uint64_t next()
{
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    return s;
}
uint64_t pick(unsigned bits)
{
    uint64_t m = bits == 64 ? ~0ull : ((1ull << bits) - 1);
    switch (next() % 8)
    {
    case 0: return next() % 4;
    case 1: return next() % 16;
    case 2: return next() % 300 & m;
    case 3: return m - next() % 3;
    case 4: return 1 & m;
    default: return next() & m;
    }
}
struct Init
{
    Init()
    {
        if (char const* r = getenv("VERIF_RANDOM")) { rnd = true; s = strtoull(r, 0, 10) * 0x9E3779B97F4A7C15ull + 1; for (int i = 0; i < 8; ++i) next(); }
        else if (char const* f = getenv("VERIF_REPLAY")) in = fopen(f, "r");
        if (char const* f = getenv("VERIF_RECORD")) rec = fopen(f, "w");
    }
} init;
[[noreturn]] void quit(int c)
{
    if (rec) fclose(rec);
    fflush(stdout);
    _exit(c);
}
}

extern "C"
{
uint64_t __v_nondet(unsigned bits, char const* name)
{
    uint64_t v = 0;
    if (rnd) v = pick(bits);
    else if (in)
    {
        char k[8], n[256];
        if (fscanf(in, "%7s %255s %lu", k, n, &v) != 3) { v = 0; }
        else if (strcmp(k, "s") || strcmp(n, name)) { printf("REPLAY-DIVERGED %s %s expected %s\n", k, n, name); quit(78); }
    }
    if (rec) { fprintf(rec, "s %s %lu\n", name, v); fflush(rec); }
    return v;
}
void __v_bytes(void* p, uint64_t n, char const* name)
{
    unsigned char* b = static_cast<unsigned char*>(p);
    if (rnd) { for (uint64_t i = 0; i < n; ++i) b[i] = next() % 3 ? next() : next() % 4; }
    else if (in)
    {
        char k[8], nm[256];
        uint64_t m = 0;
        if (fscanf(in, "%7s %255s %lu", k, nm, &m) == 3)
        {
            if (strcmp(k, "b") || strcmp(nm, name)) { printf("REPLAY-DIVERGED %s %s expected %s\n", k, nm, name); quit(78); }
            for (uint64_t i = 0; i < m; ++i) { unsigned x = 0; if (fscanf(in, "%u", &x) != 1) break; if (i < n) b[i] = x; }
        }
        else memset(p, 0, n);
    }
    else memset(p, 0, n);
    if (rec) { fprintf(rec, "b %s %lu", name, n); for (uint64_t i = 0; i < n; ++i) fprintf(rec, " %u", b[i]); fprintf(rec, "\n"); fflush(rec); }
}
void __v_assume(unsigned c) { if (!c) { if (!rnd) printf("ASSUME-FALSE\n"); quit(77); } }
void __v_check(unsigned c, char const* name) { if (!c) { printf("CHECK-FAILED %s\n", name); quit(1); } }
void __v_cover(char const* name) { if (getenv("VERIF_COVER")) printf("COVER %s\n", name); }
void __v_copy_swap(void* d, void const* sp, uint64_t n)
{
    std::vector<unsigned char> t(static_cast<unsigned char const*>(sp), static_cast<unsigned char const*>(sp) + n);
    for (uint64_t i = 0; i < n; ++i) static_cast<unsigned char*>(d)[i] = t[i ^ 1];
}
void __v_havoc(void*, uint64_t) {}
void __v_havoc_data(void*, uint64_t) {}
uint64_t __v_split(uint64_t v) { return v; }
unsigned __v_is_symbolic() { return 0; }
unsigned __v_alive(void const*) { return 1; }
uint64_t __v_case(unsigned n, char const* name)
{
    if (rnd) { uint64_t v = next() % n; if (rec) { fprintf(rec, "s %s %lu\n", name, v); fflush(rec); } return v; }
    return __v_nondet(32, name);
}
}

#ifndef VERIF_ENTRY
#error VERIF_ENTRY
#endif
extern "C" void VERIF_ENTRY();
int main()
{
    VERIF_ENTRY();
    printf("OK\n");
    quit(0);
}
