// Verification primitives.  The same harness text is (1) compiled to LLVM IR and discharged by the
// verifier for every value of the nondeterministic inputs, and (2) compiled natively, where the inputs
// are read from a replay file, to confirm a counterexample on the real code.
#pragma once
#include <cstdint>
#include <cstddef>

extern "C"
{
uint64_t __v_nondet(unsigned bits, char const* name);
void __v_bytes(void* p, uint64_t n, char const* name);
void __v_assume(unsigned c);
void __v_check(unsigned c, char const* name);
void __v_cover(char const* name);
void __v_copy_swap(void* dst, void const* src, uint64_t n);
void __v_havoc(void* p, uint64_t n);
void __v_havoc_data(void* p, uint64_t n);
uint64_t __v_split(uint64_t v);
unsigned __v_is_symbolic();
unsigned __v_alive(void const* p);
uint64_t __v_case(unsigned n, char const* name);
}

// HARNESS(name, "props=M01;uses=c_x,c_y;covers=a,b"): a proof of the contract stated in its body: assume =
// requires, check = ensures, over the real code it calls.  uses: callees taken by their contract.
#define HARNESS(name, opts) extern "C" __attribute__((used, annotate("harness:" opts))) void name()
// CONTRACT("demangled signature", "proved=h_x" or "trusted=reason") stub(args): what callers see of the function
#define CONTRACT(sig, opts) extern "C" __attribute__((used, annotate("contract:" sig "##" opts)))

template <typename T>
inline T nondet(char const* name)
{
    return static_cast<T>(__v_nondet(sizeof(T) * 8, name));
}
inline bool nondet_bool(char const* name) { return __v_nondet(8, name) & 1; }
inline void assume(bool c) { __v_assume(c); }
inline void check(bool c, char const* name) { __v_check(c, name); }
inline void cover(char const* name) { __v_cover(name); }
// case split on a value (changes nothing about what is proved, only how)
template <typename T>
inline T split(T v) { return static_cast<T>(__v_split(static_cast<uint64_t>(v))); }
// value in [0, n)
inline unsigned choose(unsigned n, char const* name)
{
    unsigned v = nondet<unsigned>(name);
    assume(v < n);
    return v;
}

// the case number of this run (cases are run in parallel)
inline unsigned vcase(unsigned n) { unsigned v = static_cast<unsigned>(__v_case(n, "case")); assume(v < n); return v; }
