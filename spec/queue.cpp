// app::Queue (ring of ids) and the storage of pending Modbus requests built on it.
// SOURCES: modbus/client/ModbusAduStorage.cpp common/reactor/MsgMemStorage.cpp
// ASSUMES: malloc returns memory aligned to 16 bytes
#include "verif.h"
#include "Queue.hpp"
#include "ModbusAduStorage.hpp"
#include "MsgMemStorage.hpp"
#include <cstring>
using namespace app;
using namespace app::modbus;

namespace
{
using IdQueue = Queue<unsigned>;
// representation: element k of the queue is data[(begin + k) % capacity]
template <typename Q> constexpr bool ring = requires(Q& q) { q.begin = q.len; q.len = q.capacity; q.data[q.begin] = 0u; };
template <typename Q> std::size_t at(Q const& q, std::size_t k)
{
    std::size_t i = q.begin + k;
    return i >= q.capacity ? i - q.capacity : i;
}
template <typename Q> bool wf(Q const& q)
{
    if constexpr (!ring<Q>) return true;
    else
    {
        bool ok = q.begin < q.capacity && q.len <= q.capacity;
        if constexpr (requires { q.end; }) ok = ok && q.end < q.capacity && q.end == at(q, q.len == q.capacity ? 0 : q.len);
        return ok;
    }
}
template <typename Q> Q* anyQueue(std::size_t cap)
{
    auto* q = new Q(cap);
    q->len = nondet<std::size_t>("len");
    q->begin = nondet<std::size_t>("begin");
    if constexpr (requires { q->end; }) q->end = nondet<std::size_t>("end");
    __v_bytes(&q->data[0], cap * sizeof(unsigned), "ring");
    assume(wf(*q));
    return q;
}
// a queue with another representation: every state of a small one, reached by its own operations
template <typename Q> void history(std::size_t cap, bool take)
{
    for (std::size_t used = 0; used < cap; ++used)
        for (std::size_t n = take; n < cap + take; ++n)
        {
            Q q(cap);
            unsigned v[16];
            __v_bytes(v, sizeof(v), "ring");
            for (std::size_t i = 0; i < used; ++i) { q.push(i); q.pop(); }
            for (std::size_t i = 0; i < n; ++i) q.push(v[i]);
            if (!take) { q.push(v[n]); check(!q.empty(), "not empty after push"); }
            std::size_t k = 0;
            if (take) { check(!q.empty() && q.front() == v[0], "front is the oldest element"); q.pop(); k = 1; }
            for (; k < n + !take; ++k)
            {
                check(!q.empty() && q.front() == v[k], "elements come out in the order they were put in");
                q.pop();
            }
            check(q.empty(), "empty after the last pop");
        }
}
}

template <typename Q> static void isNew(Q& q)
{
    check(q.empty() && wf(q), "a new queue is empty");
    if constexpr (ring<Q>) check(q.len == 0, "a new queue is empty");
}
HARNESS(h_queue_new, "props=R01;covers=x")
{
    std::size_t cap = nondet<std::size_t>("capacity");
    assume(cap >= 1 && cap <= 0x10000);
    IdQueue q(cap);
    cover("x");
    isNew(q);
}

template <typename Q> static void pushStep(std::size_t cap)
{
    if constexpr (!ring<Q>) { cover("more"); cover("first"); history<Q>(cap > 12 ? 7 : cap, false); }
    else
    {
        auto* q = anyQueue<Q>(cap);
        assume(q->len < q->capacity);
        std::size_t n = q->len;
        std::size_t k = nondet<std::size_t>("k");
        assume(k < n || n == 0);
        unsigned old = n ? q->data[at(*q, k)] : 0;
        unsigned v = nondet<unsigned>("v");
        q->push(v);
        check(wf(*q) && q->len == n + 1, "push adds one element");
        check(q->data[at(*q, n)] == v, "push adds at the end");
        if (n) { cover("more"); check(q->data[at(*q, k)] == old, "push keeps the others"); }
        else { cover("first"); check(q->front() == v, "the first element pushed is the front"); }
        check(!q->empty(), "not empty after push");
    }
}

template <typename Q> static void popStep(std::size_t cap)
{
    if constexpr (!ring<Q>) { cover("x"); cover("last"); history<Q>(cap > 12 ? 7 : cap, true); }
    else
    {
        auto* q = anyQueue<Q>(cap);
        assume(q->len > 0);
        std::size_t n = q->len;
        check(!q->empty(), "not empty");
        check(q->front() == q->data[at(*q, 0)], "front is the oldest element");
        std::size_t k = nondet<std::size_t>("k");
        assume(k < n - 1 || n == 1);
        unsigned next = n > 1 ? q->data[at(*q, k + 1)] : 0;
        q->pop();
        check(wf(*q) && q->len == n - 1, "pop removes one element");
        if (n > 1) { cover("x"); check(q->data[at(*q, k)] == next, "pop shifts the others"); }
        else { cover("last"); check(q->empty(), "empty after the last pop"); }
    }
}

static std::size_t anyCap()
{
    std::size_t cap = nondet<std::size_t>("capacity");
    assume(cap >= 1 && cap <= 0x10000);
    return cap;
}
// the capacities in use, and some others
static unsigned caps(unsigned c) { unsigned const n[] = {64, 256, 32, 1, 5, 12, 100}; return n[c]; }
HARNESS(h_queue_push, "bound=capacities 1, 5, 12, 32, 64, 100, 256 (those the program uses among them, any capacity in the thorough tier);props=R01;cases=7;covers=first,more") { pushStep<IdQueue>(caps(vcase(7))); }
HARNESS(h_queue_pop, "bound=capacities 1, 5, 12, 32, 64, 100, 256 (those the program uses among them, any capacity in the thorough tier);props=R01;cases=7;covers=x,last") { popStep<IdQueue>(caps(vcase(7))); }
// every capacity
HARNESS(h_queue_push_any, "props=R01;tier=thorough;time=1500;smt_ms=600000;covers=first,more") { pushStep<IdQueue>(anyCap()); }
HARNESS(h_queue_pop_any, "props=R01;tier=thorough;time=1500;smt_ms=600000;covers=x,last") { popStep<IdQueue>(anyCap()); }

// ---- storage of pending requests, over the contract of the queues of ids
namespace
{
ModbusAduStorage* sto;
struct Ghost { unsigned ids[80]; unsigned beg, len; };
Ghost freeQ, busyQ;
void const* freeAddr;            // the queue of free places; the other one is that of used places
Ghost& ghost(void const* q) { return q == freeAddr ? freeQ : busyQ; }
}
namespace
{
// other observers of the queue see the same length
template <typename Q>
void sync(Q& q, Ghost const& g) { if constexpr (requires { q.len = g.len; }) q.len = g.len; }
}
CONTRACT("app::Queue<unsigned int>::push(unsigned int const&)", "proved=h_queue_push+h_queue_new")
void c_queue_push(Queue<unsigned>* q, unsigned const& v)
{
    Ghost& g = ghost(q);
    check(g.len < 64, "no push to a full queue");
    g.ids[g.beg + g.len] = v;
    ++g.len;
    sync(*q, g);
}
CONTRACT("app::Queue<unsigned int>::pop()", "proved=h_queue_pop")
void c_queue_pop(Queue<unsigned>* q)
{
    Ghost& g = ghost(q);
    check(g.len > 0, "no pop from an empty queue");
    ++g.beg;
    --g.len;
    sync(*q, g);
}
CONTRACT("app::Queue<unsigned int>::front() const", "proved=h_queue_pop")
unsigned const& c_queue_front(Queue<unsigned> const* q)
{
    Ghost& g = ghost(q);
    check(g.len > 0, "no front of an empty queue");
    return g.ids[g.beg];
}
CONTRACT("app::Queue<unsigned int>::empty() const", "proved=h_queue_pop")
bool c_queue_empty(Queue<unsigned> const* q) { return ghost(q).len == 0; }

namespace
{
unsigned pendingN;
// any storage with n pending requests; ids[0..n) of busyQ and ids[0..64-n) of freeQ are the queues
void anyStorage()
{
    sto = new ModbusAduStorage;
    freeAddr = &sto->freeIds;
    unsigned n = nondet<unsigned>("pending");
    assume(n <= 64);
    pendingN = n;
    if (__v_is_symbolic())
    {
        __v_bytes(busyQ.ids, sizeof busyQ.ids, "busyIds");
        __v_bytes(freeQ.ids, sizeof freeQ.ids, "freeIds");
        busyQ.beg = freeQ.beg = 0;
        busyQ.len = n;
        freeQ.len = 64 - n;
        sync(sto->freeIds, freeQ);
        sync(sto->busyIds, busyQ);
        __v_bytes(&sto->adus[0], 64 * sizeof(AduRequest), "adus");
        __v_bytes(&sto->buffer[0], sto->buffer.size(), "buffer");
    }
    else
    {
        // natively: the same number of requests, pushed one by one
        static uint8_t data[64][260];
        __v_bytes(busyQ.ids, sizeof busyQ.ids, "busyIds");
        __v_bytes(freeQ.ids, sizeof freeQ.ids, "freeIds");
        std::vector<uint8_t> a(64 * sizeof(AduRequest));
        __v_bytes(a.data(), a.size(), "adus");
        __v_bytes(data, sizeof data, "buffer");
        for (unsigned i = 0; i < n; ++i)
        {
            AduRequest r;
            memcpy(static_cast<void*>(&r), &a[i * sizeof r], sizeof r);
            r.numBytes %= 261;
            r.data = data[i];
            sto->push(r);
        }
    }
}
bool same(AduRequest const& a, AduRequest const& b)
{
    return a.clientId == b.clientId && a.transactId == b.transactId && a.func == b.func && a.addr == b.addr
        && a.startItem == b.startItem && a.numItems == b.numItems && a.numBytes == b.numBytes;
}
}

HARNESS(h_storage_new, "props=R01;covers=x")
{
    ModbusAduStorage s;
    check(s.empty(), "new storage is empty");
    AduRequest a{};
    uint8_t d[260];
    a.data = d;
    // all 64 places are distinct and usable
    for (unsigned i = 0; i < 64; ++i) { a.transactId = i; a.numBytes = 1; d[0] = i; check(s.push(a), "64 requests can be pending"); }
    check(!s.push(a), "a 65th request is refused");
    for (unsigned i = 0; i < 64; ++i) { check(s.front().transactId == i && s.front().data[0] == i, "requests come back in order"); s.pop(); }
    check(s.empty(), "empty again");
    cover("x");
}

HARNESS(h_storage_push, "props=R01;cases=8;uses=c_queue_push,c_queue_pop,c_queue_front,c_queue_empty;covers=stored,full,toobig,nodata")
{
    anyStorage();
    unsigned n = pendingN;
    unsigned c = vcase(8);
    // ids in use are valid, and the free id differs from any busy one (permutation invariant, instantiated at k)
    unsigned k = nondet<unsigned>("k");
    unsigned fid = 0, bid = 0;
    AduRequest other{};
    uint8_t ob = 0;
    unsigned j = nondet<unsigned>("j");
    assume(j < 260);
    if (__v_is_symbolic())
    {
        if (n < 64) { fid = freeQ.ids[0]; assume(fid < 64 && fid % 8 == c); }
        if (k < n)
        {
            bid = busyQ.ids[k];
            assume(bid < 64);
            if (n < 64) assume(bid != fid);
            other = sto->adus[bid];
            ob = sto->buffer[260 * bid + j];
        }
    }
    AduRequest a;
    a.clientId = nondet<unsigned>("clientId");
    a.transactId = nondet<unsigned>("transactId");
    a.func = static_cast<ModbusFunction>(nondet<uint8_t>("func"));
    a.addr = nondet<uint16_t>("addr");
    a.startItem = nondet<uint16_t>("startItem");
    a.numItems = nondet<uint16_t>("numItems");
    a.numBytes = nondet<uint16_t>("numBytes");
    a.data = nullptr;
    bool has = nondet_bool("hasData");
    if (has) { a.data = new uint8_t[a.numBytes]; __v_bytes(a.data, a.numBytes, "data"); }
    bool ok = sto->push(a);
    check(ok == (n < 64 && a.numBytes <= 260), "a request is stored unless the storage is full or the request too big");
    if (!ok)
    {
        if (n == 64) cover("full"); else cover("toobig");
        if (__v_is_symbolic()) check(busyQ.len == n && freeQ.len == 64 - n && busyQ.beg == 0 && freeQ.beg == 0, "a refused request changes nothing");
        return;
    }
    if (__v_is_symbolic())
    {
        check(busyQ.beg == 0 && busyQ.len == n + 1 && busyQ.ids[n] == fid && freeQ.beg == 1 && freeQ.len == 63 - n,
            "the request takes a free place at the end");
        AduRequest const& s = sto->adus[fid];
        check(same(s, a), "the request is kept");
        if (a.data && a.numBytes)
        {
            cover("stored");
            check(s.data == &sto->buffer[260 * fid], "the data is kept in the place's own buffer");
            if (j < a.numBytes) check(sto->buffer[260 * fid + j] == a.data[j], "the data is kept");
        }
        else { cover("nodata"); check(s.data == nullptr, "no data pointer without data"); }
        if (k < n)
        {
            AduRequest const& o = sto->adus[bid];
            check(same(o, other) && sto->buffer[260 * bid + j] == ob, "other pending requests are untouched");
        }
    }
    else
    {
        for (unsigned i = 0; i < n; ++i) sto->pop();
        AduRequest const& s = sto->front();
        check(same(s, a), "the request is kept");
        if (a.data) for (unsigned i = 0; i < a.numBytes; ++i) check(s.data[i] == a.data[i], "the data is kept");
    }
}

HARNESS(h_storage_ops, "props=R01;uses=c_queue_push,c_queue_pop,c_queue_front,c_queue_empty;covers=popped,none")
{
    anyStorage();
    unsigned n = pendingN;
    check(sto->empty() == (n == 0), "empty exactly when nothing is pending");
    if (n == 0)
    {
        cover("none");
        sto->pop();
        check(sto->empty(), "pop of an empty storage changes nothing");
        if (__v_is_symbolic()) check(busyQ.len == 0 && freeQ.len == 64, "pop of an empty storage changes nothing");
        return;
    }
    cover("popped");
    if (__v_is_symbolic())
    {
        unsigned id = busyQ.ids[0];
        assume(id < 64);
        check(&sto->front() == &sto->adus[id], "front is the oldest request");
        sto->pop();
        check(busyQ.beg == 1 && busyQ.len == n - 1 && freeQ.beg == 0 && freeQ.len == 65 - n && freeQ.ids[64 - n] == id,
            "pop removes the oldest request and frees its place");
    }
    else
    {
        for (unsigned i = 0; i < n; ++i) { check(!sto->empty(), "pop removes one request"); sto->pop(); }
        check(sto->empty(), "pop removes one request");
    }
}

// ---- storage of messages between threads, as used by the reactor: 64 chunks of 4096 bytes
namespace
{
reactor::MsgMemStorage* mem;
constexpr std::size_t chunk = 4096, room = chunk - sizeof(reactor::MsgMemStorage::Item);
void anyMem()
{
    mem = new reactor::MsgMemStorage(chunk, 64);
    freeAddr = &mem->freeIds;
    unsigned n = nondet<unsigned>("pending");
    assume(n <= 64);
    pendingN = n;
    if (__v_is_symbolic())
    {
        __v_bytes(busyQ.ids, sizeof busyQ.ids, "busyIds");
        __v_bytes(freeQ.ids, sizeof freeQ.ids, "freeIds");
        busyQ.beg = freeQ.beg = 0;
        busyQ.len = n;
        freeQ.len = 64 - n;
        sync(mem->freeIds, freeQ);
        sync(mem->busyIds, busyQ);
        __v_bytes(mem->get(0), chunk * 64, "mem");
    }
    else
    {
        __v_bytes(busyQ.ids, sizeof busyQ.ids, "busyIds");
        __v_bytes(freeQ.ids, sizeof freeQ.ids, "freeIds");
        std::vector<char> all(chunk * 64);
        __v_bytes(all.data(), all.size(), "mem");
        for (unsigned i = 0; i < n; ++i) check(mem->push(&all[chunk * i], i % 7), "a message is accepted");
    }
}
reactor::MsgMemStorage::Item& item(unsigned id) { return *static_cast<reactor::MsgMemStorage::Item*>(mem->get(id)); }
}

HARNESS(h_mem_new, "props=R02;covers=x")
{
    reactor::MsgMemStorage m(chunk, 64);
    static char in[chunk], out[chunk];
    check(!m.pop(out), "a new storage is empty");
    for (unsigned i = 0; i < 64; ++i) { in[0] = i; check(m.push(in, room), "64 messages can be pending"); }
    check(!m.push(in, 1), "a 65th message is refused");
    for (unsigned i = 0; i < 64; ++i) { check(m.pop(out) && out[0] == static_cast<char>(i), "messages come back in order"); }
    check(!m.pop(out), "empty again");
    cover("x");
}

HARNESS(h_mem_push, "props=R02;uses=c_queue_push,c_queue_pop,c_queue_front,c_queue_empty;covers=stored,full,toobig")
{
    anyMem();
    unsigned n = pendingN;
    unsigned k = nondet<unsigned>("k");
    unsigned fid = 0, bid = 0;
    uint64_t olen = 0;
    char ob = 0;
    std::size_t j = nondet<std::size_t>("j");
    assume(j < room);
    if (__v_is_symbolic())
    {
        if (n < 64) { fid = freeQ.ids[0]; assume(fid < 64); }
        if (k < n)
        {
            bid = busyQ.ids[k];
            assume(bid < 64);
            if (n < 64) assume(bid != fid);
            olen = item(bid).len;
            ob = item(bid).data[j];
        }
    }
    static char in[chunk];
    __v_bytes(in, sizeof in, "msg");
    std::size_t len = nondet<std::size_t>("length");
    assume(len <= chunk);
    bool ok = mem->push(in, len);
    if (n == 64) { cover("full"); check(!ok, "a message is refused when the storage is full"); return; }
    if (len > room) { cover("toobig"); check(!ok, "a message that does not fit is refused"); return; }
    cover("stored");
    check(ok, "a message that fits is accepted");
    if (!__v_is_symbolic())
    {
        static char out[chunk];
        for (unsigned i = 0; i < n; ++i) check(mem->pop(out), "pending messages stay");
        check(mem->pop(out) && !memcmp(out, in, len), "the message comes back as it was");
        return;
    }
    check(busyQ.len == n + 1 && busyQ.ids[busyQ.beg + n] == fid && freeQ.len == 63 - n, "the message is the last one");
    check(item(fid).len == len, "the length is kept");
    if (j < len) check(item(fid).data[j] == in[j], "the message is kept as it is");
    if (k < n) check(item(bid).len == olen && item(bid).data[j] == ob && busyQ.ids[busyQ.beg + k] == bid, "other pending messages are untouched");
}

HARNESS(h_mem_pop, "props=R02;uses=c_queue_push,c_queue_pop,c_queue_front,c_queue_empty;covers=popped,none")
{
    anyMem();
    unsigned n = pendingN;
    static char out[chunk];
    __v_bytes(out, sizeof out, "out");
    if (!__v_is_symbolic())
    {
        for (unsigned i = 0; i < n; ++i) check(mem->pop(out), "a pending message is delivered");
        check(!mem->pop(out), "nothing is delivered when nothing is pending");
        return;
    }
    std::size_t j = nondet<std::size_t>("j");
    assume(j < chunk);
    char const was = out[j];
    if (n == 0)
    {
        cover("none");
        check(!mem->pop(out) && busyQ.len == 0 && freeQ.len == 64, "nothing is delivered when nothing is pending");
        check(out[j] == was, "nothing is delivered when nothing is pending");
        return;
    }
    unsigned id = busyQ.ids[0];
    assume(id < 64);
    uint64_t len = item(id).len;
    assume(len <= room);
    char b = j < room ? item(id).data[j] : 0;
    unsigned k = nondet<unsigned>("k");
    unsigned bid = 0;
    uint64_t olen = 0;
    char ob = 0;
    if (k < n - 1)
    {
        bid = busyQ.ids[1 + k];
        assume(bid < 64 && bid != id);
        olen = item(bid).len;
        ob = item(bid).data[j % room];
    }
    cover("popped");
    check(mem->pop(out), "a pending message is delivered");
    check(out[j] == (j < len ? b : was), "exactly the bytes of the oldest message are delivered");
    check(busyQ.beg == 1 && busyQ.len == n - 1 && freeQ.len == 65 - n && freeQ.ids[freeQ.beg + 64 - n] == id, "its place is free again");
    if (k < n - 1) check(item(bid).len == olen && item(bid).data[j % room] == ob && busyQ.ids[busyQ.beg + k] == bid, "the other messages stay");
}

// ---- pools of reactor and OPC UA entities, over the contract of the queue of ids
#include "EntityPool.hpp"
#include "UaEntityPool.hpp"
namespace
{
struct NoEpoll : reactor::EpollInterface
{
    int add(reactor::FileDescriptorInterface&, int) override { return 0; }
    int mod(reactor::FileDescriptorInterface&, int) override { return 0; }
    int del(reactor::FileDescriptorInterface&) override { return 0; }
};
struct Ent { explicit Ent(reactor::EpollInterface&) {} unsigned x = 0; };
struct UaEnt { explicit UaEnt(EntityId u) : uid(u) {} EntityId uid; };

// a pool with n free ids
template <typename POOL, typename ID>
void poolSteps(POOL& p, unsigned first, unsigned cap)
{
    check(busyQ.len == cap, "all entities of a new pool are free");
    for (unsigned i = 0; i < cap; ++i) check(busyQ.ids[i] == first + i, "the ids of a new pool are distinct");
    unsigned n = nondet<unsigned>("free");
    assume(n <= cap);
    __v_bytes(busyQ.ids, sizeof busyQ.ids, "ids");
    busyQ.beg = 0;
    busyQ.len = n;
    sync(p.ids, busyQ);
    unsigned k = nondet<unsigned>("k");
    ID uid = 0;
    if (nondet_bool("alloc"))
    {
        if (n > 0) assume(busyQ.ids[0] >= first && busyQ.ids[0] < first + cap);
        unsigned f = busyQ.ids[0], o = k >= 1 && k < n ? busyQ.ids[k] : 0;
        bool ok = p.alloc(uid);
        if (n == 0) { cover("none"); check(!ok && busyQ.len == 0, "nothing is given out when all are in use"); return; }
        cover("alloc");
        check(ok && uid == f, "a free entity is given out");
        check(busyQ.len == n - 1, "it is not free any more");
        if (k >= 1 && k < n) check(busyQ.ids[busyQ.beg + k - 1] == o, "the others stay free");
    }
    else
    {
        assume(n < cap);
        uid = nondet<ID>("uid");
        assume(uid >= first && uid < first + cap);
        unsigned o = k < n ? busyQ.ids[k] : 0;
        cover("release");
        p.release(uid);
        check(busyQ.len == n + 1 && busyQ.ids[busyQ.beg + n] == uid, "a released entity is free again");
        if (k < n) check(busyQ.ids[busyQ.beg + k] == o, "the others stay free");
    }
}
}

HARNESS(h_pool, "props=R03;uses=c_queue_push,c_queue_pop,c_queue_front,c_queue_empty;covers=none,alloc,release")
{
    if (!__v_is_symbolic()) return;
    static NoEpoll ep;
    auto* p = new reactor::EntityPool<Ent>(ep, "x");
    poolSteps<reactor::EntityPool<Ent>, unsigned>(*p, 0, 32);
}
HARNESS(h_pool_get, "props=R03;covers=x")
{
    static NoEpoll ep;
    auto* p = new reactor::EntityPool<Ent>(ep, "x");
    unsigned a = choose(32, "a"), b = choose(32, "b");
    a = split(a);
    b = split(b);
    cover("x");
    check(a == b || &p->get(a) != &p->get(b), "different ids name different entities");
    p->get(a).x = 5;
    check(&p->get(a) == &p->get(a) && p->get(b).x == (a == b ? 5u : 0u), "an id always names the same entity");
    // every entity can be used at the same time, and again after release
    bool used[32] = {};
    for (unsigned i = 0; i < 32; ++i) { unsigned u = 99; check(p->alloc(u) && u < 32 && !used[u], "no entity is given out twice"); used[u] = true; }
    unsigned u = 0;
    check(!p->alloc(u), "nothing is given out when all are in use");
    p->release(a);
    check(p->alloc(u) && u == a && !p->alloc(u), "a released entity can be used again");
}
HARNESS(h_uapool, "props=R03;uses=c_queue_push,c_queue_pop,c_queue_front,c_queue_empty;covers=none,alloc,release")
{
    if (!__v_is_symbolic()) return;
    auto* p = new ua::UaEntityPool<UaEnt>("x");
    poolSteps<ua::UaEntityPool<UaEnt>, EntityId>(*p, 1, 32);
}
HARNESS(h_uapool_get, "props=R03;covers=x")
{
    auto* p = new ua::UaEntityPool<UaEnt>("x");
    EntityId a = 1 + split(choose(32, "a"));
    cover("x");
    check(p->get(a).uid == a, "an id names the entity that has it");
    bool used[33] = {};
    for (unsigned i = 0; i < 32; ++i) { EntityId u = 99; check(p->alloc(u) && u >= 1 && u <= 32 && !used[u], "no entity is given out twice"); used[u] = true; }
    EntityId u = 0;
    check(!p->alloc(u), "nothing is given out when all are in use");
    p->release(a);
    check(p->alloc(u) && u == a && !p->alloc(u), "a released entity can be used again");
}
