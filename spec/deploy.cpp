// The whole program: every component in one reactor, messages between them, coming up and going down.
// SOURCES: Deployer.cpp
// SOURCES: connector/*.cpp
// SOURCES: controller/*.cpp
// SOURCES: controller/modbus/*.cpp
// SOURCES: controller/ua/*.cpp
// SOURCES: common/reactor/*.cpp
// SOURCES: common/ua/common/*.cpp
// SOURCES: modbus/*.cpp
// SOURCES: modbus/client/*.cpp
// SOURCES: modbus/server/*.cpp
// SOURCES: modbus/server/session/*.cpp
// SOURCES: ua/transport/*.cpp
// SOURCES: ua/transport/server/*.cpp
// SOURCES: ua/securechannel/*.cpp
// SOURCES: ua/securechannel/channel/*.cpp
// SOURCES: ua/service/*.cpp
// SOURCES: ua/service/session/*.cpp
// SOURCES: ua/service/attribute/*.cpp
// SOURCES: ua/service/discovery/*.cpp
// FLAGS: -DOS_FDS=256 -DOS_PERFECT
// ASSUMES: bounded: coming up and going down with system calls that succeed, for the 24 orders of preference among the reactors
#include "verif.h"
#include <sys/epoll.h>
#include <arpa/inet.h>
namespace
{
int os_epoll_ctl(int, int, int, struct epoll_event*) { return 0; }
int os_epoll_wait(int, struct epoll_event*, int, int) { return 0; }
}
#define OS_EPOLL
#include "env_os.h"
#include "Deployer.hpp"
#include "Reactor.hpp"
#include "ReactorManager.hpp"
#include "Event.hpp"
#include "MsgMemStorage.hpp"
#include "MsgInterface.hpp"
#include "ComponentInterface.hpp"
#include "CompDefs.hpp"
#include "ControllerComponent.hpp"
using namespace app;
using namespace app::reactor;

extern "C" int rand() noexcept { return 77; }
extern "C" void srand(unsigned) noexcept {}
extern "C" int nanosleep(struct timespec const*, struct timespec*) { return 0; }
CONTRACT("app::controller::(anonymous namespace)::randVector(unsigned int)", "proved=h_ctl_table")
std::vector<uint8_t> c_dep_rand(unsigned len)
{
    return std::vector<uint8_t>(len);
}

namespace
{
ReactorManager* mgr;
constexpr unsigned COMPS[] = { compConnector, compModbus, compUaTransport, compUaSecChannel, compUaService, compController };
Reactor& at(unsigned i) { return static_cast<Reactor&>(*mgr->reactors[i]); }
unsigned home(unsigned c)
{
    unsigned n = 0, r = 99;
    auto it = mgr->components.find(c);
    check(it != mgr->components.end() && it->second, "C01: every component is deployed");
    check(it->second->getCompId() == c && &it->second->getSender() == mgr, "C01: every component is deployed under its own name");
    for (unsigned i = 0; i < mgr->reactors.size(); ++i) if (mgr->reactors[i].get() == &it->second->getReactor()) { ++n; r = i; }
    check(n == 1, "C01: every component runs in one reactor of the program");
    return r;
}
void deploy()
{
    mgr = new ReactorManager;
    Deployer d;
    d.apply(*mgr, DeploymentType::cpu3);
    for (unsigned c : COMPS) home(c);
    check(mgr->components.size() == 6, "C01: every component is deployed");
}
unsigned& wakes(unsigned i) { return os::wakes[at(i).event->fileDescriptor() - os::base]; }
// messages are handled one at a time, by the reactors in any order of preference
unsigned pump(unsigned order)
{
    unsigned const n = mgr->reactors.size();
    unsigned perm[8], left[8], k = order;
    for (unsigned i = 0; i < n; ++i) left[i] = i;
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned p = k % (n - i);
        k /= n - i;
        perm[i] = left[p];
        for (unsigned j = p; j + 1 < n - i; ++j) left[j] = left[j + 1];
    }
    unsigned steps = 0;
    for (;;)
    {
        unsigned i = 0;
        while (i < n && wakes(perm[i]) == 0) ++i;
        if (i == n) return steps;
        --wakes(perm[i]);
        at(perm[i]).onFdEvent(1);
        check(++steps < 200, "C01: the program comes to rest");
    }
}
unsigned listened(unsigned short port)
{
    unsigned n = 0;
    for (unsigned i = 0; i < os::listens && i < 8; ++i) n += os::listenPort[i] == htons(port);
    return n;
}
unsigned open(os::Kind k)
{
    unsigned n = 0;
    for (auto& f : os::fds) n += f.open && f.kind == k;
    return n;
}
}
HARNESS(h_dep_where, "props=C01;covers=x;time=600;steps=80000000;uses=c_dep_rand")
{
    deploy();
    cover("x");
}
HARNESS(h_dep_life, "bound=one deployment from start to stop with the real components, in 24 orders of events;props=C01;cases=24;covers=x;time=600;steps=80000000;cost=8;uses=c_dep_rand")
{
    unsigned order = vcase(24);
    deploy();
    MsgControllerStartReq go;
    mgr->send(go);
    pump(order);
    // no event of a link is delivered here: the script of the Modbus client ends with its first unanswered request
    check(listened(0x2f71) == 1 && listened(0x1111) == 1 && os::listens == 2, "C01: each server listens at its address once the program is up");
    check(os::connects == 1 && os::lastConnect.sin_port == htons(0x2f71), "C01: the Modbus client connects to its server once the program is up");
    MsgControllerStopReq halt;
    mgr->send(halt);
    pump(order);
    check(open(os::sock) == 0 && open(os::timer) == 0, "C01: nothing stays open when the program is down");
    check(os::badCloses == 0, "C01: nothing is closed twice");
    mgr->send(go);
    pump(order);
    check(listened(0x2f71) == 2 && listened(0x1111) == 2 && os::connects == 2, "C01: the program comes up again");
    cover("x");
}
