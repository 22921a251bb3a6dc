// Controlled scheduler and virtual network.
//
// The threads of the code under test are real threads, but only the one holding the token runs. The calls through
// which threads interact (thread start and join, mutexes, condition variables, epoll, eventfd, sockets) are
// redirected here at link time (-Wl,--wrap), so every scheduling decision, every delivery of a datagram and the
// passing of time are decided by the explorer. Time moves only when nothing can run.
#pragma once

#include "mc.h"

#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim
{

using Bytes = std::vector<uint8_t>;
// Canonical form of a socket address
using Addr = std::string;

Addr addr(const char* ip, uint16_t port);
std::string show(const Addr& a);

struct Datagram {
    uint64_t id = 0; // number in order of sending, over all sockets
    Addr from;
    Addr to;
    Bytes data;
    int64_t sentUs = 0;
};

struct Config {
    // Preemptions (one deviation each) at every synchronization point, while enabled with preemptions(true)
    bool preempt = false;
    // When the running thread blocks: explore every choice of the next one (otherwise round robin)
    bool chooseOnBlock = false;
    // ... at the cost of one deviation for other than the round robin choice
    bool chooseOnBlockCosts = false;
    int64_t latencyUs = 10000;
    // A datagram sent to this address leaves from the other one
    std::vector<std::pair<Addr, Addr>> links; // (local, remote)
    // Decides what becomes of a datagram: the delays after which copies of it arrive. Called by the sending thread.
    std::function<std::vector<int64_t>(Datagram&)> fate;
    // Sees everything sent
    std::function<void(const Datagram&)> tap;
};

// The calling thread becomes thread 0
void begin(mc::Ctx& ctx, const Config& config);
// All other threads must have ended
void end();
[[nodiscard]] int liveThreads();
[[nodiscard]] bool active();
[[nodiscard]] int self();
void preemptions(bool on);

// Called by thread 0 (or any controlled thread)
void sleepUs(int64_t us);
bool waitFor(const std::function<bool()>& pred, int64_t timeoutUs);
// Explicit scheduling point
void point(const char* what);

// Endpoints of the harness itself
int openEndpoint(const Addr& local);
bool ready(int ep);
bool receive(int ep, Bytes& data, Addr& from);
void send(int ep, const Addr& to, const Bytes& data);
// Bypassing fate and tap: arrives after the given delay
void inject(const Addr& from, const Addr& to, const Bytes& data, int64_t delayUs);
void closeEndpoint(int ep);

// Sockets currently open in the code under test
[[nodiscard]] int openSockets();
[[nodiscard]] uint64_t sentCount();
[[nodiscard]] uint64_t switchCount();

// Under ThreadSanitizer: what happens meanwhile is not looked at (the harness' own data is guarded by the token, which
// the detector does not see, so that it hides no race)
struct Quiet {
    Quiet();
    ~Quiet();
    Quiet(const Quiet&) = delete;
};

// Under ThreadSanitizer: what came before publish(p) happens before what comes after observe(p), as when the
// application guards its own data with a mutex of its own
void publish(const void* p);
void observe(const void* p);

struct Guard {
    Guard(mc::Ctx& ctx, const Config& config)
    {
        begin(ctx, config);
    }
    ~Guard()
    {
        end();
    }
};

} // namespace sim
