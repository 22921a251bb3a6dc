#include "sim.h"

#include "env.h"

#include <arpa/inet.h>
#include <atomic>
#include <cerrno>
#include <climits>
#include <condition_variable>
#include <cstring>
#include <deque>
#include <linux/futex.h>
#include <map>
#include <memory>
#include <mutex>
#include <netinet/in.h>
#include <pthread.h>
#include <set>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <thread>
#include <unistd.h>

#include <openssl/rand.h>

extern "C"
{
void AnnotateIgnoreReadsBegin(const char*, int) __attribute__((weak));
void AnnotateIgnoreReadsEnd(const char*, int) __attribute__((weak));
void AnnotateIgnoreWritesBegin(const char*, int) __attribute__((weak));
void AnnotateIgnoreWritesEnd(const char*, int) __attribute__((weak));
void __tsan_acquire(void*) __attribute__((weak));
void __tsan_release(void*) __attribute__((weak));
}

namespace sim
{

Quiet::Quiet()
{
    if (AnnotateIgnoreReadsBegin) {
        AnnotateIgnoreReadsBegin(__FILE__, __LINE__);
        AnnotateIgnoreWritesBegin(__FILE__, __LINE__);
    }
}

Quiet::~Quiet()
{
    if (AnnotateIgnoreReadsBegin) {
        AnnotateIgnoreWritesEnd(__FILE__, __LINE__);
        AnnotateIgnoreReadsEnd(__FILE__, __LINE__);
    }
}

void publish(const void* p)
{
    if (__tsan_release) {
        __tsan_release(const_cast<void*>(p));
    }
}

void observe(const void* p)
{
    if (__tsan_acquire) {
        __tsan_acquire(const_cast<void*>(p));
    }
}

namespace
{

// Writing to an event descriptor happens before the wait it ends
char gEventSync[16];

void syncRelease(int fd)
{
    if (__tsan_release) {
        __tsan_release(&gEventSync[fd % 16]);
    }
}

void syncAcquire(int fd)
{
    if (__tsan_acquire) {
        __tsan_acquire(&gEventSync[fd % 16]);
    }
}

enum class Why { Running, Mutex, Shared, Cond, Epoll, Join, Pred, Finished };

struct Thread {
    int id = 0;
    Why why = Why::Running;
    void* object = nullptr;
    int64_t deadline = -1; // us of virtual time, -1 for none
    bool notified = false;
    bool timedOut = false;
    int joinTarget = -1;
    int epoll = -1;
    const std::function<bool()>* pred = nullptr;
    pthread_t handle = {};
    bool haveHandle = false;
    std::atomic<uint32_t> token = { 0 };
};

struct InFlight {
    uint64_t order;
    int64_t arriveUs;
    Addr from;
    Addr to;
    Bytes data;
};

struct Sock {
    bool isEndpoint = false;
    Addr local;
    std::deque<std::pair<Addr, Bytes>> queue;
};

struct Epoll {
    struct Item {
        int fd;
        struct epoll_event ev;
    };
    std::vector<Item> items;
};

struct World {
    mc::Ctx* ctx = nullptr;
    Config config;
    bool preempt = false;
    std::vector<std::unique_ptr<Thread>> threads;
    int current = 0;
    std::map<void*, int> mutexOwner;
    std::map<void*, int> mutexDepth; // of recursive ones, beyond the first
    std::map<void*, int> readers;    // of reader-writer locks
    std::map<int, Sock> sockets;
    std::map<int, uint64_t> events;
    std::map<int, Epoll> epolls;
    std::vector<InFlight> flying;
    int nextFd = 1000;
    uint64_t nextId = 0;
    uint64_t nextOrder = 0;
    uint64_t switches = 0;
};

World* W = nullptr;
thread_local Thread* tSelf = nullptr;

void futexWait(std::atomic<uint32_t>& a, uint32_t v)
{
    syscall(SYS_futex, reinterpret_cast<uint32_t*>(&a), FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
}

void futexWake(std::atomic<uint32_t>& a)
{
    syscall(SYS_futex, reinterpret_cast<uint32_t*>(&a), FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

void handTo(Thread& t)
{
    t.token.store(1);
    futexWake(t.token);
}

void takeToken(Thread& t)
{
    while (t.token.load() == 0) {
        futexWait(t.token, 0);
    }
    t.token.store(0);
}

// Move datagrams which have arrived to their sockets
void arrive()
{
    const auto now = env::nowUs();
    // In order of arrival, then of sending
    while (true) {
        size_t best = W->flying.size();
        for (size_t i = 0; i < W->flying.size(); i += 1) {
            const auto& f = W->flying[i];
            if (f.arriveUs <= now && (best == W->flying.size() || f.arriveUs < W->flying[best].arriveUs ||
                                      (f.arriveUs == W->flying[best].arriveUs && f.order < W->flying[best].order))) {
                best = i;
            }
        }
        if (best == W->flying.size()) {
            break;
        }
        auto f = std::move(W->flying[best]);
        W->flying.erase(W->flying.begin() + static_cast<long>(best));
        for (auto& kv : W->sockets) {
            if (kv.second.local == f.to) {
                kv.second.queue.emplace_back(f.from, std::move(f.data));
                break;
            }
        }
    }
}

bool epollReady(int ep)
{
    const auto it = W->epolls.find(ep);
    if (it == W->epolls.end()) {
        return true; // EBADF, let it run
    }
    for (const auto& item : it->second.items) {
        if (const auto e = W->events.find(item.fd); e != W->events.end() && e->second > 0) {
            return true;
        }
        if (const auto s = W->sockets.find(item.fd); s != W->sockets.end() && !s->second.queue.empty()) {
            return true;
        }
    }
    return false;
}

bool enabled(Thread& t)
{
    const auto expired = t.deadline >= 0 && t.deadline <= env::nowUs();
    switch (t.why) {
    case Why::Running:
        return true;
    case Why::Mutex:
        return W->mutexOwner.find(t.object) == W->mutexOwner.end() && W->readers.find(t.object) == W->readers.end();
    case Why::Shared:
        return W->mutexOwner.find(t.object) == W->mutexOwner.end();
    case Why::Cond:
        return t.notified || expired;
    case Why::Epoll:
        return expired || epollReady(t.epoll);
    case Why::Join:
        return W->threads[static_cast<size_t>(t.joinTarget)]->why == Why::Finished;
    case Why::Pred:
        return expired || (t.pred && (*t.pred)());
    case Why::Finished:
        return false;
    }
    return false;
}

const char* name(Why w)
{
    switch (w) {
    case Why::Running:
        return "running";
    case Why::Mutex:
    case Why::Shared:
        return "waiting for a mutex";
    case Why::Cond:
        return "waiting on a condition variable";
    case Why::Epoll:
        return "waiting in epoll";
    case Why::Join:
        return "joining a thread";
    case Why::Pred:
        return "waiting (harness)";
    case Why::Finished:
        return "finished";
    }
    return "?";
}

std::vector<Thread*> enabledThreads(int after)
{
    std::vector<Thread*> r;
    const auto n = static_cast<int>(W->threads.size());
    for (int k = 1; k <= n; k += 1) {
        auto& t = *W->threads[static_cast<size_t>((after + k) % n)];
        if (enabled(t)) {
            r.push_back(&t);
        }
    }
    return r;
}

// The calling thread cannot go on (its state says why) or has ended: run another, return when it has the token again
void reschedule()
{
    auto& me = *tSelf;
    Thread* next = nullptr;
    arrive();
    while (true) {
        const auto list = enabledThreads(me.id);
        if (!list.empty()) {
            size_t k = 0;
            if (list.size() > 1 && W->preempt) {
                if (W->config.chooseOnBlock) {
                    k = static_cast<size_t>(W->ctx->choose(static_cast<int>(list.size()), "next"));
                } else if (W->config.chooseOnBlockCosts) {
                    k = static_cast<size_t>(W->ctx->deviate(static_cast<int>(list.size()), "next"));
                }
            }
            next = list[k];
            break;
        }
        // Let the time pass
        int64_t at = INT64_MAX;
        for (const auto& t : W->threads) {
            if (t->why != Why::Finished && t->deadline >= 0 && t->deadline < at) {
                at = t->deadline;
            }
        }
        for (const auto& f : W->flying) {
            if (f.arriveUs < at) {
                at = f.arriveUs;
            }
        }
        if (at == INT64_MAX) {
            std::string s;
            for (const auto& t : W->threads) {
                if (t->why != Why::Finished) {
                    s += " thread " + std::to_string(t->id) + " " + name(t->why) + ";";
                }
            }
            W->ctx->violation("deadlock", "deadlock:%s", s.c_str());
            _exit(66);
        }
        if (at > env::nowUs()) {
            env::setUs(at);
        }
        arrive();
    }
    if (next != &me) {
        W->switches += 1;
        W->current = next->id;
        const auto finished = me.why == Why::Finished;
        handTo(*next);
        if (finished) {
            return;
        }
        takeToken(me);
    }
    me.timedOut = me.deadline >= 0 && me.deadline <= env::nowUs();
    me.why = Why::Running;
    me.deadline = -1;
}

void block(Why why)
{
    tSelf->why = why;
    reschedule();
}

void preemptPoint(const char* what)
{
    if (!W || !tSelf || !W->preempt || W->ctx->budget() <= 0) {
        return;
    }
    arrive();
    auto list = enabledThreads(tSelf->id);
    for (size_t i = 0; i < list.size(); i += 1) {
        if (list[i] == tSelf) {
            list.erase(list.begin() + static_cast<long>(i));
            break;
        }
    }
    if (list.empty()) {
        return;
    }
    const auto k = W->ctx->deviate(static_cast<int>(list.size()) + 1, what);
    if (k > 0) {
        auto& me = *tSelf;
        auto& next = *list[static_cast<size_t>(k - 1)];
        W->ctx->log("    [%d] preempted at %s, thread %d goes on", me.id, what, next.id);
        W->switches += 1;
        W->current = next.id;
        handTo(next);
        takeToken(me);
    }
}

bool controlled()
{
    return W != nullptr && tSelf != nullptr;
}

Addr fromSockaddr(const struct sockaddr* sa)
{
    Addr a;
    if (sa->sa_family == AF_INET) {
        const auto in = reinterpret_cast<const struct sockaddr_in*>(sa);
        a.push_back(4);
        a.append(reinterpret_cast<const char*>(&in->sin_port), 2);
        a.append(reinterpret_cast<const char*>(&in->sin_addr), 4);
    } else if (sa->sa_family == AF_INET6) {
        const auto in = reinterpret_cast<const struct sockaddr_in6*>(sa);
        a.push_back(6);
        a.append(reinterpret_cast<const char*>(&in->sin6_port), 2);
        a.append(reinterpret_cast<const char*>(&in->sin6_addr), 16);
    }
    return a;
}

void toSockaddr(const Addr& a, struct sockaddr* out, socklen_t* len)
{
    if (a.size() == 7) {
        struct sockaddr_in in = {};
        in.sin_family = AF_INET;
        memcpy(&in.sin_port, a.data() + 1, 2);
        memcpy(&in.sin_addr, a.data() + 3, 4);
        const auto n = std::min(static_cast<size_t>(*len), sizeof(in));
        memcpy(out, &in, n);
        *len = sizeof(in);
    } else if (a.size() == 19) {
        struct sockaddr_in6 in = {};
        in.sin6_family = AF_INET6;
        memcpy(&in.sin6_port, a.data() + 1, 2);
        memcpy(&in.sin6_addr, a.data() + 3, 16);
        const auto n = std::min(static_cast<size_t>(*len), sizeof(in));
        memcpy(out, &in, n);
        *len = sizeof(in);
    }
}

void transmit(const Addr& from, const Addr& to, const void* data, size_t size)
{
    Datagram d;
    W->nextId += 1;
    d.id = W->nextId;
    d.from = from;
    d.to = to;
    d.data.assign(static_cast<const uint8_t*>(data), static_cast<const uint8_t*>(data) + size);
    d.sentUs = env::nowUs();
    if (W->config.tap) {
        W->config.tap(d);
    }
    std::vector<int64_t> delays = { W->config.latencyUs };
    if (W->config.fate) {
        delays = W->config.fate(d);
    }
    for (const auto delay : delays) {
        W->nextOrder += 1;
        W->flying.push_back({ W->nextOrder, d.sentUs + delay, d.from, d.to, d.data });
    }
}

// Randomness of OpenSSL
uint64_t gRandState = 1;

int randBytes(unsigned char* buf, int num)
{
    for (int i = 0; i < num; i += 1) {
        gRandState += 0x9e3779b97f4a7c15ull;
        auto z = gRandState;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        buf[i] = static_cast<unsigned char>((z ^ (z >> 31)) >> 24);
    }
    return 1;
}

int randStatus()
{
    return 1;
}

RAND_METHOD gRandMethod = { nullptr, randBytes, nullptr, nullptr, randBytes, randStatus };

} // namespace

Addr addr(const char* ip, uint16_t port)
{
    struct sockaddr_storage ss = {};
    if (strchr(ip, ':')) {
        const auto in = reinterpret_cast<struct sockaddr_in6*>(&ss);
        in->sin6_family = AF_INET6;
        in->sin6_port = htons(port);
        inet_pton(AF_INET6, ip, &in->sin6_addr);
    } else {
        const auto in = reinterpret_cast<struct sockaddr_in*>(&ss);
        in->sin_family = AF_INET;
        in->sin_port = htons(port);
        inet_pton(AF_INET, ip, &in->sin_addr);
    }
    return fromSockaddr(reinterpret_cast<struct sockaddr*>(&ss));
}

std::string show(const Addr& a)
{
    char buf[100] = "?";
    uint16_t port = 0;
    if (a.size() >= 7) {
        memcpy(&port, a.data() + 1, 2);
        inet_ntop(a.size() == 7 ? AF_INET : AF_INET6, a.data() + 3, buf, sizeof(buf));
    }
    return std::string(buf) + ":" + std::to_string(ntohs(port));
}

void begin(mc::Ctx& ctx, const Config& config)
{
    const Quiet quiet;
    RAND_set_rand_method(&gRandMethod);
    gRandState = 0x1234567ull + ctx.seed();
    W = new World();
    W->ctx = &ctx;
    W->config = config;
    auto t = std::make_unique<Thread>();
    t->handle = pthread_self();
    t->haveHandle = true;
    tSelf = t.get();
    W->threads.push_back(std::move(t));
}

void end()
{
    const Quiet quiet;
    if (!W) {
        return;
    }
    W->preempt = false;
    if (liveThreads() > 0) {
        W->ctx->violation("thread-left", "%d threads are left at the end", liveThreads());
        _exit(66);
    }
    tSelf = nullptr;
    delete W;
    W = nullptr;
}

int liveThreads()
{
    int n = 0;
    for (const auto& t : W->threads) {
        n += t->id != 0 && t->why != Why::Finished;
    }
    return n;
}

bool active()
{
    return W != nullptr;
}

int self()
{
    return tSelf ? tSelf->id : -1;
}

void preemptions(bool on)
{
    const Quiet quiet;
    W->preempt = on && (W->config.preempt || W->config.chooseOnBlock || W->config.chooseOnBlockCosts);
}

void sleepUs(int64_t us)
{
    waitFor({}, us);
}

bool waitFor(const std::function<bool()>& pred, int64_t timeoutUs)
{
    const Quiet quiet;
    if (pred && pred()) {
        return true;
    }
    tSelf->deadline = timeoutUs < 0 ? -1 : env::nowUs() + timeoutUs;
    tSelf->pred = pred ? &pred : nullptr;
    block(Why::Pred);
    tSelf->pred = nullptr;
    return pred && pred();
}

void point(const char* what)
{
    const Quiet quiet;
    preemptPoint(what);
}

int openEndpoint(const Addr& local)
{
    const auto fd = W->nextFd;
    W->nextFd += 1;
    auto& s = W->sockets[fd];
    s.isEndpoint = true;
    s.local = local;
    return fd;
}

bool ready(int ep)
{
    return !W->sockets[ep].queue.empty();
}

bool receive(int ep, Bytes& data, Addr& from)
{
    auto& s = W->sockets[ep];
    if (s.queue.empty()) {
        return false;
    }
    from = s.queue.front().first;
    data = std::move(s.queue.front().second);
    s.queue.pop_front();
    return true;
}

void send(int ep, const Addr& to, const Bytes& data)
{
    transmit(W->sockets[ep].local, to, data.data(), data.size());
}

void inject(const Addr& from, const Addr& to, const Bytes& data, int64_t delayUs)
{
    W->nextOrder += 1;
    W->flying.push_back({ W->nextOrder, env::nowUs() + delayUs, from, to, data });
}

void closeEndpoint(int ep)
{
    W->sockets.erase(ep);
}

int openSockets()
{
    int n = 0;
    for (const auto& kv : W->sockets) {
        n += kv.second.isEndpoint ? 0 : 1;
    }
    return n + static_cast<int>(W->events.size()) + static_cast<int>(W->epolls.size());
}

uint64_t sentCount()
{
    return W->nextId;
}

uint64_t switchCount()
{
    return W->switches;
}

namespace
{

void threadBegin(Thread* t)
{
    const Quiet quiet;
    tSelf = t;
    takeToken(*t);
}

void threadEnd()
{
    const Quiet quiet;
    auto& me = *tSelf;
    me.why = Why::Finished;
    reschedule();
    tSelf = nullptr;
}

struct WrappedState : public std::thread::_State {
    std::unique_ptr<std::thread::_State> original;
    Thread* thread = nullptr;

    void _M_run() override
    {
        threadBegin(thread);
        original->_M_run();
        original.reset();
        threadEnd();
    }
};

} // namespace

} // namespace sim

using namespace sim;

extern "C"
{

// ----- Threads

void __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(
    std::thread* self, std::unique_ptr<std::thread::_State>* state, void (*depend)());

void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(
    std::thread* self, std::unique_ptr<std::thread::_State>* state, void (*depend)())
{
    const Quiet quiet;
    if (!controlled()) {
        __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(
            self, state, depend);
        return;
    }
    auto t = std::make_unique<Thread>();
    const auto raw = t.get();
    t->id = static_cast<int>(W->threads.size());
    W->threads.push_back(std::move(t));
    auto wrapped = new WrappedState();
    wrapped->original = std::move(*state);
    wrapped->thread = raw;
    std::unique_ptr<std::thread::_State> w(wrapped);
    __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(self, &w, depend);
    raw->handle = self->native_handle();
    raw->haveHandle = true;
    preemptPoint("thread start");
}

void __real__ZNSt6thread4joinEv(std::thread* self);

void __wrap__ZNSt6thread4joinEv(std::thread* self)
{
    const Quiet quiet;
    if (controlled() && self->joinable()) {
        preemptPoint("join");
        const auto h = self->native_handle();
        for (const auto& t : W->threads) {
            if (t->haveHandle && pthread_equal(t->handle, h) && t.get() != tSelf) {
                // Handles of ended threads may be used again, the latest counts
                tSelf->joinTarget = t->id;
            }
        }
        if (pthread_equal(h, pthread_self())) {
            W->ctx->violation("self-join", "a thread joins itself");
        }
        block(Why::Join);
    }
    __real__ZNSt6thread4joinEv(self);
}

// ----- Mutexes

int __real_pthread_mutex_lock(pthread_mutex_t* m);
int __real_pthread_mutex_unlock(pthread_mutex_t* m);
int __real_pthread_mutex_trylock(pthread_mutex_t* m);

static void modelLock(pthread_mutex_t* m)
{
    const auto it = W->mutexOwner.find(m);
    if (it != W->mutexOwner.end()) {
        if (it->second == tSelf->id) {
            if (m->__data.__kind & PTHREAD_MUTEX_RECURSIVE_NP) {
                W->mutexDepth[m] += 1;
                return;
            }
            W->ctx->violation("relock", "a thread locks a mutex it already holds");
            _exit(66);
        }
        tSelf->object = m;
        block(Why::Mutex);
    }
    W->mutexOwner[m] = tSelf->id;
}

int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    const Quiet quiet;
    if (!controlled()) {
        return __real_pthread_mutex_lock(m);
    }
    preemptPoint("lock");
    modelLock(m);
    return __real_pthread_mutex_lock(m);
}

int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    const Quiet quiet;
    if (!controlled()) {
        return __real_pthread_mutex_unlock(m);
    }
    const auto r = __real_pthread_mutex_unlock(m);
    if (const auto it = W->mutexDepth.find(m); it != W->mutexDepth.end()) {
        it->second -= 1;
        if (it->second == 0) {
            W->mutexDepth.erase(it);
        }
        return r;
    }
    W->mutexOwner.erase(m);
    preemptPoint("unlock");
    return r;
}

int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    const Quiet quiet;
    if (!controlled()) {
        return __real_pthread_mutex_trylock(m);
    }
    preemptPoint("trylock");
    if (const auto it = W->mutexOwner.find(m); it != W->mutexOwner.end()) {
        if (it->second != tSelf->id || (m->__data.__kind & PTHREAD_MUTEX_RECURSIVE_NP) == 0) {
            return EBUSY;
        }
        W->mutexDepth[m] += 1;
    }
    W->mutexOwner[m] = tSelf->id;
    return __real_pthread_mutex_trylock(m);
}

// ----- Reader-writer locks

int __real_pthread_rwlock_rdlock(pthread_rwlock_t* m);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t* m);
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t* m);
int __real_pthread_rwlock_trywrlock(pthread_rwlock_t* m);
int __real_pthread_rwlock_unlock(pthread_rwlock_t* m);

static bool known(pthread_rwlock_t* m)
{
    return W->mutexOwner.find(m) != W->mutexOwner.end() || W->readers.find(m) != W->readers.end();
}

int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    const Quiet quiet;
    if (!controlled()) {
        return __real_pthread_rwlock_rdlock(m);
    }
    preemptPoint("shared lock");
    if (const auto it = W->mutexOwner.find(m); it != W->mutexOwner.end()) {
        if (it->second == tSelf->id) {
            W->ctx->violation("relock", "a thread locks a mutex it already holds");
            _exit(66);
        }
        tSelf->object = m;
        block(Why::Shared);
    }
    W->readers[m] += 1;
    return __real_pthread_rwlock_rdlock(m);
}

int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    const Quiet quiet;
    if (!controlled()) {
        return __real_pthread_rwlock_wrlock(m);
    }
    preemptPoint("lock");
    if (known(m)) {
        const auto it = W->mutexOwner.find(m);
        if (it != W->mutexOwner.end() && it->second == tSelf->id) {
            W->ctx->violation("relock", "a thread locks a mutex it already holds");
            _exit(66);
        }
        tSelf->object = m;
        block(Why::Mutex);
    }
    W->mutexOwner[m] = tSelf->id;
    return __real_pthread_rwlock_wrlock(m);
}

int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
    const Quiet quiet;
    if (!controlled()) {
        return __real_pthread_rwlock_tryrdlock(m);
    }
    preemptPoint("try shared lock");
    if (W->mutexOwner.find(m) != W->mutexOwner.end()) {
        return EBUSY;
    }
    W->readers[m] += 1;
    return __real_pthread_rwlock_tryrdlock(m);
}

int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
    const Quiet quiet;
    if (!controlled()) {
        return __real_pthread_rwlock_trywrlock(m);
    }
    preemptPoint("trylock");
    if (known(m)) {
        return EBUSY;
    }
    W->mutexOwner[m] = tSelf->id;
    return __real_pthread_rwlock_trywrlock(m);
}

int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    const Quiet quiet;
    if (!controlled()) {
        return __real_pthread_rwlock_unlock(m);
    }
    const auto r = __real_pthread_rwlock_unlock(m);
    if (const auto it = W->readers.find(m); it != W->readers.end()) {
        it->second -= 1;
        if (it->second == 0) {
            W->readers.erase(it);
        }
    } else {
        W->mutexOwner.erase(m);
    }
    preemptPoint("unlock");
    return r;
}

// ----- Condition variables

static bool modelCondWait(void* c, pthread_mutex_t* m, int64_t deadlineUs)
{
    __real_pthread_mutex_unlock(m);
    W->mutexOwner.erase(m);
    tSelf->object = c;
    tSelf->notified = false;
    tSelf->deadline = deadlineUs;
    block(Why::Cond);
    const auto notified = tSelf->notified;
    tSelf->notified = false;
    tSelf->object = nullptr;
    modelLock(m);
    __real_pthread_mutex_lock(m);
    return notified;
}

void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable* self,
                                                                     std::unique_lock<std::mutex>& lock);

void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable* self,
                                                                     std::unique_lock<std::mutex>& lock)
{
    const Quiet quiet;
    if (!controlled()) {
        __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(self, lock);
        return;
    }
    preemptPoint("wait");
    modelCondWait(self->native_handle(), lock.mutex()->native_handle(), -1);
}

int __real_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* ts);

int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* ts)
{
    const Quiet quiet;
    if (!controlled()) {
        return __real_pthread_cond_clockwait(c, m, id, ts);
    }
    struct timespec now = {};
    clock_gettime(id, &now);
    // Rounded up to a microsecond
    const auto ns = (ts->tv_sec - now.tv_sec) * 1000000000ll + ts->tv_nsec - now.tv_nsec;
    const auto us = ns <= 0 ? 0 : (ns + 999) / 1000;
    preemptPoint("timed wait");
    return modelCondWait(c, m, env::nowUs() + us) ? 0 : ETIMEDOUT;
}

int __real_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts);

int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    const Quiet quiet;
    if (!controlled()) {
        return __real_pthread_cond_timedwait(c, m, ts);
    }
    return __wrap_pthread_cond_clockwait(c, m, CLOCK_REALTIME, ts);
}

static void modelNotify(void* c, bool all)
{
    // The longest waiting first: thread ids are as good an order as any, all are explored by chooseOnBlock
    for (const auto& t : W->threads) {
        if (t->why == Why::Cond && t->object == c && !t->notified) {
            t->notified = true;
            if (!all) {
                break;
            }
        }
    }
}

void __real__ZNSt18condition_variable10notify_oneEv(std::condition_variable* self);

void __wrap__ZNSt18condition_variable10notify_oneEv(std::condition_variable* self)
{
    const Quiet quiet;
    if (!controlled()) {
        __real__ZNSt18condition_variable10notify_oneEv(self);
        return;
    }
    preemptPoint("notify");
    modelNotify(self->native_handle(), false);
}

void __real__ZNSt18condition_variable10notify_allEv(std::condition_variable* self);

void __wrap__ZNSt18condition_variable10notify_allEv(std::condition_variable* self)
{
    const Quiet quiet;
    if (!controlled()) {
        __real__ZNSt18condition_variable10notify_allEv(self);
        return;
    }
    preemptPoint("notify all");
    modelNotify(self->native_handle(), true);
}

// ----- Sockets

int __real_socket(int domain, int type, int protocol);

int __wrap_socket(int domain, int type, int protocol)
{
    const Quiet quiet;
    if (!controlled()) {
        return __real_socket(domain, type, protocol);
    }
    const auto fd = W->nextFd;
    W->nextFd += 1;
    W->sockets[fd] = {};
    return fd;
}

int __wrap_fcntl(int fd, int cmd, ...)
{
    const Quiet quiet;
    (void)fd;
    (void)cmd;
    return 0;
}

int __real_close(int fd);

int __wrap_close(int fd)
{
    const Quiet quiet;
    if (!controlled() || fd < 1000) {
        return __real_close(fd);
    }
    const auto n = W->sockets.erase(fd) + W->events.erase(fd) + W->epolls.erase(fd);
    if (n != 1) {
        W->ctx->violation("close", "a descriptor which is not open is closed");
        _exit(66);
    }
    // Closing removes the descriptor from the epoll sets
    for (auto& kv : W->epolls) {
        auto& items = kv.second.items;
        for (size_t i = 0; i < items.size(); i += 1) {
            if (items[i].fd == fd) {
                items.erase(items.begin() + static_cast<long>(i));
                break;
            }
        }
    }
    return 0;
}

ssize_t __wrap_sendto(int fd, const void* buf, size_t n, int, const struct sockaddr* to, socklen_t)
{
    const Quiet quiet;
    preemptPoint("send");
    const auto it = W->sockets.find(fd);
    if (it == W->sockets.end()) {
        errno = EBADF;
        return -1;
    }
    const auto dst = fromSockaddr(to);
    if (it->second.local.empty()) {
        for (const auto& l : W->config.links) {
            if (l.second == dst) {
                it->second.local = l.first;
            }
        }
    }
    if (it->second.local.empty()) {
        return static_cast<ssize_t>(n); // goes nowhere
    }
    transmit(it->second.local, dst, buf, n);
    return static_cast<ssize_t>(n);
}

ssize_t __wrap_recvfrom(int fd, void* buf, size_t n, int, struct sockaddr* from, socklen_t* fromLen)
{
    const Quiet quiet;
    const auto it = W->sockets.find(fd);
    if (it == W->sockets.end()) {
        errno = EBADF;
        return -1;
    }
    arrive();
    auto& q = it->second.queue;
    if (q.empty()) {
        errno = EAGAIN;
        return -1;
    }
    const auto [src, data] = std::move(q.front());
    q.pop_front();
    const auto r = std::min(n, data.size());
    memcpy(buf, data.data(), r);
    toSockaddr(src, from, fromLen);
    return static_cast<ssize_t>(r);
}

// ----- Epoll and eventfd

int __wrap_epoll_create(int);

int __wrap_epoll_create1(int)
{
    return __wrap_epoll_create(1);
}

int __wrap_epoll_create(int)
{
    const Quiet quiet;
    const auto fd = W->nextFd;
    W->nextFd += 1;
    W->epolls[fd] = {};
    return fd;
}

int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event* ev)
{
    const Quiet quiet;
    auto& items = W->epolls[ep].items;
    for (size_t i = 0; i < items.size(); i += 1) {
        if (items[i].fd == fd) {
            if (op == EPOLL_CTL_DEL) {
                items.erase(items.begin() + static_cast<long>(i));
                return 0;
            }
            errno = EEXIST;
            return -1;
        }
    }
    if (op == EPOLL_CTL_DEL) {
        errno = ENOENT;
        return -1;
    }
    items.push_back({ fd, *ev });
    return 0;
}

int __wrap_epoll_wait(int ep, struct epoll_event* out, int max, int timeout)
{
    const Quiet quiet;
    preemptPoint("epoll");
    arrive();
    if (!epollReady(ep)) {
        // A poll which finds nothing takes a little time, or the time would stand still
        tSelf->deadline = timeout < 0 ? -1 : env::nowUs() + (timeout == 0 ? 200 : timeout * 1000ll);
        tSelf->epoll = ep;
        block(Why::Epoll);
    } else if (!W->preempt) {
        // Give the others a chance
        tSelf->epoll = ep;
        block(Why::Epoll);
    }
    int n = 0;
    for (const auto& item : W->epolls[ep].items) {
        bool r = false;
        if (const auto e = W->events.find(item.fd); e != W->events.end() && e->second > 0) {
            r = true;
        }
        if (const auto s = W->sockets.find(item.fd); s != W->sockets.end() && !s->second.queue.empty()) {
            r = true;
        }
        if (r && n < max) {
            syncAcquire(item.fd);
            out[n] = item.ev;
            out[n].events = EPOLLIN;
            n += 1;
        }
    }
    return n;
}

int __wrap_eventfd(unsigned int init, int)
{
    const Quiet quiet;
    const auto fd = W->nextFd;
    W->nextFd += 1;
    W->events[fd] = init;
    return fd;
}

int __wrap_eventfd_read(int fd, eventfd_t* value)
{
    const Quiet quiet;
    const auto it = W->events.find(fd);
    if (it == W->events.end() || it->second == 0) {
        errno = EAGAIN;
        return -1;
    }
    *value = it->second;
    it->second = 0;
    return 0;
}

int __wrap_eventfd_write(int fd, eventfd_t value)
{
    const Quiet quiet;
    preemptPoint("wake up");
    const auto it = W->events.find(fd);
    if (it == W->events.end()) {
        W->ctx->violation("eventfd", "a closed event descriptor is written to");
        _exit(66);
    }
    it->second += value;
    syncRelease(fd);
    return 0;
}

// ----- Time, as OpenSSL sees it

int gettimeofday(struct timeval* tv, void*) noexcept
{
    struct timespec ts = {};
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

time_t time(time_t* t) noexcept
{
    struct timespec ts = {};
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) {
        *t = ts.tv_sec;
    }
    return ts.tv_sec;
}

} // extern "C"
