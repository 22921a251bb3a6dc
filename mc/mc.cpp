#include "mc.h"

#include <atomic>
#include <cerrno>
#include <cinttypes>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

// Must not go through the interposed clocks of the harness
static double wallNow()
{
    timespec ts = {};
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return static_cast<double>(ts.tv_sec) + static_cast<double>(ts.tv_nsec) / 1e9;
}

static void rawSleepMs(int ms)
{
    timespec ts = { ms / 1000, (ms % 1000) * 1000000L };
    syscall(SYS_nanosleep, &ts, nullptr);
}

namespace mc
{

void (*beforeFork)() = nullptr;

uint64_t hash_bytes(const void* p, size_t n, uint64_t h)
{
    const auto b = static_cast<const uint8_t*>(p);
    for (size_t i = 0; i < n; i += 1) {
        h ^= b[i];
        h *= 1099511628211ull;
    }
    return h;
}

namespace
{

constexpr int kMaxPoints = 1 << 16;
constexpr size_t kSetBits = 24;
constexpr size_t kSetSize = 1u << kSetBits;
constexpr int kMaxWorkers = 32;
constexpr int kMaxSamples = 4;
constexpr size_t kSampleSize = 4000;
constexpr int kMaxKnown = 64;

struct HashSet {
    std::atomic<uint64_t> count;
    std::atomic<uint64_t> full;
    std::atomic<uint64_t> slot[kSetSize];

    void insert(uint64_t h)
    {
        if (h == 0) {
            h = 1;
        }
        if (count.load(std::memory_order_relaxed) > kSetSize * 3 / 4) {
            full.store(1);
            return;
        }
        auto i = (h * 0x9e3779b97f4a7c15ull) >> (64 - kSetBits);
        while (true) {
            auto v = slot[i].load(std::memory_order_relaxed);
            if (v == h) {
                return;
            }
            if (v == 0) {
                uint64_t zero = 0;
                if (slot[i].compare_exchange_strong(zero, h)) {
                    count.fetch_add(1);
                    return;
                }
                if (zero == h) {
                    return;
                }
            }
            i = (i + 1) & (kSetSize - 1);
        }
    }
};

struct WorkerSlot {
    std::atomic<int> state; // 0 idle, 1 running, 2 done, 3 violation
    std::atomic<uint64_t> serial;
    std::atomic<double> startedAt; // of the current execution
    uint64_t executions;
    uint64_t transitions;
    uint64_t abandoned;
    uint64_t points;
    uint64_t maxPoints;
    int capped;
    int nTrace;
    int trace[kMaxPoints];
    char key[128];
    char message[3000];
};

struct Known {
    char key[128];
    std::atomic<uint64_t> hits;
};

struct Shared {
    HashSet states;
    HashSet outcomes;
    std::atomic<int> stop;
    std::atomic<int> nSamples;
    char samples[kMaxSamples][kSampleSize];
    int nKnown;
    Known known[kMaxKnown];
    WorkerSlot worker[kMaxWorkers];
};

Shared* gShared;
std::vector<Scenario> gScenarios;
std::string gProperty;
bool gThorough;
bool gVerbose;
uint64_t gSeed = 1;
int gJobs = 8;
double gDeadline = 0;

// The state of the execution that is running in this process

struct Point {
    int n;
    int cost; // of a non-zero choice
    int chosen;
};

WorkerSlot* gSlot;
std::vector<int> gPrefix;
std::vector<Point> gPoints;
int gSpent;
int gBound;
bool gCount;
bool gKeepLog;
std::string gLog;
uint64_t gSerial;

// Not through a sanitizer's own idea of an exit
[[noreturn]] void hardExit(int code)
{
    while (true) {
        syscall(SYS_exit_group, code);
    }
}

[[noreturn]] void die(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vfprintf(stderr, fmt, ap);
    va_end(ap);
    fprintf(stderr, "\n");
    fflush(stderr);
    hardExit(70);
}

int chooseImpl(int n, int cost, const char* what)
{
    if (n <= 0) {
        die("mc: choose(%d) at %s", n, what);
    }
    const auto idx = gPoints.size();
    if (idx >= kMaxPoints) {
        die("mc: too many choice points at %s", what);
    }
    int c = 0;
    if (idx < gPrefix.size()) {
        c = gPrefix[idx];
        if (c >= n) {
            die("mc: replay diverged at point %zu (%s): choice %d of %d", idx, what, c, n);
        }
    }
    gPoints.push_back({ n, cost, c });
    if (c) {
        gSpent += cost;
    }
    gSlot->trace[idx] = c;
    gSlot->nTrace = static_cast<int>(idx) + 1;
    if (gKeepLog) {
        if (c || (n > 1 && gVerbose)) {
            char buf[200];
            snprintf(buf, sizeof(buf), "  choice %zu: %s = %d of %d\n", idx, what, c, n);
            gLog += buf;
        }
    }
    if (gVerbose && c) {
        printf("choice %zu: %s = %d of %d\n", idx, what, c, n);
    }
    return c;
}

} // namespace

int Ctx::choose(int n, const char* what)
{
    return chooseImpl(n, 0, what);
}

int Ctx::deviate(int n, const char* what)
{
    return chooseImpl(n, 1, what);
}

int Ctx::deviateCost(int n, int cost, const char* what)
{
    return chooseImpl(n, cost, what);
}

int Ctx::budget() const
{
    return gBound - gSpent;
}

void Ctx::step(int n)
{
    if (gCount) {
        gSlot->transitions += static_cast<uint64_t>(n);
    }
}

void Ctx::state(uint64_t h)
{
    gShared->states.insert(h);
}

void Ctx::outcome(uint64_t h)
{
    gShared->outcomes.insert(h);
}

void Ctx::log(const char* fmt, ...)
{
    if (!gKeepLog && !gVerbose) {
        return;
    }
    char buf[2000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    if (gKeepLog && gLog.size() < 200000) {
        gLog += "  ";
        gLog += buf;
        gLog += "\n";
    }
    if (gVerbose) {
        printf("%s\n", buf);
        fflush(stdout);
    }
}

void Ctx::report(const char* key, const char* fmt, va_list ap)
{
    for (int i = 0; i < gShared->nKnown; i += 1) {
        if (strcmp(gShared->known[i].key, key) == 0) {
            gShared->known[i].hits += 1;
            throw Abandon();
        }
    }
    snprintf(gSlot->key, sizeof(gSlot->key), "%s", key);
    vsnprintf(gSlot->message, sizeof(gSlot->message), fmt, ap);
    gSlot->state = 3;
    if (gVerbose) {
        printf("VIOLATED [%s] %s\n", key, gSlot->message);
        fflush(stdout);
    }
    fflush(stderr);
    hardExit(66);
}

bool Ctx::tolerate(const char* prop, const char* key)
{
    if (gProperty != prop) {
        return true;
    }
    for (int i = 0; i < gShared->nKnown; i += 1) {
        if (strcmp(gShared->known[i].key, key) == 0) {
            gShared->known[i].hits += 1;
            return true;
        }
    }
    return false;
}

void Ctx::check(bool cond, const char* prop, const char* key, const char* fmt, ...)
{
    if (cond || gProperty != prop) {
        return;
    }
    va_list ap;
    va_start(ap, fmt);
    report(key, fmt, ap);
    va_end(ap);
}

void Ctx::violation(const char* key, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    report(key, fmt, ap);
    va_end(ap);
}

void Ctx::abandon()
{
    throw Abandon();
}

bool Ctx::thorough() const
{
    return gThorough;
}

const char* Ctx::property() const
{
    return gProperty.c_str();
}

uint64_t Ctx::seed() const
{
    return gSeed;
}

bool Ctx::verbose() const
{
    return gVerbose;
}

uint64_t Ctx::serial() const
{
    return gSerial;
}

void add(const std::string& name,
         const std::vector<std::string>& props,
         int quickBound,
         int thoroughBound,
         const std::function<void(Ctx&)>& fn,
         bool thoroughOnly,
         int hangSeconds)
{
    gScenarios.push_back({ name, props, quickBound, thoroughBound, fn, thoroughOnly, hangSeconds });
}

namespace
{

void runOne(const Scenario& s, const std::vector<int>& prefix, bool count)
{
    gPrefix = prefix;
    gPoints.clear();
    gSpent = 0;
    gCount = count;
    gLog.clear();
    gKeepLog = count && (gShared->nSamples.load() < kMaxSamples) && (gSerial == 1 || gSerial % 37 == 5 || gVerbose);
    gSlot->nTrace = 0;
    gSlot->startedAt = wallNow();
    gSlot->serial += 1;
    gSerial += 1;
    Ctx c;
    try {
        s.fn(c);
    } catch (const Abandon&) {
        if (count) {
            gSlot->abandoned += 1;
        }
    }
    if (gPoints.size() < gPrefix.size()) {
        die("mc: replay diverged, execution ended after %zu of %zu choices", gPoints.size(), gPrefix.size());
    }
    if (count) {
        gSlot->executions += 1;
        gSlot->points += gPoints.size();
        if (gPoints.size() > gSlot->maxPoints) {
            gSlot->maxPoints = gPoints.size();
        }
        if (gKeepLog && !gLog.empty()) {
            const auto i = gShared->nSamples.fetch_add(1);
            if (i < kMaxSamples) {
                snprintf(gShared->samples[i], kSampleSize, "%s: %s", s.name.c_str(), gLog.c_str());
            }
        }
    }
}

struct Shard {
    int index;
    int count;
};

uint64_t hashPrefix(const std::vector<int>& p)
{
    uint64_t h = 77;
    for (auto v : p) {
        h = mix(h, static_cast<uint64_t>(v) + 1);
    }
    return h;
}

constexpr int kSplitDepth = 2;

void explore(const Scenario& s, const std::vector<int>& prefix, int depth, const Shard& shard)
{
    if (gShared->stop.load() || wallNow() > gDeadline) {
        gSlot->capped = 1;
        return;
    }
    bool count = true;
    if (depth < kSplitDepth) {
        count = shard.index == 0;
    } else if (depth == kSplitDepth) {
        if (static_cast<int>(hashPrefix(prefix) % static_cast<uint64_t>(shard.count)) != shard.index) {
            return;
        }
    }
    runOne(s, prefix, count);

    const auto points = gPoints;
    const auto spent = gSpent;
    std::vector<int> base = prefix;
    base.reserve(points.size() + 1);
    for (auto i = prefix.size(); i < points.size(); i += 1) {
        // base holds the choices before i
        if (points[i].cost == 0 || spent + points[i].cost <= gBound) {
            for (int alt = 1; alt < points[i].n; alt += 1) {
                base.push_back(alt);
                explore(s, base, depth + 1, shard);
                base.pop_back();
            }
        }
        base.push_back(0);
    }
}

std::string jsonEscape(const std::string& s)
{
    std::string r;
    for (const auto ch : s) {
        const auto c = static_cast<unsigned char>(ch);
        if (c == '"' || c == '\\') {
            r += '\\';
            r += ch;
        } else if (c == '\n') {
            r += "\\n";
        } else if (c < 0x20 || c >= 0x7f) {
            char buf[10];
            snprintf(buf, sizeof(buf), "\\u%04x", c);
            r += buf;
        } else {
            r += ch;
        }
    }
    return r;
}

struct Task {
    size_t scenario;
    Shard shard;
};

struct Result {
    std::string name;
    int bound;
    uint64_t executions = 0;
    uint64_t transitions = 0;
    uint64_t abandoned = 0;
    uint64_t points = 0;
    uint64_t maxPoints = 0;
    bool capped = false;
    double wall = 0;
};

struct Failure {
    size_t scenario;
    int bound;
    std::string key;
    std::string message;
    std::string stderrText;
    std::vector<int> trace;
    bool hang = false;
};

std::string readFile(const std::string& path)
{
    std::ifstream f(path);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}

void redirectStderr(const std::string& path)
{
    const auto fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) {
        dup2(fd, 2);
        close(fd);
    }
}

// Runs one trace in a process of its own. Returns 0 ok, 1 failed (violation or crash), 2 hang, 3 harness error
int replayTrace(const Scenario& s,
                int bound,
                const std::vector<int>& trace,
                double limit,
                const std::string& errPath,
                std::string& key,
                std::string& message)
{
    auto slot = &gShared->worker[kMaxWorkers - 1];
    slot->state = 1;
    slot->key[0] = 0;
    slot->message[0] = 0;
    slot->serial = 0;
    fflush(stdout);
    fflush(stderr);
    const auto pid = fork();
    if (pid == 0) {
        if (!errPath.empty()) {
            redirectStderr(errPath);
        }
        gSlot = slot;
        gBound = bound;
        runOne(s, trace, true);
        slot->state = 2;
        fflush(stdout);
        hardExit(0);
    }
    const auto start = wallNow();
    int status = 0;
    while (true) {
        const auto r = waitpid(pid, &status, WNOHANG);
        if (r == pid) {
            break;
        }
        if (wallNow() - start > limit) {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            key = "hang";
            message = "the execution does not end";
            return 2;
        }
        rawSleepMs(2);
    }
    if (slot->state == 3) {
        key = slot->key;
        message = slot->message;
        return 1;
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && slot->state == 2) {
        return 0;
    }
    if (WIFEXITED(status) && WEXITSTATUS(status) == 70) {
        return 3;
    }
    key = "crash";
    char buf[100];
    snprintf(buf, sizeof(buf), "process ended with status 0x%x", status);
    message = buf;
    return 1;
}

std::string crashSummary(const std::string& err)
{
    std::istringstream is(err);
    std::string line, out;
    int n = 0;
    while (std::getline(is, line)) {
        if (line.find("ERROR: ") != std::string::npos || line.find("runtime error") != std::string::npos ||
            line.find("terminate called") != std::string::npos || line.find("what()") != std::string::npos ||
            line.find("Assertion") != std::string::npos || line.find("SUMMARY") != std::string::npos) {
            out += line + " | ";
            n += 1;
        } else if (line.find("    #") == 0 && n < 6 && line.find("srtc") != std::string::npos) {
            out += line.substr(4) + " | ";
            n += 1;
        }
        if (n > 10) {
            break;
        }
    }
    return out;
}

} // namespace

} // namespace mc

using namespace mc;

int main(int argc, char** argv)
{
    std::string statsPath, replayDir = ".", only, replayTraceArg, replayScenario, knownPath, tmpDir = "/tmp";
    double timeCap = 600;
    int boundOverride = -1;
    bool list = false;
    for (int i = 1; i < argc; i += 1) {
        const std::string a = argv[i];
        const auto next = [&]() -> std::string {
            if (i + 1 >= argc) {
                die("missing argument of %s", a.c_str());
            }
            i += 1;
            return argv[i];
        };
        if (a == "--property") {
            gProperty = next();
        } else if (a == "--thorough") {
            gThorough = true;
        } else if (a == "--stats") {
            statsPath = next();
        } else if (a == "--replay-dir") {
            replayDir = next();
        } else if (a == "--tmp-dir") {
            tmpDir = next();
        } else if (a == "--seed") {
            gSeed = strtoull(next().c_str(), nullptr, 10);
        } else if (a == "--jobs") {
            gJobs = atoi(next().c_str());
        } else if (a == "--time-cap") {
            timeCap = atof(next().c_str());
        } else if (a == "--only") {
            only = next();
        } else if (a == "--bound") {
            boundOverride = atoi(next().c_str());
        } else if (a == "--known") {
            knownPath = next();
        } else if (a == "--replay") {
            // scenario:bound:c,c,c
            replayTraceArg = next();
        } else if (a == "--verbose") {
            gVerbose = true;
        } else if (a == "--list") {
            list = true;
        } else {
            die("unknown argument %s", a.c_str());
        }
    }

    gShared = static_cast<Shared*>(
        mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (gShared == MAP_FAILED) {
        die("mmap");
    }

    if (!knownPath.empty()) {
        std::ifstream f(knownPath);
        std::string line;
        while (std::getline(f, line)) {
            // known: property=<id> key=<key> text
            if (line.rfind("known: ", 0) != 0) {
                continue;
            }
            std::istringstream is(line.substr(7));
            std::string p, k;
            is >> p >> k;
            if (p == "property=" + gProperty && k.rfind("key=", 0) == 0 && gShared->nKnown < kMaxKnown) {
                snprintf(gShared->known[gShared->nKnown].key, sizeof(Known::key), "%s", k.c_str() + 4);
                gShared->nKnown += 1;
            }
        }
    }

    registerScenarios(gThorough);

    if (list) {
        for (const auto& s : gScenarios) {
            printf("%s\n", s.name.c_str());
        }
        return 0;
    }

    if (beforeFork) {
        beforeFork();
    }

    const auto boundOf = [&](const Scenario& s) {
        return boundOverride >= 0 ? boundOverride : gThorough ? s.thoroughBound : s.quickBound;
    };

    if (!replayTraceArg.empty()) {
        const auto c1 = replayTraceArg.find(':');
        const auto c2 = replayTraceArg.find(':', c1 + 1);
        if (c1 == std::string::npos || c2 == std::string::npos) {
            die("bad --replay");
        }
        replayScenario = replayTraceArg.substr(0, c1);
        const auto bound = atoi(replayTraceArg.substr(c1 + 1, c2 - c1 - 1).c_str());
        std::vector<int> trace;
        std::istringstream is(replayTraceArg.substr(c2 + 1));
        std::string item;
        while (std::getline(is, item, ',')) {
            trace.push_back(atoi(item.c_str()));
        }
        gVerbose = true;
        for (const auto& s : gScenarios) {
            if (s.name == replayScenario) {
                std::string key, message;
                const auto r = replayTrace(s, bound, trace, s.hangSeconds * 3, "", key, message);
                printf("replay: %s %s %s\n",
                       r == 0   ? "passed"
                       : r == 1 ? "FAILED"
                       : r == 2 ? "HANG"
                                : "harness error",
                       key.c_str(),
                       message.c_str());
                return r == 0 ? 0 : r == 3 ? 3 : 1;
            }
        }
        die("no such scenario");
    }

    std::vector<Task> tasks;
    std::map<size_t, Result> results;
    for (size_t i = 0; i < gScenarios.size(); i += 1) {
        const auto& s = gScenarios[i];
        bool mine = false;
        for (const auto& p : s.props) {
            mine = mine || p == gProperty;
        }
        if (!mine || (s.thoroughOnly && !gThorough) || (!only.empty() && s.name.find(only) == std::string::npos)) {
            continue;
        }
        for (int k = 0; k < gJobs; k += 1) {
            tasks.push_back({ i, { k, gJobs } });
        }
        results[i].name = s.name;
        results[i].bound = boundOf(s);
    }
    if (tasks.empty()) {
        die("no scenario for property %s", gProperty.c_str());
    }

    const auto started = wallNow();
    gDeadline = started + timeCap;

    struct Running {
        pid_t pid = 0;
        Task task = {};
        uint64_t lastSerial = 0;
        double lastChange = 0;
        double start = 0;
        std::string err;
    };
    std::vector<Running> running(static_cast<size_t>(gJobs));
    size_t nextTask = 0;
    std::vector<Failure> failures;
    bool harnessError = false;

    while (true) {
        bool any = false;
        for (int w = 0; w < gJobs; w += 1) {
            auto& r = running[static_cast<size_t>(w)];
            auto& slot = gShared->worker[w];
            if (r.pid) {
                int status = 0;
                const auto wr = waitpid(r.pid, &status, WNOHANG);
                bool ended = wr == r.pid;
                bool hang = false;
                if (!ended) {
                    const auto now = wallNow();
                    const auto serial = slot.serial.load();
                    if (serial != r.lastSerial) {
                        r.lastSerial = serial;
                        r.lastChange = now;
                    } else if (now - r.lastChange > gScenarios[r.task.scenario].hangSeconds) {
                        kill(r.pid, SIGKILL);
                        waitpid(r.pid, &status, 0);
                        ended = true;
                        hang = true;
                    }
                }
                if (ended) {
                    auto& res = results[r.task.scenario];
                    res.executions += slot.executions;
                    res.transitions += slot.transitions;
                    res.abandoned += slot.abandoned;
                    res.points += slot.points;
                    res.maxPoints = std::max(res.maxPoints, slot.maxPoints);
                    res.capped = res.capped || slot.capped;
                    res.wall += wallNow() - r.start;
                    r.pid = 0;
                    const auto st = slot.state.load();
                    if (!hang && st == 2 && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
                        // fine
                    } else if (!hang && WIFEXITED(status) && WEXITSTATUS(status) == 70) {
                        fprintf(stderr, "harness error: %s\n", readFile(r.err).c_str());
                        harnessError = true;
                        gShared->stop = 1;
                    } else {
                        Failure f;
                        f.scenario = r.task.scenario;
                        f.bound = results[r.task.scenario].bound;
                        f.trace.assign(slot.trace, slot.trace + slot.nTrace);
                        f.hang = hang;
                        if (st == 3) {
                            f.key = slot.key;
                            f.message = slot.message;
                        } else if (hang) {
                            f.key = "hang";
                            f.message = "an execution does not end";
                        } else {
                            f.key = "crash";
                            f.stderrText = readFile(r.err);
                            f.message = "crash: " + crashSummary(f.stderrText);
                        }
                        failures.push_back(f);
                        gShared->stop = 1;
                    }
                    unlink(r.err.c_str());
                } else {
                    any = true;
                }
            }
            if (!r.pid && nextTask < tasks.size() && !gShared->stop.load()) {
                r.task = tasks[nextTask];
                nextTask += 1;
                slot.state = 1;
                slot.serial = 0;
                slot.executions = slot.transitions = slot.abandoned = slot.points = slot.maxPoints = 0;
                slot.capped = 0;
                slot.nTrace = 0;
                slot.key[0] = slot.message[0] = 0;
                r.err = tmpDir + "/mc-err-" + std::to_string(getpid()) + "-" + std::to_string(w);
                r.lastSerial = 0;
                r.lastChange = r.start = wallNow();
                fflush(stdout);
                fflush(stderr);
                r.pid = fork();
                if (r.pid == 0) {
                    redirectStderr(r.err);
                    gSlot = &slot;
                    const auto& s = gScenarios[r.task.scenario];
                    gBound = results[r.task.scenario].bound;
                    explore(s, {}, 0, r.task.shard);
                    slot.state = 2;
                    fflush(stdout);
                    hardExit(0);
                }
                any = true;
            }
        }
        if (!any) {
            break;
        }
        rawSleepMs(2);
    }

    int rc = harnessError ? 3 : 0;
    std::string violationsJson;
    int nViolations = 0;

    // Prefer the failure with the fewest deviations, and replay it before reporting
    const auto weight = [](const Failure& f) {
        size_t n = 0;
        for (auto v : f.trace) {
            n += v != 0;
        }
        return n * 100000 + f.trace.size();
    };
    const Failure* best = nullptr;
    for (const auto& f : failures) {
        if (!best || weight(f) < weight(*best)) {
            best = &f;
        }
    }
    if (best) {
        std::set<const Failure*> tried;
        bool confirmed = false;
        Failure chosen = *best;
        // Best first, then the others
        std::vector<const Failure*> order = { best };
        for (const auto& f : failures) {
            if (&f != best) {
                order.push_back(&f);
            }
        }
        for (const auto f : order) {
            const auto& s = gScenarios[f->scenario];
            const auto err = tmpDir + "/mc-rep-" + std::to_string(getpid());
            for (int k = 0; k < 3 && !confirmed; k += 1) {
                std::string key, message;
                const auto r =
                    replayTrace(s, f->bound, f->trace, f->hang ? s.hangSeconds * 3 : s.hangSeconds * 3, err, key, message);
                if (r == 1 || r == 2) {
                    confirmed = true;
                    chosen = *f;
                    chosen.stderrText = readFile(err);
                    if (key == "crash") {
                        message = "crash: " + crashSummary(chosen.stderrText);
                    }
                    chosen.key = key;
                    chosen.message = message;
                }
            }
            unlink(err.c_str());
            if (confirmed) {
                break;
            }
        }
        if (!confirmed) {
            fprintf(stderr,
                    "harness error: a failure of scenario %s could not be reproduced: [%s] %s\n",
                    gScenarios[best->scenario].name.c_str(),
                    best->key.c_str(),
                    best->message.c_str());
            rc = rc ? rc : 3;
        } else {
            // Try to drop deviations one at a time, for a shorter explanation
            const auto& s = gScenarios[chosen.scenario];
            const auto deadline = wallNow() + 20;
            bool progress = !chosen.hang;
            while (progress && wallNow() < deadline) {
                progress = false;
                for (size_t i = 0; i < chosen.trace.size() && wallNow() < deadline; i += 1) {
                    if (chosen.trace[i] == 0) {
                        continue;
                    }
                    auto t = chosen.trace;
                    t[i] = 0;
                    while (!t.empty() && t.back() == 0) {
                        t.pop_back();
                    }
                    std::string key, message;
                    const auto err = tmpDir + "/mc-min-" + std::to_string(getpid());
                    if (replayTrace(s, chosen.bound, t, s.hangSeconds, err, key, message) == 1 && key == chosen.key) {
                        chosen.trace = t;
                        chosen.stderrText = readFile(err);
                        chosen.message = key == "crash" ? "crash: " + crashSummary(chosen.stderrText) : message;
                        progress = true;
                    }
                    unlink(err.c_str());
                }
            }
            while (!chosen.trace.empty() && chosen.trace.back() == 0) {
                chosen.trace.pop_back();
            }
            const auto path = replayDir + "/" + gProperty + ".replay";
            std::ofstream f(path);
            f << "property: " << gProperty << "\nscenario: " << s.name << "\nbound: " << chosen.bound << "\nkey: "
              << chosen.key << "\nmessage: " << chosen.message << "\ntier: " << (gThorough ? "thorough" : "quick")
              << "\nseed: " << gSeed << "\ntrace: ";
            for (size_t i = 0; i < chosen.trace.size(); i += 1) {
                f << (i ? "," : "") << chosen.trace[i];
            }
            f << "\n\n" << chosen.stderrText.substr(0, 4000) << "\n";
            f.close();
            printf("[%s] %s: %s\n", chosen.key.c_str(), s.name.c_str(), chosen.message.c_str());
            printf("VIOLATION property=%s replay=%s\n", gProperty.c_str(), path.c_str());
            nViolations = 1;
            rc = 1;
        }
    }

    uint64_t executions = 0, transitions = 0, abandoned = 0;
    bool capped = false;
    std::string sj;
    for (const auto& kv : results) {
        const auto& r = kv.second;
        executions += r.executions;
        transitions += r.transitions;
        abandoned += r.abandoned;
        capped = capped || r.capped;
        char buf[600];
        snprintf(buf,
                 sizeof(buf),
                 "%s{\"name\":\"%s\",\"bound\":%d,\"executions\":%" PRIu64 ",\"steps\":%" PRIu64
                 ",\"max_choice_points\":%" PRIu64 ",\"known_finding_hits\":%" PRIu64 ",\"complete\":%s,\"cpu_s\":%.1f}",
                 sj.empty() ? "" : ",",
                 jsonEscape(r.name).c_str(),
                 r.bound,
                 r.executions,
                 r.transitions,
                 r.maxPoints,
                 r.abandoned,
                 r.capped ? "false" : "true",
                 r.wall);
        sj += buf;
    }
    std::string samples;
    for (int i = 0; i < std::min(kMaxSamples, gShared->nSamples.load()); i += 1) {
        samples += (samples.empty() ? "\"" : ",\"") + jsonEscape(gShared->samples[i]) + "\"";
    }
    std::string knownJson;
    for (int i = 0; i < gShared->nKnown; i += 1) {
        knownJson += std::string(i ? "," : "") + "\"" + jsonEscape(gShared->known[i].key) +
                     "\":" + std::to_string(gShared->known[i].hits.load());
    }
    const auto wall = wallNow() - started;
    printf("property %s: %zu scenarios, %" PRIu64 " executions, %" PRIu64 " steps, %" PRIu64 " states, %" PRIu64
           " outcomes, %.1f s%s\n",
           gProperty.c_str(),
           results.size(),
           executions,
           transitions,
           gShared->states.count.load(),
           gShared->outcomes.count.load(),
           wall,
           capped ? " (CAPPED)" : "");
    if (!statsPath.empty()) {
        std::ofstream f(statsPath);
        f << "{\"property\":\"" << gProperty << "\",\"executions\":" << executions << ",\"transitions\":" << transitions
          << ",\"states\":" << gShared->states.count.load() << ",\"states_capped\":" << gShared->states.full.load()
          << ",\"outcomes\":" << gShared->outcomes.count.load() << ",\"abandoned\":" << abandoned
          << ",\"capped\":" << (capped ? "true" : "false") << ",\"wall_s\":" << wall << ",\"violations\":" << nViolations
          << ",\"known_hits\":{" << knownJson << "},\"samples\":[" << samples << "],\"scenarios\":[" << sj << "]}\n";
    }
    fflush(stdout);
    return rc;
}
