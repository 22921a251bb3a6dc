// Stateless, exhaustive, deviation-bounded exploration of the real code.
//
// A scenario is a function of a Ctx. Every piece of nondeterminism the scenario owns is a call to
// Ctx::choose (all alternatives are explored) or Ctx::deviate (alternative 0 is the default answer of the
// environment, every other answer costs one deviation; executions with at most `bound` deviations are explored).
// The explorer runs the scenario once per complete choice sequence, in forked worker processes, so a crash, an
// abort or a hang of the code under test is an observation and not the end of the check.
#pragma once

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc
{

struct Abandon {
};

inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}

uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull);

class Ctx
{
public:
    // All n alternatives are explored
    int choose(int n, const char* what = "");
    // Alternative 0 is free, the others cost one deviation each
    int deviate(int n, const char* what = "");
    // As deviate, with an explicit cost for each alternative above zero
    int deviateCost(int n, int cost, const char* what = "");

    bool flip(const char* what = "")
    {
        return choose(2, what) != 0;
    }

    // Deviations still available
    [[nodiscard]] int budget() const;

    // An operation of the code under test was executed
    void step(int n = 1);
    // An observed state (hash of everything the scenario can observe)
    void state(uint64_t h);
    // The outcome of one execution
    void outcome(uint64_t h);
    // A line of the execution's log, only kept when replaying or sampling
    void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));

    // Report a violation of `prop` when the condition is false. `key` identifies the kind of violation.
    // Only the property being decided by this run is reported, violations of others are ignored.
    void check(bool cond, const char* prop, const char* key, const char* fmt, ...)
        __attribute__((format(printf, 5, 6)));
    // Whether this kind of violation of `prop` is a listed finding: counts it, and lets the execution go on
    bool tolerate(const char* prop, const char* key);
    // As check(false, <property being decided>, ...)
    void violation(const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    // Give up on this execution without a verdict
    [[noreturn]] void abandon();

    [[nodiscard]] bool thorough() const;
    [[nodiscard]] const char* property() const;
    [[nodiscard]] bool deciding(const char* prop) const
    {
        return strcmp(prop, property()) == 0;
    }
    [[nodiscard]] uint64_t seed() const;
    [[nodiscard]] bool verbose() const;
    // Index of the execution within the worker
    [[nodiscard]] uint64_t serial() const;

private:
    void report(const char* key, const char* fmt, va_list ap);
};

struct Scenario {
    std::string name;
    std::vector<std::string> props;
    int quickBound;
    int thoroughBound;
    std::function<void(Ctx&)> fn;
    bool thoroughOnly = false;
    int hangSeconds = 20;
};

void add(const std::string& name,
         const std::vector<std::string>& props,
         int quickBound,
         int thoroughBound,
         const std::function<void(Ctx&)>& fn,
         bool thoroughOnly = false,
         int hangSeconds = 20);

// To be defined by the harness: registers scenarios
void registerScenarios(bool thorough);
// Called in the master when all else is set, before forking
extern void (*beforeFork)();

} // namespace mc
