// The environment of the code under test: clocks and randomness are owned by the harness.
#pragma once

#include <cstdint>

namespace env
{

// Virtual time, microseconds. Both the steady and the system clock are derived from it.
int64_t nowUs();
void setUs(int64_t us);
void advanceUs(int64_t us);
inline void advanceMs(int64_t ms)
{
    advanceUs(ms * 1000);
}

// Reset the deterministic random generator and the clock. To be called at the start of each execution.
void reset(uint64_t seed = 1);

uint32_t random32();

// When set, the next results of std::random_device
extern uint32_t (*randomHook)();

// Quiet the library's logging
void quiet();

} // namespace env
