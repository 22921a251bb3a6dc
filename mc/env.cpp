#include "env.h"

#include <chrono>
#include <random>

#include <ctime>
#include <sys/syscall.h>
#include <unistd.h>

#include "srtc/logging.h"

namespace
{
constexpr int64_t kSteadyBase = 1'000'000'000'000; // us
constexpr int64_t kSystemBase = 1'700'000'000'000'000;
int64_t gNow = 0;
uint64_t gRng = 88172645463325252ull;
} // namespace

namespace env
{

uint32_t (*randomHook)() = nullptr;

int64_t nowUs()
{
    return gNow;
}

void setUs(int64_t us)
{
    gNow = us;
}

void advanceUs(int64_t us)
{
    gNow += us;
}

void reset(uint64_t seed)
{
    gNow = 0;
    gRng = 88172645463325252ull ^ (seed * 0x9e3779b97f4a7c15ull);
    if (gRng == 0) {
        gRng = 1;
    }
}

uint32_t random32()
{
    gRng ^= gRng << 13;
    gRng ^= gRng >> 7;
    gRng ^= gRng << 17;
    return static_cast<uint32_t>(gRng >> 16);
}

void quiet()
{
    srtc::setLogLevel(1001);
}

} // namespace env

namespace std
{

random_device::result_type random_device::_M_getval()
{
    if (env::randomHook) {
        return env::randomHook();
    }
    return env::random32();
}

namespace chrono
{
inline namespace _V2
{

steady_clock::time_point steady_clock::now() noexcept
{
    return time_point(std::chrono::nanoseconds((kSteadyBase + gNow) * 1000));
}

system_clock::time_point system_clock::now() noexcept
{
    return time_point(std::chrono::nanoseconds((kSystemBase + gNow) * 1000));
}

} // namespace _V2
} // namespace chrono
} // namespace std

// The code under test also reads the clocks directly
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
    int64_t us;
    if (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_MONOTONIC_RAW || id == CLOCK_BOOTTIME) {
        us = kSteadyBase + gNow;
    } else if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
        us = kSystemBase + gNow;
    } else {
        return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
    }
    ts->tv_sec = us / 1000000;
    ts->tv_nsec = (us % 1000000) * 1000;
    return 0;
}
