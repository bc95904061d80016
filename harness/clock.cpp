// The steady clock of the harness: real time plus the scripted hours, so that a
// wall-time budget can be exhausted at a chosen step.
#include <chrono>
#include <ctime>
#include "setup.hpp"
namespace std::chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept
{
    timespec ts {};
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return time_point(duration(std::chrono::seconds(ts.tv_sec) + std::chrono::nanoseconds(ts.tv_nsec) + std::chrono::hours(verif::G().clock_hours)));
}
} // namespace _V2
} // namespace std::chrono
