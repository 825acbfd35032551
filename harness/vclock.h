// Forced include for the builds the checks make: std::chrono::steady_clock is
// replaced by a clock the test driver can step, so that a time limit can be
// made to expire at any chosen query of the clock.
#ifndef VCLOCK_H
#define VCLOCK_H
#include <chrono>
#include <condition_variable>
#include <future>
#include <mutex>
#include <thread>

extern "C" __attribute__((visibility("default"))) long long cm_vclock_step;
extern "C" __attribute__((visibility("default"))) long long cm_vclock_now;

namespace std
{
namespace chrono
{
    struct vclock
    {
        typedef steady_clock::duration duration;
        typedef steady_clock::rep rep;
        typedef steady_clock::period period;
        typedef std::chrono::time_point<vclock, duration> time_point;
        static constexpr bool is_steady = true;
        static time_point now() noexcept
        {
            if (cm_vclock_step == 0)
                return time_point(steady_clock::now().time_since_epoch());
            cm_vclock_now += cm_vclock_step;
            return time_point(std::chrono::duration_cast<duration>(
                std::chrono::microseconds(cm_vclock_now)));
        }
    };
}  // namespace chrono
}  // namespace std
#define steady_clock vclock
#endif
