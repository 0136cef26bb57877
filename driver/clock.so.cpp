// Lets the clocks of a process be moved: preloaded in drivers that record times
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <cerrno>
#include <ctime>

static long long steady_shift = 0, wall_shift = 0;  // ns

// Time that passes, and adjustments of the clock on the wall
extern "C" void verif_pass(long long ns)
{
    steady_shift += ns;
    wall_shift += ns;
}

extern "C" void verif_adjust(long long ns)
{
    wall_shift += ns;
}

extern "C" void verif_reset()
{
    steady_shift = wall_shift = 0;
}

extern "C" int clock_gettime(clockid_t id, timespec* t)
{
    long const r = syscall(SYS_clock_gettime, id, t);
    if (r < 0)
        return -1;
    long long shift = 0;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI)
        shift = wall_shift;
    else if (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME)
        shift = steady_shift;
    long long const ns = t->tv_sec * 1000000000ll + t->tv_nsec + shift;
    t->tv_sec = ns / 1000000000ll;
    t->tv_nsec = ns % 1000000000ll;
    return 0;
}

extern "C" int gettimeofday(timeval* tv, void*) noexcept
{
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}

extern "C" time_t time(time_t* r) noexcept
{
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (r)
        *r = t.tv_sec;
    return t.tv_sec;
}
