// the clock of the program (linked with -Wl,--wrap=clock_gettime)
#include <ctime>
namespace timw {
long quarters = 4000;
}
extern "C" int __real_clock_gettime(clockid_t, struct timespec *);
extern "C" int __wrap_clock_gettime(clockid_t c, struct timespec *t) {
    if (c != CLOCK_MONOTONIC)
        return __real_clock_gettime(c, t);
    t->tv_sec = timw::quarters / 4;
    t->tv_nsec = (timw::quarters % 4) * 250000000;
    return 0;
}
