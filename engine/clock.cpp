// The harness owns the wall clock: the code under test sees fake_now.
#include "pbt.hpp"
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

namespace pbt { volatile long long fake_now = -1, fake_step = 0; }

extern "C" __attribute__((visibility("default"))) int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
	if (pbt::fake_now >= 0 && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE))
	{
		ts->tv_sec = (time_t)pbt::fake_now; ts->tv_nsec = 0;
		if (pbt::fake_step) pbt::fake_now = pbt::fake_now + pbt::fake_step; // a clock that goes on at every look at it
		return 0;
	}
	return (int)syscall(SYS_clock_gettime, id, ts);
}
extern "C" __attribute__((visibility("default"))) time_t time(time_t* t) noexcept
{
	struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
	if (t) *t = ts.tv_sec;
	return ts.tv_sec;
}
extern "C" __attribute__((visibility("default"))) int gettimeofday(struct timeval* tv, void*) noexcept
{
	struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
	{ tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
	return 0;
}
