#include "clock.hpp"
#include <chrono>
#include <mutex>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
namespace vclock {
volatile int64_t system_ns, steady_ns, auto_advance_ns;
volatile uint64_t readings;
#ifdef PBT_FUZZ
volatile bool real = true; // the fuzzer's own clock
#else
volatile bool real;
#endif
static int64_t real_now(int id)
{
	timespec t;
	syscall(SYS_clock_gettime, id, &t);
	return t.tv_sec * 1000000000ll + t.tv_nsec;
}
static std::mutex m;
void reset()
{
	std::lock_guard<std::mutex> l(m);
	system_ns = 1700000000000000000ll;
	steady_ns = 5000000000000ll;
	auto_advance_ns = 0;
	readings = 0;
	real = false;
}
void advance(int64_t ns)
{
	std::lock_guard<std::mutex> l(m);
	system_ns = system_ns + ns;
	steady_ns = steady_ns + ns;
}
void jump(int64_t ns)
{
	std::lock_guard<std::mutex> l(m);
	system_ns = system_ns + ns;
}
static int64_t read(volatile int64_t &c)
{
	if (real) return real_now(&c == &system_ns ? CLOCK_REALTIME : CLOCK_MONOTONIC);
	std::lock_guard<std::mutex> l(m);
	int64_t r = c;
	system_ns = system_ns + auto_advance_ns;
	steady_ns = steady_ns + auto_advance_ns;
	readings = readings + 1;
	return r;
}
} // namespace vclock

extern "C" {
void pbt_after_case()
{
	vclock::real = true;
}
// std::chrono::system_clock::now() and steady_clock::now(): both return a 64-bit count of nanoseconds
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv()
{
	return vclock::read(vclock::system_ns);
}
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv()
{
	return vclock::read(vclock::steady_ns);
}
int __wrap_clock_gettime(clockid_t id, struct timespec *t)
{
	int64_t v;
	if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) v = vclock::read(vclock::system_ns);
	else if (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_MONOTONIC_RAW || id == CLOCK_BOOTTIME) v = vclock::read(vclock::steady_ns);
	else return (int) syscall(SYS_clock_gettime, id, t);
	t->tv_sec = v / 1000000000;
	t->tv_nsec = v % 1000000000;
	return 0;
}
int __wrap_gettimeofday(struct timeval *t, void *)
{
	int64_t v = vclock::read(vclock::system_ns);
	t->tv_sec = v / 1000000000;
	t->tv_usec = v % 1000000000 / 1000;
	return 0;
}
time_t __wrap_time(time_t *t)
{
	int64_t v = vclock::read(vclock::system_ns) / 1000000000;
	if (t) *t = v;
	return v;
}
}
