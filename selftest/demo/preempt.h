// Tries every single-preemption schedule: the victim thread is stopped at its k-th function entry or exit, the other
// side runs meanwhile (until it is done or until a short timeout), and then the victim goes on. Build the code with
// -finstrument-functions.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <thread>
#define NOINST __attribute__((no_instrument_function))
static thread_local bool pre_on = false;
static thread_local bool pre_busy = false;
static long pre_count = 0;
static long pre_k = -1;
static void (*pre_cb)() = nullptr;
extern "C" {
NOINST inline void pre_point()
{
	if (!pre_on || pre_busy)
		return;
	if (pre_count++ == pre_k) {
		pre_busy = true;
		pre_cb();
		pre_busy = false;
	}
}
NOINST void __cyg_profile_func_enter(void*, void*) { pre_point(); }
NOINST void __cyg_profile_func_exit(void*, void*) { pre_point(); }
}
NOINST static void pre_begin(long k, void (*cb)()) { pre_k = k; pre_cb = cb; pre_count = 0; pre_on = true; }
// Returns whether the k-th point was reached.
NOINST static bool pre_end() { pre_on = false; return pre_count > pre_k; }
NOINST static bool wait_flag(std::atomic<bool>& f, int ms)
{
	for (int i = 0; i < ms * 20; ++i) {
		if (f.load())
			return true;
		struct timespec ts = {0, 50000};
		nanosleep(&ts, nullptr);
	}
	return f.load();
}
