#pragma once
// replaces time() in the whole process while armed (std::time in the library included)
#include <atomic>
#include <ctime>
inline std::atomic<long> fake_now{ -1 };
extern "C" time_t time(time_t* t) noexcept {
	long v = fake_now.load(); if (v < 0) { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); v = ts.tv_sec; }
	if (t) *t = v; return v;
}
