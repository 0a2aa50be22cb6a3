// Shared support for the runtime harnesses: the contracts of the proofs evaluated on concrete runs of
// the real code.  A harness prints "FAIL sig=<id> <input and what went wrong>" and exits 1.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <filesystem>
#include <functional>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stack>
#include <string>
#include <tuple>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <eigen3/Eigen/Dense>
#include <eigen3/Eigen/Geometry>

extern "C" void __asan_set_death_callback(void (*)(void));
extern "C" void __sanitizer_set_death_callback(void (*)(void));

namespace H {
	inline char g_case[4096] = "start";
	inline int g_fails = 0;
	inline long g_checks = 0, g_cases = 0;
	inline std::map<std::string, int> g_seen;
	inline double g_budget = 10;
	inline std::chrono::steady_clock::time_point g_t0;
	inline std::mt19937_64 rng;

	inline double Elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }
	inline bool More(double share = 1.0) { return Elapsed() < g_budget * share; }

	inline void Emit(const char* prefix)
	{
		char buf[4400];
		int n = snprintf(buf, sizeof buf, "%s%s\n", prefix, g_case);
		(void)!write(1, buf, n);
	}
	inline void Death() { fflush(stdout); Emit("FAIL sig=memory invalid memory access or undefined behaviour in: "); }
	inline void OnSignal(int s)
	{
		const char* p = s == SIGTRAP ? "FAIL sig=assert an internal assertion failed in: "
			: s == SIGALRM           ? "FAIL sig=hang no result within the time limit in: "
			: s == SIGABRT           ? "FAIL sig=abort the code aborted in: "
									 : "FAIL sig=crash the code crashed in: ";
		Emit(p);
		_exit(1);
	}
	// Describe the case about to run, and give it `secs` seconds of CPU time to finish.
	inline void Case(int secs, const char* fmt, ...)
	{
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(g_case, sizeof g_case, fmt, ap);
		va_end(ap);
		++g_cases;
		alarm(secs);
	}
	inline void Fail(const char* sig, const char* fmt, ...)
	{
		char buf[1500];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(buf, sizeof buf, fmt, ap);
		va_end(ap);
		++g_fails;
		if (g_seen[sig]++ < 3)
			printf("FAIL sig=%s %s | case: %s\n", sig, buf, g_case);
		fflush(stdout);
	}
	inline bool Check(bool ok, const char* sig, const char* msg)
	{
		++g_checks;
		if (!ok)
			Fail(sig, "%s", msg);
		return ok;
	}
	template <typename... A>
	inline bool Check(bool ok, const char* sig, const char* fmt, A... args)
	{
		++g_checks;
		if (!ok)
			Fail(sig, fmt, args...);
		return ok;
	}
	inline void Init(int argc, char** argv)
	{
		unsigned long seed = argc > 1 ? strtoul(argv[1], nullptr, 10) : 1;
		g_budget = argc > 2 ? atof(argv[2]) : 10;
		rng.seed(seed * 7919 + 17);
		g_t0 = std::chrono::steady_clock::now();
		for (int s : { SIGTRAP, SIGABRT, SIGALRM, SIGFPE, SIGILL })
			signal(s, OnSignal);
		__sanitizer_set_death_callback(Death);
		std::set_terminate([] {
			try {
				if (auto e = std::current_exception())
					std::rethrow_exception(e);
			} catch (const std::exception& e) {
				char b[400];
				snprintf(b, sizeof b, "FAIL sig=exception uncaught exception (%s) in: ", e.what());
				Emit(b);
			} catch (...) {
				Emit("FAIL sig=exception uncaught exception in: ");
			}
			_exit(1);
		});
	}
	inline int Done()
	{
		alarm(0);
		printf("STAT cases %ld\nSTAT checks %ld\nSTAT fails %d\n", g_cases, g_checks, g_fails);
		return g_fails ? 1 : 0;
	}
	inline int RandInt(int lo, int hi) { return std::uniform_int_distribution<int>(lo, hi)(rng); }
	inline double Rand(double lo, double hi) { return std::uniform_real_distribution<double>(lo, hi)(rng); }
	inline bool Coin(double p = 0.5) { return Rand(0, 1) < p; }
	inline double AngDiff(double a, double b) { return std::remainder(a - b, 2 * M_PI); }
	inline bool Near(double a, double b, double tol) { return std::abs(a - b) <= tol; }
}
#define CHECK(cond, sig, ...) H::Check((cond), sig, __VA_ARGS__)
