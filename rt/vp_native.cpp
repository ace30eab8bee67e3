// Native side of the harness interface: inputs come from a file written by the
// check (one "name value" per line, in order).
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <new>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>

static std::vector<std::pair<std::string, std::string>> in;
static size_t pos = 0;
static unsigned long long rng = 0; // non-zero: real inputs are perturbed
static std::string next(const char* n)
{
	if (pos >= in.size()) {
		std::cerr << "REPLAY diverged: no value for input " << n << "\n";
		_exit(77);
	}
	std::string nm = in[pos].first;
	auto h = nm.rfind('#');
	if (h != std::string::npos) nm = nm.substr(0, h);
	if (nm != n) {
		std::cerr << "REPLAY diverged: expected " << in[pos].first << " got " << n << "\n";
		_exit(77);
	}
	return in[pos++].second;
}
extern "C" {
int vp_int(const char* n, int, int) { return (int)strtol(next(n).c_str(), nullptr, 10); }
double vp_real(const char* n, double lo, double hi)
{
	double v = strtod(next(n).c_str(), nullptr);
	if (rng) {
		// concretisation of a candidate found under an abstraction: vary the reals
		auto draw = [] { rng = rng * 6364136223846793005ull + 1442695040888963407ull; return (double)(rng >> 11) / 9007199254740992.0; };
		double u = draw(), w = draw();
		if (u < 0.4) v = lo + w * (hi - lo);
		else if (u < 0.6) v += (w - 0.5) * 0.02 * (hi - lo);
	}
	v = v < lo ? lo : v > hi ? hi : v;
	if (rng) {
		char b[64];
		snprintf(b, sizeof b, "%.17g", v);
		in[pos - 1].second = b;
	}
	return v;
}
double vp_f64(const char* n) { return strtod(next(n).c_str(), nullptr); }
bool vp_bool(const char* n) { return next(n) != "0"; }
int vp_concrete(int v) { return v; }
void vp_assume(bool c)
{
	if (!c) {
		std::cerr << "REPLAY assumption not met\n";
		_exit(77);
	}
}
void vp_assert(bool c, const char* id)
{
	if (!c) {
		std::cerr << "REPLAY assertion failed: " << id << "\n";
		if (rng)
			for (auto& p : in) std::cerr << "INPUT " << p.first << " " << p.second << "\n";
		_exit(42);
	}
}
void vp_reach(const char* l) { std::cerr << "reach " << l << "\n"; }
int vp_symbolic(void) { return 0; }
void vp_stop(void) { _exit(0); }
double vp_ite(bool c, double a, double b) { return c ? a : b; }
int vp_itei(bool c, int a, int b) { return c ? a : b; }
double vp_min(double a, double b) { return b < a ? b : a; }
double vp_max(double a, double b) { return a < b ? b : a; }
}

// same fill pattern as the executor
void* operator new(size_t n)
{
	void* p = malloc(n ? n : 1);
	if (!p) abort();
	memset(p, 0xCD, n);
	return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

#ifndef VP_ENTRY
	#define VP_ENTRY harness
#endif
extern "C" void VP_ENTRY(void);
int main(int argc, char** argv)
{
	std::ifstream f(argc > 1 ? argv[1] : "/dev/null");
	std::string line;
	while (std::getline(f, line)) {
		if (line.empty() || line[0] == '%') continue;
		auto p = line.rfind(' ');
		in.push_back({ line.substr(0, p), line.substr(p + 1) });
	}
	if (const char* e = getenv("VP_PERTURB")) rng = strtoull(e, nullptr, 10) * 2654435761ull + 12345;
	VP_ENTRY();
	std::cerr << "REPLAY finished\n";
	return 0;
}
