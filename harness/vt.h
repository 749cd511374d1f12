// vt: a small property-based testing engine.
//
// Every generated value is drawn from a recorded choice sequence (Src), so a
// failing case is fully described by that sequence; shrinking works on the
// sequence itself (delete blocks, lower values) and re-runs each candidate in a
// forked child, so crashes and hangs shrink the same way assertion failures do.
#pragma once

#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace vt {

struct Fail {
	std::string msg;
};
struct Discard {};

static const int MAX_CHOICES = 1 << 16;

struct Src {
	// recorded choices live in (possibly shared) memory so that a parent can
	// read them after a crash
	uint64_t *rec = nullptr;
	volatile int *nrec = nullptr;
	const uint64_t *replay = nullptr;
	int nreplay = 0;
	bool replaying = false;
	int pos = 0;
	uint64_t st = 0;

	uint64_t next_raw() { // splitmix64
		uint64_t z = (st += 0x9E3779B97F4A7C15ULL);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
		return z ^ (z >> 31);
	}

	// uniform in [0, bound); shrinks toward 0
	uint64_t draw(uint64_t bound) {
		if (bound == 0) {
			bound = 1;
		}
		uint64_t v;
		if (replaying) {
			v = pos < nreplay ? replay[pos] : 0;
			if (v >= bound) {
				v = bound - 1;
			}
		} else {
			v = next_raw() % bound;
		}
		if (pos < MAX_CHOICES) {
			rec[pos] = v;
			*nrec = pos + 1;
		} else {
			throw Discard();
		}
		pos++;
		return v;
	}

	// any 64 bits, shrinks toward 0
	uint64_t word() { return (draw(1ull << 32) << 32) | draw(1ull << 32); }

	// inclusive range, shrinks to lo
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
	bool flag() { return draw(2) != 0; }
	// true with probability 1/n, shrinks to false
	bool one_in(int n) { return draw((uint64_t)n) == (uint64_t)(n - 1); }
	template <class T>
	T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
	template <class T>
	const T &pick(const std::vector<T> &l) { return l[draw(l.size())]; }

	// integer of either sign, shrinks to 0
	int64_t sint(int64_t mag) {
		int64_t v = (int64_t)draw((uint64_t)(2 * mag + 1));
		return (v & 1) ? -(v + 1) / 2 : v / 2;
	}
	// size with a bias to small values
	int size(int lo, int hi) {
		if (hi <= lo) {
			return lo;
		}
		int span = hi - lo;
		int k = (int)draw(4);
		if (k == 0) {
			return lo + (int)draw((uint64_t)(span < 2 ? span : 2) + 1);
		}
		return lo + (int)draw((uint64_t)span + 1);
	}
	// as size(), but now and then beyond it: what works on blocks, unrolls or grows in steps needs more to show
	int grown(int lo, int hi, int far) { return one_in(16) ? lo + (int)draw((uint64_t)(far - lo) + 1) : size(lo, hi); }
	// a real exactly representable as float. Mostly "nice" small dyadics, some
	// generic ones. |v| <= mag. Shrinks to 0.
	float real(float mag = 8.0f) {
		int k = (int)draw(4);
		if (k <= 1) {
			int64_t m = (int64_t)(mag < 1 ? 1 : mag);
			float v = (float)sint(m);
			return v > mag ? mag : (v < -mag ? -mag : v);
		}
		if (k == 2) {
			return (float)(sint(64)) * (mag / 64.0f);
		}
		return (float)((double)sint(1 << 20) * (double)mag / (double)(1 << 20));
	}
	float real_in(float lo, float hi) {
		int k = (int)draw(3);
		uint64_t steps = k == 0 ? 4 : (k == 1 ? 64 : (1 << 20));
		double t = (double)draw(steps + 1) / (double)steps;
		return (float)(lo + (hi - lo) * t);
	}
	float pos_real(float mag = 8.0f) { // > 0
		float v = real_in(0.0f, mag);
		return v <= 0.0f ? (mag < 1.0f ? mag : 1.0f) : v;
	}
	std::vector<float> reals(int n, float mag = 8.0f) {
		std::vector<float> v(n);
		for (int i = 0; i < n; i++) {
			v[i] = real(mag);
		}
		return v;
	}
};

// what has to hold when the body of a case has run; a message if it does not. Emptied before each case.
extern std::vector<std::function<std::string()>> at_case_end;

struct Ctx {
	bool nontrivial = false;
	bool want_desc = false;
	char *live_desc = nullptr; // shared copy of desc, so that it survives a crash
	std::string desc;
	void sync_desc() {
		if (live_desc) {
			snprintf(live_desc, 8192, "%s", desc.c_str());
		}
	}
	uint64_t key = 0; // hash of the case for distinctness (defaults to the choices)

	void nt(bool b = true) { nontrivial = nontrivial || b; }
	void note(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
		if (!want_desc || desc.size() > 3000) {
			return;
		}
		char buf[1024];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(buf, sizeof buf, fmt, ap);
		va_end(ap);
		desc += buf;
		desc += ' ';
		sync_desc();
	}
	[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
		char buf[2048];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(buf, sizeof buf, fmt, ap);
		va_end(ap);
		throw Fail{ buf };
	}
	[[noreturn]] void discard() { throw Discard(); }
	void check(bool ok, const char *fmt, ...) __attribute__((format(printf, 3, 4))) {
		if (ok) {
			return;
		}
		char buf[2048];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(buf, sizeof buf, fmt, ap);
		va_end(ap);
		throw Fail{ buf };
	}
	// |got-want| <= tol, with NaN equal to NaN and inf equal to the same inf
	void near(double got, double want, double tol, const char *fmt, ...) __attribute__((format(printf, 5, 6))) {
		bool ok;
		if (std::isnan(want) || std::isnan(got)) {
			ok = std::isnan(want) && std::isnan(got);
		} else if (std::isinf(want) || std::isinf(got)) {
			ok = want == got;
		} else {
			ok = std::fabs(got - want) <= tol;
		}
		if (ok) {
			return;
		}
		char buf[1024], buf2[1400];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(buf, sizeof buf, fmt, ap);
		va_end(ap);
		snprintf(buf2, sizeof buf2, "%s: got %.9g, expected %.9g (tolerance %.3g)", buf, got, want, tol);
		throw Fail{ buf2 };
	}
	// number of error diagnostics ("E ..." lines) the library printed since the last call
	int errors();
	// fails if the library printed an error diagnostic since the last errors()/no_errors()
	void no_errors(const char *what);
	std::string last_errors;
};

typedef void (*Fn)(Src &, Ctx &);

struct Prop {
	const char *id;
	const char *name;
	Fn fn;
	int quick; // generated cases in the quick tier
	int mult; // thorough = quick * mult
	bool witness; // one fixed history, used for known findings
};

std::vector<Prop> &props();

struct Reg {
	Reg(const char *id, const char *name, Fn fn, int quick, int mult, bool witness) {
		props().push_back(Prop{ id, name, fn, quick, mult, witness });
	}
};

#define VT_CAT2(a, b) a##b
#define VT_CAT(a, b) VT_CAT2(a, b)
#define VT_PROP(ID, NAME, QUICK)                                                                 \
	static void VT_CAT(vt_fn_##ID##_, NAME)(vt::Src & s, vt::Ctx & c);                                  \
	static vt::Reg VT_CAT(vt_reg_##ID##_, NAME)(#ID, #NAME, VT_CAT(vt_fn_##ID##_, NAME), QUICK, 20, false);    \
	static void VT_CAT(vt_fn_##ID##_, NAME)(vt::Src & s, vt::Ctx & c)
#define VT_WITNESS(ID, NAME)                                                                     \
	static void VT_CAT(vt_fn_##ID##_, NAME)(vt::Src & s, vt::Ctx & c);                                  \
	static vt::Reg VT_CAT(vt_reg_##ID##_, NAME)(#ID, #NAME, VT_CAT(vt_fn_##ID##_, NAME), 1, 1, true);          \
	static void VT_CAT(vt_fn_##ID##_, NAME)(vt::Src & s, vt::Ctx & c)

// Library-wide entropy (std::random_device) is interposed: values come from this seed.
void seed_entropy(uint64_t v);
// while frozen every std::random_device gives the same number, so that all random
// arrays of one shape are equal and a reference can draw them too
void stop_clock(bool on);
void freeze_entropy(bool on);
// while a case runs, the clock starts at a point given by that seed as well
void virtual_clock(bool on);

// set-up/tear-down of the library, provided by the glue
void lib_setup();
void lib_cleanup();
void lib_use(long &bytes, long &objects); // by the library's own account

} // namespace vt
