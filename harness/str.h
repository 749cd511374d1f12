// helpers of the string checks: a std::u32string is the reference
#pragma once
#include "sfw.h"
#include "vt.h"
#include <string>

using vt::Ctx;
using vt::Src;

namespace {
typedef std::u32string U;
const size_t NP = U::npos;

String mk(const U &u) { return String(u.c_str()); }
U un(const String &s) {
	U u;
	for (int i = 0; i < s.length(); i++) {
		u.push_back(s[i]);
	}
	return u;
}
std::string sh(const U &u) {
	std::string o = "\"";
	for (size_t i = 0; i < u.size() && i < 80; i++) {
		char b[16];
		if (u[i] >= 32 && u[i] < 127) {
			snprintf(b, sizeof b, "%c", (char)u[i]);
		} else {
			snprintf(b, sizeof b, "\\u{%x}", (unsigned)u[i]);
		}
		o += b;
	}
	return o + "\"";
}
std::string sh(const String &s) { return sh(un(s)); }
void whole(Ctx &c, const String &s, const char *what) {
	c.check(s.size() == 0 || s.size() == s.length() + 1, "%s: size %d and length %d disagree", what, s.size(), s.length());
	c.check(s.get_data()[s.length()] == 0, "%s: not terminated", what);
	for (int i = 0; i < s.length(); i++) {
		c.check(s.get_data()[i] != 0, "%s: a zero inside at %d of %d", what, i, s.length());
	}
	c.check(s.empty() == (s.length() == 0), "%s: empty() is wrong", what);
}
void same(Ctx &c, const String &got, const U &want, const char *what) {
	whole(c, got, what);
	U g = un(got);
	if (g != want) {
		c.fail("%s: got %s, expected %s", what, sh(g).c_str(), sh(want).c_str());
	}
}
void same(Ctx &c, int64_t got, int64_t want, const char *what) {
	if (got != want) {
		c.fail("%s: got %lld, expected %lld", what, (long long)got, (long long)want);
	}
}
int pos(size_t p) { return p == NP ? -1 : (int)p; }

} // namespace
