// P05: String editing, searching, splitting and comparing against sequences of code points
#include "str.h"
#include <deque>
#include <clocale>
#include <cwctype>

namespace {
// characters: a few that repeat, so that patterns meet, and some from everywhere
char32_t gc(Src &s, int kind) {
	static const char32_t few[] = { 'a', 'b', 'A', 'B', ' ', '.', ',', '/', 'c', '1', '2', '0' };
	static const char32_t more[] = { 0xe9, 0xc9, 0x3b1, 0x391, 0x416, 0x436, 0x4e2d, 0x1f600, 0x10fffd, 0xff, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, '\t', '\n', '\r', '_', '"', '\'', '%', '*', '?' };
	switch (kind) {
		case 0:
			return few[s.draw(2)];
		case 1:
			return few[s.draw(12)];
		case 2:
			return (char32_t)('!' + s.draw(94));
		default:
			return s.flag() ? few[s.draw(12)] : more[s.draw(sizeof more / sizeof *more)];
	}
}
U gu(Src &s, int max, int kind) {
	int n = s.grown(0, max, max < 6 ? max : max * 8);
	U u;
	for (int i = 0; i < n; i++) {
		u.push_back(gc(s, kind));
	}
	return u;
}
U cat(const U &a, const U &b) { return a + b; }
// a pattern that probably occurs in the text
U gpat(Src &s, const U &t, int kind, int min = 1) {
	U p;
	if (t.size() > 0 && !s.one_in(3)) {
		size_t a = s.draw(t.size());
		size_t n = 1 + s.draw(t.size() - a < 4 ? t.size() - a : 4);
		p = t.substr(a, n);
	} else {
		p = gu(s, 4, kind);
	}
	while ((int)p.size() < min) {
		p.push_back(gc(s, kind));
	}
	return p;
}
std::string narrow(const U &u) { // Latin-1
	std::string o;
	for (char32_t ch : u) {
		o.push_back((char)(unsigned char)ch);
	}
	return o;
}
bool latin(const U &u) {
	for (char32_t ch : u) {
		if (ch > 0xff) {
			return false;
		}
	}
	return true;
}
// the letters whose case pairs every Unicode version agrees on
bool sure_letter(char32_t c) {
	if (c < 0x80) {
		return true;
	}
	if (c >= 0xc0 && c <= 0xfe) {
		return c != 0xdf;
	}
	return (c >= 0x391 && c <= 0x3a9 && c != 0x3a2) || (c >= 0x3b1 && c <= 0x3c9 && c != 0x3c2) || (c >= 0x410 && c <= 0x44f) || (c >= 0x400 && c <= 0x40f && c != 0x40d && c != 0x400) || (c >= 0x451 && c <= 0x45f && c != 0x45d);
}
locale_t loc() {
	static locale_t l = newlocale(LC_ALL_MASK, "C.UTF-8", (locale_t)0);
	return l;
}
char32_t low(char32_t c) {
	if (c < 0x80) {
		return c >= 'A' && c <= 'Z' ? c + 32 : c;
	}
	return sure_letter(c) ? (char32_t)towlower_l((wint_t)c, loc()) : (char32_t)String::char_lowercase(c);
}
char32_t up(char32_t c) {
	if (c < 0x80) {
		return c >= 'a' && c <= 'z' ? c - 32 : c;
	}
	return sure_letter(c) ? (char32_t)towupper_l((wint_t)c, loc()) : (char32_t)String::char_uppercase(c);
}
U low(U u) {
	for (auto &x : u) {
		x = low(x);
	}
	return u;
}
U up(U u) {
	for (auto &x : u) {
		x = up(x);
	}
	return u;
}
U rep(const U &t, const U &k, const U &w) { // non-overlapping, left to right
	U o;
	size_t i = 0;
	while (i <= t.size()) {
		size_t p = t.find(k, i);
		if (p == NP) {
			o += t.substr(i);
			break;
		}
		o += t.substr(i, p - i) + w;
		i = p + k.size();
	}
	return o;
}
std::vector<U> splitu(const U &t, const U &k) {
	std::vector<U> o;
	size_t i = 0;
	while (true) {
		size_t p = t.find(k, i);
		if (p == NP) {
			o.push_back(t.substr(i));
			return o;
		}
		o.push_back(t.substr(i, p - i));
		i = p + k.size();
	}
}
std::vector<U> rsplitu(const U &t, const U &k) { // splitters found from the right
	U r(t.rbegin(), t.rend()), rk(k.rbegin(), k.rend());
	std::vector<U> o = splitu(r, rk);
	std::vector<U> out;
	for (size_t i = o.size(); i-- > 0;) {
		out.push_back(U(o[i].rbegin(), o[i].rend()));
	}
	return out;
}
void same(Ctx &c, const Vector<String> &got, const std::vector<U> &want, const char *what) {
	std::string g, w;
	for (int i = 0; i < got.size(); i++) {
		g += sh(got[i]) + " ";
	}
	for (auto &x : want) {
		w += sh(x) + " ";
	}
	bool ok = got.size() == (int)want.size();
	for (int i = 0; ok && i < got.size(); i++) {
		whole(c, got[i], what);
		ok = un(got[i]) == want[i];
	}
	if (!ok) {
		c.fail("%s: got %s, expected %s", what, g.c_str(), w.c_str());
	}
}
Vector<String> vs(const std::vector<U> &v) {
	Vector<String> o;
	for (auto &x : v) {
		o.push_back(mk(x));
	}
	return o;
}
int sgn(int v) { return v < 0 ? -1 : v > 0; }
} // namespace

// several strings that share their text, edited in turn
VT_PROP(P05, edit_history, 7000) {
	const int N = 4;
	String st[N];
	U ref[N];
	int kind = (int)s.draw(4);
	int ops = s.grown(3, 40, 240);
	int shares = 0;
	for (int k = 0; k < ops; k++) {
		int i = (int)s.draw(N), j = (int)s.draw(N);
		String &x = st[i];
		U &r = ref[i];
		int op = (int)s.draw(20);
		c.note("%d:%d,%d", op, i, j);
		switch (op) {
			case 0: {
				r = gu(s, 12, kind);
				x = mk(r);
			} break;
			case 1:
				x = st[j];
				r = ref[j];
				shares += i != j;
				break;
			case 2:
				x += st[j];
				r += U(ref[j]);
				break;
			case 3: {
				U p = gu(s, 5, kind);
				x = st[j] + mk(p);
				r = ref[j] + p;
			} break;
			case 4: {
				char32_t ch = gc(s, kind);
				x += ch;
				r.push_back(ch);
			} break;
			case 5: {
				int a = (int)s.range(0, r.size() + 2);
				x = x.insert(a, st[j]);
				U add = ref[j];
				r.insert((size_t)a > r.size() ? r.size() : a, add);
			} break;
			case 6: {
				int a = (int)s.draw(r.size() + 1), n = (int)s.draw(r.size() - a + 2);
				x.erase(a, n);
				r.erase(a, n);
			} break;
			case 7:
				if (r.size()) {
					int a = (int)s.draw(r.size());
					char32_t ch = gc(s, kind);
					x.set(a, ch);
					r[a] = ch;
				}
				break;
			case 8:
				if (r.size()) {
					int a = (int)s.draw(r.size());
					char32_t ch = gc(s, kind);
					x[a] = ch;
					r[a] = ch;
				}
				break;
			case 9: {
				U p = gpat(s, r, kind), w = gu(s, 3, kind);
				x = x.replace(mk(p), mk(w));
				r = rep(r, p, w);
			} break;
			case 10: {
				int a = (int)s.draw(r.size() + 2), n = (int)s.draw(r.size() + 3);
				x = st[j].substr(a, n);
				r = a < (int)ref[j].size() ? ref[j].substr(a, n) : U();
			} break;
			case 11: {
				int n = (int)s.draw(r.size() + 1);
				x.set_length(n);
				r.resize(n);
			} break;
			case 12:
				x.clear();
				r.clear();
				break;
			case 13:
				if (r.size()) {
					int a = (int)s.draw(r.size());
					x.remove(a);
					r.erase(a, 1);
				}
				break;
			case 14: {
				U p = gu(s, 4, 1);
				x += narrow(p).c_str();
				r += p;
			} break;
			case 15: {
				U p = gu(s, 4, kind);
				x += p.c_str();
				r += p;
			} break;
			case 16: {
				int n = (int)s.draw(4);
				if (r.size() * n < 400) {
					x = st[j].repeat(n);
					U o;
					for (int q = 0; q < n; q++) {
						o += ref[j];
					}
					r = o;
				}
			} break;
			case 17: {
				x = x.to_upper();
				r = up(r);
			} break;
			case 18:
				if (r.size()) { // through the writable pointer
					char32_t ch = gc(s, kind);
					x.ptrw()[r.size() - 1] = ch;
					r.back() = ch;
				}
				break;
			case 19: {
				String t(x);
				t += 'x';
				U u = r + U(1, 'x');
				same(c, t, u, "a grown copy");
			} break;
		}
		if (r.size() > 300) {
			x = String();
			r.clear();
		}
		for (int q = 0; q < N; q++) {
			if (un(st[q]) != ref[q]) {
				c.fail("after operation %d on %d, string %d is %s, expected %s", op, i, q, sh(st[q]).c_str(), sh(ref[q]).c_str());
			}
			whole(c, st[q], "a string");
		}
		c.check((st[i] == st[j]) == (ref[i] == ref[j]) && (st[i] != st[j]) == (ref[i] != ref[j]), "equality of %s and %s", sh(ref[i]).c_str(), sh(ref[j]).c_str());
		c.check(ref[i] != ref[j] || (st[i].hash() == st[j].hash() && st[i].hash64() == st[j].hash64()), "equal strings hash differently");
	}
	c.nt(ops >= 5 && shares > 0);
	c.no_errors("string editing");
}

VT_PROP(P05, search, 40000) {
	int kind = (int)s.draw(4);
	U t = gu(s, 24, kind);
	if (t.empty()) {
		t.push_back('a');
	}
	U p = gpat(s, t, kind);
	int from = (int)s.draw(t.size() + 2);
	c.note("in %s find %s from %d", sh(t).c_str(), sh(p).c_str(), from);
	String x = mk(t), y = mk(p);
	bool lat = latin(p);
	std::string np = narrow(p);
	same(c, x.find(y, from), pos(t.find(p, from)), "find");
	same(c, x.find(y), pos(t.find(p)), "find from the start");
	same(c, x.find(y, -1 - from), -1, "find from a negative position");
	if (lat) {
		same(c, x.find(np.c_str(), from), pos(t.find(p, from)), "find of a C string");
		same(c, x.contains(np.c_str()), t.find(p) != NP, "contains a C string");
		same(c, x.begins_with(np.c_str()), t.compare(0, p.size(), p) == 0 && t.size() >= p.size(), "begins with a C string");
	}
	same(c, x.contains(y), t.find(p) != NP, "contains");
	same(c, x.find_char(p[0], from), pos(t.find(p[0], from)), "find_char");
	same(c, x.rfind(y, from), pos(t.rfind(p, from)), "rfind");
	same(c, x.rfind(y), pos(t.rfind(p)), "rfind from the end");
	same(c, x.find_last(y), pos(t.rfind(p)), "find_last");
	U lt = low(t), lp = low(p);
	U other = p;
	for (auto &ch : other) {
		if (s.flag()) {
			char32_t n = s.flag() ? up(ch) : low(ch);
			ch = low(n) == low(ch) ? n : ch;
		}
	}
	same(c, x.findn(mk(other), from), pos(lt.find(lp, from)), "findn");
	same(c, x.rfindn(mk(other), from), pos(lt.rfind(lp, from)), "rfindn");
	same(c, x.rfindn(mk(other)), pos(lt.rfind(lp)), "rfindn from the end");
	same(c, x.begins_with(y), t.size() >= p.size() && t.compare(0, p.size(), p) == 0, "begins_with");
	bool ends = t.size() >= p.size() && t.compare(t.size() - p.size(), p.size(), p) == 0;
	same(c, x.ends_with(y), ends, "ends_with");
	same(c, x.is_enclosed_in(y), ends && t.compare(0, p.size(), p) == 0, "is_enclosed_in");
	// several keys: the leftmost, and of those there the first listed
	std::vector<U> keys;
	int nk = 1 + (int)s.draw(4);
	for (int i = 0; i < nk; i++) {
		keys.push_back(gpat(s, t, kind));
	}
	int want = -1, wk = -1;
	for (int i = from; i < (int)t.size() && want < 0; i++) {
		for (int k = 0; k < nk; k++) {
			if (t.compare(i, keys[k].size(), keys[k]) == 0) {
				want = i;
				wk = k;
				break;
			}
		}
	}
	int gk = -1;
	same(c, x.findmk(vs(keys), from, &gk), want, "findmk");
	if (want >= 0) {
		same(c, gk, wk, "the key findmk found");
	}
	// counting
	int a = (int)s.draw(t.size() + 1), b = (int)s.draw(t.size() + 3);
	U part = b == 0 ? t.substr(a) : (a >= b ? U() : t.substr(a, b - a));
	auto count = [](const U &h, const U &n) {
		int k = 0;
		for (size_t i = h.find(n); i != NP; i = h.find(n, i + n.size())) {
			k++;
		}
		return k;
	};
	same(c, x.count(y, a, b), count(part, p), "count");
	same(c, x.countn(mk(other), a, b), count(low(part), lp), "countn");
	same(c, x.count(y), count(t, p), "count of all");
	// a word at a place
	int w = (int)s.draw(t.size());
	bool at = t.compare(w, p.size(), p) == 0;
	same(c, x.is_word_at(w, y), at, "is_word_at");
	if (lat) {
		same(c, x.is_word_at(w, np.c_str()), at, "is_word_at of a C string");
	}
	// the first difference
	U o = s.flag() ? t.substr(0, s.draw(t.size() + 1)) + gu(s, 3, kind) : gu(s, 8, kind);
	size_t d = 0;
	while (d < t.size() && d < o.size() && t[d] == o[d]) {
		d++;
	}
	same(c, x.find_first_difference_index(mk(o)), (int64_t)d, "find_first_difference_index");
	c.nt(t.size() > 4 && t.find(p) != NP);
	c.no_errors("searching");
}

VT_PROP(P05, editing, 30000) {
	int kind = (int)s.draw(4);
	U t = gu(s, 20, kind);
	U p = gpat(s, t, kind), w = gu(s, 4, kind);
	int a = (int)s.range(-2, t.size() + 2), b = (int)s.range(-2, t.size() + 2);
	c.note("%s %s %s %d %d", sh(t).c_str(), sh(p).c_str(), sh(w).c_str(), a, b);
	String x = mk(t), y = mk(p), z = mk(w);
	int n = (int)t.size();
	auto sub = [&](int from, int cnt) { return from < 0 || from >= n || cnt <= 0 ? U() : t.substr(from, cnt); };
	same(c, x.substr(a, b), sub(a, b == -1 ? n - a : b), "substr");
	same(c, x.substr(a), sub(a, n - a), "substr to the end");
	int e = b > n ? n : b;
	same(c, x.substr_index(a, b), a >= 0 && b >= 0 && a <= e ? sub(a, e - a) : U(), "substr_index");
	same(c, x.left(a), a <= 0 ? U() : t.substr(0, a), "left");
	same(c, x.right(a), a >= n ? U() : t.substr(a < 0 ? 0 : a), "right (from a position)");
	same(c, x.insert(a, z), a < 0 ? t : t.substr(0, a > n ? n : a) + w + (a >= n ? U() : t.substr(a)), "insert");
	same(c, x.replace(y, z), rep(t, p, w), "replace");
	if (latin(p) && latin(w)) {
		same(c, x.replace(narrow(p).c_str(), narrow(w).c_str()), rep(t, p, w), "replace of C strings");
	}
	size_t f = t.find(p);
	same(c, x.replace_first(y, z), f == NP ? t : t.substr(0, f) + w + t.substr(f + p.size()), "replace_first");
	U lt = low(t), lp = low(p), rn;
	for (size_t i = 0; i < t.size();) {
		if (lt.compare(i, lp.size(), lp) == 0) {
			rn += w;
			i += lp.size();
		} else {
			rn.push_back(t[i++]);
		}
	}
	same(c, x.replacen(y, z), rn, "replacen");
	same(c, x.newline_to_br(), rep(rep(t, U(U"\r\n"), U(U"<br>")), U(U"\n"), U(U"<br>")), "newline_to_br");
	bool pre = t.compare(0, p.size(), p) == 0, suf = t.size() >= p.size() && t.compare(t.size() - p.size(), p.size(), p) == 0;
	same(c, x.trim_prefix(y), pre ? t.substr(p.size()) : t, "trim_prefix");
	same(c, x.trim_suffix(y), suf ? t.substr(0, n - p.size()) : t, "trim_suffix");
	int len = (int)s.draw(30);
	U ch(1, gc(s, kind));
	U padding = len > n ? U(len - n, ch[0]) : U();
	same(c, x.lpad(len, mk(ch)), padding + t, "lpad");
	same(c, x.rpad(len, mk(ch)), t + padding, "rpad");
	same(c, x.quote(y), p + t + p, "quote");
	if (!t.empty()) {
		same(c, x.quote().unquote(), t, "unquote after quote");
		same(c, x.quote("'").unquote(), t, "unquote after single quotes");
	}
	auto ws = [](char32_t q) { return q <= 32; };
	size_t lo = 0, hi = t.size();
	while (lo < t.size() && ws(t[lo])) {
		lo++;
	}
	while (hi > 0 && ws(t[hi - 1])) {
		hi--;
	}
	same(c, x.strip_edges(true, false), t.substr(lo), "strip_edges on the left");
	same(c, x.strip_edges(false, true), t.substr(0, hi), "strip_edges on the right");
	same(c, x.strip_edges(), lo < hi ? t.substr(lo, hi - lo) : U(), "strip_edges");
	U esc;
	for (char32_t q : t) {
		if (q >= 32) {
			esc.push_back(q);
		}
	}
	same(c, x.strip_escapes(), esc, "strip_escapes");
	size_t l2 = t.find_first_not_of(p), r2 = t.find_last_not_of(p);
	same(c, x.lstrip(y), l2 == NP ? U() : t.substr(l2), "lstrip");
	same(c, x.rstrip(y), r2 == NP ? U() : t.substr(0, r2 + 1), "rstrip");
	same(c, x + y, t + p, "+");
	same(c, String(narrow(U(U"ab")).c_str()) + x, U(U"ab") + t, "+ after a C string");
	same(c, "ab" + x, U(U"ab") + t, "C string +");
	same(c, ch[0] + x, ch + t, "character +");
	same(c, String(t.c_str(), a), a < 0 ? t : t.substr(0, a), "a clipped copy");
	if (latin(t)) {
		same(c, String(narrow(t).c_str()), t, "from a Latin-1 string");
		same(c, String(narrow(t).c_str(), a), a < 0 ? t : t.substr(0, a), "a clipped Latin-1 string");
	}
	same(c, String::chr(ch[0]), ch, "chr");
	if (n) {
		int q = (int)s.draw(n);
		same(c, x.unicode_at(q), t[q], "unicode_at");
		same(c, x.ord_at(q), t[q], "ord_at");
	}
	c.check(un(x) == t && un(y) == p, "an argument changed");
	c.nt(n > 3 && f != NP);
	c.no_errors("editing");
}

VT_PROP(P05, numbers_padded, 15000) {
	// an optional sign or text, digits, an optional fraction
	U head = s.flag() ? U() : gu(s, 3, 0);
	if (s.one_in(3)) {
		head.push_back('-');
	}
	U digits, frac;
	int nd = 1 + (int)s.draw(5), nf = (int)s.draw(6);
	for (int i = 0; i < nd; i++) {
		digits.push_back('0' + s.draw(10));
	}
	for (int i = 0; i < nf; i++) {
		frac.push_back('0' + s.draw(10));
	}
	bool dot = nf > 0;
	U t = head + digits + (dot ? U(1, '.') + frac : U());
	int k = (int)s.range(-1, 8);
	c.note("%s %d", sh(t).c_str(), k);
	U z = digits;
	while ((int)z.size() < k) {
		z.insert(0, 1, '0');
	}
	same(c, mk(t).pad_zeros(k), head + z + (dot ? U(1, '.') + frac : U()), "pad_zeros");
	U f = frac;
	f.resize(k < 0 ? 0 : k, '0');
	same(c, mk(t).pad_decimals(k), head + digits + (k > 0 ? U(1, '.') + f : U()), "pad_decimals");
	c.nt(k > 0);
	c.no_errors("padding");
}

VT_PROP(P05, splitting, 30000) {
	int kind = (int)s.draw(2);
	U t = gu(s, 20, kind);
	U k = gpat(s, t, kind);
	c.note("%s by %s", sh(t).c_str(), sh(k).c_str());
	String x = mk(t), y = mk(k);
	std::vector<U> all = splitu(t, k), ne, rall = rsplitu(t, k), rne;
	for (auto &u : all) {
		if (!u.empty()) {
			ne.push_back(u);
		}
	}
	for (auto &u : rall) {
		if (!u.empty()) {
			rne.push_back(u);
		}
	}
	same(c, x.split(y), all, "split");
	same(c, x.split(y, false), ne, "split without empty parts");
	same(c, x.rsplit(y), rall, "rsplit");
	same(c, x.rsplit(y, false), rne, "rsplit without empty parts");
	same(c, y.join(x.split(y)), t, "join after split");
	int m = 1 + (int)s.draw(4);
	std::vector<U> lim;
	U rest = t;
	while ((int)lim.size() < m && rest.find(k) != NP) {
		size_t p = rest.find(k);
		lim.push_back(rest.substr(0, p));
		rest = rest.substr(p + k.size());
	}
	lim.push_back(rest);
	same(c, x.split(y, true, m), lim, "split with a limit");
	std::vector<U> rlim;
	rest = t;
	while ((int)rlim.size() < m && rest.rfind(k) != NP) {
		size_t p = rest.rfind(k);
		rlim.insert(rlim.begin(), rest.substr(p + k.size()));
		rest = rest.substr(0, p);
	}
	rlim.insert(rlim.begin(), rest);
	same(c, x.rsplit(y, true, m), rlim, "rsplit with a limit");
	// slices
	if (!t.empty()) {
		same(c, x.get_slice_count(y), (int64_t)all.size(), "get_slice_count");
		for (int i = 0; i < (int)all.size(); i++) {
			same(c, x.get_slice(y, i), all[i], "get_slice");
		}
		if (all.size() > 1) {
			same(c, x.get_slice(y, (int)all.size()), U(), "get_slice past the end");
		}
		std::vector<U> one = splitu(t, U(1, k[0]));
		for (int i = 0; i < (int)one.size() + 1; i++) {
			same(c, x.get_slicec(k[0], i), i < (int)one.size() ? one[i] : U(), "get_slicec");
		}
	} else {
		same(c, x.get_slice_count(y), 0, "get_slice_count of nothing");
	}
	same(c, x.get_slice(y, -1), U(), "a negative slice");
	// words
	std::vector<U> words;
	U w;
	for (char32_t ch : t) {
		if (ch <= 32) {
			if (!w.empty()) {
				words.push_back(w);
			}
			w.clear();
		} else {
			w.push_back(ch);
		}
	}
	if (!w.empty()) {
		words.push_back(w);
	}
	same(c, x.split_spaces(), words, "split_spaces");
	c.nt(all.size() > 2);
	c.no_errors("splitting");
}

VT_PROP(P05, splitting_numbers, 15000) {
	int n = (int)s.draw(7);
	std::vector<U> seps = { U(U","), U(U";"), U(U" | ") };
	int ns = 1 + (int)s.draw(3);
	seps.resize(ns);
	bool mixed = ns > 1;
	U ti, tf;
	std::vector<int> wi, wia;
	std::vector<double> wf, wfa;
	for (int i = 0; i < n; i++) {
		if (i) {
			const U &sep = seps[s.draw(ns)];
			ti += sep;
			tf += sep;
		}
		if (s.one_in(4)) {
			wia.push_back(0);
			wfa.push_back(0);
			continue;
		}
		int v = (int)s.sint(100000);
		double f = v / 64.0;
		char b[64];
		snprintf(b, sizeof b, "%d", v);
		for (char *p = b; *p; p++) {
			ti.push_back(*p);
		}
		snprintf(b, sizeof b, "%.6f", f);
		for (char *p = b; *p; p++) {
			tf.push_back(*p);
		}
		wi.push_back(v);
		wia.push_back(v);
		wf.push_back(f);
		wfa.push_back(f);
	}
	if (n == 0) {
		wia.push_back(0);
		wfa.push_back(0);
	}
	c.note("%s %s", sh(ti).c_str(), sh(tf).c_str());
	String si = mk(ti), sf = mk(tf);
	auto ci = [&](const Vector<int> &g, const std::vector<int> &w, const char *what) {
		same(c, g.size(), (int64_t)w.size(), what);
		for (int i = 0; i < g.size(); i++) {
			same(c, g[i], w[i], what);
		}
	};
	auto cf = [&](const Vector<float> &g, const std::vector<double> &w, const char *what) {
		same(c, g.size(), (int64_t)w.size(), what);
		for (int i = 0; i < g.size(); i++) {
			c.near(g[i], w[i], 1e-6 * std::fabs(w[i]) + 1e-9, "%s", what);
		}
	};
	if (!mixed) {
		ci(si.split_ints(mk(seps[0])), wia, "split_ints");
		ci(si.split_ints(mk(seps[0]), false), wi, "split_ints without empty parts");
		cf(sf.split_floats(mk(seps[0])), wfa, "split_floats");
		cf(sf.split_floats(mk(seps[0]), false), wf, "split_floats without empty parts");
	}
	ci(si.split_ints_mk(vs(seps)), wia, "split_ints_mk");
	ci(si.split_ints_mk(vs(seps), false), wi, "split_ints_mk without empty parts");
	cf(sf.split_floats_mk(vs(seps)), wfa, "split_floats_mk");
	cf(sf.split_floats_mk(vs(seps), false), wf, "split_floats_mk without empty parts");
	c.check(un(si) == ti && un(sf) == tf, "the text changed");
	c.nt(n >= 2);
	c.no_errors("splitting numbers");
}

VT_PROP(P05, comparing, 30000) {
	int kind = (int)s.draw(4);
	U a = gu(s, 8, kind), b, d = gu(s, 8, kind);
	if (s.flag()) {
		b = a;
		if (b.size() && s.flag()) {
			b[s.draw(b.size())] = gc(s, kind);
		}
		if (s.one_in(3)) {
			b.push_back(gc(s, kind));
		}
	} else {
		b = gu(s, 8, kind);
	}
	c.note("%s %s %s", sh(a).c_str(), sh(b).c_str(), sh(d).c_str());
	String x = mk(a), y = mk(b), z = mk(d);
	int o = sgn(a.compare(b));
	same(c, x == y, o == 0, "==");
	same(c, x != y, o != 0, "!=");
	same(c, x < y, o < 0, "<");
	same(c, x <= y, o <= 0, "<=");
	same(c, x > y, o > 0, ">");
	same(c, x >= y, o >= 0, ">=");
	same(c, sgn(x.casecmp_to(y)), o, "casecmp_to");
	same(c, sgn(x.nocasecmp_to(y)), sgn(up(a).compare(up(b))), "nocasecmp_to");
	same(c, x == b.c_str(), o == 0, "== with characters");
	same(c, x != b.c_str(), o != 0, "!= with characters");
	same(c, x < b.c_str(), o < 0, "< with characters");
	same(c, x == StrRange(b.c_str(), (int)b.size()), o == 0, "== with a range");
	if (latin(b)) {
		std::string nb = narrow(b);
		same(c, x == nb.c_str(), o == 0, "== with a C string");
		same(c, x != nb.c_str(), o != 0, "!= with a C string");
		same(c, x < nb.c_str(), o < 0, "< with a C string");
		same(c, nb.c_str() == x, o == 0, "C string ==");
		same(c, String::hash(nb.c_str()), y.hash(), "the hash of a C string");
		same(c, String::hash(nb.c_str(), (int)nb.size()), y.hash(), "the hash of a counted C string");
		StringName n1(nb.c_str()), n2(y), n3(x);
		c.check(n1 == n2 && (n1 == n3) == (o == 0), "interned names of %s and %s", sh(a).c_str(), sh(b).c_str());
	}
	same(c, String::hash(b.c_str()), y.hash(), "the hash of characters");
	same(c, String::hash(b.c_str(), (int)b.size()), y.hash(), "the hash of counted characters");
	StringName m1(x), m2(y);
	same(c, m1 == m2, o == 0, "interned ==");
	same(c, m1 != m2, o != 0, "interned !=");
	same(c, String(m1), a, "an interned name's text");
	same(c, m1 == x, true, "an interned name and its text");
	same(c, m1 == y, o == 0, "an interned name and a text");
	same(c, StringName::AlphCompare()(m1, m2), o < 0, "the alphabetical order of interned names");
	c.check(o != 0 || m1.hash() == m2.hash(), "interned hashes");
	// natural order: antisymmetric, reflexive and transitive
	int nxy = x.naturalnocasecmp_to(y), nyx = y.naturalnocasecmp_to(x);
	same(c, sgn(nxy), -sgn(nyx), "natural comparison turned round");
	same(c, x.naturalnocasecmp_to(x), 0, "natural comparison with itself");
	int nyz = y.naturalnocasecmp_to(z), nxz = x.naturalnocasecmp_to(z);
	if (nxy <= 0 && nyz <= 0) {
		c.check(nxz <= 0, "natural comparison is not transitive");
	}
	// similarity
	float sim = x.similarity(y);
	c.near(sim, y.similarity(x), 1e-6, "similarity turned round");
	c.check(sim >= 0 && sim <= 1, "similarity is %g", sim);
	if (o == 0) {
		c.check(sim == 1, "similarity with itself is %g", sim);
	} else if (a.size() < 2 || b.size() < 2) {
		c.check(sim == 0, "similarity without pairs is %g", sim);
	} else {
		std::vector<U> pb;
		for (size_t i = 0; i + 1 < b.size(); i++) {
			pb.push_back(b.substr(i, 2));
		}
		int tot = (int)(a.size() + b.size() - 2), inter = 0;
		for (size_t i = 0; i + 1 < a.size(); i++) {
			for (size_t j = 0; j < pb.size(); j++) {
				if (pb[j] == a.substr(i, 2)) {
					inter++;
					pb.erase(pb.begin() + j);
					break;
				}
			}
		}
		c.near(sim, 2.0 * inter / tot, 1e-6, "similarity");
	}
	// subsequences
	U sub;
	for (char32_t ch : b) {
		if (s.flag()) {
			sub.push_back(s.one_in(4) ? up(ch) : ch);
		}
	}
	auto isub = [](const U &n, const U &h) {
		size_t i = 0;
		for (char32_t ch : h) {
			if (i < n.size() && n[i] == ch) {
				i++;
			}
		}
		return i == n.size();
	};
	same(c, mk(sub).is_subsequence_of(y), isub(sub, b), "is_subsequence_of");
	same(c, mk(sub).is_subsequence_ofi(y), isub(low(sub), low(b)), "is_subsequence_ofi");
	same(c, x.is_subsequence_of(y), isub(a, b), "is_subsequence_of");
	same(c, x.is_subsequence_ofi(y), isub(low(a), low(b)), "is_subsequence_ofi");
	c.nt(a.size() > 1 && b.size() > 1);
	c.no_errors("comparing");
}

VT_PROP(P05, natural_order, 15000) {
	// names of letters and numbers: numbers compare by value, letters without case
	int n = 1 + (int)s.draw(4);
	std::vector<std::pair<U, uint64_t>> p[2];
	U t[2];
	for (int q = 0; q < 2; q++) {
		for (int i = 0; i < n; i++) {
			U w;
			uint64_t v;
			if (q == 1 && s.flag()) {
				w = p[0][i].first;
				v = p[0][i].second;
			} else {
				int k = 1 + (int)s.draw(2);
				for (int j = 0; j < k; j++) {
					w.push_back("abAB"[s.draw(4)]);
				}
				v = s.flag() ? s.draw(12) : s.draw(100000);
			}
			p[q].push_back({ w, v });
			t[q] += w;
			for (int j = (int)s.draw(3); j > 0; j--) {
				t[q].push_back('0');
			}
			for (char ch : std::to_string(v)) {
				t[q].push_back(ch);
			}
		}
	}
	c.note("%s %s", sh(t[0]).c_str(), sh(t[1]).c_str());
	int want = 0;
	for (int i = 0; i < n && !want; i++) {
		U a = up(p[0][i].first), b = up(p[1][i].first);
		// a letter against the digit that ends the other's letters: digits come first
		for (size_t j = 0; !want && (j < a.size() || j < b.size()); j++) {
			if (j >= a.size()) {
				want = -1;
			} else if (j >= b.size()) {
				want = 1;
			} else {
				want = a[j] < b[j] ? -1 : a[j] > b[j];
			}
		}
		if (!want) {
			want = p[0][i].second < p[1][i].second ? -1 : p[0][i].second > p[1][i].second;
		}
	}
	same(c, sgn(mk(t[0]).naturalnocasecmp_to(mk(t[1]))), want, "naturalnocasecmp_to");
	c.nt(n > 1);
	c.no_errors("natural order");
}

VT_PROP(P05, wildcards, 20000) {
	U t;
	int n = 1 + (int)s.draw(10);
	for (int i = 0; i < n; i++) {
		t.push_back("abAB.c"[s.draw(6)]);
	}
	U p;
	for (int i = 0; i < n; i++) {
		int k = (int)s.draw(6);
		if (k == 0) {
			p.push_back('*');
			i += (int)s.draw(3);
		} else if (k == 1) {
			p.push_back('?');
		} else if (k == 2) {
			p.push_back("abAB.c"[s.draw(6)]);
		} else {
			p.push_back(t[i]);
		}
	}
	c.note("%s like %s", sh(t).c_str(), sh(p).c_str());
	auto like = [](const U &w, const U &x) {
		std::vector<std::vector<char>> m(w.size() + 1, std::vector<char>(x.size() + 1, 0));
		m[0][0] = 1;
		for (size_t i = 1; i <= w.size(); i++) {
			for (size_t j = 0; j <= x.size(); j++) {
				if (w[i - 1] == '*') {
					m[i][j] = m[i - 1][j] || (j && m[i][j - 1]);
				} else if (j) {
					m[i][j] = m[i - 1][j - 1] && (w[i - 1] == '?' ? x[j - 1] != '.' : w[i - 1] == x[j - 1]);
				}
			}
		}
		return (bool)m[w.size()][x.size()];
	};
	bool m = like(p, t);
	same(c, mk(t).match(mk(p)), m, "match");
	same(c, mk(t).matchn(mk(p)), like(up(p), up(t)), "matchn");
	c.nt(n > 2 && p.find('*') != NP);
	c.no_errors("wildcards");
}

VT_PROP(P05, letter_case, 15000) {
	U t;
	int n = s.size(1, 12);
	for (int i = 0; i < n; i++) {
		static const char32_t first[] = { 0x20, 0xc0, 0x391, 0x400 };
		static const int many[] = { 0x5f, 0x3f, 0x39, 0x60 };
		int k = (int)s.draw(4);
		char32_t ch = first[k] + (char32_t)s.draw(many[k]);
		t.push_back(sure_letter(ch) ? ch : 'q');
	}
	c.note("%s", sh(t).c_str());
	String x = mk(t);
	same(c, x.to_upper(), up(t), "to_upper");
	same(c, x.to_lower(), low(t), "to_lower");
	same(c, x.to_upper().to_lower(), low(t), "to_lower after to_upper");
	same(c, x.to_lower().to_upper(), up(t), "to_upper after to_lower");
	c.check(un(x) == t, "the text changed");
	for (char32_t ch : t) {
		same(c, String::char_uppercase(ch), up(ch), "char_uppercase");
		same(c, String::char_lowercase(ch), low(ch), "char_lowercase");
	}
	char32_t any = (char32_t)s.draw(0x11000);
	same(c, String::char_uppercase(String::char_uppercase(any)), String::char_uppercase(any), "char_uppercase twice");
	// names of words
	U camel, snake, title;
	int w = 1 + (int)s.draw(4);
	for (int i = 0; i < w; i++) {
		U word;
		int k = 2 + (int)s.draw(4);
		for (int j = 0; j <= k; j++) {
			word.push_back('a' + s.draw(26));
		}
		U cap = word;
		cap[0] -= 32;
		camel += i || s.flag() ? cap : word;
		snake += (i ? U(U"_") : U()) + word;
		title += (i ? U(U" ") : U()) + cap;
	}
	same(c, mk(camel).camelcase_to_underscore(), snake, "camelcase_to_underscore");
	same(c, mk(camel).capitalize(), title, "capitalize of a camel case name");
	same(c, mk(snake).capitalize(), title, "capitalize");
	same(c, mk(snake).camelcase_to_underscore(), snake, "camelcase_to_underscore of such a name");
	c.nt(n > 2);
	c.no_errors("letter case");
}

VT_PROP(P05, lines, 15000) {
	// lines with an indentation each
	int n = 1 + (int)s.draw(5);
	std::vector<std::pair<int, U>> ls;
	int base = (int)s.draw(4);
	for (int i = 0; i < n; i++) {
		U body;
		if (!s.one_in(4)) {
			int k = 1 + (int)s.draw(5);
			for (int j = 0; j < k; j++) {
				body.push_back("ab ."[s.draw(j ? 4 : 2)]);
			}
		}
		ls.push_back({ body.empty() ? 0 : (int)s.draw(3), body });
	}
	bool first = true;
	for (auto &l : ls) { // the first line with text is indented least, and sets the indentation
		if (!l.second.empty()) {
			if (first) {
				l.first = 0;
			}
			first = false;
		}
	}
	bool nl = s.flag();
	auto build = [&](int ind) {
		U o;
		for (int i = 0; i < n; i++) {
			if (!ls[i].second.empty()) {
				o += U(ind + ls[i].first, '\t') + ls[i].second;
			}
			if (i + 1 < n || nl) {
				o.push_back('\n');
			}
		}
		return o;
	};
	U t = build(base);
	c.note("%s", sh(t).c_str());
	same(c, mk(t).dedent(), build(0), "dedent");
	int more = (int)s.draw(3);
	same(c, mk(t).indent(mk(U(more, '\t'))), build(base + more), "indent");
	same(c, mk(t).indent("  ").replace("\n  ", "\n").trim_prefix("  "), t, "indent undone");
	c.nt(n > 1);
	c.no_errors("lines");
}

// one text put together from pieces, by the three ways there are
template <int N>
void build_with(Src &s, Ctx &c) {
	StringBuffer<N> buf;
	StringBuilder bld;
	String sum;
	U want;
	std::deque<std::string> keep; // the builder holds on to the C strings it was given
	int n = 1 + (int)s.draw(12), pieces = 0, asked = 0;
	for (int i = 0; i < n; i++) {
		U piece;
		int len = s.one_in(5) ? (int)s.draw(70) : (int)s.draw(6);
		switch (s.draw(6)) {
			case 0: { // characters of a C string, Latin-1
				std::string p;
				for (int j = 0; j < len; j++) {
					p.push_back((char)(1 + s.draw(255)));
					piece.push_back((unsigned char)p.back());
				}
				keep.push_back(p);
				c.note("cstr %d;", len);
				if (s.flag()) {
					buf.append(keep.back().c_str());
					bld.append(keep.back().c_str());
				} else {
					buf += keep.back().c_str();
					bld += keep.back().c_str();
				}
				sum += keep.back().c_str();
				pieces++;
				break;
			}
			case 1: {
				for (int j = 0; j < len; j++) {
					piece.push_back(1 + s.draw(0x2fff));
				}
				c.note("str %d;", len);
				String p = mk(piece);
				if (s.flag()) {
					buf.append(p);
					bld.append(p);
				} else {
					buf += p;
					bld += p;
				}
				pieces += !piece.empty();
				sum += p;
				break;
			}
			case 2: {
				piece.push_back(1 + s.draw(0x2fff));
				c.note("chr;");
				buf += (CharType)piece[0];
				sum += (CharType)piece[0];
				bld.append(mk(piece));
				pieces++;
				break;
			}
			case 3: { // so many characters of a longer text
				U all;
				for (int j = 0; j < len; j++) {
					all.push_back(1 + s.draw(0x2fff));
				}
				int clip = (int)s.draw(80);
				piece = all.substr(0, clip);
				c.note("clip %d of %d;", clip, len);
				buf.append(mk(all).get_data(), clip);
				sum += mk(piece);
				bld.append(mk(piece));
				pieces += !piece.empty();
				break;
			}
			case 4: {
				int r = (int)s.draw(200);
				c.note("reserve %d;", r);
				buf.reserve(r);
				break;
			}
			default:
				c.note("ask;");
				asked++;
				same(c, buf.as_string(), want, "as_string of a StringBuffer");
				same(c, bld.as_string(), want, "as_string of a StringBuilder");
		}
		want += piece;
		same(c, buf.length(), (int64_t)want.size(), "length of a StringBuffer");
		same(c, bld.length(), (int64_t)want.size(), "length of a StringBuilder");
		same(c, bld.num_strings_appended(), pieces, "num_strings_appended");
	}
	same(c, buf.as_string(), want, "as_string of a StringBuffer");
	same(c, (String)bld, want, "as_string of a StringBuilder");
	same(c, bld.get_string_length(), (int64_t)want.size(), "get_string_length");
	same(c, sum, want, "operator+=");
	bld.clear();
	same(c, bld.as_string(), U(), "as_string of a cleared StringBuilder");
	bld + mk(want) + "x";
	same(c, bld.as_string(), want + U(U"x"), "a StringBuilder used again");
	c.nt(want.size() > 8 && asked);
}

VT_PROP(P05, building, 15000) {
	switch (s.draw(3)) {
		case 0:
			build_with<64>(s, c);
			break;
		case 1:
			build_with<8>(s, c);
			break;
		default:
			build_with<1>(s, c);
	}
	int64_t v = s.sint(1000000);
	StringBuffer<4> b;
	b.append(itos(v));
	same(c, b.as_int(), v, "as_int of a StringBuffer");
	c.check(b.as_double() == (double)v, "as_double of a StringBuffer");
	c.no_errors("building");
}

// the same text handed over in every spelling the interface takes: wide characters, characters, C strings, ranges, names
VT_PROP(P05, spellings, 20000) {
	int kind = (int)s.draw(4);
	U a = gu(s, 8, kind), b = s.one_in(3) ? a : gu(s, 8, kind);
	if (b.size() && s.one_in(3)) {
		b[s.draw(b.size())] = gc(s, kind);
	}
	int clip = s.one_in(5) ? -1 : (int)s.draw(12);
	c.note("%s %s clipped to %d", sh(a).c_str(), sh(b).c_str(), clip);
	std::wstring wb(b.begin(), b.end());
	U cut = clip < 0 ? b : b.substr(0, clip);
	String x = mk(a), y = mk(b);
	int o = sgn(a.compare(b));
	// making a text
	same(c, String(wb.c_str()), b, "a string of wide characters");
	same(c, String(wb.c_str(), clip), cut, "a string of counted wide characters");
	same(c, String(b.c_str(), clip), cut, "a string of counted characters");
	same(c, String(StrRange(b.c_str(), (int)cut.size())), cut, "a string of a range");
	same(c, String(StrRange()), U(), "a string of no range");
	same(c, String((const wchar_t *)nullptr), U(), "a string of no wide characters");
	same(c, String((const char *)nullptr), U(), "a string of no C string");
	same(c, String((const char32_t *)nullptr), U(), "a string of no characters");
	same(c, String((const wchar_t *)nullptr, clip), U(), "a string of no counted wide characters");
	String t = x;
	t = wb.c_str();
	same(c, t, b, "= with wide characters");
	t = x;
	t = b.c_str();
	same(c, t, b, "= with characters");
	t = (const char32_t *)nullptr;
	same(c, t, U(), "= with no characters");
	t = x;
	t += wb.c_str();
	same(c, t, a + b, "+= with wide characters");
	t = x;
	t += b.c_str();
	same(c, t, a + b, "+= with characters");
	t = x;
	t += (const wchar_t *)nullptr;
	t += (const char32_t *)nullptr;
	t += (const char *)nullptr;
	same(c, t, a, "+= with nothing");
	same(c, wb.c_str() + x, b + a, "wide characters +");
	// comparing
	same(c, x == wb.c_str(), o == 0, "== with wide characters");
	same(c, x != wb.c_str(), o != 0, "!= with wide characters");
	same(c, x < wb.c_str(), o < 0, "< with wide characters");
	same(c, wb.c_str() == x, o == 0, "wide characters ==");
	same(c, wb.c_str() != x, o != 0, "wide characters !=");
	same(c, String::hash(wb.c_str()), y.hash(), "the hash of wide characters");
	same(c, String::hash(wb.c_str(), (int)cut.size()), mk(cut).hash(), "the hash of counted wide characters");
	same(c, String::hash(b.c_str(), (int)cut.size()), mk(cut).hash(), "the hash of counted characters");
	same(c, NoCaseComparator()(x, y), x.nocasecmp_to(y) < 0, "NoCaseComparator");
	same(c, NaturalNoCaseComparator()(x, y), x.naturalnocasecmp_to(y) < 0, "NaturalNoCaseComparator");
	if (latin(b)) {
		std::string nb = narrow(b);
		same(c, nb.c_str() != x, o != 0, "C string !=");
		same(c, nb.c_str() + x, b + a, "C string +");
		same(c, String(nb.c_str(), clip), cut, "a string of a counted C string");
		same(c, String::hash(nb.c_str(), (int)cut.size()), mk(cut).hash(), "the hash of a counted C string");
		StringName n(x);
		same(c, n == nb.c_str(), o == 0, "an interned name and a C string");
		same(c, StringName(nb.c_str()) != x, o != 0, "an interned C string != a text");
	}
	StringName nx(x), ny(y);
	same(c, nx != y, o != 0, "an interned name != a text");
	same(c, (const void *)nx != nullptr, a.size() > 0, "whether an interned name is there");
	same(c, nx.is_node_unique_name(), a.size() > 0 && a[0] == '%', "is_node_unique_name");
	same(c, (nx < ny) + (ny < nx), o != 0, "interned names are ordered one way round");
	if (b.size()) {
		c.check(StringName::search(y) == ny, "a name in use is not found");
		c.check(StringName::search(b.c_str()) == ny, "a name in use is not found by its characters");
	}
	// names of constant C strings
	static const char *const consts[] = { "", "a", "ab", "aB", "b", "a.b", "%a", "\xe9", "a\xff", "\x7f", "zzz" };
	const int NC = sizeof consts / sizeof *consts;
	const char *k1 = consts[s.draw(NC)], *k2 = consts[s.draw(NC)];
	StringName m1 = *k1 ? StringName(StaticCString::create(k1)) : StringName(), m2(k2);
	U u1, u2;
	for (const char *p = k1; *p; p++) {
		u1.push_back((unsigned char)*p);
	}
	for (const char *p = k2; *p; p++) {
		u2.push_back((unsigned char)*p);
	}
	same(c, String(m1), u1, "the text of a constant name");
	same(c, m1 == m2, u1 == u2, "constant names ==");
	same(c, m1 == nx, u1 == a, "a constant name == a name");
	same(c, m1 == k2, u1 == u2, "a constant name == a C string");
	same(c, m1 == x, u1 == a, "a constant name == a text");
	same(c, m1.is_node_unique_name(), u1.size() && u1[0] == '%', "is_node_unique_name of a constant name");
	same(c, StringName::AlphCompare()(m1, m2), u1 < u2, "the alphabetical order of constant names");
	same(c, StringName::AlphCompare()(m1, nx), u1 < a, "the alphabetical order of a constant name and a name");
	same(c, StringName::AlphCompare()(nx, m1), a < u1, "the alphabetical order of a name and a constant name");
	c.check(m1 != nx || m1.hash() == nx.hash(), "equal names hash differently");
	c.nt(a.size() > 1 && b.size() > 1);
	c.no_errors("spellings");
}

// the buffers that hold encoded text
VT_PROP(P05, buffers, 10000) {
	std::string r[2];
	std::u16string w[2];
	CharString b[2];
	Char16String h[2];
	int n = s.size(1, 12);
	for (int step = 0; step < n; step++) {
		int i = (int)s.draw(2), k = (int)s.draw(6);
		std::string t;
		std::u16string v;
		for (int j = s.size(0, 6); j > 0; j--) {
			t.push_back((char)(s.flag() ? 'a' + s.draw(3) : 1 + s.draw(255)));
			v.push_back((char16_t)(s.flag() ? 'a' + s.draw(3) : 1 + s.draw(65535)));
		}
		c.note("step %d on %d with %d characters", k, i, (int)t.size());
		if (k == 0) {
			b[i] = t.c_str();
			h[i] = v.c_str();
			r[i] = t;
			w[i] = v;
		} else if (k == 1) {
			b[i] = b[1 - i];
			h[i] = h[1 - i];
			r[i] = r[1 - i];
			w[i] = w[1 - i];
		} else if (k == 2) {
			char ch = (char)(1 + s.draw(255));
			char16_t c16 = (char16_t)(1 + s.draw(65535));
			b[i] += ch;
			h[i] += c16;
			r[i] += ch;
			w[i] += c16;
		} else if (k == 3 && r[i].size()) {
			int p = (int)s.draw(r[i].size());
			b[i].set(p, 'Z');
			r[i][p] = 'Z';
		} else if (k == 4 && w[i].size()) {
			int p = (int)s.draw(w[i].size());
			h[i][p] = u'Z';
			w[i][p] = u'Z';
		} else if (k == 5) {
			b[i] = CharString(t.c_str());
			h[i] = Char16String(v.c_str());
			r[i] = t;
			w[i] = v;
		}
		for (int j = 0; j < 2; j++) {
			same(c, b[j].length(), (int)r[j].size(), "the length of a buffer");
			same(c, h[j].length(), (int)w[j].size(), "the length of a wide buffer");
			c.check(std::string(b[j].get_data()) == r[j], "a buffer holds the wrong text");
			c.check(std::u16string(h[j].get_data()) == w[j], "a wide buffer holds the wrong text");
			c.check(std::string((const char *)b[j]) == r[j], "a buffer converts to the wrong text");
			c.check(std::u16string((const char16_t *)h[j]) == w[j], "a wide buffer converts to the wrong text");
			for (int p = 0; p < (int)r[j].size(); p++) {
				c.check(b[j].get(p) == r[j][p], "a buffer's character");
			}
			for (int p = 0; p < (int)w[j].size(); p++) {
				c.check(h[j].get(p) == w[j][p] && char16_t(h[j][p]) == w[j][p], "a wide buffer's character");
			}
		}
		std::basic_string<unsigned char> u0(r[0].begin(), r[0].end()), u1(r[1].begin(), r[1].end());
		same(c, b[0] < b[1], u0 < u1, "the order of buffers");
		same(c, b[1] < b[0], u1 < u0, "the order of buffers");
		same(c, h[0] < h[1], w[0] < w[1], "the order of wide buffers");
		same(c, h[1] < h[0], w[1] < w[0], "the order of wide buffers");
	}
	c.nt(n > 3);
	c.no_errors("buffers");
}

// the kinds of characters, and the word at a place
VT_PROP(P05, words, 20000) {
	U a = gu(s, 16, (int)s.draw(4));
	int at = (int)s.draw(a.size() + 1);
	c.note("%s at %d", sh(a).c_str(), at);
	auto sym = [](char32_t ch) {
		return ch < 0x80 && ch != '_' && (ispunct((int)ch) || ch == ' ' || ch == '\t');
	};
	for (char32_t ch : a) {
		same(c, is_symbol(ch), sym(ch), "is_symbol");
		same(c, is_underscore(ch), ch == '_', "is_underscore");
		if (ch < 0x80) {
			same(c, is_punct(ch), ch == ' ' || (ispunct((int)ch) && ch != '_'), "is_punct");
			same(c, is_control(ch), iscntrl((int)ch) != 0, "is_control");
			same(c, is_whitespace(ch), isspace((int)ch) != 0, "is_whitespace");
			same(c, is_ascii_identifier_char(ch), isalnum((int)ch) || ch == '_', "is_ascii_identifier_char");
		}
		c.check(!is_linebreak(ch) || is_whitespace(ch), "a line break that is no white space");
	}
	int f = -7, e = -7;
	String x = mk(a);
	bool got = select_word(x, at, f, e);
	if (at < (int)a.size()) {
		same(c, got, a[at] > 32, "whether there is a word");
		if (got) {
			int p = at, q = at + 1;
			while (p > 0 && a[p - 1] > 32 && sym(a[p - 1]) == sym(a[at])) {
				p--;
			}
			while (q < (int)a.size() && a[q] > 32 && sym(a[q]) == sym(a[at])) {
				q++;
			}
			same(c, f, p, "where the word begins");
			same(c, e, q, "where the word ends");
		}
	} else {
		same(c, got, 1, "a word at the end");
		int p = at;
		while (p > 0 && a[p - 1] > 32 && !sym(a[p - 1])) {
			p--;
		}
		same(c, f, p, "where the last word begins");
		same(c, e, at, "where the last word ends");
	}
	same(c, x, a, "the text afterwards");
	c.nt(a.size() > 2);
	c.no_errors("words");
}
