// P03: every kind of key the hash maps take by default, and the hash functions themselves
#include "sfw.h"
#include "vt.h"
#include <climits>
#include <cmath>
#include <cstring>
#include <limits>
#include <map>

using vt::Ctx;
using vt::Src;

namespace {
// keys with the class each belongs to: keys of one class are the same key
template <class K>
using Keys = std::vector<std::pair<K, int>>;

float nanf(uint32_t payload) {
	uint32_t u = 0x7fc00000u | (payload & 0x3fffff) | (payload << 31);
	float f;
	memcpy(&f, &u, 4);
	return f;
}
double nand(uint64_t payload) {
	uint64_t u = 0x7ff8000000000000ull | (payload & 0xffffff) | (payload << 63);
	double f;
	memcpy(&f, &u, 8);
	return f;
}
template <class I>
Keys<I> ints(Src &s) {
	Keys<I> k;
	I v[] = { 0, 1, 2, 5, std::numeric_limits<I>::max(), std::numeric_limits<I>::min(), (I)(std::numeric_limits<I>::max() / 2), (I)(std::numeric_limits<I>::max() / 2 + 1), (I)-1, (I)s.word(), (I)s.word(), (I)s.word() };
	for (size_t i = 0; i < sizeof v / sizeof *v; i++) {
		int cl = (int)i;
		for (size_t j = 0; j < i; j++) {
			if (v[j] == v[i]) {
				cl = (int)j;
				break;
			}
		}
		k.push_back({ v[i], cl });
	}
	return k;
}
template <class F>
struct Val {
	F v;
	int cl;
};
Val<float> fl(Src &s) {
	switch (s.draw(8)) {
		case 0:
			return { 0.0f, 0 };
		case 1:
			return { -0.0f, 0 };
		case 2:
			return { nanf((uint32_t)s.word()), 1 };
		case 3:
			return { INFINITY, 2 };
		case 4:
			return { -INFINITY, 3 };
		case 5:
			return { 1.0f, 4 };
		case 6:
			return { 1.0f + 1.2e-7f, 5 };
		default:
			return { -1.0f, 6 };
	}
}
Val<float> num(Src &s) { // no nan: types whose keys would never equal themselves
	Val<float> v;
	do {
		v = fl(s);
	} while (v.cl == 1);
	return v;
}
Val<int> in(Src &s) {
	static const int t[] = { 0, 1, -1, INT_MAX, INT_MIN, 16777217, 16777216 };
	int i = (int)s.draw(7);
	return { t[i], i };
}
template <class K>
void run(Ctx &c, Src &s, const Keys<K> &keys, const char *kind) {
	HashMap<K, int> m;
	OGHashMap<K, int> og;
	HashSet<K> set;
	OrderedHashMap<K, int> ord;
	std::map<int, int> want;
	int steps = s.grown(1, 60, 360);
	c.note("%s", kind);
	for (int st = 0; st < steps; st++) {
		int i = (int)s.draw(keys.size());
		const K &k = keys[i].first;
		int cl = keys[i].second;
		bool has = want.count(cl) > 0;
		if (s.one_in(3)) {
			c.note("erase %d", cl);
			c.check(m.erase(k) == has && og.erase(k) == has && set.erase(k) == has && ord.erase(k) == has, "%s: erasing key %d answered wrong", kind, i);
			want.erase(cl);
		} else {
			c.note("set %d", cl);
			m[k] = st;
			og[k] = st;
			ord[k] = st;
			set.insert(k);
			want[cl] = st;
		}
		c.check((int)m.size() == (int)want.size() && (int)og.size() == (int)want.size() && (int)set.size() == (int)want.size() && (int)ord.size() == (int)want.size(), "%s: %d keys in the map, %d in the chained, %d in the set, %d in the ordered one, expected %d", kind, (int)m.size(), (int)og.size(), (int)set.size(), (int)ord.size(), (int)want.size());
	}
	for (size_t i = 0; i < keys.size(); i++) {
		auto it = want.find(keys[i].second);
		const K &k = keys[i].first;
		bool has = it != want.end();
		c.check(m.has(k) == has && og.has(k) == has && set.has(k) == has && ord.has(k) == has, "%s: key %d is found wrongly", kind, (int)i);
		if (has) {
			c.check(m[k] == it->second && og[k] == it->second && ord[k] == it->second, "%s: the value of key %d is wrong", kind, (int)i);
		}
		for (size_t j = 0; j < keys.size(); j++) {
			if (keys[i].second == keys[j].second) {
				c.check(HashMapHasherDefault::hash(k) == HashMapHasherDefault::hash(keys[j].first), "%s: keys %d and %d are the same but hash differently", kind, (int)i, (int)j);
				c.check(HashMapComparatorDefault<K>::compare(k, keys[j].first), "%s: keys %d and %d are the same but compare as different", kind, (int)i, (int)j);
			} else {
				c.check(!HashMapComparatorDefault<K>::compare(k, keys[j].first), "%s: keys %d and %d differ but compare as the same", kind, (int)i, (int)j);
			}
		}
	}
	c.nt(steps > 10 && want.size() > 2);
	c.no_errors("keys");
}
int comb(int a, int b) { return a * 10 + b; }
} // namespace

VT_PROP(P03, kinds_of_keys, 30000) {
	switch (s.draw(24)) {
		case 0:
			return run(c, s, ints<int8_t>(s), "int8");
		case 1:
			return run(c, s, ints<uint8_t>(s), "uint8");
		case 2:
			return run(c, s, ints<int16_t>(s), "int16");
		case 3:
			return run(c, s, ints<uint16_t>(s), "uint16");
		case 4:
			return run(c, s, ints<int32_t>(s), "int32");
		case 5:
			return run(c, s, ints<uint32_t>(s), "uint32");
		case 6:
			return run(c, s, ints<int64_t>(s), "int64");
		case 7:
			return run(c, s, ints<uint64_t>(s), "uint64");
		case 8:
			return run(c, s, ints<wchar_t>(s), "wchar_t");
		case 9:
			return run(c, s, ints<char16_t>(s), "char16_t");
		case 10:
			return run(c, s, ints<char32_t>(s), "char32_t");
		case 11: {
			Keys<float> k;
			for (int i = 0; i < 12; i++) {
				auto v = fl(s);
				k.push_back({ v.v, v.cl });
			}
			return run(c, s, k, "float");
		}
		case 12: {
			Keys<double> k;
			double t[] = { 0.0, -0.0, 1, -1, 1 + 1e-15, INFINITY, -INFINITY, 1e300, 1e-300 };
			int cl[] = { 0, 0, 1, 2, 3, 4, 5, 6, 7 };
			for (int i = 0; i < 12; i++) {
				int j = (int)s.draw(10);
				if (j == 9) {
					k.push_back({ nand(s.word()), 8 });
				} else {
					k.push_back({ t[j], cl[j] });
				}
			}
			return run(c, s, k, "double");
		}
		case 13: {
			Keys<String> k;
			const char *t[] = { "", "a", "b", "ab", "ba", "aa", "a ", "A", "\xe9" };
			for (int i = 0; i < 12; i++) {
				int j = (int)s.draw(9);
				k.push_back({ String(t[j]), j });
			}
			return run(c, s, k, "String");
		}
		case 14: {
			Keys<StringName> k;
			const char *t[] = { "", "a", "b", "ab", "ba", "aa", "a ", "A", "\xe9" };
			for (int i = 0; i < 12; i++) {
				int j = (int)s.draw(9);
				k.push_back({ s.flag() ? StringName(t[j]) : StringName(String(t[j])), j });
			}
			return run(c, s, k, "StringName");
		}
		case 15: {
			Keys<Vector2> k;
			for (int i = 0; i < 12; i++) {
				auto a = fl(s), b = fl(s);
				k.push_back({ Vector2(a.v, b.v), comb(a.cl, b.cl) });
			}
			return run(c, s, k, "Vector2");
		}
		case 16: {
			Keys<Vector3> k;
			for (int i = 0; i < 12; i++) {
				auto a = fl(s), b = s.flag() ? fl(s) : Val<float>{ 1.0f, 4 }, d = s.flag() ? fl(s) : Val<float>{ 1.0f, 4 };
				k.push_back({ Vector3(a.v, b.v, d.v), comb(comb(a.cl, b.cl), d.cl) });
			}
			return run(c, s, k, "Vector3");
		}
		case 17: {
			Keys<Vector4> k;
			for (int i = 0; i < 12; i++) {
				auto a = num(s), b = s.flag() ? num(s) : Val<float>{ 1.0f, 4 }, d = s.flag() ? num(s) : Val<float>{ 1.0f, 4 }, e = num(s);
				k.push_back({ Vector4(a.v, b.v, d.v, e.v), comb(comb(comb(a.cl, b.cl), d.cl), e.cl) });
			}
			return run(c, s, k, "Vector4");
		}
		case 18: {
			Keys<Vector2i> k;
			for (int i = 0; i < 12; i++) {
				auto a = in(s), b = in(s);
				k.push_back({ Vector2i(a.v, b.v), comb(a.cl, b.cl) });
			}
			return run(c, s, k, "Vector2i");
		}
		case 19: {
			Keys<Vector3i> k;
			for (int i = 0; i < 12; i++) {
				auto a = in(s), b = in(s), d = in(s);
				k.push_back({ Vector3i(a.v, b.v, d.v), comb(comb(a.cl, b.cl), d.cl) });
			}
			return run(c, s, k, "Vector3i");
		}
		case 20: {
			Keys<Vector4i> k;
			for (int i = 0; i < 12; i++) {
				auto a = in(s), b = in(s), d = in(s), e = in(s);
				k.push_back({ Vector4i(a.v, b.v, d.v, e.v), comb(comb(comb(a.cl, b.cl), d.cl), e.cl) });
			}
			return run(c, s, k, "Vector4i");
		}
		case 21: {
			if (s.flag()) {
				Keys<Rect2i> k;
				for (int i = 0; i < 12; i++) {
					auto a = in(s), b = in(s), d = in(s), e = in(s);
					k.push_back({ Rect2i(a.v, b.v, d.v, e.v), comb(comb(comb(a.cl, b.cl), d.cl), e.cl) });
				}
				return run(c, s, k, "Rect2i");
			}
			Keys<Rect2> k;
			for (int i = 0; i < 12; i++) {
				auto a = num(s), b = num(s), d = num(s), e = num(s);
				k.push_back({ Rect2(a.v, b.v, d.v, e.v), comb(comb(comb(a.cl, b.cl), d.cl), e.cl) });
			}
			return run(c, s, k, "Rect2");
		}
		case 22: {
			Keys<AABB> k;
			for (int i = 0; i < 12; i++) {
				auto a = num(s), b = num(s), d = num(s), e = num(s);
				k.push_back({ AABB(Vector3(a.v, b.v, 1), Vector3(d.v, 2, e.v)), comb(comb(comb(a.cl, b.cl), d.cl), e.cl) });
			}
			return run(c, s, k, "AABB");
		}
		default: {
			static int cells[12];
			if (s.flag()) {
				Keys<int *> k;
				for (int i = 0; i < 12; i++) {
					int j = (int)s.draw(12);
					k.push_back({ &cells[j], j });
				}
				return run(c, s, k, "pointer");
			}
			std::vector<Ref<Reference>> r;
			for (int i = 0; i < 6; i++) {
				r.push_back(i ? Ref<Reference>(memnew(Reference)) : Ref<Reference>());
			}
			Keys<Ref<Reference>> k;
			for (int i = 0; i < 12; i++) {
				int j = (int)s.draw(6);
				k.push_back({ r[j], j });
			}
			return run(c, s, k, "Ref");
		}
	}
}

// keys of every type at once
VT_PROP(P03, variant_keys, 20000) {
	Keys<Variant> k;
	Array a1, a2, a3;
	a1.push_back(1);
	a1.push_back("x");
	a2.push_back(1);
	a2.push_back("x");
	a3.push_back(1);
	a3.push_back("y");
	for (int i = 0; i < 14; i++) {
		switch (s.draw(14)) {
			case 0:
				k.push_back({ Variant(), 1 });
				break;
			case 1:
				k.push_back({ Variant(s.flag() ? 0.0 : -0.0), 2 });
				break;
			case 2:
				k.push_back({ Variant(nand(s.word())), 3 });
				break;
			case 3:
				k.push_back({ Variant(1), 4 });
				break;
			case 4:
				k.push_back({ Variant(1.0), 5 });
				break;
			case 5:
				k.push_back({ Variant(true), 6 });
				break;
			case 6:
				k.push_back({ Variant(String("a")), 7 });
				break;
			case 7:
				k.push_back({ Variant(s.flag() ? a1 : a2), 8 });
				break;
			case 8:
				k.push_back({ Variant(a3), 9 });
				break;
			case 9: {
				auto a = fl(s), b = fl(s);
				k.push_back({ Variant(Vector2(a.v, b.v)), 1000 + comb(a.cl, b.cl) });
				break;
			}
			case 10: {
				auto a = fl(s), b = fl(s), d = fl(s);
				k.push_back({ Variant(Vector3(a.v, b.v, d.v)), 2000 + comb(comb(a.cl, b.cl), d.cl) });
				break;
			}
			case 11: {
				auto a = in(s), b = in(s);
				k.push_back({ Variant(Vector2i(a.v, b.v)), 4000 + comb(a.cl, b.cl) });
				break;
			}
			case 12: {
				int j = (int)s.draw(3);
				k.push_back({ Variant((int64_t)(j == 0 ? INT64_MAX : j == 1 ? INT64_MIN : 1ll << 53)), 5000 + j });
				break;
			}
			default: {
				auto a = fl(s), b = fl(s), d = fl(s);
				k.push_back({ Variant(Color(a.v, b.v, d.v, 1)), 6000 + comb(comb(a.cl, b.cl), d.cl) });
				break;
			}
		}
	}
	HashMap<Variant, int, VariantHasher, VariantComparator> m;
	Dictionary d;
	std::map<int, int> want;
	int steps = s.grown(1, 50, 300);
	for (int st = 0; st < steps; st++) {
		auto &x = k[s.draw(k.size())];
		bool has = want.count(x.second) > 0;
		if (s.one_in(3)) {
			c.note("erase %d", x.second);
			c.check(m.erase(x.first) == has, "erasing a key of class %d", x.second);
			c.check(d.erase(x.first) == has, "erasing a key of class %d from a dictionary", x.second);
			want.erase(x.second);
		} else {
			c.note("set %d", x.second);
			m[x.first] = st;
			d[x.first] = st;
			want[x.second] = st;
		}
		c.check((int)m.size() == (int)want.size() && d.size() == (int)want.size(), "%d keys in the map, %d in the dictionary, expected %d", (int)m.size(), d.size(), (int)want.size());
	}
	for (auto &x : k) {
		auto it = want.find(x.second);
		c.check(m.has(x.first) == (it != want.end()) && d.has(x.first) == (it != want.end()), "a key of class %d is found wrongly", x.second);
		if (it != want.end()) {
			c.check(m[x.first] == it->second && int(d[x.first]) == it->second, "the value of a key of class %d is wrong", x.second);
		}
		for (auto &y : k) {
			c.check(VariantComparator::compare(x.first, y.first) == (x.second == y.second), "keys of class %d and %d compare wrongly", x.second, y.second);
			c.check(x.second != y.second || VariantHasher::hash(x.first) == VariantHasher::hash(y.first), "keys of class %d hash differently", x.second);
		}
	}
	c.nt(steps > 10 && want.size() > 2);
	c.no_errors("variant keys");
}

// the hash functions: the ones with a published definition follow it, all of them can be fed in pieces
VT_PROP(P03, hash_functions, 20000) {
	int n = s.size(0, 40);
	std::vector<uint8_t> b;
	for (int i = 0; i < n; i++) {
		b.push_back((uint8_t)(s.flag() ? s.draw(4) + 1 : 1 + s.draw(255)));
	}
	uint32_t seed = (uint32_t)s.word();
	c.note("%d bytes, seed %u", n, seed);
	auto rot = [](uint32_t x, int r) { return (x << r) | (x >> (32 - r)); };
	auto mur = [&](const uint8_t *p, int len, uint32_t h) {
		for (int i = 0; i + 4 <= len; i += 4) {
			uint32_t k;
			memcpy(&k, p + i, 4);
			h ^= rot(k * 0xcc9e2d51u, 15) * 0x1b873593u;
			h = rot(h, 13) * 5 + 0xe6546b64u;
		}
		uint32_t k = 0;
		for (int i = len & 3; i > 0; i--) {
			k = (k << 8) | p[(len & ~3) + i - 1];
		}
		if (len & 3) {
			h ^= rot(k * 0xcc9e2d51u, 15) * 0x1b873593u;
		}
		h ^= (uint32_t)len;
		h = (h ^ (h >> 16)) * 0x85ebca6bu;
		h = (h ^ (h >> 13)) * 0xc2b2ae35u;
		return h ^ (h >> 16);
	};
	std::vector<uint32_t> aligned(n / 4 + 1);
	if (n) {
		memcpy(aligned.data(), b.data(), n);
	}
	uint32_t got = hash_murmur3_buffer(aligned.data(), n, seed), want = mur(b.data(), n, seed);
	c.check(got == want, "hash_murmur3_buffer of %d bytes is %08x, expected %08x", n, got, want);
	uint32_t h = 5381;
	for (uint8_t x : b) {
		h = (h * 33) ^ x;
	}
	std::string z(b.begin(), b.end());
	c.check(hash_djb2(z.c_str()) == h, "hash_djb2 is %08x, expected %08x", hash_djb2(z.c_str()), h);
	c.check(HashMapHasherDefault::hash(z.c_str()) == h, "the hash of a C string");
	const uint8_t *bd = b.empty() ? (const uint8_t *)"" : b.data();
	c.check(hash_djb2_buffer(bd, n) == h, "hash_djb2_buffer is %08x, expected %08x", hash_djb2_buffer(bd, n), h);
	int cut = (int)s.draw(n + 1);
	c.check(hash_djb2_buffer(bd + cut, n - cut, hash_djb2_buffer(bd, cut)) == h, "hash_djb2_buffer in two pieces");
	uint32_t one = 5381;
	uint64_t one64 = 5381, w64 = 5381;
	for (uint8_t x : b) {
		one = hash_djb2_one_32(x, one);
		one64 = hash_djb2_one_64(x, one64);
		w64 = (w64 * 33) ^ x;
	}
	c.check(one == h, "hash_djb2_one_32 byte by byte");
	c.check(one64 == w64, "hash_djb2_one_64 byte by byte");
	// numbers that are the same hash the same
	auto nz = [&](double a, double d) {
		c.check(hash_murmur3_one_float((float)a, seed) == hash_murmur3_one_float((float)d, seed), "hash_murmur3_one_float");
		c.check(hash_murmur3_one_double(a, seed) == hash_murmur3_one_double(d, seed), "hash_murmur3_one_double");
		c.check(hash_murmur3_one_real((real_t)a, seed) == hash_murmur3_one_real((real_t)d, seed), "hash_murmur3_one_real");
		c.check(hash_djb2_one_float(a, seed) == hash_djb2_one_float(d, seed), "hash_djb2_one_float");
		c.check(hash_djb2_one_float_64(a, seed) == hash_djb2_one_float_64(d, seed), "hash_djb2_one_float_64");
	};
	nz(0.0, -0.0);
	nz(nand(s.word()), nand(s.word()));
	double v = s.real();
	nz(v, v);
	uint64_t u = s.word();
	c.check(hash_murmur3_one_64(u, seed) == hash_murmur3_one_32((uint32_t)(u >> 32), hash_murmur3_one_32((uint32_t)u, seed)), "hash_murmur3_one_64");
	// the mixers lose nothing: different words stay different
	uint32_t w1 = (uint32_t)s.word(), w2 = s.flag() ? w1 ^ (1u << s.draw(32)) : (uint32_t)s.word();
	c.check((hash_fmix32(w1) == hash_fmix32(w2)) == (w1 == w2), "hash_fmix32 of %08x and %08x", w1, w2);
	c.check((hash_murmur3_one_32(w1, seed) == hash_murmur3_one_32(w2, seed)) == (w1 == w2), "hash_murmur3_one_32 of %08x and %08x", w1, w2);
	c.nt(n > 4);
	c.no_errors("hash functions");
}
