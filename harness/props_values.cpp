// P14: the ways in and out of a Variant for every type, typed arrays, and the helpers around them
#include "str.h"
#include <algorithm>
#include <climits>
#include <cmath>

namespace {
float fv(Src &s) { return s.flag() ? (float)s.sint(4) : 0.25f * s.sint(4000); }
int iv(Src &s) { return s.one_in(6) ? s.pick({ INT_MAX, INT_MIN, 16777217, -16777217, 255, 256 }) : s.sint(300); }
template <class T>
T gen(Src &s);
template <>
uint8_t gen(Src &s) { return (uint8_t)s.draw(256); }
template <>
int gen(Src &s) { return iv(s); }
template <>
float gen(Src &s) { return fv(s); }
template <>
String gen(Src &s) {
	U u;
	for (int n = s.size(0, 5); n > 0; n--) {
		u.push_back(s.flag() ? U'a' + s.draw(3) : 1 + s.draw(0x2fff));
	}
	return mk(u);
}
template <>
StringName gen(Src &s) { return gen<String>(s); }
template <>
Vector2 gen(Src &s) { return Vector2(fv(s), fv(s)); }
template <>
Vector3 gen(Src &s) { return Vector3(fv(s), fv(s), fv(s)); }
template <>
Vector4 gen(Src &s) { return Vector4(fv(s), fv(s), fv(s), fv(s)); }
template <>
Vector2i gen(Src &s) { return Vector2i(iv(s), iv(s)); }
template <>
Vector3i gen(Src &s) { return Vector3i(iv(s), iv(s), iv(s)); }
template <>
Vector4i gen(Src &s) { return Vector4i(iv(s), iv(s), iv(s), iv(s)); }
template <>
Color gen(Src &s) { return Color(fv(s), fv(s), fv(s), fv(s)); }
template <>
Plane gen(Src &s) { return Plane(fv(s), fv(s), fv(s), fv(s)); }
template <>
Variant gen(Src &s) {
	switch (s.draw(6)) {
		case 0:
			return Variant();
		case 1:
			return s.sint(50);
		case 2:
			return gen<String>(s);
		case 3:
			return gen<Vector2>(s);
		case 4:
			return (double)fv(s);
		default:
			return s.flag();
	}
}
template <class T>
bool eq(const T &a, const T &b) { return a == b; }
bool eq(const Variant &a, const Variant &b) { return a.get_type() == b.get_type() && a == b; }
template <class T>
std::vector<T> read(const Vector<T> &v) {
	std::vector<T> o;
	for (int i = 0; i < v.size(); i++) {
		o.push_back(v[i]);
	}
	return o;
}
template <class T>
std::vector<T> read(const PoolVector<T> &v) {
	std::vector<T> o;
	for (int i = 0; i < v.size(); i++) {
		o.push_back(v[i]);
	}
	return o;
}
template <class T>
bool eq(const std::vector<T> &a, const std::vector<T> &b) {
	if (a.size() != b.size()) {
		return false;
	}
	for (size_t i = 0; i < a.size(); i++) {
		if (!eq(a[i], b[i])) {
			return false;
		}
	}
	return true;
}
// from a vector of some kind and back: the type, the elements, and a copy that stays put
template <class T, class V>
void there_and_back(Ctx &c, Src &s, Variant::Type type, const char *kind, Variant &out, std::vector<T> &want) {
	V v;
	for (int n = s.size(0, 7); n > 0; n--) {
		want.push_back(gen<T>(s));
		v.push_back(want.back());
	}
	c.note("%d elements of %s", (int)want.size(), kind);
	Variant x(v);
	c.check(x.get_type() == type, "%s became a %s", kind, Variant::get_type_name(x.get_type()).utf8().get_data());
	v.push_back(gen<T>(s)); // the value keeps what it was given
	V back = x.operator V();
	c.check(eq(read(back), want), "%s came back differently", kind);
	c.check(x.is_array(), "%s is no array", kind);
	c.check(x.is_shared() == (type == Variant::ARRAY), "%s is_shared is wrong", kind);
	c.check(bool(x) == !want.empty(), "%s is %s", kind, bool(x) ? "true" : "false");
	Variant y = x;
	back.push_back(gen<T>(s));
	if (back.size() > 1) {
		back.set(0, gen<T>(s));
	}
	c.check(eq(read(x.operator V()), want), "%s changed with a copy taken out of it", kind);
	Variant::Type t = x.get_type();
	c.check(y.get_type() == t && eq(read(y.operator V()), want), "a copy of %s differs", kind);
	Array a = x.operator Array();
	c.check(a.size() == (int)want.size(), "%s has %d elements as an array, expected %d", kind, a.size(), (int)want.size());
	for (int i = 0; i < a.size(); i++) {
		c.check(eq(a[i].operator T(), want[i]), "element %d of %s as an array differs", i, kind);
	}
	c.check(eq(read(Variant(a).operator V()), want), "%s by way of an array differs", kind);
	out = x;
	c.nt(want.size() > 1);
}
template <class T>
void typed(Ctx &c, Src &s, Variant::Type type, const char *kind) {
	Variant a, b;
	std::vector<T> w1, w2;
	there_and_back<T, Vector<T>>(c, s, type, kind, a, w1);
	there_and_back<T, PoolVector<T>>(c, s, type, kind, b, w2);
	// the two kinds of vector are the same value
	c.check(eq(read(a.operator PoolVector<T>()), w1) && eq(read(b.operator Vector<T>()), w2), "%s: the other kind of vector differs", kind);
	if (type != Variant::ARRAY) {
		c.check((a == b) == eq(w1, w2), "%s: two values compare wrongly", kind);
		PoolVector<T> p;
		for (auto &e : w1) {
			p.push_back(e);
		}
		c.check(a == Variant(p) && a.hash() == Variant(p).hash(), "%s: the same elements compare or hash differently", kind);
	}
	c.no_errors(kind);
}
} // namespace

VT_PROP(P14, typed_arrays, 30000) {
	switch (s.draw(15)) {
		case 0:
			return typed<uint8_t>(c, s, Variant::POOL_BYTE_ARRAY, "bytes");
		case 1:
			return typed<int>(c, s, Variant::POOL_INT_ARRAY, "ints");
		case 2:
			return typed<float>(c, s, Variant::POOL_REAL_ARRAY, "reals");
		case 3:
			return typed<String>(c, s, Variant::POOL_STRING_ARRAY, "strings");
		case 4:
			return typed<Vector2>(c, s, Variant::POOL_VECTOR2_ARRAY, "Vector2");
		case 5:
			return typed<Vector2i>(c, s, Variant::POOL_VECTOR2I_ARRAY, "Vector2i");
		case 6:
			return typed<Vector3>(c, s, Variant::POOL_VECTOR3_ARRAY, "Vector3");
		case 7:
			return typed<Vector3i>(c, s, Variant::POOL_VECTOR3I_ARRAY, "Vector3i");
		case 8:
			return typed<Vector4>(c, s, Variant::POOL_VECTOR4_ARRAY, "Vector4");
		case 9:
			return typed<Vector4i>(c, s, Variant::POOL_VECTOR4I_ARRAY, "Vector4i");
		case 10:
			return typed<Color>(c, s, Variant::POOL_COLOR_ARRAY, "Color");
		case 11: {
			Variant a;
			std::vector<StringName> w;
			there_and_back<StringName, Vector<StringName>>(c, s, Variant::POOL_STRING_ARRAY, "names", a, w);
			break;
		}
		case 12: {
			Variant a;
			std::vector<Plane> w;
			if (s.flag()) {
				there_and_back<Plane, Vector<Plane>>(c, s, Variant::ARRAY, "planes", a, w);
			} else {
				there_and_back<Plane, PoolVector<Plane>>(c, s, Variant::ARRAY, "pool of planes", a, w);
			}
			break;
		}
		case 13: {
			std::vector<Variant> w;
			Vector<Variant> v;
			for (int n = s.size(0, 7); n > 0; n--) {
				w.push_back(gen<Variant>(s));
				v.push_back(w.back());
			}
			c.note("%d variants", (int)w.size());
			Variant x(v);
			c.check(x.get_type() == Variant::ARRAY, "a vector of values became a %s", Variant::get_type_name(x.get_type()).utf8().get_data());
			v.push_back(1);
			c.check(eq(read(x.operator Vector<Variant>()), w), "a vector of values came back differently");
			Array a = x;
			c.check(a.size() == (int)w.size(), "a vector of values has %d elements", a.size());
			for (int i = 0; i < a.size(); i++) {
				c.check(eq(a[i], w[i]), "value %d differs", i);
			}
			c.nt(w.size() > 1);
			break;
		}
		default: { // faces are kept as their corners
			PoolVector<Face3> f;
			std::vector<Vector3> corners;
			for (int n = s.size(0, 4); n > 0; n--) {
				Face3 x(gen<Vector3>(s), gen<Vector3>(s), gen<Vector3>(s));
				f.push_back(x);
				for (int i = 0; i < 3; i++) {
					corners.push_back(x.vertex[i]);
				}
			}
			Variant v(f);
			c.check(v.get_type() == Variant::POOL_VECTOR3_ARRAY, "faces became a %s", Variant::get_type_name(v.get_type()).utf8().get_data());
			c.check(eq(read(v.operator PoolVector<Vector3>()), corners), "the corners of faces differ");
			PoolVector<Vector3> loose = v;
			int extra = (int)s.draw(3);
			for (int i = 0; i < extra; i++) {
				loose.push_back(gen<Vector3>(s));
			}
			c.note("%d faces and %d corners more", f.size(), extra);
			PoolVector<Face3> g = Variant(loose).operator PoolVector<Face3>();
			c.check(g.size() == f.size(), "%d faces of %d corners", g.size(), loose.size());
			for (int i = 0; i < g.size(); i++) {
				for (int j = 0; j < 3; j++) {
					c.check(g[i].vertex[j] == corners[i * 3 + j], "corner %d of face %d", j, i);
				}
			}
			c.nt(f.size() > 0);
		}
	}
	c.no_errors("typed arrays");
}

VT_PROP(P14, typed_arrays_converted, 20000) {
	// numbers that both types hold exactly
	int n = s.size(0, 8);
	PoolVector<uint8_t> b;
	PoolVector<int> in;
	PoolVector<float> fl;
	PoolVector<String> st;
	PoolVector<Vector2> v2;
	PoolVector<Vector2i> v2i;
	PoolVector<Vector3> v3;
	PoolVector<Vector3i> v3i;
	PoolVector<Vector4> v4;
	PoolVector<Vector4i> v4i;
	Array a;
	for (int i = 0; i < n; i++) {
		int x = (int)s.draw(256), y = s.sint(1000), z = s.sint(1000), w = s.sint(1000);
		b.push_back((uint8_t)x);
		in.push_back(x);
		fl.push_back((float)x);
		st.push_back(itos(x));
		a.push_back(s.flag() ? Variant(x) : Variant((double)x));
		v2.push_back(Vector2(x, y));
		v2i.push_back(Vector2i(x, y));
		v3.push_back(Vector3(x, y, z));
		v3i.push_back(Vector3i(x, y, z));
		v4.push_back(Vector4(x, y, z, w));
		v4i.push_back(Vector4i(x, y, z, w));
	}
	Variant from[] = { Variant(b), Variant(in), Variant(fl), Variant(st), Variant(a) };
	for (int i = 0; i < 5; i++) {
		c.note("from %s", Variant::get_type_name(from[i].get_type()).utf8().get_data());
		c.check(eq(read(from[i].operator PoolVector<uint8_t>()), read(b)), "bytes of kind %d", i);
		c.check(eq(read(from[i].operator PoolVector<int>()), read(in)), "ints of kind %d", i);
		c.check(eq(read(from[i].operator PoolVector<float>()), read(fl)), "reals of kind %d", i);
		c.check(eq(read(from[i].operator Vector<int>()), read(in)), "a vector of ints of kind %d", i);
		if (i != 2 && i != 4) {
			c.check(eq(read(from[i].operator PoolVector<String>()), read(st)), "texts of kind %d", i);
		}
	}
	c.check(eq(read(Variant(v2).operator PoolVector<Vector2i>()), read(v2i)) && eq(read(Variant(v2i).operator PoolVector<Vector2>()), read(v2)), "Vector2 and Vector2i");
	c.check(eq(read(Variant(v3).operator PoolVector<Vector3i>()), read(v3i)) && eq(read(Variant(v3i).operator PoolVector<Vector3>()), read(v3)), "Vector3 and Vector3i");
	c.check(eq(read(Variant(v4).operator PoolVector<Vector4i>()), read(v4i)) && eq(read(Variant(v4i).operator PoolVector<Vector4>()), read(v4)), "Vector4 and Vector4i");
	Variant none[] = { Variant(), Variant(5), Variant(1.5), Variant(Vector2(1, 2)), Variant(Dictionary()) };
	for (auto &x : none) {
		c.check(!x.is_array(), "a %s is an array", Variant::get_type_name(x.get_type()).utf8().get_data());
		c.check(x.operator PoolVector<int>().size() == 0 && x.operator Vector<Variant>().size() == 0 && x.operator Array().size() == 0, "what is no array has elements");
	}
	c.nt(n > 1);
	c.no_errors("converted arrays");
}

VT_PROP(P14, numbers_in_and_out, 30000) {
	int64_t v = s.flag() ? s.sint(70000) : (int64_t)s.word();
	c.note("%lld", (long long)v);
	auto holds = [&](const Variant &x, int64_t want, const char *what) {
		c.check(x.get_type() == Variant::INT && x.operator int64_t() == want, "%s: %lld, expected %lld", what, (long long)x.operator int64_t(), (long long)want);
	};
	holds(Variant((int8_t)v), (int8_t)v, "signed char");
	holds(Variant((uint8_t)v), (uint8_t)v, "unsigned char");
	holds(Variant((int16_t)v), (int16_t)v, "short");
	holds(Variant((uint16_t)v), (uint16_t)v, "unsigned short");
	holds(Variant((int32_t)v), (int32_t)v, "int");
	holds(Variant((uint32_t)v), (uint32_t)v, "unsigned int");
	holds(Variant((int64_t)v), v, "int64_t");
	holds(Variant((uint64_t)v), v, "uint64_t");
	Variant x(v);
	c.check(x.operator signed char() == (int8_t)v && x.operator unsigned char() == (uint8_t)v, "as a character");
	c.check(x.operator short() == (int16_t)v && x.operator unsigned short() == (uint16_t)v, "as a short");
	c.check(x.operator int() == (int32_t)v && x.operator unsigned int() == (uint32_t)v, "as an int");
	c.check(x.operator int64_t() == v && x.operator uint64_t() == (uint64_t)v, "as a long");
	c.check(x.operator char32_t() == (char32_t)v, "as a character code");
	c.check((int)x.operator Margin() == (int)v && (int)x.operator Side() == (int)v && (int)x.operator Orientation() == (int)v, "as an enumeration");
	// the same number as a real, a truth and a text, as far as each type reaches
	auto reads = [&](const Variant &y, int64_t n, const char *what) {
		c.check(y.operator int64_t() == n, "int64_t of %s: %lld, expected %lld", what, (long long)y.operator int64_t(), (long long)n);
		if (n >= 0) {
			c.check(y.operator uint64_t() == (uint64_t)n, "uint64_t of %s: %llu, expected %lld", what, (unsigned long long)y.operator uint64_t(), (long long)n);
		}
		if (n >= INT_MIN && n <= INT_MAX) {
			c.check(y.operator int() == n, "int of %s", what);
		}
		if (n >= 0 && n <= INT_MAX) {
			c.check(y.operator unsigned int() == n && y.operator char32_t() == n, "unsigned int of %s", what);
		}
		if (n >= -32768 && n < 32768) {
			c.check(y.operator short() == n, "short of %s", what);
		}
		if (n >= 0 && n < 65536) {
			c.check(y.operator unsigned short() == n, "unsigned short of %s", what);
		}
		if (n >= -128 && n < 128) {
			c.check(y.operator signed char() == n, "signed char of %s", what);
		}
		if (n >= 0 && n < 256) {
			c.check(y.operator unsigned char() == n, "unsigned char of %s", what);
		}
		c.check(y.operator double() == (double)n && y.operator float() == (float)n, "the real of %s: %g, expected %g", what, y.operator double(), (double)n);
	};
	int64_t sm = s.pick({ (int64_t)s.draw(2), (int64_t)s.sint(127), (int64_t)s.draw(256), (int64_t)s.sint(32767), (int64_t)s.draw(65536), (int64_t)s.sint(INT_MAX), (int64_t)(s.word() >> 12) });
	c.note("and %lld", (long long)sm);
	reads(Variant((double)sm), sm, "a real");
	reads(Variant(sm), sm, "an int");
	if (std::llabs(sm) < 1000000000000000ll) {
		reads(Variant(itos(sm)), sm, "a text");
	}
	reads(Variant(sm & 1 ? true : false), sm & 1, "a truth");
	reads(Variant(), 0, "nothing");
	U t = un(gen<String>(s));
	same(c, String(Variant(t.c_str())), t, "a value of characters");
	c.check(Variant(t.c_str()).get_type() == Variant::STRING, "characters are no text");
	same(c, String(Variant(mk(t))), t, "a value of a text");
	same(c, String(Variant(StringName(mk(t)))), t, "a value of a name");
	c.check(Variant(mk(t)).operator StringName() == StringName(mk(t)) && Variant(StringName(mk(t))).operator StringName() == StringName(mk(t)), "a name");
	c.nt(v != 0);
	c.no_errors("numbers");
}

namespace {
// orders values its own way
class Backwards : public Object {
	SFW_OBJECT(Backwards, Object);

public:
	int mod = 0;
	virtual bool lt(const Variant &p_l, const Variant &p_r) {
		int l = p_l, r = p_r;
		return mod ? l % mod < r % mod : l > r;
	}
};
} // namespace

VT_PROP(P14, helpers, 20000) {
	// arguments
	Variant p[5];
	for (auto &x : p) {
		do {
			x = gen<Variant>(s);
		} while (x.get_type() == Variant::NIL);
	}
	Vector<Variant> va[6] = { varray(), varray(p[0]), varray(p[0], p[1]), varray(p[0], p[1], p[2]), varray(p[0], p[1], p[2], p[3]), varray(p[0], p[1], p[2], p[3], p[4]) };
	for (int n = 0; n < 6; n++) {
		same(c, va[n].size(), n, "the number of arguments");
		for (int i = 0; i < n; i++) {
			c.check(eq(va[n][i], p[i]), "argument %d of %d", i, n);
		}
	}
	// a text with its arguments filled in
	String f, want;
	int n = (int)s.draw(6);
	Array args;
	for (int i = 0; i < n; i++) {
		f += "<%s>";
		want += "<" + p[i].operator String() + ">";
		args.push_back(p[i]);
	}
	f += "%%";
	want += "%";
	c.note("%d arguments", n);
	String got = n == 0 ? vformat(f) : n == 1 ? vformat(f, p[0]) : n == 2 ? vformat(f, p[0], p[1]) : n == 3 ? vformat(f, p[0], p[1], p[2]) : n == 4 ? vformat(f, p[0], p[1], p[2], p[3]) : vformat(f, p[0], p[1], p[2], p[3], p[4]);
	same(c, got, un(want), "vformat");
	// orders of the user's own
	Array a;
	std::vector<int> m;
	for (int k = s.size(0, 30); k > 0; k--) {
		int v = (int)s.draw(40);
		a.push_back(v);
		m.push_back(v);
	}
	Object *plain = memnew(Object);
	Backwards *back = memnew(Backwards);
	int kind = (int)s.draw(3);
	back->mod = kind == 2 ? 1 + (int)s.draw(10) : 0;
	Object *o = kind == 0 ? plain : back;
	auto lt = [&](int x, int y) { return kind == 0 ? x < y : kind == 1 ? x > y : x % back->mod < y % back->mod; };
	a.sort_custom(o);
	std::vector<int> r;
	for (int i = 0; i < a.size(); i++) {
		r.push_back(a[i]);
	}
	c.check(std::is_sorted(r.begin(), r.end(), lt), "sort_custom leaves the order %d wrong", kind);
	std::vector<int> rs = r;
	std::sort(rs.begin(), rs.end());
	std::sort(m.begin(), m.end());
	c.check(rs == m, "sort_custom lost elements");
	int v = (int)s.draw(40);
	same(c, a.bsearch_custom(v, o, "lt", true), std::lower_bound(r.begin(), r.end(), v, lt) - r.begin(), "bsearch_custom before");
	same(c, a.bsearch_custom(v, o, "lt", false), std::upper_bound(r.begin(), r.end(), v, lt) - r.begin(), "bsearch_custom after");
	memdelete(plain);
	memdelete(back);
	// comparisons of arrays
	Array x, y;
	std::vector<int> mx, my;
	for (int i = (int)s.draw(4); i > 0; i--) {
		mx.push_back((int)s.draw(3));
		x.push_back(mx.back());
	}
	for (int i = (int)s.draw(4); i > 0; i--) {
		my.push_back((int)s.draw(3));
		y.push_back(my.back());
	}
	same(c, x < y, mx < my, "array <");
	same(c, x <= y, mx <= my, "array <=");
	same(c, x > y, mx > my, "array >");
	same(c, x >= y, mx >= my, "array >=");
	Array z = x; // arrays are equal when they share
	same(c, (x == y) + 2 * (x == z), 2, "array ==");
	Dictionary d, e = d, g;
	same(c, (d != e) + 2 * (d != g) + 4 * (d == e) + 8 * (d == g), 2 + 4, "dictionaries are the same when they share");
	// what converts without loss of meaning converts
	for (int i = 0; i < Variant::VARIANT_MAX; i++) {
		Variant::Type t = (Variant::Type)i, u = (Variant::Type)s.draw(Variant::VARIANT_MAX);
		c.check(Variant::can_convert_strict(t, t) && Variant::can_convert(t, t), "type %d does not convert to itself", i);
		c.check(!Variant::can_convert_strict(t, u) || Variant::can_convert(t, u), "type %d converts strictly to %d but not loosely", i, (int)u);
	}
	c.nt(m.size() > 3);
	c.no_errors("helpers");
}
