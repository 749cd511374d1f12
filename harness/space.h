// helpers of the checks of vectors and transforms: plain doubles are the reference
#pragma once
#include "str.h"
#include <algorithm>
#include <array>
#include <cinttypes>

namespace {
const double PI = 3.14159265358979323846;
template <size_t N>
using D = std::array<double, N>;

template <size_t N>
double dot(const D<N> &a, const D<N> &b) {
	double s = 0;
	for (size_t i = 0; i < N; i++) {
		s += a[i] * b[i];
	}
	return s;
}
template <size_t N>
double len(const D<N> &a) { return std::sqrt(dot(a, a)); }
template <size_t N, class F>
D<N> per(F f) {
	D<N> r;
	for (size_t i = 0; i < N; i++) {
		r[i] = f(i);
	}
	return r;
}
template <size_t N>
D<N> add(const D<N> &a, const D<N> &b, double k = 1) {
	return per<N>([&](size_t i) { return a[i] + k * b[i]; });
}
D<3> cross(const D<3> &a, const D<3> &b) { return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }

template <class V>
struct Dim;
template <>
struct Dim<Vector2> {
	static const size_t N = 2;
	using I = Vector2i;
};
template <>
struct Dim<Vector3> {
	static const size_t N = 3;
	using I = Vector3i;
};
template <>
struct Dim<Vector4> {
	static const size_t N = 4;
	using I = Vector4i;
};

template <class V>
V gen(Src &s, float mag = 8) {
	V v;
	int k = (int)s.draw(16); // now and then all the same, or nothing
	for (size_t i = 0; i < Dim<V>::N; i++) {
		v[i] = k == 15 ? 0 : k == 14 && i ? v[0] : s.real(mag);
	}
	return v;
}
template <class V>
D<Dim<V>::N> of(const V &v) {
	return per<Dim<V>::N>([&](size_t i) { return (double)v[(int)i]; });
}
template <class V>
V unit(Src &s) {
	for (int k = 0; k < 8; k++) {
		V v = gen<V>(s, 4);
		double l = len(of(v));
		if (l > 0.25) {
			for (size_t i = 0; i < Dim<V>::N; i++) {
				v[i] = (float)(v[i] / l);
			}
			return v;
		}
	}
	V v;
	v[0] = 1;
	return v;
}
template <class V>
void same_v(Ctx &c, const V &got, const D<Dim<V>::N> &want, double tol, const char *what) {
	for (size_t i = 0; i < Dim<V>::N; i++) {
		c.near(got[(int)i], want[i], tol, "%s, component %d", what, (int)i);
	}
}
template <class V>
void show(Ctx &c, const char *name, const V &v) {
	std::string t;
	for (size_t i = 0; i < Dim<V>::N; i++) {
		char b[40];
		snprintf(b, sizeof b, i ? ",%.7g" : "%.7g", (double)v[(int)i]);
		t += b;
	}
	c.note("%s=(%s)", name, t.c_str());
}
double snap(double v, double st) { return st != 0 ? std::floor(v / st + 0.5) * st : v; }
double pmod(double a, double b) {
	double r = std::fmod(a, b);
	return (r < 0 && b > 0) || (r > 0 && b < 0) ? r + b : r;
}

} // namespace
