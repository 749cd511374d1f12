// P09: vectors and rectangles. P10: planes, boxes and triangles. P13: scalar helpers and random numbers
#include "space.h"
#include <functional>

namespace {
template <class V>
void vectors(Src &s, Ctx &c) {
	const size_t N = Dim<V>::N;
	using X = D<N>;
	V a = gen<V>(s), b = gen<V>(s), p = gen<V>(s), q = gen<V>(s);
	float t = s.real_in(0, 1), k = s.real(4), r = s.pos_real(6);
	X A = of(a), B = of(b), P = of(p), Q = of(q);
	show(c, "a", a);
	show(c, "b", b);
	c.note("t=%g k=%g r=%g", t, k, r);
	c.nt(len(A) > 0.5 && len(B) > 0.5);
	const double e = 1e-5, e2 = 1e-3;

	// arithmetic
	same_v(c, a + b, add(A, B), e, "a+b");
	same_v(c, a - b, add(A, B, -1), e, "a-b");
	same_v(c, a * b, per<N>([&](size_t i) { return A[i] * B[i]; }), 1e-4, "a*b");
	same_v(c, a * k, per<N>([&](size_t i) { return A[i] * k; }), 1e-4, "a*k");
	same_v(c, -a, per<N>([&](size_t i) { return -A[i]; }), 0, "-a");
	same_v(c, a / r, per<N>([&](size_t i) { return A[i] / r; }), 1e-5 * (1 + 20 / r), "a/r");
	{
		V d = b;
		for (size_t i = 0; i < N; i++) {
			d[i] = std::fabs(d[i]) < 0.25f ? 0.5f : d[i];
		}
		X E = of(d);
		same_v(c, a / d, per<N>([&](size_t i) { return A[i] / E[i]; }), 1e-4, "a/b");
		V u = a;
		u /= d;
		same_v(c, u, of(a / d), 1e-5, "a/=b");
		u = a;
		u *= d;
		same_v(c, u, of(a * d), 1e-5, "a*=b");
		u = a;
		u += d;
		same_v(c, u, of(a + d), 0, "a+=b");
		u = a;
		u -= d;
		same_v(c, u, of(a - d), 0, "a-=b");
		u = a;
		u *= k;
		same_v(c, u, of(a * k), 1e-5, "a*=k");
		same_v(c, a.posmodv(d), per<N>([&](size_t i) { return pmod(A[i], E[i]); }), e, "posmodv");
		V w = a.snapped(d);
		for (size_t i = 0; i < N; i++) {
			double g = w[i];
			c.check(std::fabs(g / E[i] - std::round(g / E[i])) < 1e-3, "snapped to a multiple of the step, component %d: %g by %g is %g", (int)i, A[i], E[i], g);
			c.check(std::fabs(g - A[i]) <= std::fabs(E[i]) / 2 + 1e-4, "snapped to the nearest multiple of the step, component %d: %g by %g is %g", (int)i, A[i], E[i], g);
		}
		same_v(c, a.snapped(V()), A, 0, "snapped by nothing");
	}
	float m = s.flag() ? r : -r;
	if (std::fabs(m) > 0.05) {
		V g = a.posmod(m);
		for (size_t i = 0; i < N; i++) {
			double w = pmod(A[i], m);
			double d = std::fabs(g[i] - w);
			c.check(d < e2 || std::fabs(d - std::fabs(m)) < e2, "posmod of %g by %g is %g", A[i], m, (double)g[i]);
		}
	}
	same_v(c, a.abs(), per<N>([&](size_t i) { return std::fabs(A[i]); }), 0, "abs");
	{ // the sign of 0 is either 0 or 1
		V sg = a.sign();
		for (size_t i = 0; i < N; i++) {
			c.check(A[i] > 0 ? sg[i] == 1 : (A[i] < 0 ? sg[i] == -1 : sg[i] == 0 || sg[i] == 1), "sign, component %d", (int)i);
		}
	}
	same_v(c, a.floor(), per<N>([&](size_t i) { return std::floor(A[i]); }), 0, "floor");
	same_v(c, a.ceil(), per<N>([&](size_t i) { return std::ceil(A[i]); }), 0, "ceil");
	same_v(c, a.round(), per<N>([&](size_t i) { return std::round(A[i]); }), 0, "round");
	if constexpr (N > 2) {
		V lo = a, hi = b;
		for (size_t i = 0; i < N; i++) {
			lo[i] = std::min(a[i], b[i]);
			hi[i] = std::max(a[i], b[i]);
		}
		same_v(c, p.clamp(lo, hi), per<N>([&](size_t i) { return std::min<double>(std::max<double>(P[i], lo[i]), hi[i]); }), 0, "clamp");
	}

	// size and direction
	double la = len(A), ab = len(add(B, A, -1));
	c.near(a.length(), la, e * (1 + la), "length");
	c.near(a.length_squared(), la * la, e * (1 + la * la), "length_squared");
	c.near(a.dot(b), dot(A, B), e * (1 + la * len(B)), "dot");
	c.near(a.distance_to(b), ab, e * (1 + ab), "distance_to");
	c.near(a.distance_squared_to(b), ab * ab, e * (1 + ab * ab), "distance_squared_to");
	V n = a.normalized(), n2 = a;
	n2.normalize();
	same_v(c, n2, of(n), 1e-6, "normalize and normalized");
	if (la > 1e-3) {
		same_v(c, n, per<N>([&](size_t i) { return A[i] / la; }), e, "normalized");
		c.check(n.is_normalized(), "a normalized vector says it is not");
	} else if (la == 0) {
		same_v(c, n, A, 0, "normalized zero");
	}
	if (std::fabs(la * la - 1) > 0.01) {
		c.check(!a.is_normalized(), "a vector of length %g says it is normalized", la);
	}
	if (ab > 1e-3) {
		same_v(c, a.direction_to(b), per<N>([&](size_t i) { return (B[i] - A[i]) / ab; }), 1e-4, "direction_to");
	}
	V lim = a.limit_length(r);
	same_v(c, lim, la > r ? per<N>([&](size_t i) { return A[i] / la * r; }) : A, 1e-4, "limit_length");
	int mn = 0, mx = 0;
	bool tie = false;
	for (size_t i = 0; i < N; i++) {
		for (size_t j = 0; j < i; j++) {
			tie = tie || a[i] == a[j];
		}
		mn = a[i] < a[mn] ? i : mn;
		mx = a[i] > a[mx] ? i : mx;
	}
	if (tie) {
		c.check(a[(int)a.min_axis()] == a[mn] && a[(int)a.max_axis()] == a[mx], "min_axis %d, max_axis %d", (int)a.min_axis(), (int)a.max_axis());
	} else {
		c.check((int)a.min_axis() == mn && (int)a.max_axis() == mx, "min_axis %d for %d, max_axis %d for %d", (int)a.min_axis(), mn, (int)a.max_axis(), mx);
	}

	// on the way from a to b
	same_v(c, a.linear_interpolate(b, t), per<N>([&](size_t i) { return A[i] + (B[i] - A[i]) * t; }), 1e-4, "linear_interpolate");
	auto cub = [&](double from, double to, double pre, double post) {
		double u = t;
		return 0.5 * (from * 2 + (-pre + to) * u + (2 * pre - 5 * from + 4 * to - post) * u * u + (-pre + 3 * from - 3 * to + post) * u * u * u);
	};
	same_v(c, a.cubic_interpolate(b, p, q, t), per<N>([&](size_t i) { return cub(A[i], B[i], P[i], Q[i]); }), 1e-3, "cubic_interpolate");
	same_v(c, a.cubic_interpolate(b, p, q, 0), A, 1e-5, "cubic_interpolate start");
	same_v(c, a.cubic_interpolate(b, p, q, 1), B, 1e-4, "cubic_interpolate end");

	// comparison
	V a2 = a;
	c.check(a == a2 && !(a != a2) && a.is_equal_approx(a2), "a vector differs from its copy");
	c.check((a == b) == (A == B) && (a != b) == (A != B), "== of different vectors");
	c.check((a < b) == (A < B) && (a > b) == (A > B), "order is not that of the first different component");
	c.check((a <= b) == (A <= B) && (a >= b) == (A >= B), "<= or >= is not that of the first different component");
	int ax = s.draw(N);
	V near = a;
	near[ax] += 0.25f;
	c.check(!a.is_equal_approx(near) && !near.is_zero_approx() == (len(of(near)) > 1e-4), "is_equal_approx or is_zero_approx");
	// whole numbers
	typename Dim<V>::I ia, ib;
	for (size_t i = 0; i < N; i++) {
		ia[i] = (int)s.sint(1000);
		ib[i] = (int)s.sint(1000);
	}
	auto isum = ia + ib, idif = ia - ib, imul = ia * ib, ineg = -ia;
	int64_t l2 = 0;
	for (size_t i = 0; i < N; i++) {
		c.check(isum[i] == ia[i] + ib[i] && idif[i] == ia[i] - ib[i] && imul[i] == ia[i] * ib[i] && ineg[i] == -ia[i], "whole vectors, component %d", (int)i);
		c.check((ia * 7)[i] == ia[i] * 7 && (ia / 7)[i] == ia[i] / 7, "whole vector by number, component %d", (int)i);
		c.check(ia.abs()[i] == std::abs(ia[i]) && (ia[i] == 0 || ia.sign()[i] == (ia[i] > 0) - (ia[i] < 0)), "abs or sign of whole vector, component %d", (int)i);
		if (ib[i] != 0) {
			auto d = ib;
			for (size_t j = 0; j < N; j++) {
				d[j] = d[j] == 0 ? 1 : d[j];
			}
			c.check((ia / d)[i] == ia[i] / d[i], "whole vector division, component %d", (int)i);
		}
		l2 += (int64_t)ia[i] * ia[i];
	}
	c.check(ia.length_squared() == l2, "length_squared of whole vector");
	c.near(ia.length(), std::sqrt((double)l2), 1e-3, "length of whole vector");
	std::array<int, N> IA, IB;
	for (size_t i = 0; i < N; i++) {
		IA[i] = ia[i];
		IB[i] = s.flag() ? ia[i] : ib[i];
		ib[i] = IB[i];
	}
	c.check((ia == ib) == (IA == IB) && (ia != ib) == (IA != IB) && (ia < ib) == (IA < IB) && (ia > ib) == (IA > IB) && (ia <= ib) == (IA <= IB) && (ia >= ib) == (IA >= IB), "comparison of whole vectors");

	if constexpr (N < 4) {
		same_v(c, a.bezier_interpolate(p, q, b, t), per<N>([&](size_t i) {
			double o = 1 - (double)t;
			return A[i] * o * o * o + P[i] * o * o * t * 3 + Q[i] * o * t * t * 3 + B[i] * t * t * t;
		}),
				1e-4, "bezier_interpolate");
		V mv = a.move_toward(b, r);
		same_v(c, mv, ab <= r ? B : per<N>([&](size_t i) { return A[i] + (B[i] - A[i]) / ab * r; }), 1e-4, "move_toward");
		double lb2 = dot(B, B);
		if (lb2 > 0.1) {
			same_v(c, a.project(b), per<N>([&](size_t i) { return B[i] * dot(A, B) / lb2; }), 1e-3, "project");
		}
		if (la > 0.1 && lb2 > 0.1) {
			double co = dot(A, B) / (la * std::sqrt(lb2));
			co = std::min(1.0, std::max(-1.0, co));
			double ang = std::acos(co);
			c.near(std::fabs((double)a.angle_to(b)), ang, 2e-3, "angle_to");
		}
		V un = unit<V>(s);
		X U = of(un);
		double ud = dot(A, U);
		same_v(c, a.slide(un), add(A, U, -ud), 1e-4, "slide");
		same_v(c, a.reflect(un), per<N>([&](size_t i) { return 2 * ud * U[i] - A[i]; }), 1e-4, "reflect");
		same_v(c, a.bounce(un), per<N>([&](size_t i) { return A[i] - 2 * ud * U[i]; }), 1e-4, "bounce");
		// slerp keeps to the arc between two directions
		V w = unit<V>(s);
		X W = of(w);
		double th = std::acos(std::min(1.0, std::max(-1.0, dot(U, W))));
		if (th > 0.05 && th < PI - 0.05) {
			same_v(c, un.slerp(w, t), per<N>([&](size_t i) { return U[i] * std::sin((1 - t) * th) / std::sin(th) + W[i] * std::sin(t * th) / std::sin(th); }), 1e-3, "slerp");
		}
	}
	c.no_errors("vector arithmetic");
}

// A rectangle with corners on a half grid
Rect2 grect(Src &s) {
	float x = s.sint(8) / 2.0f, y = s.sint(8) / 2.0f, w = s.range(s.one_in(6) ? 0 : 1, 10) / 2.0f, h = s.range(1, 10) / 2.0f;
	return Rect2(x, y, w, h);
}
template <class R>
bool half_open(const R &r, double x, double y) {
	return x >= r.position.x && y >= r.position.y && x < r.position.x + r.size.x && y < r.position.y + r.size.y;
}
using Poly = std::vector<D<2>>;
// do two convex polygons share a point? 0 no, 1 yes, -1 too close to tell
int meet(const Poly &a, const Poly &b) {
	double worst = 1e9;
	for (const Poly *p : { &a, &b }) {
		for (size_t i = 0; i < p->size(); i++) {
			D<2> u = (*p)[i], v = (*p)[(i + 1) % p->size()];
			D<2> n = { v[1] - u[1], u[0] - v[0] };
			double l = len(n);
			if (l < 1e-9) {
				return -1;
			}
			double amin = 1e9, amax = -1e9, bmin = 1e9, bmax = -1e9;
			for (auto &x : a) {
				double d = dot(n, x) / l;
				amin = std::min(amin, d);
				amax = std::max(amax, d);
			}
			for (auto &x : b) {
				double d = dot(n, x) / l;
				bmin = std::min(bmin, d);
				bmax = std::max(bmax, d);
			}
			worst = std::min(worst, std::min(amax - bmin, bmax - amin));
		}
	}
	return worst > 1e-3 ? 1 : (worst < -1e-3 ? 0 : -1);
}
Poly corners(const Rect2 &r) {
	double x = r.position.x, y = r.position.y, w = r.size.x, h = r.size.y;
	return { { x, y }, { x + w, y }, { x + w, y + h }, { x, y + h } };
}
// where does a segment enter a box? returns 0 outside, 1 inside or crossing, -1 too close to tell
template <size_t N>
int clip_segment(const D<N> &lo, const D<N> &hi, const D<N> &from, const D<N> &to, double pad, double &t0, double &t1, int &axis) {
	t0 = 0;
	t1 = 1;
	axis = -1;
	for (size_t i = 0; i < N; i++) {
		double d = to[i] - from[i], l = lo[i] - pad, h = hi[i] + pad;
		if (d == 0) {
			if (from[i] < l || from[i] > h) {
				return 0;
			}
			continue;
		}
		double u = (l - from[i]) / d, v = (h - from[i]) / d;
		if (u > v) {
			std::swap(u, v);
		}
		if (u > t0) {
			t0 = u;
			axis = i;
		}
		t1 = std::min(t1, v);
	}
	return t0 <= t1;
}
} // namespace

VT_PROP(P09, vectors2, 40000) { vectors<Vector2>(s, c); }
VT_PROP(P09, vectors3, 40000) { vectors<Vector3>(s, c); }
VT_PROP(P09, vectors4, 40000) { vectors<Vector4>(s, c); }

VT_PROP(P09, plane_geometry, 40000) {
	Vector2 a = gen<Vector2>(s), b = gen<Vector2>(s), n = unit<Vector2>(s);
	float phi = s.real(7), d = s.real(4);
	D<2> A = of(a), B = of(b), N = of(n);
	show(c, "a", a);
	show(c, "b", b);
	c.note("phi=%g", phi);
	c.nt(len(A) > 0.5 && len(B) > 0.5);
	same_v(c, a.rotated(phi), { A[0] * cos(phi) - A[1] * sin(phi), A[0] * sin(phi) + A[1] * cos(phi) }, 1e-4, "rotated");
	c.near(a.cross(b), A[0] * B[1] - A[1] * B[0], 1e-4, "cross");
	if (len(A) > 0.1 && len(B) > 0.1) {
		double w = std::atan2(A[0] * B[1] - A[1] * B[0], dot(A, B));
		double g = a.angle_to(b);
		c.check(std::fabs(std::remainder(g - w, 2 * PI)) < 2e-3, "angle_to: got %g, expected %g", g, w);
		c.near(a.angle(), std::atan2(A[1], A[0]), 1e-4, "angle");
	}
	if (len(add(A, B, -1)) > 0.05) {
		c.near(a.angle_to_point(b), std::atan2(A[1] - B[1], A[0] - B[0]), 1e-4, "angle_to_point");
	}
	Vector2 r = a;
	r.set_rotation(phi);
	same_v(c, r, { cos(phi), sin(phi) }, 1e-5, "set_rotation");
	same_v(c, a.tangent(), { A[1], -A[0] }, 0, "tangent");
	same_v(c, a.orthogonal(), { A[1], -A[0] }, 0, "orthogonal");
	same_v(c, n.plane_project(d, a), add(A, N, -(dot(A, N) - d)), 1e-4, "plane_project");
	same_v(c, a.min(b), { std::min(A[0], B[0]), std::min(A[1], B[1]) }, 0, "min");
	same_v(c, a.max(b), { std::max(A[0], B[0]), std::max(A[1], B[1]) }, 0, "max");
	if (a.y != 0) {
		c.near(a.aspect(), A[0] / A[1], 1e-4 * (1 + std::fabs(A[0] / A[1])), "aspect");
	}
	c.no_errors("plane geometry");
}

VT_PROP(P09, space_geometry, 40000) {
	Vector3 a = gen<Vector3>(s), b = gen<Vector3>(s), u = unit<Vector3>(s);
	float phi = s.real(4), t = s.real_in(0, 1);
	D<3> A = of(a), B = of(b), U = of(u);
	show(c, "a", a);
	show(c, "b", b);
	show(c, "u", u);
	c.note("phi=%g", phi);
	c.nt(len(A) > 0.5 && len(B) > 0.5);
	D<3> X = cross(A, B);
	same_v(c, a.cross(b), X, 1e-4, "cross");
	// turning about an axis
	D<3> K = cross(U, A);
	D<3> R = per<3>([&](size_t i) { return A[i] * cos(phi) + K[i] * sin(phi) + U[i] * dot(U, A) * (1 - cos(phi)); });
	same_v(c, a.rotated(u, phi), R, 1e-4, "rotated");
	Vector3 w = a;
	w.rotate(u, phi);
	same_v(c, w, R, 1e-4, "rotate");
	Basis o = a.outer(b);
	for (int i = 0; i < 3; i++) {
		for (int j = 0; j < 3; j++) {
			c.near(o[i][j], A[i] * B[j], 1e-4, "outer [%d][%d]", i, j);
			c.near(a.to_diagonal_matrix()[i][j], i == j ? A[i] : 0, 0, "to_diagonal_matrix [%d][%d]", i, j);
		}
	}
	if (len(A) > 0.1 && len(B) > 0.1) {
		double un = std::atan2(len(X), dot(A, B)), sg = dot(X, U);
		if (std::fabs(sg) > 1e-3) {
			c.near(a.signed_angle_to(b, u), sg < 0 ? -un : un, 2e-3, "signed_angle_to");
		}
		// slerp of vectors of any length: the angle and the length each go evenly
		double th = un;
		if (th > 0.05 && th < PI - 0.05 && len(X) > 0.05) {
			double la = len(A), lb = len(B), L = la + (lb - la) * t;
			same_v(c, a.slerp(b, t), per<3>([&](size_t i) { return L * (A[i] / la * std::sin((1 - t) * th) + B[i] / lb * std::sin(t * th)) / std::sin(th); }), 2e-3 * (1 + L), "slerp");
		}
	}
	Vector3 sn = a;
	sn.snap(Vector3(0.5, 0.25, 2));
	same_v(c, sn, { snap(A[0], 0.5), snap(A[1], 0.25), snap(A[2], 2) }, 1e-4, "snap");
	if (A[0] && A[1] && A[2]) {
		same_v(c, a.inverse(), { 1 / A[0], 1 / A[1], 1 / A[2] }, 1e-4 * (1 + 1 / std::min({ std::fabs(A[0]), std::fabs(A[1]), std::fabs(A[2]) })), "inverse");
	}
	for (int i = 0; i < 3; i++) {
		Vector3 m = a;
		m.set_axis(i, 77);
		c.check(m[i] == 77 && m.get_axis(i) == 77 && m[(i + 1) % 3] == a[(i + 1) % 3] && m[(i + 2) % 3] == a[(i + 2) % 3], "set_axis %d", i);
	}
	c.no_errors("space geometry");
}

VT_PROP(P09, rectangles, 4000) {
	Rect2 a = grect(s), b = grect(s);
	c.note("a=(%g,%g %gx%g) b=(%g,%g %gx%g)", a.position.x, a.position.y, a.size.x, a.size.y, b.position.x, b.position.y, b.size.x, b.size.y);
	Rect2 i = a.intersection(b), cl = a.clip(b), m = a.merge(b);
	bool both = false, any = false, a_in_b = true;
	auto ends = [](const Rect2 &r) { return r.position + r.size; };
	for (float x = -6; x <= 12; x += 0.25f) {
		for (float y = -6; y <= 12; y += 0.25f) {
			bool pa = half_open(a, x, y), pb = half_open(b, x, y);
			c.check(a.has_point(Vector2(x, y)) == pa, "has_point (%g,%g)", x, y);
			c.check(i.has_point(Vector2(x, y)) == (pa && pb), "intersection at (%g,%g)", x, y);
			if (pa || pb) {
				c.check(m.has_point(Vector2(x, y)), "merge leaves (%g,%g) out", x, y);
			}
			both = both || (pa && pb);
			any = any || pa || pb;
			a_in_b = a_in_b && (!pa || pb);
		}
	}
	c.nt(both);
	c.check(cl == i, "clip and intersection");
	bool solid = !a.has_no_area() && !b.has_no_area();
	if (solid) {
		c.check(a.intersects(b) == both, "intersects is %d", (int)a.intersects(b));
		c.check(b.encloses(a) == a_in_b, "encloses is %d", (int)b.encloses(a));
	}
	c.check(a.has_no_area() == (a.size.x <= 0 || a.size.y <= 0), "has_no_area");
	bool touch = a.position.x <= ends(b).x && b.position.x <= ends(a).x && a.position.y <= ends(b).y && b.position.y <= ends(a).y;
	c.check(a.intersects(b, true) == touch, "intersects with borders");
	c.check(m.position == a.position.min(b.position) && ends(m) == ends(a).max(ends(b)), "merge is not the smallest rectangle around both");
	c.check(a.get_area() == a.size.x * a.size.y, "get_area");
	same_v(c, a.get_center(), { a.position.x + a.size.x / 2.0, a.position.y + a.size.y / 2.0 }, 0, "get_center");
	c.check(a.get_end() == ends(a), "get_end");
	// growing
	float by[4];
	for (auto &v : by) {
		v = s.sint(6) / 2.0f;
	}
	Rect2 g = a.grow_individual(by[0], by[1], by[2], by[3]);
	c.check(g.position == a.position - Vector2(by[0], by[1]) && ends(g) == ends(a) + Vector2(by[2], by[3]), "grow_individual");
	c.check(a.grow(by[0]) == a.grow_individual(by[0], by[0], by[0], by[0]), "grow");
	const Margin mg[] = { MARGIN_LEFT, MARGIN_TOP, MARGIN_RIGHT, MARGIN_BOTTOM };
	for (int k = 0; k < 4; k++) {
		float z[4] = { 0, 0, 0, 0 };
		z[k] = by[k];
		c.check(a.grow_margin(mg[k], by[k]) == a.grow_individual(z[0], z[1], z[2], z[3]), "grow_margin %d", k);
	}
	Vector2 p(s.sint(20) / 2.0f, s.sint(20) / 2.0f);
	Rect2 x = a.expand(p);
	c.check(x.position == a.position.min(p) && ends(x) == ends(a).max(p), "expand to (%g,%g)", p.x, p.y);
	Rect2 neg(a.position + a.size, -a.size);
	c.check(neg.abs() == a, "abs of a rectangle given from its end");
	// distance to a point
	double dx = std::max({ (double)a.position.x - p.x, 0.0, (double)p.x - ends(a).x }), dy = std::max({ (double)a.position.y - p.y, 0.0, (double)p.y - ends(a).y });
	c.near(a.distance_to(p), std::hypot(dx, dy), 1e-4, "distance to (%g,%g)", p.x, p.y);
	// an extreme corner along a direction (which end of it is a convention)
	Vector2 n = unit<Vector2>(s);
	double best = -1e9, worst = 1e9;
	for (auto &k : corners(a)) {
		best = std::max(best, dot(of(n), k));
		worst = std::min(worst, dot(of(n), k));
	}
	double sup = dot(of(n), of(a.get_support(n)));
	c.check(std::fabs(sup - best) < 1e-4 || std::fabs(sup - worst) < 1e-4, "get_support is no extreme corner: %g, range %g to %g", sup, worst, best);
	c.no_errors("rectangles");
	// whole rectangles
	Rect2i ia(a.position * 2, a.size * 2), ib(b.position * 2, b.size * 2);
	Rect2i ii = ia.intersection(ib), im = ia.merge(ib);
	bool iboth = false, iin = true;
	for (int px = -12; px <= 24; px++) {
		for (int py = -12; py <= 24; py++) {
			bool pa = half_open(ia, px, py), pb = half_open(ib, px, py);
			c.check(ia.has_point(Vector2i(px, py)) == pa, "has_point (%d,%d) of whole rectangle", px, py);
			c.check(ii.has_point(Vector2i(px, py)) == (pa && pb), "intersection of whole rectangles at (%d,%d)", px, py);
			iboth = iboth || (pa && pb);
			iin = iin && (!pa || pb);
		}
	}
	if (solid) {
		c.check(ia.intersects(ib) == iboth, "intersects of whole rectangles");
		c.check(ib.encloses(ia) == iin, "encloses of whole rectangles");
	}
	c.check(im.position.x == std::min(ia.position.x, ib.position.x) && im.position.y == std::min(ia.position.y, ib.position.y), "merge of whole rectangles, position");
	c.check(im.position.x + im.size.x == std::max(ia.position.x + ia.size.x, ib.position.x + ib.size.x) && im.position.y + im.size.y == std::max(ia.position.y + ia.size.y, ib.position.y + ib.size.y), "merge of whole rectangles, end");
	c.check(ia.grow(2).position == ia.position - Vector2i(2, 2) && ia.grow(2).size == ia.size + Vector2i(4, 4), "grow of whole rectangle");
	Rect2i ix = ia;
	ix.expand_to(Vector2i(-9, 3));
	c.check(ix.position == Vector2i(std::min(ia.position.x, -9), std::min(ia.position.y, 3)) && ix.size == Vector2i(std::max(ia.position.x + ia.size.x, -9), std::max(ia.position.y + ia.size.y, 3)) - ix.position, "expand of whole rectangle");
}

VT_PROP(P09, rectangle_crossings, 60000) {
	Rect2 a = grect(s), b = grect(s);
	if (a.has_no_area() || b.has_no_area()) {
		c.discard();
	}
	Vector2 p(s.sint(32) / 4.0f, s.sint(32) / 4.0f), q(s.sint(32) / 4.0f, s.sint(32) / 4.0f);
	c.note("a=(%g,%g %gx%g) b=(%g,%g %gx%g) from (%g,%g) to (%g,%g)", a.position.x, a.position.y, a.size.x, a.size.y, b.position.x, b.position.y, b.size.x, b.size.y, p.x, p.y, q.x, q.y);
	D<2> lo = of(a.position), hi = of(a.position + a.size), P = of(p), Q = of(q);
	double t0, t1, u0, u1;
	int ax, ax2;
	int w = clip_segment<2>(lo, hi, P, Q, 1e-3, t0, t1, ax), n = clip_segment<2>(lo, hi, P, Q, -1e-3, u0, u1, ax2);
	if (p != q && w == n) {
		Vector2 at(99, 99), nm(99, 99);
		c.check(a.intersects_segment(p, q, &at, &nm) == (w != 0), "intersects_segment says %d", (int)!w);
		c.nt(w != 0);
		if (w) {
			clip_segment<2>(lo, hi, P, Q, 0, t0, t1, ax);
			same_v(c, at, add(P, add(Q, P, -1), t0), 1e-3, "entry point");
			if (ax < 0) {
				c.check(nm == Vector2(), "normal for a start inside");
			} else if (ax == ax2) {
				// only when no other side is entered at nearly the same point
				D<2> e = add(P, add(Q, P, -1), t0);
				int o = 1 - ax;
				if (e[o] > lo[o] + 0.01 && e[o] < hi[o] - 0.01) {
					D<2> want = { 0, 0 };
					want[ax] = Q[ax] > P[ax] ? -1 : 1;
					same_v(c, nm, want, 0, "normal of the side entered");
				}
			}
		}
	}
	float rot = s.real(3), sx = s.real_in(0.5, 2), sy = s.real_in(0.5, 2);
	Transform2D x;
	x.set_rotation_and_scale(rot, Vector2(sx, sy));
	x.set_origin(p * 0.5f);
	Poly pb = corners(b);
	for (auto &k : pb) {
		Vector2 v = x.xform(Vector2(k[0], k[1]));
		k = of(v);
	}
	int m = meet(corners(a), pb);
	if (m >= 0) {
		c.check(a.intersects_transformed(x, b) == (m == 1), "intersects_transformed says %d", 1 - m);
	}
	c.no_errors("crossings");
}

namespace {
AABB gbox(Src &s, bool flat = true) {
	Vector3 p(s.sint(8) / 2.0f, s.sint(8) / 2.0f, s.sint(8) / 2.0f);
	Vector3 z(s.range(flat && s.one_in(8) ? 0 : 1, 10) / 2.0f, s.range(1, 10) / 2.0f, s.range(1, 10) / 2.0f);
	return AABB(p, z);
}
struct Box {
	D<3> lo, hi;
	explicit Box(const AABB &a) :
			lo(of(a.position)), hi(add(of(a.position), of(a.size))) {}
	bool has(const D<3> &p) const {
		for (int i = 0; i < 3; i++) {
			if (p[i] < lo[i] || p[i] > hi[i]) {
				return false;
			}
		}
		return true;
	}
	std::vector<D<3>> corners() const {
		std::vector<D<3>> r;
		for (int i = 0; i < 8; i++) {
			r.push_back({ i & 1 ? hi[0] : lo[0], i & 2 ? hi[1] : lo[1], i & 4 ? hi[2] : lo[2] });
		}
		return r;
	}
};
Vector3 vec(const D<3> &d) { return Vector3(d[0], d[1], d[2]); }
double dist_plane(const Plane &p, const D<3> &x) { return dot(of(p.normal), x) - p.d; }
D<3> quarter(Src &s, int m = 40) { return { s.sint(m) / 4.0, s.sint(m) / 4.0, s.sint(m) / 4.0 }; }
double dist(const D<3> &a, const D<3> &b) { return len(add(a, b, -1)); }
// the point of a triangle nearest to p
D<3> nearest(const D<3> &a, const D<3> &b, const D<3> &c, const D<3> &p) {
	auto seg = [&](const D<3> &u, const D<3> &v) {
		D<3> d = add(v, u, -1);
		double t = dot(add(p, u, -1), d) / dot(d, d);
		return add(u, d, std::min(1.0, std::max(0.0, t)));
	};
	D<3> n = cross(add(b, a, -1), add(c, a, -1));
	double k = dot(add(p, a, -1), n) / dot(n, n);
	D<3> q = add(p, n, -k);
	auto side = [&](const D<3> &u, const D<3> &v) { return dot(cross(add(v, u, -1), add(q, u, -1)), n); };
	if (side(a, b) >= 0 && side(b, c) >= 0 && side(c, a) >= 0) {
		return q;
	}
	D<3> best = seg(a, b);
	for (const D<3> &o : { seg(b, c), seg(c, a) }) {
		best = dist(o, p) < dist(best, p) ? o : best;
	}
	return best;
}
} // namespace

VT_PROP(P10, boxes, 40000) {
	AABB a = gbox(s), b = gbox(s);
	Box A(a), B(b);
	show(c, "a.position", a.position);
	show(c, "a.size", a.size);
	show(c, "b.position", b.position);
	show(c, "b.size", b.size);
	bool open = true, closed = true, enc = true;
	for (int i = 0; i < 3; i++) {
		open = open && A.lo[i] < B.hi[i] && B.lo[i] < A.hi[i];
		closed = closed && A.lo[i] <= B.hi[i] && B.lo[i] <= A.hi[i];
		enc = enc && A.lo[i] <= B.lo[i] && B.hi[i] <= A.hi[i];
	}
	c.nt(closed);
	bool solid = !a.has_no_volume() && !b.has_no_volume();
	if (solid) {
		c.check(a.intersects(b) == open, "intersects says %d", (int)!open);
	}
	c.check(a.intersects_inclusive(b) == closed, "intersects_inclusive says %d", (int)!closed);
	c.check(a.encloses(b) == enc, "encloses says %d", (int)!enc);
	AABB m = a.merge(b), m2 = a;
	m2.merge_with(b);
	c.check(m == m2, "merge and merge_with");
	AABB it = a.intersection(b);
	for (int i = 0; i < 3; i++) {
		c.near(m.position[i], std::min(A.lo[i], B.lo[i]), 0, "merge, start %d", i);
		c.near(m.position[i] + m.size[i], std::max(A.hi[i], B.hi[i]), 0, "merge, end %d", i);
		if (open) {
			c.near(it.position[i], std::max(A.lo[i], B.lo[i]), 0, "intersection, start %d", i);
			c.near(it.position[i] + it.size[i], std::min(A.hi[i], B.hi[i]), 0, "intersection, end %d", i);
		} else if (!closed) {
			c.check(it.size == Vector3(), "intersection of separate boxes");
		}
	}
	c.near(a.get_volume(), (double)a.size.x * a.size.y * a.size.z, 1e-4, "volume");
	c.check(a.has_no_volume() == (a.size.x <= 0 || a.size.y <= 0 || a.size.z <= 0), "has_no_volume");
	c.check(a.has_no_surface() == (a.size.x <= 0 && a.size.y <= 0 && a.size.z <= 0), "has_no_surface");
	c.check(a.get_end() == a.position + a.size, "get_end");
	same_v(c, a.get_center(), per<3>([&](size_t i) { return (A.lo[i] + A.hi[i]) / 2; }), 1e-5, "get_center");
	AABB e = a;
	e.set_end(a.position + Vector3(1, 2, 3));
	c.check(e.position == a.position && e.size == Vector3(1, 2, 3), "set_end");
	for (int k = 0; k < 20; k++) {
		D<3> p = per<3>([&](size_t) { return s.sint(20) / 2.0; });
		c.check(a.has_point(vec(p)) == A.has(p), "has_point (%g,%g,%g) says %d", p[0], p[1], p[2], (int)!A.has(p));
		AABB x = a.expand(vec(p)), x2 = a;
		x2.expand_to(vec(p));
		c.check(x == x2, "expand and expand_to");
		for (int i = 0; i < 3; i++) {
			c.near(x.position[i], std::min(A.lo[i], p[i]), 0, "expand, start %d", i);
			c.near(x.position[i] + x.size[i], std::max(A.hi[i], p[i]), 0, "expand, end %d", i);
		}
	}
	float by = s.sint(6) / 2.0f;
	AABB g = a.grow(by), g2 = a;
	g2.grow_by(by);
	c.check(g == g2 && g.position == a.position - Vector3(by, by, by) && g.size == a.size + Vector3(2 * by, 2 * by, 2 * by), "grow by %g", by);
	AABB neg(a.position + a.size, -a.size);
	c.check(neg.abs() == a, "abs of a box given from its end");
	// corners and edges
	std::vector<D<3>> want = A.corners(), got;
	for (int i = 0; i < 8; i++) {
		got.push_back(of(a.get_endpoint(i)));
	}
	std::vector<D<3>> sg = got, sw = want;
	std::sort(sg.begin(), sg.end());
	std::sort(sw.begin(), sw.end());
	c.check(sg == sw, "get_endpoint does not give each corner once");
	if (solid) {
		std::vector<std::pair<D<3>, D<3>>> edges;
		for (int i = 0; i < 12; i++) {
			Vector3 f, t;
			a.get_edge(i, f, t);
			D<3> F = of(f), T = of(t);
			int diff = 0;
			for (int k = 0; k < 3; k++) {
				diff += F[k] != T[k];
			}
			c.check(diff == 1 && std::binary_search(sw.begin(), sw.end(), F) && std::binary_search(sw.begin(), sw.end(), T), "edge %d does not join neighbouring corners", i);
			edges.push_back(F < T ? std::make_pair(F, T) : std::make_pair(T, F));
		}
		std::sort(edges.begin(), edges.end());
		c.check(std::unique(edges.begin(), edges.end()) == edges.end(), "an edge is given twice");
	}
	double lo = std::min({ a.size.x, a.size.y, a.size.z }), hi = std::max({ a.size.x, a.size.y, a.size.z });
	int la = a.get_longest_axis_index(), sa = a.get_shortest_axis_index();
	c.check(a.size[la] == hi && a.get_longest_axis_size() == hi && a.get_longest_axis()[la] == 1 && a.get_longest_axis().length() == 1, "longest axis");
	c.check(a.size[sa] == lo && a.get_shortest_axis_size() == lo && a.get_shortest_axis()[sa] == 1 && a.get_shortest_axis().length() == 1, "shortest axis");
	Vector3 n = unit<Vector3>(s);
	double mn = 1e9, mx = -1e9;
	for (auto &k : want) {
		mn = std::min(mn, dot(of(n), k));
		mx = std::max(mx, dot(of(n), k));
	}
	double sup = dot(of(n), of(a.get_support(n)));
	c.check(std::fabs(sup - mn) < 1e-4 || std::fabs(sup - mx) < 1e-4, "get_support is no extreme corner");
	Plane pl(n, s.real(5));
	if (mn - pl.d < -1e-3 && mx - pl.d > 1e-3) {
		c.check(a.intersects_plane(pl), "intersects_plane misses");
	} else if (mn - pl.d > 1e-3 || mx - pl.d < -1e-3) {
		c.check(!a.intersects_plane(pl), "intersects_plane hits");
	}
	float r0, r1;
	a.project_range_in_plane(pl, r0, r1);
	c.near(r0, mn - pl.d, 1e-3, "project_range_in_plane, lowest");
	c.near(r1, mx - pl.d, 1e-3, "project_range_in_plane, highest");
	Vector<Vector3> pts;
	for (auto &k : want) {
		pts.push_back(vec(k));
	}
	AABB from;
	c.check(!from.create_from_points(Vector<Vector3>()) && from == AABB(), "create_from_points of none");
	c.check(from.create_from_points(pts) && from == a, "create_from_points");
	float u = s.pick({ 0.5f, 1.0f, 2.0f });
	AABB qz = a.quantized(u);
	for (int i = 0; i < 3; i++) {
		double f = qz.position[i] / u, l = (qz.position[i] + qz.size[i]) / u;
		c.check(f == std::floor(f) && l == std::floor(l), "quantized by %g to no multiples", u);
		c.check(qz.position[i] <= A.lo[i] && qz.position[i] + qz.size[i] >= A.hi[i] && qz.position[i] > A.lo[i] - u - 1e-4 && qz.position[i] + qz.size[i] < A.hi[i] + u + 1e-4, "quantized by %g leaves the box or is too large, axis %d", u, i);
	}
	// the box as planes facing out
	std::vector<Plane> ps;
	for (int i = 0; i < 3; i++) {
		Vector3 d;
		d[i] = 1;
		ps.push_back(Plane(d, B.hi[i]));
		ps.push_back(Plane(-d, -B.lo[i]));
	}
	std::vector<Vector3> pp;
	for (auto &k : B.corners()) {
		pp.push_back(vec(k));
	}
	bool touching = closed && !open;
	if (solid && !touching) {
		c.check(a.intersects_convex_shape(ps.data(), ps.size(), pp.data(), pp.size()) == open, "intersects_convex_shape says %d", (int)!open);
	}
	bool inside = true;
	for (int i = 0; i < 3; i++) {
		inside = inside && B.lo[i] <= A.lo[i] && A.hi[i] <= B.hi[i];
	}
	c.check(a.inside_convex_shape(ps.data(), ps.size()) == inside, "inside_convex_shape says %d", (int)!inside);
	c.no_errors("boxes");
}

VT_PROP(P10, box_crossings, 80000) {
	AABB a = gbox(s, false);
	Box A(a);
	D<3> p = quarter(s), q = quarter(s);
	show(c, "position", a.position);
	show(c, "size", a.size);
	show(c, "from", vec(p));
	show(c, "to", vec(q));
	if (dist(p, q) < 0.2) {
		c.discard();
	}
	double t0, t1, u0, u1;
	int ax, ax2;
	int w = clip_segment<3>(A.lo, A.hi, p, q, 1e-3, t0, t1, ax), n = clip_segment<3>(A.lo, A.hi, p, q, -1e-3, u0, u1, ax2);
	if (w == n) {
		Vector3 at(99, 99, 99), nm(99, 99, 99);
		c.check(a.intersects_segment(vec(p), vec(q), &at, &nm) == (w != 0), "intersects_segment says %d", (int)!w);
		c.nt(w != 0);
		if (w) {
			clip_segment<3>(A.lo, A.hi, p, q, 0, t0, t1, ax);
			D<3> e = add(p, add(q, p, -1), t0);
			same_v(c, at, e, 1e-3, "entry point");
			bool edge = ax < 0;
			for (int i = 0; i < 3 && !edge; i++) {
				edge = i != ax && (e[i] < A.lo[i] + 0.01 || e[i] > A.hi[i] - 0.01);
			}
			if (!edge) {
				D<3> want = { 0, 0, 0 };
				want[ax] = q[ax] > p[ax] ? -1 : 1;
				same_v(c, nm, want, 0, "normal of the side entered");
			}
		}
	}
	// a ray goes on for ever
	D<3> far = add(p, add(q, p, -1), 1000);
	w = clip_segment<3>(A.lo, A.hi, p, far, 1e-2, t0, t1, ax);
	n = clip_segment<3>(A.lo, A.hi, p, far, -1e-2, u0, u1, ax2);
	if (w == n) {
		Vector3 at, nm;
		bool hit = a.intersects_ray(vec(p), vec(add(q, p, -1)), &at, &nm);
		c.check(hit == (w != 0), "intersects_ray says %d", (int)hit);
		if (w) {
			clip_segment<3>(A.lo, A.hi, p, far, 0, t0, t1, ax);
			D<3> e = add(p, add(far, p, -1), t0);
			same_v(c, at, e, 1e-2, "where the ray enters");
			bool edge = ax < 0;
			for (int i = 0; i < 3 && !edge; i++) {
				edge = i != ax && (e[i] < A.lo[i] + 0.02 || e[i] > A.hi[i] - 0.02);
			}
			if (!edge) {
				D<3> want = { 0, 0, 0 };
				want[ax] = q[ax] > p[ax] ? -1 : 1;
				same_v(c, nm, want, 0, "normal of the side the ray enters");
			}
		}
		bool sm = a.smits_intersect_ray(vec(p), vec(add(q, p, -1)), 0, 1000);
		D<3> d = add(q, p, -1);
		if (d[0] != 0 && d[1] != 0 && d[2] != 0) {
			c.check(sm == (w != 0), "smits_intersect_ray says %d", (int)sm);
		}
	}
	c.no_errors("crossings of a box");
}

VT_PROP(P10, planes, 60000) {
	Vector3 n = unit<Vector3>(s);
	float d = s.real(5);
	Plane P(n, d);
	D<3> N = of(n), x = quarter(s), y = quarter(s), z = quarter(s);
	show(c, "n", n);
	show(c, "x", vec(x));
	show(c, "y", vec(y));
	c.note("d=%g", d);
	double h = dot(N, x) - d, hy = dot(N, y) - d;
	c.nt(std::fabs(h) > 0.1);
	c.near(P.distance_to(vec(x)), h, 1e-4, "distance_to");
	if (std::fabs(h) > 1e-3) {
		c.check(P.is_point_over(vec(x)) == (h > 0), "is_point_over");
		c.check(!P.has_point(vec(x)), "has_point off the plane");
	}
	D<3> foot = add(x, N, -h);
	same_v(c, P.project(vec(x)), foot, 1e-4, "project");
	c.check(P.has_point(vec(foot), 1e-4), "has_point on the plane");
	c.near(dist_plane(P, of(P.get_any_point())), 0, 1e-4, "get_any_point");
	same_v(c, P.center(), per<3>([&](size_t i) { return N[i] * d; }), 1e-4, "center");
	Vector3 perp = P.get_any_perpendicular_normal();
	c.near(dot(of(perp), N), 0, 1e-4, "get_any_perpendicular_normal");
	c.near(len(of(perp)), 1, 1e-4, "length of get_any_perpendicular_normal");
	Plane neg = -P;
	c.near(dist_plane(neg, x), -h, 1e-4, "the other side");
	c.check(P.is_equal_approx_any_side(neg) && P.is_equal_approx_any_side(P) && P.is_equal_approx(P), "is_equal_approx");
	float k = s.pos_real(4) + 0.1f;
	Plane scaled(n * k, d * k);
	Plane back = scaled.normalized();
	same_v(c, back.normal, N, 1e-4, "normalized");
	c.near(back.d, d, 1e-4, "distance of the normalized plane");
	Plane through(vec(x), n);
	c.near(dist_plane(through, x), 0, 1e-4, "plane through a point");
	// three points, seen clockwise from above
	D<3> cr = cross(add(y, x, -1), add(z, x, -1));
	if (len(cr) > 0.5) {
		Plane t(vec(x), vec(y), vec(z), COUNTERCLOCKWISE), tc(vec(x), vec(y), vec(z), CLOCKWISE);
		for (const D<3> *q : { &x, &y, &z }) {
			c.near(dist_plane(t, *q), 0, 2e-3, "plane through three points misses one");
			c.near(dist_plane(tc, *q), 0, 2e-3, "clockwise plane through three points misses one");
		}
		same_v(c, t.normal, per<3>([&](size_t i) { return cr[i] / len(cr); }), 1e-3, "normal of counterclockwise points");
		same_v(c, tc.normal, per<3>([&](size_t i) { return -cr[i] / len(cr); }), 1e-3, "normal of clockwise points");
	}
	// crossing lines
	D<3> dir = add(y, x, -1);
	double sl = dot(N, dir);
	Vector3 at;
	if (len(dir) > 0.2 && std::fabs(sl) > 0.05) {
		double t = -h / sl;
		bool ray = P.intersects_ray(vec(x), vec(dir), &at);
		if (t > 1e-2) {
			c.check(ray, "intersects_ray misses at %g", t);
			same_v(c, at, add(x, dir, t), 1e-3 * (1 + std::fabs(t)) * (1 + 1 / std::fabs(sl)), "where the ray meets the plane");
		} else if (t < -1e-2) {
			c.check(!ray, "intersects_ray behind its start");
		}
		bool seg = P.intersects_segment(vec(x), vec(y), &at);
		if (t > 1e-2 && t < 1 - 1e-2) {
			c.check(seg, "intersects_segment misses at %g", t);
			same_v(c, at, add(x, dir, t), 1e-3 * (1 + 1 / std::fabs(sl)), "where the segment meets the plane");
		} else if (t < -1e-2 || t > 1 + 1e-2) {
			c.check(!seg, "intersects_segment beyond its ends");
		}
	}
	(void)hy;
	// three planes meet in a point
	Plane Q(unit<Vector3>(s), s.real(5)), R(unit<Vector3>(s), s.real(5));
	double det = dot(cross(N, of(Q.normal)), of(R.normal));
	if (std::fabs(det) > 0.05) {
		c.check(P.intersect_3(Q, R, &at), "intersect_3 finds no point");
		for (const Plane *p : { &P, &Q, &R }) {
			c.near(dist_plane(*p, of(at)), 0, 1e-3 / std::fabs(det), "intersect_3 is not on a plane");
		}
	} else if (P.normal == Q.normal) {
		c.check(!P.intersect_3(Q, R, &at), "intersect_3 of parallel planes");
	}
	c.no_errors("planes");
}

VT_PROP(P10, triangles, 60000) {
	D<3> x = quarter(s, 24), y = quarter(s, 24), z = quarter(s, 24), p = quarter(s), q = quarter(s);
	D<3> cr = cross(add(y, x, -1), add(z, x, -1));
	double ar = len(cr) / 2;
	if (ar < 0.5) {
		c.discard();
	}
	Face3 f(vec(x), vec(y), vec(z));
	show(c, "x", f.vertex[0]);
	show(c, "y", f.vertex[1]);
	show(c, "z", f.vertex[2]);
	show(c, "p", vec(p));
	show(c, "q", vec(q));
	c.nt();
	c.near(f.get_area(), ar, 1e-3, "area");
	c.near(f.get_twice_area_squared(), 4 * ar * ar, 1e-2 * (1 + ar * ar), "get_twice_area_squared");
	c.check(!f.is_degenerate(), "is_degenerate");
	same_v(c, f.get_median_point(), per<3>([&](size_t i) { return (x[i] + y[i] + z[i]) / 3; }), 1e-4, "median point");
	AABB bb = f.get_aabb();
	for (int i = 0; i < 3; i++) {
		c.near(bb.position[i], std::min({ x[i], y[i], z[i] }), 1e-5, "box, start %d", i);
		c.near(bb.position[i] + bb.size[i], std::max({ x[i], y[i], z[i] }), 1e-5, "box, end %d", i);
	}
	D<3> nr = nearest(x, y, z, p);
	double want = dist(nr, p);
	D<3> got = of(f.get_closest_point_to(vec(p)));
	c.near(dist(got, p), want, 2e-2 * (1 + want) / std::min(1.0, ar), "distance to the closest point");
	c.near(dist(nearest(x, y, z, got), got), 0, 2e-2, "the closest point is off the triangle");
	Vector3 rnd = f.get_random_point_inside();
	c.near(dist(nearest(x, y, z, of(rnd)), of(rnd)), 0, 1e-2, "a random point inside is outside");
	// cutting by a plane keeps the area and sorts the pieces
	Plane pl(unit<Vector3>(s), s.real(3));
	double h[3] = { dist_plane(pl, x), dist_plane(pl, y), dist_plane(pl, z) };
	if (std::fabs(h[0]) > 0.02 && std::fabs(h[1]) > 0.02 && std::fabs(h[2]) > 0.02) {
		Face3 res[3];
		bool over[3];
		int k = f.split_by_plane(pl, res, over);
		bool cut = !((h[0] > 0) == (h[1] > 0) && (h[1] > 0) == (h[2] > 0));
		c.check(k == (cut ? 3 : 1), "split_by_plane gives %d pieces", k);
		double sum = 0;
		for (int i = 0; i < k; i++) {
			sum += res[i].get_area();
			for (int j = 0; j < 3; j++) {
				double e = dist_plane(pl, of(res[i].vertex[j]));
				c.check(over[i] ? e > -1e-2 : e < 1e-2, "a piece of the triangle reaches to the other side of the plane");
			}
		}
		c.near(sum, ar, 1e-2 * (1 + ar), "area of all pieces");
	}
	AABB b = gbox(s, false);
	Box B(b);
	// separating axes for triangle and box
	std::vector<D<3>> axes = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, cr }, es = { add(y, x, -1), add(z, y, -1), add(x, z, -1) };
	for (auto &e : es) {
		for (int i = 0; i < 3; i++) {
			axes.push_back(cross(e, axes[i]));
		}
	}
	double worst = 1e9;
	for (auto &d : axes) {
		double l = len(d), tl = 1e9, th = -1e9, bl = 1e9, bh = -1e9;
		if (l < 1e-6) {
			continue;
		}
		for (const D<3> *v : { &x, &y, &z }) {
			tl = std::min(tl, dot(d, *v) / l);
			th = std::max(th, dot(d, *v) / l);
		}
		for (auto &k : B.corners()) {
			bl = std::min(bl, dot(d, k) / l);
			bh = std::max(bh, dot(d, k) / l);
		}
		worst = std::min(worst, std::min(th - bl, bh - tl));
	}
	if (std::fabs(worst) > 0.01) {
		c.check(f.intersects_aabb(b) == (worst > 0), "intersects_aabb says %d", (int)(worst <= 0));
		c.check(f.intersects_aabb2(b) == (worst > 0), "intersects_aabb2 says %d", (int)(worst <= 0));
	}
	c.no_errors("triangles");
}

// ---------------------------------------------------------------- P13
VT_PROP(P13, scalars, 80000) {
	double a = s.real(50), b = s.real(50), t = s.real_in(0, 1), st = s.pick({ 0.5, 0.25, 0.1, 2.0, 3.0, 7.0, 0.001 });
	c.note("a=%.9g b=%.9g t=%g step=%g", a, b, t, st);
	c.nt(a != 0 && b != 0 && a != b);
	float fa = a, fb = b, ft = t;
	double st_a = Math::stepify(a, st);
	c.near(st_a, std::floor(a / st + 0.5) * st, 1e-9 * (1 + std::fabs(a)), "stepify");
	c.near(Math::stepify(a, 0), a, 0, "stepify by 0");
	if (b != 0) {
		double w = pmod(a, b);
		c.near(Math::fposmod(a, b), w, 1e-9, "fposmod");
		double f = Math::fposmod(fa, fb), df = std::fabs(f - w);
		c.check(df < 1e-4 || std::fabs(df - std::fabs(b)) < 1e-4, "fposmod of floats %g", f);
	}
	int64_t ia = s.sint(1000), ib = s.sint(50);
	if (ib) {
		int64_t m = Math::posmod(ia, ib);
		c.check((ia - m) % ib == 0 && (ib > 0 ? m >= 0 && m < ib : m <= 0 && m > ib), "posmod of %" PRId64 " by %" PRId64 " is %" PRId64, ia, ib, m);
	}
	c.near(Math::lerp(a, b, t), a + (b - a) * t, 1e-9, "lerp");
	c.near(Math::lerp(fa, fb, ft), a + (b - a) * t, 1e-4, "lerp of floats");
	if (std::fabs(b - a) > 1e-2) {
		c.near(Math::inverse_lerp(a, b, Math::lerp(a, b, t)), t, 1e-9, "inverse_lerp undoes lerp");
		c.near(Math::inverse_lerp(fa, fb, Math::lerp(fa, fb, ft)), t, 1e-2, "inverse_lerp undoes lerp of floats");
		double u = s.real(9), v = s.real(9);
		c.near(Math::range_lerp(a + (b - a) * t, a, b, u, v), u + (v - u) * t, 1e-6, "range_lerp");
		double lo = std::min(a, b), hi = std::max(a, b), x = s.real(60), w = Math::wrapf(x, lo, hi);
		c.check(w >= lo - 1e-9 && w < hi + 1e-9, "wrapf of %g into %g to %g is %g", x, lo, hi, w);
		double k = (x - w) / (hi - lo);
		// what comes close to the end is moved to the start
		c.near(k, std::round(k), 1e-3 + 2e-5 * std::max(1.0, std::max(std::fabs(lo), std::fabs(hi))) / (hi - lo), "wrapf moves by whole ranges");
		double ss = Math::smoothstep(lo, hi, x), q = std::min(1.0, std::max(0.0, (x - lo) / (hi - lo)));
		c.near(ss, q * q * (3 - 2 * q), 1e-9, "smoothstep");
		c.near(Math::smoothstep((float)lo, (float)hi, (float)x), q * q * (3 - 2 * q), 1e-3, "smoothstep of floats");
	}
	int64_t lo = s.sint(20), hi = lo + s.range(1, 20), v = s.sint(100), w = Math::wrapi(v, lo, hi);
	c.check(w >= lo && w < hi && (v - w) % (hi - lo) == 0, "wrapi of %" PRId64 " into %" PRId64 " to %" PRId64 " is %" PRId64, v, lo, hi, w);
	double d = s.pos_real(9), mv = Math::move_toward(a, b, d);
	c.near(mv, std::fabs(b - a) <= d ? b : a + (b > a ? d : -d), 1e-9, "move_toward");
	c.near(Math::move_toward(fa, fb, (float)d), std::fabs(b - a) <= d ? b : a + (b > a ? d : -d), 1e-4, "move_toward of floats");
	c.near(Math::rad2deg(Math::deg2rad(a)), a, 1e-9, "degrees and back");
	c.near(Math::deg2rad(a), a * PI / 180, 1e-9, "deg2rad");
	c.near(Math::deg2rad(fa), a * PI / 180, 1e-5, "deg2rad of float");
	c.near(Math::rad2deg(fa), a * 180 / PI, 1e-2, "rad2deg of float");
	double pos = std::fabs(a) + 0.01;
	c.near(Math::db2linear(Math::linear2db(pos)), pos, 1e-9 * (1 + pos), "decibels and back");
	c.near(Math::linear2db(pos), 20 * std::log10(pos), 1e-6, "linear2db");
	c.near(Math::linear2db((float)pos), 20 * std::log10(pos), 1e-3, "linear2db of float");
	c.near(Math::fract(a), a - std::floor(a), 1e-12, "fract");
	double L = s.pos_real(9), pp = Math::pingpong(a, L), m2 = pmod(a, 2 * L);
	c.near(pp, m2 <= L ? m2 : 2 * L - m2, 1e-6, "pingpong with length %g", L);
	double le = Math::lerp_angle(a, b, t), diff = std::remainder(b - a, 2 * PI);
	if (std::fabs(std::fabs(diff) - PI) > 1e-3) {
		c.near(std::remainder(le - (a + diff * t), 2 * PI), 0, 1e-6, "lerp_angle takes the short way");
	}
	auto cub = [&](double from, double to, double pre, double post, double u) { return 0.5 * (from * 2 + (-pre + to) * u + (2 * pre - 5 * from + 4 * to - post) * u * u + (-pre + 3 * from - 3 * to + post) * u * u * u); };
	double pre = s.real(9), post = s.real(9);
	c.near(Math::cubic_interpolate(a, b, pre, post, t), cub(a, b, pre, post, t), 1e-9, "cubic_interpolate");
	c.near(Math::cubic_interpolate(fa, fb, (float)pre, (float)post, ft), cub(a, b, pre, post, t), 1e-3, "cubic_interpolate of floats");
	double o = 1 - t;
	c.near(Math::bezier_interpolate(a, pre, post, b, t), a * o * o * o + pre * o * o * t * 3 + post * o * t * t * 3 + b * t * t * t, 1e-9, "bezier_interpolate");
	c.near(Math::bezier_interpolate(fa, (float)pre, (float)post, fb, ft), a * o * o * o + pre * o * o * t * 3 + post * o * t * t * 3 + b * t * t * t, 1e-3, "bezier_interpolate of floats");
	// easing curves go from 0 to 1 and never back
	double cv = s.pick({ 0.2, 0.5, 1.0, 2.0, 4.8, -0.3, -1.0, -2.5 });
	double e0 = Math::ease(t * 0.9, cv), e1 = Math::ease(t, cv);
	c.near(Math::ease(0, cv), 0, 1e-9, "ease at 0, curve %g", cv);
	c.near(Math::ease(1, cv), 1, 1e-9, "ease at 1, curve %g", cv);
	c.check(e0 <= e1 + 1e-12 && e1 <= 1 + 1e-12 && e0 >= -1e-12, "ease, curve %g: %g at %g but %g at %g", cv, e0, t * 0.9, e1, t);
	double tt = t;
	double wantease = cv > 0 ? (cv < 1 ? 1 - std::pow(1 - tt, 1 / cv) : std::pow(tt, cv)) : (tt < 0.5 ? std::pow(tt * 2, -cv) * 0.5 : (1 - std::pow(1 - (tt - 0.5) * 2, -cv)) * 0.5 + 0.5);
	c.near(e1, wantease, 1e-6, "ease, curve %g", cv);
	// closeness
	c.check(Math::is_equal_approx(a, a) && Math::is_equal_approx(a, a + 1e-7) && !Math::is_equal_approx(a, a + 0.01) && Math::is_equal_approx(fa, fa), "is_equal_approx");
	c.check(Math::is_zero_approx(0.0) && Math::is_zero_approx(1e-7) && !Math::is_zero_approx(0.001), "is_zero_approx");
	const struct {
		double step;
		int dec;
	} sd[] = { { 1, 0 }, { 0.1, 1 }, { 0.01, 2 }, { 0.001, 3 }, { 2, 0 }, { 0.0001, 4 }, { 0.00001, 5 } };
	auto &k = sd[s.draw(7)];
	c.check(Math::step_decimals(k.step) == k.dec, "step_decimals of %g is %d", k.step, Math::step_decimals(k.step));
	int n = s.range(1, 5000), np = next_power_of_2(n), pv = 1;
	while (pv < n) {
		pv *= 2;
	}
	c.check(np == pv, "next_power_of_2 of %d is %d", n, np);
	uint32_t lp = Math::larger_prime(n);
	bool prime = lp > 1;
	for (uint32_t i = 2; i * i <= lp; i++) {
		prime = prime && lp % i;
	}
	c.check(lp > (uint32_t)n && prime, "larger_prime of %d is %u", n, lp);
	c.no_errors("scalars");
}

namespace {
// PCG32 as published by M. O'Neill
struct Pcg {
	uint64_t state = 0, inc = 0;
	uint32_t next() {
		uint64_t old = state;
		state = old * 6364136223846793005ULL + (inc | 1);
		uint32_t x = (uint32_t)(((old >> 18u) ^ old) >> 27u);
		uint32_t rot = (uint32_t)(old >> 59u);
		return (x >> rot) | (x << ((-rot) & 31));
	}
};
} // namespace

VT_PROP(P13, random_numbers, 3000) {
	uint64_t seed = s.one_in(2) ? s.draw(100) : s.word();
	if (s.replaying) {
		seed = s.draw(1000);
	}
	c.note("seed=%" PRIu64, seed);
	RandomPCG r(seed), q(seed);
	c.nt();
	c.check(r.get_seed() == seed, "get_seed");
	// the same seed gives the same numbers; a saved state resumes
	for (int i = 0; i < 20; i++) {
		c.check(r.rand() == q.rand(), "number %d differs between equal seeds", i);
	}
	// the raw sequence is PCG32, whatever the stream
	Pcg g;
	g.state = r.get_state();
	g.inc = (RandomPCG::DEFAULT_INC << 1) | 1;
	std::vector<uint32_t> first;
	for (int i = 0; i < 20; i++) {
		uint32_t w = g.next(), v = r.rand();
		c.check(v == w, "number %d is %u, PCG32 gives %u", i, v, w);
	}
	uint64_t st = r.get_state();
	for (int i = 0; i < 10; i++) {
		first.push_back(r.rand());
	}
	r.set_state(st);
	for (int i = 0; i < 10; i++) {
		c.check(r.rand() == first[i], "number %d after set_state", i);
	}
	// reseeding starts again, and other seeds give other numbers
	r.seed(seed);
	RandomPCG o(seed + 1), r0(seed);
	int diff = 0;
	for (int i = 0; i < 10; i++) {
		uint32_t v = r.rand();
		c.check(v == r0.rand(), "number %d after seeding again", i);
		diff += v != o.rand();
	}
	c.check(diff >= 8, "neighbouring seeds give equal numbers");
	// bounded draws
	uint32_t bound = (uint32_t)s.range(1, 12);
	std::vector<int> seen(bound, 0);
	for (uint32_t i = 0; i < 40 * bound; i++) {
		uint32_t v = r.rand(bound);
		c.check(v < bound, "rand(%u) is %u", bound, v);
		seen[v]++;
	}
	for (uint32_t i = 0; i < bound; i++) {
		c.check(seen[i] > 0, "%u never comes up in %u draws of %u", i, 40 * bound, bound);
	}
	int lo = (int)s.sint(20), hi = lo + (int)s.range(0, 8);
	std::vector<int> at(hi - lo + 1, 0);
	bool flip = s.flag();
	for (int i = 0; i < 40 * (hi - lo + 1); i++) {
		int v = flip ? r.random(hi, lo) : r.random(lo, hi);
		c.check(v >= lo && v <= hi, "random(%d, %d) is %d", lo, hi, v);
		at[v - lo]++;
	}
	for (size_t i = 0; i < at.size(); i++) {
		c.check(at[i] > 0, "%d never comes up between %d and %d", lo + (int)i, lo, hi);
	}
	float fl = s.real(9), fh = fl + s.pos_real(9);
	double sum = 0, sn = 0, sn2 = 0;
	const int M = 2000;
	for (int i = 0; i < M; i++) {
		float f = r.randf();
		double d = r.randd();
		c.check(f >= 0 && f <= 1 && d >= 0 && d <= 1, "randf %g, randd %g", f, d);
		float x = r.random(fl, fh);
		double y = r.random((double)fl, (double)fh);
		c.check(x >= fl - 1e-4 && x <= fh + 1e-4 && y >= fl && y <= fh, "random(%g, %g) is %g or %g", fl, fh, x, y);
		sum += d + f;
		double n = r.randfn((double)2, 3);
		sn += n;
		sn2 += (n - 2) * (n - 2);
	}
	// seven standard deviations
	c.check(std::fabs(sum / (2 * M) - 0.5) < 7 * std::sqrt(1 / 12.0 / (2 * M)), "mean of uniform draws is %g", sum / (2 * M));
	c.check(std::fabs(sn / M - 2) < 7 * 3 / std::sqrt((double)M), "mean of normal draws is %g, not 2", sn / M);
	c.check(std::fabs(sn2 / M - 9) < 7 * 9 * std::sqrt(2.0 / M), "variance of normal draws is %g, not 9", sn2 / M);
	c.no_errors("random numbers");
}

// ---------------------------------------------------------------------------------- whole vectors, all of their operators
namespace {
template <class I>
I gen_i(Src &s, int mag, bool zero = true) {
	I v;
	for (size_t i = 0; i < sizeof(I) / sizeof(int32_t); i++) {
		int x = (int)s.sint(mag);
		v[(int)i] = x == 0 && !zero ? 1 : x;
	}
	return v;
}
template <class I>
void each(Ctx &c, const I &got, const std::function<int64_t(int)> &want, const char *what) {
	for (size_t i = 0; i < sizeof(I) / sizeof(int32_t); i++) {
		c.check(got[(int)i] == want((int)i), "%s, component %d is %d, expected %" PRId64, what, (int)i, (int)got[(int)i], want((int)i));
	}
}
template <class V, class I>
void whole(Src &s, Ctx &c) {
	const int N = sizeof(I) / sizeof(int32_t);
	I a = gen_i<I>(s, 1000), b = gen_i<I>(s, 1000), d = gen_i<I>(s, 40, false);
	int k = (int)s.range(1, 30) * (s.flag() ? 1 : -1);
	for (int i = 0; i < N; i++) {
		if (s.one_in(3)) {
			b[i] = a[i];
		}
		c.note("%d: a=%d b=%d d=%d", i, (int)a[i], (int)b[i], (int)d[i]);
	}
	c.note("k=%d", k);
	c.nt(N > 1);
	I x = a;
	x += b;
	each<I>(c, x, [&](int i) { return a[i] + b[i]; }, "+=");
	x = a;
	x -= b;
	each<I>(c, x, [&](int i) { return a[i] - b[i]; }, "-=");
	x = a;
	x *= k;
	each<I>(c, x, [&](int i) { return a[i] * k; }, "*= number");
	x = a;
	x /= k;
	each<I>(c, x, [&](int i) { return a[i] / k; }, "/= number");
	x.set_all(k);
	each<I>(c, x, [&](int i) { return k; }, "set_all");
	each<I>(c, a * b, [&](int i) { return a[i] * b[i]; }, "product");
	each<I>(c, a / d, [&](int i) { return a[i] / d[i]; }, "quotient");
	I lo, hi;
	for (int i = 0; i < N; i++) {
		lo[i] = std::min(b[i], d[i]);
		hi[i] = std::max(b[i], d[i]);
	}
	each<I>(c, a.clamp(lo, hi), [&](int i) { return std::min(std::max(a[i], lo[i]), hi[i]); }, "clamp");
	int mi = (int)a.min_axis(), ma = (int)a.max_axis();
	c.check(mi >= 0 && mi < N && ma >= 0 && ma < N, "min_axis %d, max_axis %d", mi, ma);
	for (int i = 0; i < N; i++) {
		c.check(a[mi] <= a[i] && a[ma] >= a[i], "min_axis %d or max_axis %d is not extreme", mi, ma);
	}
	// large numbers that a float cannot tell apart
	x = a;
	for (int i = 0; i < N; i++) {
		x[i] += 1 << 25;
	}
	I y = x;
	y[N - 1] += 1;
	c.check(x < y && x <= y && y > x && y >= x && !(y <= x) && !(x >= y) && x != y && !(x == y), "order of large numbers");
	V f(a);
	for (int i = 0; i < N; i++) {
		c.check(f[i] == (float)a[i], "converted to floats, component %d", i);
	}
	if constexpr (N == 2) {
		each<I>(c, a.min(b), [&](int i) { return std::min(a[i], b[i]); }, "min");
		each<I>(c, a.max(b), [&](int i) { return std::max(a[i], b[i]); }, "max");
		c.check(a.to_vector2() == f, "to_vector2");
		c.near(d.aspect(), (double)d.x / d.y, 1e-4, "aspect");
		float t = s.real_in(0, 1);
		I li = I::linear_interpolate(a, b, t), lj = a.linear_interpolate(b, t);
		for (int i = 0; i < 2; i++) {
			double w = a[i] + (b[i] - a[i]) * (double)t;
			c.check(std::fabs(li[i] - w) < 1.001 && std::fabs(lj[i] - w) < 1.001, "linear_interpolate, component %d: %d and %d, exactly %g", i, li[i], lj[i], w);
		}
	} else {
		x = a;
		x *= b;
		each<I>(c, x, [&](int i) { return a[i] * b[i]; }, "*=");
		x = a;
		x /= d;
		each<I>(c, x, [&](int i) { return a[i] / d[i]; }, "/=");
		x = a;
		x %= d;
		each<I>(c, x, [&](int i) { return a[i] % d[i]; }, "%=");
		each<I>(c, a % d, [&](int i) { return a[i] % d[i]; }, "remainder");
		x = a;
		x %= k;
		each<I>(c, x, [&](int i) { return a[i] % k; }, "%= number");
		each<I>(c, a % k, [&](int i) { return a[i] % k; }, "remainder by number");
		each<I>(c, (int32_t)k * a, [&](int i) { return a[i] * k; }, "number times vector");
		each<I>(c, (int64_t)k * a, [&](int i) { return a[i] * k; }, "long number times vector");
		each<I>(c, (float)k * a, [&](int i) { return a[i] * k; }, "float times vector");
		each<I>(c, (double)k * a, [&](int i) { return a[i] * k; }, "double times vector");
		int ax = (int)s.draw(N);
		x = a;
		x.set_axis(ax, k);
		for (int i = 0; i < N; i++) {
			c.check(x[i] == (i == ax ? k : a[i]) && x.get_axis(i) == x[i], "set_axis %d or get_axis %d", ax, i);
		}
		x.zero();
		each<I>(c, x, [&](int i) { return 0; }, "zero");
		if constexpr (N == 3) {
			c.check(a.to_vector3() == f, "to_vector3");
		} else {
			c.check(a.to_vector4() == f, "to_vector4");
		}
	}
	c.no_errors("whole vectors");
}
} // namespace
VT_PROP(P09, whole_vectors2, 30000) { whole<Vector2, Vector2i>(s, c); }
VT_PROP(P09, whole_vectors3, 30000) { whole<Vector3, Vector3i>(s, c); }
VT_PROP(P09, whole_vectors4, 30000) { whole<Vector4, Vector4i>(s, c); }

VT_PROP(P09, whole_rectangles, 30000) {
	// far from the origin as well, where a float cannot hold every whole number
	int far = s.one_in(3) ? (int)s.range(1 << 24, 1 << 28) : 0;
	auto rect = [&]() {
		Rect2i r;
		r.position = gen_i<Vector2i>(s, 12) + Vector2i(far, -far);
		r.size = Vector2i((int)s.range(0, 12), (int)s.range(0, 12));
		return r;
	};
	Rect2i a = rect(), b = rect();
	c.note("a=(%d,%d %dx%d) b=(%d,%d %dx%d)", a.position.x, a.position.y, a.size.x, a.size.y, b.position.x, b.position.y, b.size.x, b.size.y);
	auto end = [](const Rect2i &r) { return Vector2i(r.position.x + r.size.x, r.position.y + r.size.y); };
	Vector2i ae = end(a), be = end(b);
	bool meet = a.position.x < be.x && b.position.x < ae.x && a.position.y < be.y && b.position.y < ae.y;
	c.check(a.intersects(b) == meet, "intersects");
	Rect2i w;
	if (meet) {
		w.position = Vector2i(std::max(a.position.x, b.position.x), std::max(a.position.y, b.position.y));
		w.size = Vector2i(std::min(ae.x, be.x), std::min(ae.y, be.y)) - w.position;
	}
	Rect2i in = a.intersection(b), cl = a.clip(b);
	c.check(in == w, "intersection is (%d,%d %dx%d)", in.position.x, in.position.y, in.size.x, in.size.y);
	c.check(cl == w, "clip is (%d,%d %dx%d), the intersection (%d,%d %dx%d)", cl.position.x, cl.position.y, cl.size.x, cl.size.y, w.position.x, w.position.y, w.size.x, w.size.y);
	Rect2i m = a.merge(b);
	c.check(m.position == Vector2i(std::min(a.position.x, b.position.x), std::min(a.position.y, b.position.y)) && end(m) == Vector2i(std::max(ae.x, be.x), std::max(ae.y, be.y)), "merge");
	c.check(a.has_no_area() == (a.size.x <= 0 || a.size.y <= 0) && a.get_area() == a.size.x * a.size.y, "area");
	c.check(a.get_position() == a.position && a.get_size() == a.size && a.get_end() == ae, "position, size or end");
	c.check(a.get_center() == Vector2i(a.position.x + a.size.x / 2, a.position.y + a.size.y / 2), "center");
	Rect2i x = b;
	x.set_position(a.position);
	x.set_end(ae);
	c.check(x == a && !(x != a), "set_position and set_end");
	x = b;
	x.set_size(a.size);
	c.check(x.size == a.size && x.position == b.position && (x == a) == (b.position == a.position) && (x != a) == (b.position != a.position), "set_size");
	int by[4];
	for (int &v : by) {
		v = (int)s.sint(6);
	}
	Rect2i g = a.grow_individual(by[0], by[1], by[2], by[3]);
	c.check(g.position == a.position - Vector2i(by[0], by[1]) && end(g) == ae + Vector2i(by[2], by[3]), "grow_individual");
	c.check(a.grow(by[0]) == a.grow_individual(by[0], by[0], by[0], by[0]), "grow");
	x = a;
	x.grow_by(by[0]);
	c.check(x == a.grow(by[0]), "grow_by");
	const Margin mg[] = { MARGIN_LEFT, MARGIN_TOP, MARGIN_RIGHT, MARGIN_BOTTOM };
	const Side sd[] = { SIDE_LEFT, SIDE_TOP, SIDE_RIGHT, SIDE_BOTTOM };
	for (int k = 0; k < 4; k++) {
		int z[4] = { 0, 0, 0, 0 };
		z[k] = by[k];
		c.check(a.grow_margin(mg[k], by[k]) == a.grow_individual(z[0], z[1], z[2], z[3]), "grow_margin %d", k);
		c.check(a.grow_side(sd[k], by[k]) == a.grow_individual(z[0], z[1], z[2], z[3]), "grow_side %d", k);
	}
	Vector2i p = gen_i<Vector2i>(s, 20) + Vector2i(far, -far);
	Rect2i ex = a.expand(p);
	c.check(ex.position == Vector2i(std::min(a.position.x, p.x), std::min(a.position.y, p.y)) && end(ex) == Vector2i(std::max(ae.x, p.x), std::max(ae.y, p.y)), "expand to (%d,%d)", p.x, p.y);
	Rect2i neg;
	neg.position = ae;
	neg.size = -a.size;
	c.check(neg.abs() == a, "abs of a rectangle given from its end");
	if (!far) {
		Rect2 f(a), h = a.to_rect2();
		c.check(f.position == Vector2(a.position) && f.size == Vector2(a.size) && f == h, "converted to floats");
	}
	// and rectangles of floats
	Rect2 fa(s.sint(9) / 2.0f, s.sint(9) / 2.0f, s.range(0, 9) / 2.0f, s.range(0, 9) / 2.0f), fx;
	fx.set_position(fa.get_position());
	fx.set_size(fa.get_size());
	c.check(fx == fa, "set_position and set_size");
	fx.set_size(Vector2(1, 2));
	fx.set_end(fa.get_end());
	c.check(fx == fa && fx.is_equal_approx(fa), "set_end");
	for (int k = 0; k < 4; k++) {
		c.check(fa.grow_side(sd[k], by[k]) == fa.grow_margin(mg[k], by[k]), "grow_side %d of floats", k);
		Rect2 o = fa;
		(k < 2 ? o.position : o.size)[k % 2] += 0.01f;
		c.check(!o.is_equal_approx(fa), "is_equal_approx, component %d", k);
		(k < 2 ? o.position : o.size)[k % 2] -= 0.01f - 1e-7f;
		c.check(o.is_equal_approx(fa), "is_equal_approx of a tiny difference, component %d", k);
	}
	c.nt(meet || far);
	c.no_errors("whole rectangles");
}

VT_PROP(P09, filled_polygons, 60000) {
	Rect2 r = grect(s);
	if (r.size.x <= 0) {
		return c.discard();
	}
	// a convex polygon: points around an ellipse, either way around
	int n = (int)s.range(3, 7);
	double cx = s.real(8), cy = s.real(8), rx = s.real_in(0.3, 6), ry = s.real_in(0.3, 6);
	std::vector<double> at;
	for (int i = 0; i < n; i++) {
		at.push_back(s.real_in(0, 2 * PI));
	}
	std::sort(at.begin(), at.end());
	if (s.flag()) {
		std::reverse(at.begin(), at.end());
	}
	Poly p;
	std::vector<Vector2> v;
	for (double t : at) {
		v.push_back(Vector2(cx + rx * std::cos(t), cy + ry * std::sin(t)));
		p.push_back(of(v.back()));
		c.note("(%g,%g)", p.back()[0], p.back()[1]);
	}
	c.note("rect (%g,%g %gx%g)", r.position.x, r.position.y, r.size.x, r.size.y);
	double area = 0;
	for (int i = 0; i < n; i++) {
		const D<2> &a = p[i], &b = p[(i + 1) % n];
		area += a[0] * b[1] - a[1] * b[0];
		if (len(add(a, b, -1)) < 0.02) {
			return c.discard();
		}
	}
	int want = meet(corners(r), p);
	if (want < 0 || std::fabs(area) < 0.05) {
		return c.discard();
	}
	c.nt(want == 1);
	c.check(r.intersects_filled_polygon(v.data(), n) == (want == 1), "intersects_filled_polygon is not %d", want);
}

// ---------------------------------------------------------------------------------- scalars: every overload
VT_PROP(P13, scalar_functions, 60000) {
	double x = s.one_in(6) ? (double)s.sint(3) : s.real(3), y = s.real(3);
	float f = (float)x, g = (float)y;
	double F = f, G = g;
	c.note("x=%.9g y=%.9g", x, y);
	c.nt(x != 0 && y != 0);
	auto two = [&](double gd, double wd, float gf, double wf, const char *what) {
		auto same = [](double a, double b, double e) { return std::isnan(a) || std::isnan(b) ? std::isnan(a) && std::isnan(b) : std::isinf(a) || std::isinf(b) ? a == b : std::fabs(a - b) <= e * (1 + std::fabs(b)); };
		c.check(same(gd, wd, 1e-12), "%s of a double is %.15g, expected %.15g", what, gd, wd);
		c.check(same(gf, wf, 4e-6), "%s of a float is %.9g, expected %.9g", what, (double)gf, wf);
	};
#define TWO(FN, REF) two(Math::FN(x), REF(x), Math::FN(f), REF(F), #FN)
	TWO(sin, std::sin);
	TWO(cos, std::cos);
	if (std::fabs(std::cos(x)) > 0.01) {
		TWO(tan, std::tan);
	}
	TWO(sinh, std::sinh);
	TWO(cosh, std::cosh);
	TWO(tanh, std::tanh);
	TWO(atan, std::atan);
	TWO(floor, std::floor);
	TWO(ceil, std::ceil);
	TWO(round, std::round);
	TWO(exp, std::exp);
	TWO(exp2, std::exp2);
	TWO(erf, std::erf);
	TWO(abs, std::fabs);
	auto cut = [](double v) { return std::min(1.0, std::max(-1.0, v)); };
	auto as = [&](double v) { return std::asin(cut(v)); };
	auto ac = [&](double v) { return std::acos(cut(v)); };
	TWO(asin, as);
	TWO(acos, ac);
	if (std::fabs(x) <= 1) {
		TWO(asin_unsafe, std::asin);
		TWO(acos_unsafe, std::acos);
	}
	auto sc = [](double v) { return v == 0 ? 1 : std::sin(v) / v; };
	auto scn = [&](double v) { return sc(PI * v); };
	TWO(sinc, sc);
	TWO(sincn, scn);
	if (x > 1e-3) {
		TWO(log, std::log);
		TWO(log2, std::log2);
		TWO(log10, std::log10);
		TWO(sqrt, std::sqrt);
		two(Math::pow(x, y), std::pow(x, y), 0, 0, "pow");
		c.near(Math::pow(f, g), std::pow(F, G), 1e-5 * (1 + std::pow(F, G)), "pow of floats");
		auto db = [](double v) { return std::pow(10, v / 20); };
		TWO(db2linear, db);
	}
	if (x > -0.999) {
		TWO(log1p, std::log1p);
	}
	if (x != 0 || y != 0) {
		two(Math::atan2(y, x), std::atan2(y, x), Math::atan2(g, f), std::atan2(G, F), "atan2");
	}
	auto fr = [](double v) { return v - std::floor(v); };
	TWO(fract, fr);
	if (y != 0) {
		two(Math::fmod(x, y), std::fmod(x, y), Math::fmod(f, g), std::fmod(F, G), "fmod");
	}
	if (std::fabs(G) > 1e-3) {
		c.near(Math::divf(f, g), F / G, 1e-5 * (1 + std::fabs(F / G)), "divf");
		double p = std::fabs(y), want = std::fmod(x, p);
		want = want < 0 ? want + p : want;
		c.near(Math::fposmodp(x, p), want, 1e-9, "fposmodp");
		double wf = std::fmod(F, std::fabs(G));
		wf = wf < 0 ? wf + std::fabs(G) : wf;
		c.near(Math::fposmodp(f, std::fabs(g)), wf, 1e-5, "fposmodp of floats");
		double w2 = wf, pf = std::fabs(G);
		double gotp = Math::pingpong(f, (float)pf), m = std::fmod(std::fabs(F), 2 * pf);
		c.near(gotp, m > pf ? 2 * pf - m : m, 1e-4, "pingpong of floats");
		(void)w2;
		float lo = std::min(0.0f, g), hi = std::max(0.0f, g), wr = Math::wrapf(f, lo, hi);
		double turns = ((double)wr - F) / (hi - lo);
		c.check(wr >= lo - 1e-5 && wr < hi + 1e-5 && std::fabs(turns - std::round(turns)) * (hi - lo) < 1e-4, "wrapf of float to %g..%g is %g", (double)lo, (double)hi, (double)wr);
	}
	float t = s.real_in(0, 1);
	double le = Math::lerp_angle(f, g, t), dif = std::remainder(G - F, 2 * PI);
	if (std::fabs(std::fabs(dif) - PI) > 1e-3) {
		c.near(std::remainder(le - (F + dif * t), 2 * PI), 0, 1e-4, "lerp_angle of floats");
	}
	if (std::fabs(F - G) > 0.05) {
		c.near(Math::range_lerp((float)(F + (G - F) * t), f, g, 2.0f, 7.0f), 2 + 5 * (double)t, 1e-2, "range_lerp of floats");
	}
	int64_t big = (int64_t)s.sint(1000) * (s.flag() ? 1 : 10000000000LL);
	int small = (int)s.sint(1000);
	c.check(Math::abs(small) == std::abs(small) && Math::absi(small) == std::abs(small) && Math::abs(big) == std::llabs(big) && Math::absi(big) == std::llabs(big), "abs of %d or %" PRId64, small, big);
	const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
	double odd[] = { x, inf, -inf, nan, 0 };
	for (double o : odd) {
		c.check(Math::is_nan(o) == std::isnan(o) && Math::is_inf(o) == std::isinf(o) && Math::is_nan((float)o) == std::isnan(o) && Math::is_inf((float)o) == std::isinf(o), "is_nan or is_inf of %g", o);
	}
	double tol = s.real_in(0.001, 1), e = std::fabs(F - G);
	if (std::fabs(e - tol) > 1e-4) {
		c.check(Math::is_equal_approx(f, g, (float)tol) == (e < tol) && Math::is_equal_approxt(f, g, (float)tol) == (e < tol) && Math::is_equal_approx((double)f, (double)g, tol) == (e < tol), "is_equal_approx within %g", tol);
	}
	// a value loses at most that many steps, and never changes sign
	double step = s.real_in(0.01, 1), am = s.real_in(0, 4), dt = Math::dectime(x, am, step), wd = std::max(0.0, std::fabs(x) - am * step);
	c.near(dt, x < 0 ? -wd : wd, 1e-9, "dectime by %g steps of %g", am, step);
	c.check(Math::range_step_decimals(0) == 16 && Math::range_step_decimals(step) == Math::step_decimals(step), "range_step_decimals of %g", step);
	c.no_errors("scalar functions");
}

VT_PROP(P13, bits, 60000) {
	// powers of two around a number below 2^31
	unsigned v = (unsigned)(s.one_in(3) ? s.range(0, 70) : (1ull << s.draw(31)) + s.sint(2));
	if (v > (1u << 31)) {
		v = 3;
	}
	c.note("v=%u", v);
	c.nt(v > 2);
	unsigned next = 1, prev = 0, sh = 0;
	while (next < v) {
		next *= 2;
	}
	for (unsigned long long q = 1; q <= v; q *= 2, sh++) {
		prev = (unsigned)q;
	}
	next = v == 0 ? 0 : next;
	c.check(next_power_of_2(v) == next, "next_power_of_2 is %u", next_power_of_2(v));
	c.check(previous_power_of_2(v) == prev, "previous_power_of_2 is %u", previous_power_of_2(v));
	unsigned cl = closest_power_of_2(v);
	c.check((cl == next || cl == prev) && (cl > v ? cl - v : v - cl) == std::min(next - v, v - prev), "closest_power_of_2 is %u", cl);
	if (v && v < (1u << 31)) {
		c.check(nearest_shift(v) == sh, "nearest_shift is %u, expected %u", nearest_shift(v), sh);
		c.check(nearest_power_of_2_templated<uint32_t>(v) == next && nearest_power_of_2_templated<uint64_t>(v) == next, "nearest power of two");
	}
	c.check(get_shift_from_power_of_2(prev) == (prev ? (int)sh - 1 : -1) && (v == prev || get_shift_from_power_of_2(v) == -1), "get_shift_from_power_of_2");
	uint64_t w = s.word();
	uint16_t w16 = (uint16_t)w;
	uint32_t w32 = (uint32_t)w;
	c.check(BSWAP16(w16) == (uint16_t)((w16 << 8) | (w16 >> 8)), "BSWAP16");
	uint32_t r32 = 0;
	uint64_t r64 = 0;
	for (int i = 0; i < 8; i++) {
		r64 = (r64 << 8) | ((w >> (8 * i)) & 255);
		if (i < 4) {
			r32 = (r32 << 8) | ((w32 >> (8 * i)) & 255);
		}
	}
	c.check(BSWAP32(w32) == r32 && BSWAP64(w) == r64, "BSWAP32 or BSWAP64");
	// half floats: a sign, five bits of exponent, ten of fraction
	uint16_t h = (uint16_t)s.draw(65536);
	int ex = (h >> 10) & 31, fr = h & 1023;
	double want = ex == 31 ? (fr ? NAN : INFINITY) : ex == 0 ? std::ldexp(fr, -24) : std::ldexp(1024 + fr, ex - 25);
	want = h & 0x8000 ? -want : want;
	float got = Math::half_to_float(h);
	c.note("half %04x", h);
	c.check(std::isnan(want) ? std::isnan(got) : (double)got == want && std::signbit(got) == std::signbit(want), "half %04x is %g, expected %g", h, (double)got, want);
	uint16_t back = Math::make_half_float(got);
	if (ex == 31 && fr) {
		c.check(((back >> 10) & 31) == 31 && (back & 1023), "a half that is not a number comes back as %04x", back);
	} else if (ex) {
		c.check(back == h, "half %04x comes back as %04x", h, back);
		// any number in its place goes to one of the two around it
		float near = got * (float)s.real_in(1, 1.0009);
		uint16_t hb = Math::make_half_float(near);
		if (ex < 30) {
			c.check(hb == h || hb == h + 1, "%g becomes half %04x, expected %04x or the next", (double)near, hb, h);
		}
	} else {
		c.check((back & 0x7fff) == 0 || back == h, "a tiny half %04x comes back as %04x", h, back);
	}
}

VT_PROP(P13, shared_random_numbers, 1500) {
	// the shared generator is one RandomPCG
	uint64_t seed = s.draw(1000000);
	c.note("seed=%" PRIu64, seed);
	c.nt();
	RandomPCG r;
	Math::seed(seed);
	r.seed(seed);
	for (int i = 0; i < 60; i++) {
		int lo = (int)s.sint(9), hi = (int)s.sint(9);
		float a = s.real(4), b = s.real(4);
		int op = (int)s.draw(8);
		switch (op) {
			case 0: {
				uint32_t v = Math::rand(), w = r.rand();
				c.check(v == w, "rand %d: %u, expected %u", i, v, w);
				break;
			}
			case 1: {
				int v = Math::random(lo, hi), w = r.random(lo, hi);
				c.check(v == w && v >= std::min(lo, hi) && v <= std::max(lo, hi), "random(%d, %d) is %d", lo, hi, v);
				break;
			}
			case 2: {
				int v = Math::randomi(lo, hi), w = r.random(lo, hi);
				c.check(v == w, "randomi(%d, %d) is %d", lo, hi, v);
				break;
			}
			case 3: {
				float v = Math::random(a, b), w = r.random(a, b);
				c.check(v == w && v >= std::min(a, b) - 1e-5 && v <= std::max(a, b) + 1e-5, "random(%g, %g) is %g", (double)a, (double)b, (double)v);
				break;
			}
			case 4: {
				double v = Math::random((double)a, (double)b), w = r.random((double)a, (double)b);
				c.check(v == w && v >= std::min(a, b) - 1e-9 && v <= std::max(a, b) + 1e-9, "random of doubles is %g", v);
				break;
			}
			case 5: {
				float v = Math::randomr(a, b), w = r.randomr(a, b);
				c.check(v == w && v >= std::min(a, b) - 1e-5 && v <= std::max(a, b) + 1e-5, "randomr(%g, %g) is %g", (double)a, (double)b, (double)v);
				break;
			}
			case 6: {
				double v = Math::randd(), w = r.rand() / 4294967295.0;
				c.near(v, w, 1e-9, "randd");
				float vf = Math::randf();
				w = r.rand() / 4294967295.0;
				c.near(vf, w, 1e-6, "randf");
				break;
			}
			case 7: {
				double v = Math::randfn(a, std::fabs(b)), w = r.randfn((double)a, (double)std::fabs(b));
				c.near(v, w, 1e-9 * (1 + std::fabs(w)), "randfn");
				break;
			}
		}
	}
	uint64_t sd = seed;
	RandomPCG q(seed);
	c.check(Math::rand_from_seed(&sd) == q.rand(), "rand_from_seed");
	// the normal distribution of floats
	double sum = 0, sq = 0;
	for (int i = 0; i < 1000; i++) {
		double v = (r.randfn(2.0f, 3.0f) - 2) / 3;
		sum += v;
		sq += v * v;
	}
	c.check(std::fabs(sum / 1000) < 0.25 && std::fabs(sq / 1000 - 1) < 0.4, "normally distributed floats have mean %g and variance %g", sum / 1000, sq / 1000);
	c.no_errors("shared random numbers");
}

// ---------------------------------------------------------------------------------- other ways to say the same
namespace {
template <class V>
void spelled(Src &s, Ctx &c) {
	const size_t N = Dim<V>::N;
	V a = gen<V>(s), b = gen<V>(s);
	D<N> A = of(a);
	show(c, "a", a);
	show(c, "b", b);
	float k = s.real(5);
	int n = (int)s.sint(9);
	c.note("k=%g n=%d", (double)k, n);
	c.nt(k != 0 && n != 0);
	V x = a;
	x.set_all(k);
	same_v(c, x, per<N>([&](size_t i) { return (double)k; }), 0, "set_all");
	auto times = [&](double f) { return per<N>([&](size_t i) { return A[i] * f; }); };
	same_v(c, k * a, times(k), 1e-4, "float times vector");
	same_v(c, (double)k * a, times(k), 1e-4, "double times vector");
	same_v(c, (int32_t)n * a, times(n), 1e-4, "number times vector");
	same_v(c, (int64_t)n * a, times(n), 1e-4, "long number times vector");
	float tol = s.real_in(0.01, 2);
	bool within = true, edge = false, close = true;
	for (size_t i = 0; i < N; i++) {
		double d = std::fabs((double)a[(int)i] - b[(int)i]);
		within = within && d < tol;
		edge = edge || std::fabs(d - tol) < 1e-4;
		close = close && d < 1e-3;
	}
	V e = a;
	int at = (int)s.draw(N);
	e[at] += 1e-7f;
	c.check(a.is_equal_approx(e) && a.is_equal_approx(a), "is_equal_approx of a tiny difference");
	e[at] += 0.01f;
	c.check(!a.is_equal_approx(e) && !e.is_equal_approx(a), "is_equal_approx with component %d off", at);
	if constexpr (N >= 3) {
		x.zero();
		same_v(c, x, per<N>([&](size_t i) { return 0.0; }), 0, "zero");
		x = a;
		x.set_axis(at, k);
		for (int i = 0; i < (int)N; i++) {
			c.check(x[i] == (i == at ? k : a[i]) && x.get_axis(i) == x[i], "set_axis %d or get_axis %d", at, i);
		}
		V z = a;
		for (size_t i = 0; i < N; i++) {
			z[(int)i] = std::fabs(z[(int)i]) < 0.1 ? 0.5f : z[(int)i];
		}
		same_v(c, z.inverse(), per<N>([&](size_t i) { return 1 / (double)z[(int)i]; }), 1e-4, "inverse");
	}
	if constexpr (N == 3) {
		if (!edge) {
			c.check(a.is_equal_approx(b, tol) == within && a.is_equal_approxt(b, tol) == within, "is_equal_approx within %g", (double)tol);
		}
		c.near(vec3_dot(a, b), dot(A, of(b)), 1e-3, "vec3_dot");
		same_v(c, vec3_cross(a, b), cross(A, of(b)), 1e-3, "vec3_cross");
	}
	c.no_errors("vectors");
}
} // namespace
VT_PROP(P09, spellings2, 30000) { spelled<Vector2>(s, c); }
VT_PROP(P09, spellings3, 30000) { spelled<Vector3>(s, c); }
VT_PROP(P09, spellings4, 30000) { spelled<Vector4>(s, c); }

VT_PROP(P10, sides, 60000) {
	Vector3 v[3], w[3];
	int flat = (int)s.draw(4);
	for (auto &x : v) {
		x = gen<Vector3>(s, 4);
	}
	int ax = (int)s.draw(3); // faces in one plane lie along an axis, where nothing is rounded
	if (flat == 3) {
		v[1][ax] = v[2][ax] = v[0][ax];
	}
	Face3 f(v[0], v[1], v[2]);
	D<3> n = cross(add(of(v[0]), of(v[2]), -1), add(of(v[0]), of(v[1]), -1));
	double l = len(n);
	if (l < 0.2) {
		return c.discard();
	}
	for (double &x : n) {
		x /= l;
	}
	int over = 0, under = 0;
	for (int i = 0; i < 3; i++) {
		show(c, "f", v[i]);
		w[i] = gen<Vector3>(s, 4);
		double d = dot(n, add(of(w[i]), of(v[0]), -1));
		if (flat > 1) { // all on one side, or on the plane
			if (flat == 3) {
				w[i][ax] = v[0][ax];
			} else {
				double want = std::fabs(d) + 0.1;
				for (int k = 0; k < 3; k++) {
					w[i][k] += n[k] * (want - d);
				}
				d = want;
			}
		}
		if (flat < 3 && std::fabs(d) < 0.01) {
			return c.discard();
		}
		over += flat < 3 && d > 0;
		under += flat < 3 && d < 0;
		show(c, "g", w[i]);
	}
	Face3 g(w[0], w[1], w[2]);
	Face3::Side want = over && under ? Face3::SIDE_SPANNING : over ? Face3::SIDE_OVER : under ? Face3::SIDE_UNDER : Face3::SIDE_COPLANAR;
	Face3::Side back = want == Face3::SIDE_OVER ? Face3::SIDE_UNDER : want == Face3::SIDE_UNDER ? Face3::SIDE_OVER : want;
	c.nt(over || under);
	c.check(f.get_side_of(g, CLOCKWISE) == want, "get_side_of is %d, expected %d", (int)f.get_side_of(g, CLOCKWISE), (int)want);
	c.check(f.get_side_of(g, COUNTERCLOCKWISE) == back, "get_side_of, the other way around, is %d", (int)f.get_side_of(g, COUNTERCLOCKWISE));
	// the way a face turns, seen from the origin
	double h = dot(n, of(v[0]));
	if (std::fabs(h) > 1e-3) {
		Face3 r(v[0], v[2], v[1]);
		c.check(f.get_clock_dir() != r.get_clock_dir(), "a face and its reverse turn the same way");
	}
	// accessors of planes and boxes
	Plane p(v[0], 2);
	p.set_normal(w[1]);
	c.check(p.normal == w[1] && p.d == 2, "set_normal");
	AABB b(v[0], v[1]), o;
	o.set_position(b.get_position());
	o.set_size(b.get_size());
	c.check(o == b && !(o != b) && o.is_equal_approx(b), "position and size of a box");
	int k = (int)s.draw(6);
	(k < 3 ? o.position : o.size)[k % 3] += 0.01f;
	c.check(!o.is_equal_approx(b) && !(o == b) && o != b, "boxes that differ in number %d", k);
	c.no_errors("sides");
}

VT_PROP(P12, colour_assignment, 40000) {
	Color a, b;
	for (int i = 0; i < 4; i++) {
		a[i] = s.real_in(0, 2);
		b[i] = s.real_in(0.1, 2);
	}
	float k = s.real_in(0.1, 3);
	c.note("a=(%g,%g,%g,%g) b=(%g,%g,%g,%g) k=%g", a.r, a.g, a.b, a.a, b.r, b.g, b.b, b.a, k);
	c.nt();
	Color x[7] = { a, a, a, a, a, a, a };
	x[0] += b;
	x[1] -= b;
	x[2] *= b;
	x[3] /= b;
	x[4] *= k;
	x[5] /= k;
	for (int i = 0; i < 4; i++) {
		double u = a[i], v = b[i];
		double want[] = { u + v, u - v, u * v, u / v, u * k, u / k };
		const char *name[] = { "+=", "-=", "*=", "/=", "*= number", "/= number" };
		for (int j = 0; j < 6; j++) {
			c.near(x[j][i], want[j], 1e-4, "%s, component %d", name[j], i);
		}
	}
	c.check(a + b == x[0] && a - b == x[1] && a * b == x[2] && a / b == x[3] && a * k == x[4] && a / k == x[5], "operators and assignments");
}
