// P11: rotations, bases and transforms. P12: colours
#include "space.h"

namespace {
struct M3 {
	double m[3][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } };
	double *operator[](int i) { return m[i]; }
	const double *operator[](int i) const { return m[i]; }
};
M3 mul(const M3 &a, const M3 &b) {
	M3 r;
	for (int i = 0; i < 3; i++) {
		for (int j = 0; j < 3; j++) {
			r[i][j] = 0;
			for (int k = 0; k < 3; k++) {
				r[i][j] += a[i][k] * b[k][j];
			}
		}
	}
	return r;
}
D<3> mul(const M3 &a, const D<3> &v) {
	return per<3>([&](size_t i) { return a[i][0] * v[0] + a[i][1] * v[1] + a[i][2] * v[2]; });
}
M3 tr(const M3 &a) {
	M3 r;
	for (int i = 0; i < 3; i++) {
		for (int j = 0; j < 3; j++) {
			r[i][j] = a[j][i];
		}
	}
	return r;
}
double det(const M3 &a) {
	return a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
}
M3 diag(const D<3> &d) {
	M3 r;
	for (int i = 0; i < 3; i++) {
		r[i][i] = d[i];
	}
	return r;
}
M3 of(const Basis &b) {
	M3 r;
	for (int i = 0; i < 3; i++) {
		for (int j = 0; j < 3; j++) {
			r[i][j] = b[i][j];
		}
	}
	return r;
}
// turning about an axis of length 1, right-handed
M3 turn(const D<3> &u, double a) {
	M3 r;
	double co = cos(a), si = sin(a);
	double k[3][3] = { { 0, -u[2], u[1] }, { u[2], 0, -u[0] }, { -u[1], u[0], 0 } };
	for (int i = 0; i < 3; i++) {
		for (int j = 0; j < 3; j++) {
			r[i][j] = (i == j ? co : 0) + (1 - co) * u[i] * u[j] + si * k[i][j];
		}
	}
	return r;
}
M3 turn(int axis, double a) {
	D<3> u = { 0, 0, 0 };
	u[axis] = 1;
	return turn(u, a);
}
M3 of(const Quaternion &q) {
	double x = q.x, y = q.y, z = q.z, w = q.w, n = std::sqrt(x * x + y * y + z * z + w * w);
	x /= n, y /= n, z /= n, w /= n;
	M3 r;
	r[0][0] = 1 - 2 * (y * y + z * z);
	r[0][1] = 2 * (x * y - z * w);
	r[0][2] = 2 * (x * z + y * w);
	r[1][0] = 2 * (x * y + z * w);
	r[1][1] = 1 - 2 * (x * x + z * z);
	r[1][2] = 2 * (y * z - x * w);
	r[2][0] = 2 * (x * z - y * w);
	r[2][1] = 2 * (y * z + x * w);
	r[2][2] = 1 - 2 * (x * x + y * y);
	return r;
}
double apart(const M3 &a, const M3 &b) {
	double e = 0;
	for (int i = 0; i < 3; i++) {
		for (int j = 0; j < 3; j++) {
			double d = std::fabs(a[i][j] - b[i][j]);
			e = std::isnan(d) ? 1e9 : std::max(e, d);
		}
	}
	return e;
}
// the angle between two rotations
double between(const M3 &a, const M3 &b) {
	M3 r = mul(tr(a), b);
	return std::acos(std::min(1.0, std::max(-1.0, (r[0][0] + r[1][1] + r[2][2] - 1) / 2)));
}
void same_m(Ctx &c, const M3 &got, const M3 &want, double tol, const char *what) {
	for (int i = 0; i < 3; i++) {
		for (int j = 0; j < 3; j++) {
			c.near(got[i][j], want[i][j], tol, "%s [%d][%d]", what, i, j);
		}
	}
}
void same_m(Ctx &c, const Basis &got, const M3 &want, double tol, const char *what) { same_m(c, of(got), want, tol, what); }
Basis bas(const M3 &m) { return Basis(m[0][0], m[0][1], m[0][2], m[1][0], m[1][1], m[1][2], m[2][0], m[2][1], m[2][2]); }
Vector3 vec(const D<3> &d) { return Vector3(d[0], d[1], d[2]); }
float angle(Src &s) {
	static const double edge[] = { 0, PI / 2, -PI / 2, PI, -PI, PI / 4, PI / 3, 1e-4, 3.1 };
	return s.one_in(4) ? (float)edge[s.draw(9)] : s.real(3.1f);
}
M3 rotation(Src &s) {
	if (s.one_in(5)) { // axes to axes
		return mul(turn(s.draw(3), s.draw(4) * PI / 2), turn(s.draw(3), s.draw(4) * PI / 2));
	}
	return turn(of(unit<Vector3>(s)), angle(s));
}
D<3> scaling(Src &s) { return { s.real_in(0.25, 3), s.real_in(0.25, 3), s.real_in(0.25, 3) }; }
M3 invertible(Src &s) { return mul(mul(rotation(s), diag(scaling(s))), rotation(s)); }
M3 inverse(const M3 &a) {
	M3 r;
	double d = det(a);
	for (int i = 0; i < 3; i++) {
		for (int j = 0; j < 3; j++) {
			int p = (j + 1) % 3, q = (j + 2) % 3, u = (i + 1) % 3, v = (i + 2) % 3;
			r[i][j] = (a[p][u] * a[q][v] - a[p][v] * a[q][u]) / d;
		}
	}
	return r;
}
void show(Ctx &c, const char *name, const M3 &m) {
	c.note("%s=[%.5g %.5g %.5g; %.5g %.5g %.5g; %.5g %.5g %.5g]", name, m[0][0], m[0][1], m[0][2], m[1][0], m[1][1], m[1][2], m[2][0], m[2][1], m[2][2]);
}
bool turned(const M3 &m) { return apart(m, M3()) > 0.05; }
} // namespace

VT_PROP(P11, euler_angles, 60000) {
	Vector3 e(angle(s), angle(s), angle(s));
	show(c, "euler", e);
	M3 X = turn(0, e.x), Y = turn(1, e.y), Z = turn(2, e.z);
	struct {
		const char *name;
		void (Basis::*set)(const Vector3 &);
		Vector3 (Basis::*get)() const;
		M3 want;
	} o[] = {
		{ "xyz", &Basis::set_euler_xyz, &Basis::get_euler_xyz, mul(X, mul(Y, Z)) },
		{ "xzy", &Basis::set_euler_xzy, &Basis::get_euler_xzy, mul(X, mul(Z, Y)) },
		{ "yzx", &Basis::set_euler_yzx, &Basis::get_euler_yzx, mul(Y, mul(Z, X)) },
		{ "yxz", &Basis::set_euler_yxz, &Basis::get_euler_yxz, mul(Y, mul(X, Z)) },
		{ "zxy", &Basis::set_euler_zxy, &Basis::get_euler_zxy, mul(Z, mul(X, Y)) },
		{ "zyx", &Basis::set_euler_zyx, &Basis::get_euler_zyx, mul(Z, mul(Y, X)) },
	};
	M3 R = rotation(s);
	show(c, "R", R);
	c.nt(turned(R) && turned(o[0].want));
	for (auto &k : o) {
		Basis b;
		(b.*k.set)(e);
		char what[64];
		snprintf(what, sizeof what, "set_euler_%s", k.name);
		same_m(c, b, k.want, 1e-5, what);
		// angles of any rotation give it back
		Vector3 a = (bas(R).*k.get)();
		Basis r;
		(r.*k.set)(a);
		snprintf(what, sizeof what, "set_euler_%s of get_euler_%s", k.name, k.name);
		same_m(c, r, R, 1e-2, what);
	}
	Basis b;
	b.set_euler(e);
	same_m(c, b, o[3].want, 1e-5, "set_euler");
	same_v(c, bas(R).get_euler(), of(bas(R).get_euler_yxz()), 1e-6, "get_euler");
	same_m(c, Basis(e), o[3].want, 1e-5, "basis of Euler angles");
	Quaternion q;
	q.set_euler_xyz(e);
	same_m(c, of(q), o[0].want, 1e-5, "set_euler_xyz of a quaternion");
	q.set_euler_yxz(e);
	same_m(c, of(q), o[3].want, 1e-5, "set_euler_yxz of a quaternion");
	q.set_euler(e);
	same_m(c, of(q), o[3].want, 1e-5, "set_euler of a quaternion");
	Quaternion p = bas(R).get_quaternion();
	Quaternion back;
	back.set_euler_xyz(p.get_euler_xyz());
	same_m(c, of(back), R, 1e-2, "Euler angles (xyz) of a quaternion");
	back.set_euler(p.get_euler());
	same_m(c, of(back), R, 1e-2, "Euler angles of a quaternion");
	c.no_errors("Euler angles");
}

VT_PROP(P11, quaternions, 60000) {
	M3 A = rotation(s), B = rotation(s);
	Vector3 v = gen<Vector3>(s);
	float t = s.real_in(0, 1);
	show(c, "A", A);
	show(c, "B", B);
	show(c, "v", v);
	c.note("t=%g", t);
	c.nt(turned(A) && turned(B));
	Quaternion a = bas(A).get_quaternion(), b = bas(B).get_quaternion();
	if (s.flag()) {
		b = -b; // the same rotation
	}
	c.check(a.is_normalized(), "a rotation's quaternion has length %g", a.length());
	same_m(c, of(a), A, 1e-4, "quaternion of a basis");
	same_m(c, Basis(a), A, 1e-4, "basis of a quaternion");
	Basis sb;
	sb.set_quaternion(b);
	same_m(c, sb, B, 1e-4, "set_quaternion");
	same_m(c, of(a * b), mul(A, B), 1e-4, "product");
	Quaternion ab = a;
	ab *= b;
	same_m(c, of(ab), mul(A, B), 1e-4, "product in place");
	same_m(c, of(a.inverse()), tr(A), 1e-4, "inverse");
	D<3> Av = mul(A, of(v));
	same_v(c, a.xform(v), Av, 1e-3, "xform");
	// the length and the product of components
	D<4> qa = { a.x, a.y, a.z, a.w }, qb = { b.x, b.y, b.z, b.w };
	c.near(a.dot(b), dot(qa, qb), 1e-5, "dot");
	Quaternion big = a * 3.0f;
	c.near(big.length(), 3, 1e-4, "length");
	c.near(big.length_squared(), 9, 1e-3, "length_squared");
	c.check(!big.is_normalized(), "is_normalized of a long quaternion");
	Quaternion nb = big.normalized();
	for (int i = 0; i < 4; i++) {
		c.near(nb[i], qa[i], 1e-5, "normalized, component %d", i);
		c.near((a + b)[i], qa[i] + qb[i], 1e-6, "sum, component %d", i);
		c.near((a - b)[i], qa[i] - qb[i], 1e-6, "difference, component %d", i);
		c.near((a / 2.0f)[i], qa[i] / 2, 1e-6, "half, component %d", i);
	}
	double th = between(A, B);
	c.near(a.angle_to(b), th, 5e-3, "angle_to");
	// axis and angle
	Vector3 ax = unit<Vector3>(s);
	float an = angle(s);
	Quaternion r(ax, an);
	same_m(c, of(r), turn(of(ax), an), 1e-4, "quaternion of axis and angle");
	Quaternion r2;
	r2.set_axis_angle(ax, an);
	same_m(c, of(r2), turn(of(ax), an), 1e-4, "set_axis_angle");
	if (std::fabs(an) > 0.05) {
		Vector3 gx;
		float ga;
		r.get_axis_angle(gx, ga);
		same_m(c, turn(of(gx), ga), turn(of(ax), an), 3e-3, "get_axis_angle");
		same_m(c, turn(of(r.get_axis()), r.get_angle()), turn(of(ax), an), 3e-3, "get_axis and get_angle");
		Quaternion lg = r.log();
		c.near(lg.w, 0, 1e-5, "log is no pure quaternion");
		same_m(c, of(lg.exp()), turn(of(ax), an), 3e-3, "exp of log");
	}
	// on the way: turning evenly about one axis, the short way round
	if (th < PI - 0.1) {
		M3 S = of(a.slerp(b, t));
		c.near(between(A, S), th * t, 1e-2, "slerp: angle from the start");
		c.near(between(S, B), th * (1 - t), 1e-2, "slerp: angle to the end");
		same_m(c, of(a.cubic_slerp(b, a, b, 0)), A, 1e-3, "cubic_slerp start");
		same_m(c, of(a.cubic_slerp(b, a, b, 1)), B, 1e-3, "cubic_slerp end");
		same_m(c, of(a.spherical_cubic_interpolate(b, a, b, 0)), A, 1e-2, "spherical_cubic_interpolate start");
		same_m(c, of(a.spherical_cubic_interpolate(b, a, b, 1)), B, 1e-2, "spherical_cubic_interpolate end");
	}
	// slerpni goes evenly on the four-dimensional sphere, without turning b round
	double om = std::acos(std::min(1.0, std::max(-1.0, dot(qa, qb))));
	if (om > 0.2 && om < PI - 0.2) {
		Quaternion sn = a.slerpni(b, t);
		for (int i = 0; i < 4; i++) {
			c.near(sn[i], qa[i] * std::sin((1 - t) * om) / std::sin(om) + qb[i] * std::sin(t * om) / std::sin(om), 2e-3, "slerpni, component %d", i);
		}
	}
	// the shortest rotation from one direction to another
	Vector3 u = unit<Vector3>(s), w = s.one_in(6) ? -u : unit<Vector3>(s);
	if (len(add(of(u), of(w))) > 0.1 || w == -u) {
		Quaternion arc(u, w);
		c.check(arc.is_normalized(), "arc from (%g,%g,%g) to (%g,%g,%g) has length %g", u.x, u.y, u.z, w.x, w.y, w.z, arc.length());
		same_v(c, arc.xform(u), of(w), 2e-3, "arc from one direction to another");
	}
	c.no_errors("quaternions");
}

VT_PROP(P11, bases, 60000) {
	M3 A = s.flag() ? rotation(s) : invertible(s), B = invertible(s), R = rotation(s);
	if (s.one_in(4)) {
		A = mul(A, diag({ 1, -1, 1 }));
	}
	Vector3 v = gen<Vector3>(s);
	D<3> V = of(v);
	show(c, "A", A);
	show(c, "B", B);
	show(c, "R", R);
	show(c, "v", v);
	c.nt(turned(A) && turned(B));
	Basis a = bas(A), b = bas(B), r = bas(R);
	const double e = 1e-4;
	same_m(c, a * b, mul(A, B), 1e-3, "product");
	Basis ab = a;
	ab *= b;
	same_m(c, ab, mul(A, B), 1e-3, "product in place");
	same_m(c, a.transposed(), tr(A), 1e-6, "transposed");
	c.near(a.determinant(), det(A), 1e-3 * (1 + std::fabs(det(A))), "determinant");
	same_m(c, a.inverse(), inverse(A), 1e-2, "inverse");
	Basis ai = a;
	ai.invert();
	same_m(c, ai, inverse(A), 1e-2, "invert");
	same_m(c, a.transpose_xform(b), mul(tr(A), B), 1e-3, "transpose_xform");
	same_v(c, a.xform(v), mul(A, V), 1e-3, "xform");
	same_v(c, a.xform_inv(v), mul(tr(A), V), 1e-3, "xform_inv");
	for (int i = 0; i < 3; i++) {
		same_v(c, a.get_row(i), { A[i][0], A[i][1], A[i][2] }, 1e-5, "get_row");
		same_v(c, a.get_column(i), { A[0][i], A[1][i], A[2][i] }, 1e-5, "get_column");
		same_v(c, a.get_axis(i), { A[0][i], A[1][i], A[2][i] }, 1e-5, "get_axis");
		Basis m = a;
		m.set_column(i, v);
		M3 W = A;
		for (int k = 0; k < 3; k++) {
			W[k][i] = V[k];
		}
		same_m(c, m, W, 1e-5, "set_column");
		m = a;
		m.set_row(i, v);
		W = A;
		for (int k = 0; k < 3; k++) {
			W[i][k] = V[k];
		}
		same_m(c, m, W, 1e-5, "set_row");
	}
	c.near(a.tdotx(v), A[0][0] * V[0] + A[1][0] * V[1] + A[2][0] * V[2], 1e-3, "tdotx");
	c.near(a.tdoty(v), A[0][1] * V[0] + A[1][1] * V[1] + A[2][1] * V[2], 1e-3, "tdoty");
	c.near(a.tdotz(v), A[0][2] * V[0] + A[1][2] * V[1] + A[2][2] * V[2], 1e-3, "tdotz");
	for (int i = 0; i < 3; i++) {
		for (int j = 0; j < 3; j++) {
			c.near((a + b)[i][j], A[i][j] + B[i][j], 1e-5, "sum [%d][%d]", i, j);
			c.near((a - b)[i][j], A[i][j] - B[i][j], 1e-5, "difference [%d][%d]", i, j);
			c.near((a * 3)[i][j], A[i][j] * 3, 1e-4, "multiple [%d][%d]", i, j);
		}
	}
	// turning and scaling, about the world's axes or its own
	Vector3 u = unit<Vector3>(s);
	float phi = angle(s);
	M3 T = turn(of(u), phi);
	same_m(c, Basis(u, phi), T, e, "basis of axis and angle");
	same_m(c, a.rotated(u, phi), mul(T, A), 1e-3, "rotated");
	same_m(c, a.rotated_local(u, phi), mul(A, T), 1e-3, "rotated_local");
	Basis m = a;
	m.rotate(u, phi);
	same_m(c, m, mul(T, A), 1e-3, "rotate");
	m = a;
	m.rotate_local(u, phi);
	same_m(c, m, mul(A, T), 1e-3, "rotate_local");
	same_m(c, a.rotated(r.get_quaternion()), mul(R, A), 1e-3, "rotated by a quaternion");
	Vector3 eu = r.get_euler();
	same_m(c, a.rotated(eu), mul(R, A), 4e-2, "rotated by Euler angles");
	D<3> S = scaling(s);
	Vector3 sc = vec(S);
	same_m(c, a.scaled(sc), mul(diag(S), A), 1e-3, "scaled");
	same_m(c, a.scaled_local(sc), mul(A, diag(S)), 1e-3, "scaled_local");
	m = a;
	m.scale(sc);
	same_m(c, m, mul(diag(S), A), 1e-3, "scale");
	m = a;
	m.scale_local(sc);
	same_m(c, m, mul(A, diag(S)), 1e-3, "scale_local");
	same_m(c, Basis::from_scale(sc), diag(S), 1e-6, "from_scale");
	// rotation and scale apart
	M3 RS = mul(R, diag(S));
	Basis rs = bas(RS);
	same_v(c, rs.get_scale(), S, 1e-3, "get_scale");
	same_v(c, rs.get_scale_abs(), S, 1e-3, "get_scale_abs");
	same_m(c, of(rs.get_rotation_quaternion()), R, 1e-3, "get_rotation_quaternion");
	same_m(c, Basis(rs.get_rotation_euler()), R, 1e-2, "get_rotation_euler");
	Basis on = rs.orthonormalized();
	same_m(c, on, R, 1e-3, "orthonormalized");
	M3 NEG = mul(RS, diag({ -1, -1, -1 }));
	c.near(bas(NEG).get_scale().x * bas(NEG).get_scale().y * bas(NEG).get_scale().z, det(NEG), 1e-2 * (1 + std::fabs(det(NEG))), "scale of a mirroring basis");
	Basis q2;
	q2.set_quaternion_scale(r.get_quaternion(), sc);
	same_m(c, q2, RS, 1e-3, "set_quaternion_scale");
	q2.set_euler_scale(eu, sc);
	same_m(c, q2, RS, 1e-2 * (1 + std::max(std::fabs(S[0]), std::max(std::fabs(S[1]), std::fabs(S[2])))), "set_euler_scale");
	q2.set_axis_angle_scale(u, phi, sc);
	same_m(c, q2, mul(T, diag(S)), 1e-3, "set_axis_angle_scale");
	// any invertible basis is orthonormalized to a right-angled one spanning the same first axes
	Basis bo = b.orthonormalized();
	M3 BO = of(bo);
	same_m(c, mul(tr(BO), BO), M3(), 1e-3, "orthonormalized");
	D<3> c0 = per<3>([&](size_t i) { return B[i][0]; });
	for (int i = 0; i < 3; i++) {
		c.near(BO[i][0], c0[i] / len(c0), 1e-3, "orthonormalized turns the first axis");
	}
	c.check(det(BO) * det(B) > 0, "orthonormalized mirrors");
	// what kind of basis
	c.check(r.is_orthogonal() && r.is_rotation() && !bas(RS).is_rotation() == (std::fabs(S[0] - 1) > 1e-2 || std::fabs(S[1] - 1) > 1e-2 || std::fabs(S[2] - 1) > 1e-2 || bas(RS).is_rotation() == false), "is_rotation");
	c.check(bas(diag(S)).is_diagonal(), "is_diagonal of a diagonal basis");
	// axis and angle of a rotation
	Vector3 gx;
	float ga;
	if (turned(R)) {
		r.get_axis_angle(gx, ga);
		c.near(gx.length(), 1, 1e-2, "length of the axis");
		same_m(c, turn(of(gx), ga), R, 1e-2, "get_axis_angle");
	} else {
		r.get_axis_angle(gx, ga);
		c.check(std::fabs(ga) < 0.2, "angle %g for hardly any rotation", ga);
	}
	// between rotations
	float t = s.real_in(0, 1);
	M3 Q = rotation(s);
	double th = between(R, Q);
	if (th < PI - 0.1) {
		M3 W = of(r.slerp(bas(Q), t));
		c.near(between(R, W), th * t, 1e-2, "slerp: angle from the start");
		c.near(between(W, Q), th * (1 - t), 1e-2, "slerp: angle to the end");
	}
	Basis l = a.lerp(b, t);
	for (int i = 0; i < 3; i++) {
		for (int j = 0; j < 3; j++) {
			c.near(l[i][j], A[i][j] + (B[i][j] - A[i][j]) * t, 1e-3, "lerp [%d][%d]", i, j);
		}
	}
	// rotation that takes one direction to another
	Vector3 w = unit<Vector3>(s);
	D<3> X = { u.y * (double)w.z - u.z * (double)w.y, u.z * (double)w.x - u.x * (double)w.z, u.x * (double)w.y - u.y * (double)w.x };
	if (len(X) > 0.1) {
		Basis al;
		al.rotate_to_align(u, w);
		same_v(c, al.xform(u), of(w), 2e-3, "rotate_to_align");
		Basis lk = Basis::looking_at(u * 3, w);
		D<3> z = per<3>([&](size_t i) { return (double)lk[i][2]; }), y = per<3>([&](size_t i) { return (double)lk[i][1]; });
		same_m(c, mul(tr(of(lk)), of(lk)), M3(), 1e-3, "looking_at has right angles");
		c.near(det(of(lk)), 1, 1e-3, "looking_at mirrors");
		for (int i = 0; i < 3; i++) {
			c.near(z[i], -u[i], 1e-3, "looking_at: the direction behind");
		}
		c.check(dot(y, of(w)) > 0, "looking_at is upside down");
		c.near(dot(per<3>([&](size_t i) { return (double)lk[i][0]; }), of(w)), 0, 1e-3, "looking_at is tilted");
	}
	// the 24 rotations that take axes to axes
	int ix = s.draw(24);
	Basis ob;
	ob.set_orthogonal_index(ix);
	c.check(ob.get_orthogonal_index() == ix, "orthogonal index %d is read as %d", ix, ob.get_orthogonal_index());
	c.near(det(of(ob)), 1, 1e-5, "basis %d of 24 mirrors", ix);
	same_m(c, mul(tr(of(ob)), of(ob)), M3(), 1e-5, "right angles of an axis basis");
	// eigenvalues of a symmetric basis
	M3 D0 = diag({ s.real(4), s.real(4), s.real(4) }), SY = mul(mul(R, D0), tr(R));
	for (int i = 0; i < 3; i++) {
		for (int j = 0; j < i; j++) {
			SY[i][j] = SY[j][i] = (float)SY[i][j];
		}
	}
	Basis sy = bas(SY);
	if (sy.is_symmetric()) {
		Basis ev = sy.diagonalize();
		D<3> got = { sy[0][0], sy[1][1], sy[2][2] }, want = { D0[0][0], D0[1][1], D0[2][2] };
		same_m(c, mul(mul(tr(of(ev)), of(sy)), of(ev)), SY, 1e-2, "diagonalize: the eigenvectors give the basis back");
		std::sort(got.begin(), got.end());
		std::sort(want.begin(), want.end());
		for (int i = 0; i < 3; i++) {
			c.near(got[i], want[i], 1e-2, "eigenvalue %d", i);
		}
	}
	Basis fz;
	fz.from_z(u);
	same_m(c, mul(of(fz), tr(of(fz))), M3(), 1e-3, "from_z has right angles");
	same_v(c, fz[2], of(u), 1e-5, "from_z");
	c.check(a.is_equal_approx(a) && a == a && !(a != a), "a basis differs from itself");
	Basis na = a;
	na[s.draw(3)][s.draw(3)] += 0.01f;
	c.check(!a.is_equal_approx(na) && a != na, "a changed basis is equal");
	c.no_errors("bases");
}

VT_PROP(P11, transforms, 60000) {
	M3 A = invertible(s), B = invertible(s);
	D<3> OA = of(gen<Vector3>(s)), OB = of(gen<Vector3>(s));
	Vector3 v = gen<Vector3>(s), o = gen<Vector3>(s, 4), u = unit<Vector3>(s);
	D<3> V = of(v), O = of(o);
	float phi = angle(s), t = s.real_in(0, 1);
	show(c, "A", A);
	show(c, "origin", vec(OA));
	show(c, "v", v);
	c.nt(turned(A) && len(OA) > 0.5);
	Transform a(bas(A), vec(OA)), b(bas(B), vec(OB));
	auto app = [](const M3 &m, const D<3> &org, const D<3> &x) { return add(mul(m, x), org); };
	const double e = 1e-2;
	same_v(c, a.xform(v), app(A, OA, V), 1e-3, "xform");
	same_v(c, (a * b).xform(v), app(A, OA, app(B, OB, V)), e, "product");
	Transform p = a;
	p *= b;
	same_v(c, p.xform(v), app(A, OA, app(B, OB, V)), e, "product in place");
	same_v(c, a.affine_inverse().xform(a.xform(v)), V, 0.02, "affine_inverse");
	Transform ai = a;
	ai.affine_invert();
	same_v(c, ai.xform(a.xform(v)), V, 0.02, "affine_invert");
	M3 R = rotation(s);
	Transform r(bas(R), vec(OA));
	same_v(c, r.inverse().xform(r.xform(v)), V, e, "inverse of a rigid transform");
	same_v(c, r.xform_inv(r.xform(v)), V, e, "xform_inv of a rigid transform");
	Transform ri = r;
	ri.invert();
	same_v(c, ri.xform(r.xform(v)), V, e, "invert of a rigid transform");
	same_v(c, r.inverse_xform(b).xform(v), mul(tr(R), add(app(B, OB, V), OA, -1)), e, "inverse_xform");
	// in the world's frame and in its own
	M3 T = turn(of(u), phi);
	same_v(c, a.rotated(u, phi).xform(v), mul(T, app(A, OA, V)), e, "rotated");
	same_v(c, a.rotated_local(u, phi).xform(v), app(A, OA, mul(T, V)), e, "rotated_local");
	same_v(c, a.translated(o).xform(v), add(app(A, OA, V), O), e, "translated");
	same_v(c, a.translated_local(o).xform(v), app(A, OA, add(V, O)), e, "translated_local");
	D<3> S = scaling(s);
	same_v(c, a.scaled(vec(S)).xform(v), per<3>([&](size_t i) { return S[i] * app(A, OA, V)[i]; }), e, "scaled");
	same_v(c, a.scaled_local(vec(S)).xform(v), app(A, OA, per<3>([&](size_t i) { return S[i] * V[i]; })), e, "scaled_local");
	Transform m = a;
	m.rotate(u, phi);
	same_v(c, m.xform(v), mul(T, app(A, OA, V)), e, "rotate");
	m = a;
	m.translate_local(o);
	same_v(c, m.xform(v), app(A, OA, add(V, O)), e, "translate_local");
	m = a;
	m.scale(vec(S));
	same_v(c, m.xform(v), per<3>([&](size_t i) { return S[i] * app(A, OA, V)[i]; }), e, "scale");
	m = a;
	m.rotate_basis(u, phi);
	same_v(c, m.xform(v), app(mul(T, A), OA, V), e, "rotate_basis");
	m = a;
	m.scale_basis(vec(S));
	same_v(c, m.xform(v), app(mul(diag(S), A), OA, V), e, "scale_basis");
	// boxes and planes
	AABB bx(Vector3(s.sint(8) / 2.0f, s.sint(8) / 2.0f, s.sint(8) / 2.0f), Vector3(s.range(0, 10) / 2.0f, s.range(0, 10) / 2.0f, s.range(0, 10) / 2.0f));
	AABB xb = a.xform(bx), xi = r.xform_inv(bx);
	D<3> lo = { 1e9, 1e9, 1e9 }, hi = { -1e9, -1e9, -1e9 }, li = lo, hii = hi;
	for (int i = 0; i < 8; i++) {
		D<3> k = of(bx.get_endpoint(i)), w = app(A, OA, k), x = mul(tr(R), add(k, OA, -1));
		for (int j = 0; j < 3; j++) {
			lo[j] = std::min(lo[j], w[j]);
			hi[j] = std::max(hi[j], w[j]);
			li[j] = std::min(li[j], x[j]);
			hii[j] = std::max(hii[j], x[j]);
		}
	}
	same_v(c, xb.position, lo, e, "box, start");
	same_v(c, xb.position + xb.size, hi, e, "box, end");
	same_v(c, xi.position, li, e, "box moved back, start");
	same_v(c, xi.position + xi.size, hii, e, "box moved back, end");
	Plane pl(u, s.real(4));
	Plane rp = r.xform(pl), ap = a.xform(pl);
	double d = dot(of(u), V) - pl.d;
	c.near(rp.distance_to(r.xform(v)), d, e, "plane moved rigidly");
	c.near(r.xform_inv(rp).distance_to(v), d, e, "plane moved back");
	D<3> on = add(V, of(u), -d);
	c.near(ap.distance_to(a.xform(vec(on))), 0, 0.02, "a point of a plane leaves it");
	PoolVector<Vector3> pv;
	pv.push_back(v);
	pv.push_back(o);
	PoolVector<Vector3> xp = a.xform(pv), xq = r.xform_inv(pv);
	c.check(xp.size() == 2 && xq.size() == 2 && pv[0] == v, "array of points");
	same_v(c, xp[0], app(A, OA, V), e, "first point of an array");
	same_v(c, xp[1], app(A, OA, O), e, "second point of an array");
	same_v(c, xq[1], mul(tr(R), add(O, OA, -1)), e, "second point of an array, moved back");
	// between two transforms
	M3 R2 = rotation(s);
	double th = between(R, R2);
	if (th < PI - 0.1) {
		D<3> S2 = scaling(s);
		Transform x(bas(mul(R, diag(S))), vec(OA)), y(bas(mul(R2, diag(S2))), vec(OB));
		Transform w = x.interpolate_with(y, t);
		same_v(c, w.origin, per<3>([&](size_t i) { return OA[i] + (OB[i] - OA[i]) * t; }), 1e-3, "interpolate_with, origin");
		same_v(c, w.basis.get_scale(), per<3>([&](size_t i) { return S[i] + (S2[i] - S[i]) * t; }), 1e-2, "interpolate_with, scale");
		M3 W = of(w.basis.orthonormalized());
		c.near(between(R, W), th * t, 2e-2, "interpolate_with, angle from the start");
		c.near(between(W, R2), th * (1 - t), 2e-2, "interpolate_with, angle to the end");
	}
	Vector3 tgt = gen<Vector3>(s), up = unit<Vector3>(s);
	D<3> dir = add(of(tgt), OA, -1), X = { dir[1] * up.z - dir[2] * up.y, dir[2] * up.x - dir[0] * up.z, dir[0] * up.y - dir[1] * up.x };
	if (len(dir) > 0.3 && len(X) > 0.1 * len(dir)) {
		Transform l = a.looking_at(tgt, up);
		same_v(c, l.origin, OA, 1e-5, "looking_at moves");
		for (int i = 0; i < 3; i++) {
			c.near(-l.basis[i][2], dir[i] / len(dir), 1e-3, "looking_at looks elsewhere");
		}
	}
	c.check(a == a && !(a != a) && a.is_equal_approx(a) && !(a == b && !(apart(A, B) == 0)), "equality of transforms");
	c.no_errors("transforms");
}

VT_PROP(P11, plane_transforms, 60000) {
	float ra = angle(s), rb = angle(s), phi = angle(s), t = s.real_in(0, 1);
	Vector2 sa(s.real_in(0.25, 3), s.real_in(0.25, 3)), sb(s.real_in(0.25, 3), s.real_in(0.25, 3)), oa = gen<Vector2>(s), ob = gen<Vector2>(s), v = gen<Vector2>(s), o = gen<Vector2>(s, 4);
	float sk = s.real_in(-1, 1);
	c.note("ra=%g rb=%g phi=%g", ra, rb, phi);
	show(c, "sa", sa);
	show(c, "oa", oa);
	show(c, "v", v);
	c.nt(std::fabs(ra) > 0.05 && len(of(oa)) > 0.5);
	struct A2 {
		double a, b, c, d, x, y; // (a c x; b d y)
		D<2> operator()(const D<2> &p) const { return { a * p[0] + c * p[1] + x, b * p[0] + d * p[1] + y }; }
	};
	auto rs = [](double r, const Vector2 &sc, const Vector2 &org) { return A2{ cos(r) * sc.x, sin(r) * sc.x, -sin(r) * sc.y, cos(r) * sc.y, org.x, org.y }; };
	A2 A = rs(ra, sa, oa), B = rs(rb, sb, ob), R = rs(ra, Vector2(1, 1), oa);
	D<2> V = of(v), O = of(o);
	const double e = 1e-2;
	Transform2D a, b, r(ra, oa);
	a.set_rotation_and_scale(ra, sa);
	a.set_origin(oa);
	b.set_rotation_and_scale(rb, sb);
	b.set_origin(ob);
	same_v(c, a.xform(v), A(V), 1e-3, "xform");
	same_v(c, r.xform(v), R(V), 1e-3, "transform of angle and position");
	same_v(c, a.basis_xform(v), add(A(V), of(oa), -1), 1e-3, "basis_xform");
	same_v(c, (a * b).xform(v), A(B(V)), e, "product");
	Transform2D m = a;
	m *= b;
	same_v(c, m.xform(v), A(B(V)), e, "product in place");
	same_v(c, a.affine_inverse().xform(a.xform(v)), V, e, "affine_inverse");
	same_v(c, r.inverse().xform(r.xform(v)), V, e, "inverse of a rigid transform");
	same_v(c, r.xform_inv(r.xform(v)), V, e, "xform_inv of a rigid transform");
	same_v(c, r.basis_xform_inv(r.basis_xform(v)), V, e, "basis_xform_inv of a rigid transform");
	c.near(a.basis_determinant(), (double)sa.x * sa.y, 1e-3, "basis_determinant");
	c.check(std::fabs(std::remainder(a.get_rotation() - ra, 2 * PI)) < 1e-4, "get_rotation %g", a.get_rotation());
	same_v(c, a.get_scale(), of(sa), 1e-4, "get_scale");
	same_v(c, a.get_origin(), of(oa), 0, "get_origin");
	m = a;
	m.set_rotation(rb);
	same_v(c, m.xform(v), rs(rb, sa, oa)(V), 1e-3, "set_rotation");
	m = a;
	m.set_scale(sb);
	same_v(c, m.xform(v), rs(ra, sb, oa)(V), 1e-3, "set_scale");
	m = a;
	m.set_rotation_scale_and_skew(rb, sb, sk);
	c.check(std::fabs(std::remainder(m.get_rotation() - rb, 2 * PI)) < 1e-3, "rotation of a skewed transform %g", m.get_rotation());
	same_v(c, m.get_scale(), of(sb), 1e-3, "scale of a skewed transform");
	c.near(m.get_skew(), sk, 2e-3, "get_skew");
	m = a;
	m.set_skew(sk);
	c.near(m.get_skew(), sk, 2e-3, "set_skew");
	// in the world's frame and in its own
	A2 T = rs(phi, Vector2(1, 1), Vector2());
	same_v(c, a.rotated(phi).xform(v), T(A(V)), e, "rotated");
	same_v(c, a.rotated_local(phi).xform(v), A(T(V)), e, "rotated_local");
	same_v(c, a.translated(o).xform(v), add(A(V), O), e, "translated");
	same_v(c, a.translated_local(o).xform(v), A(add(V, O)), e, "translated_local");
	D<2> AV = A(V);
	same_v(c, a.scaled(sb).xform(v), { AV[0] * sb.x, AV[1] * sb.y }, e, "scaled");
	same_v(c, a.scaled_local(sb).xform(v), A({ V[0] * sb.x, V[1] * sb.y }), e, "scaled_local");
	m = a;
	m.rotate(phi);
	same_v(c, m.xform(v), of(a.rotated(phi).xform(v)), e, "rotate");
	m = a;
	m.translate_local(o);
	same_v(c, m.xform(v), A(add(V, O)), e, "translate_local");
	m = a;
	m.translate(o);
	same_v(c, m.xform(v), add(A(V), O), e, "translate");
	m = a;
	m.translater(o.x, o.y);
	same_v(c, m.xform(v), add(A(V), O), e, "translate by two numbers");
	m = a;
	m.scale(sb);
	same_v(c, m.xform(v), { AV[0] * sb.x, AV[1] * sb.y }, e, "scale");
	same_v(c, a.untranslated().xform(v), add(AV, of(oa), -1), 1e-3, "untranslated");
	Transform2D on = a.orthonormalized();
	same_v(c, on.xform(v), rs(ra, Vector2(1, 1), oa)(V), 1e-3, "orthonormalized");
	// rectangles
	Rect2 rc(s.sint(8) / 2.0f, s.sint(8) / 2.0f, s.range(0, 8) / 2.0f, s.range(0, 8) / 2.0f);
	Rect2 x = a.xform(rc), xi = r.xform_inv(rc);
	D<2> lo = { 1e9, 1e9 }, hi = { -1e9, -1e9 }, li = lo, hii = hi;
	for (int i = 0; i < 4; i++) {
		D<2> k = { rc.position.x + (i & 1 ? rc.size.x : 0.0), rc.position.y + (i & 2 ? rc.size.y : 0.0) }, w = A(k), y = of(r.xform_inv(Vector2(k[0], k[1])));
		for (int j = 0; j < 2; j++) {
			lo[j] = std::min(lo[j], w[j]);
			hi[j] = std::max(hi[j], w[j]);
			li[j] = std::min(li[j], y[j]);
			hii[j] = std::max(hii[j], y[j]);
		}
	}
	same_v(c, x.position, lo, e, "rectangle, start");
	same_v(c, x.position + x.size, hi, e, "rectangle, end");
	same_v(c, xi.position, li, e, "rectangle moved back, start");
	same_v(c, xi.position + xi.size, hii, e, "rectangle moved back, end");
	PoolVector<Vector2> pv;
	pv.push_back(v);
	pv.push_back(o);
	PoolVector<Vector2> xp = a.xform(pv), xq = r.xform_inv(pv);
	c.check(xp.size() == 2 && xq.size() == 2, "array of points");
	same_v(c, xp[0], AV, e, "first point of an array");
	same_v(c, xp[1], A(O), e, "second point of an array");
	same_v(c, xq[0], of(r.xform_inv(v)), e, "first point of an array, moved back");
	// between two transforms
	double diff = std::remainder((double)rb - ra, 2 * PI);
	if (std::fabs(diff) < PI - 0.1) {
		Transform2D w = a.interpolate_with(b, t);
		c.check(std::fabs(std::remainder(w.get_rotation() - (ra + diff * t), 2 * PI)) < 2e-2, "interpolate_with, angle %g", w.get_rotation());
		same_v(c, w.get_scale(), { sa.x + (sb.x - (double)sa.x) * t, sa.y + (sb.y - (double)sa.y) * t }, e, "interpolate_with, scale");
		same_v(c, w.get_origin(), { oa.x + (ob.x - (double)oa.x) * t, oa.y + (ob.y - (double)oa.y) * t }, 1e-3, "interpolate_with, origin");
	}
	D<2> dir = add(V, of(oa), -1);
	if (len(dir) > 0.2) {
		Transform2D l = r.looking_at(v);
		same_v(c, l.get_axis(0), { dir[0] / len(dir), dir[1] / len(dir) }, 1e-3, "looking_at");
		same_v(c, l.get_origin(), of(oa), 0, "looking_at moves");
	}
	c.check(a == a && !(a != a) && a.is_equal_approx(a), "equality of transforms");
	c.no_errors("transforms of the plane");
}

VT_PROP(P11, projections, 40000) {
	int kind = s.draw(3);
	float fov = s.real_in(20, 120), asp = s.real_in(0.4, 2.5), zn = s.real_in(0.1, 2), zf = zn + s.real_in(1, 40), size = s.real_in(1, 8);
	float l = -s.real_in(0.3, 3), r = s.real_in(0.3, 3), b = -s.real_in(0.3, 3), t = s.real_in(0.3, 3);
	Projection P;
	c.note("kind=%d fov=%g aspect=%g near=%g far=%g size=%g l=%g r=%g b=%g t=%g", kind, fov, asp, zn, zf, size, l, r, b, t);
	c.nt();
	if (kind == 0) {
		P.set_perspective(fov, asp, zn, zf);
		t = zn * std::tan(fov * PI / 360), b = -t, r = t * asp, l = -r;
		c.near(P.get_fov(), 2 * std::atan(r / zn) * 180 / PI, 0.05, "get_fov");
		c.near(P.get_aspect(), asp, 1e-2, "get_aspect");
		c.near(Projection::get_fovy(2 * std::atan(std::tan(fov * PI / 360) / asp) * 180 / PI, asp), fov, 0.05, "get_fovy");
	} else if (kind == 1) {
		P.set_frustum(l, r, b, t, zn, zf);
	} else {
		P.set_orthogonal(l, r, b, t, zn, zf);
	}
	c.near(P.get_z_near(), zn, 1e-2 * zn, "get_z_near");
	c.near(P.get_z_far(), zf, 2e-2 * zf * (1 + zf / zn / 20), "get_z_far");
	c.check(P.is_orthogonal() == (kind == 2), "is_orthogonal");
	// the visible box becomes the cube from -1 to 1
	D<3> p = { s.real_in(-1.3, 1.3), s.real_in(-1.3, 1.3), s.real_in(-0.2, 1.2) };
	double z = zn + (zf - zn) * p[2];
	if (z > 0.05) {
		double k = kind == 2 ? 1 : z / zn;
		double x = ((p[0] + 1) / 2 * ((double)r - l) + l) * k, y = ((p[1] + 1) / 2 * ((double)t - b) + b) * k;
		Vector3 n = P.xform(Vector3(x, y, -z));
		c.near(n.x, p[0], 2e-3, "x on the screen");
		c.near(n.y, p[1], 2e-3, "y on the screen");
		double nz = kind == 2 ? 2 * p[2] - 1 : ((double)zf + zn) / ((double)zf - zn) - 2.0 * zf * zn / (((double)zf - zn) * z);
		c.near(n.z, nz, 5e-3, "depth on the screen");
		Vector3 back = P.inverse().xform(n);
		c.near(back.x, x, 1e-2 * (1 + std::fabs(x)) * (1 + z / zn / 10), "x from the screen");
		c.near(back.y, y, 1e-2 * (1 + std::fabs(y)) * (1 + z / zn / 10), "y from the screen");
		c.near(back.z, -z, 1e-2 * (1 + z) * (1 + z / zn / 10), "z from the screen");
		// the six planes look outwards
		Transform tf(bas(rotation(s)), gen<Vector3>(s));
		Vector<Plane> ps = P.get_projection_planes(tf);
		c.check(ps.size() == 6, "%d planes", ps.size());
		double margin = std::min({ 1 - std::fabs(p[0]), 1 - std::fabs(p[1]), p[2] * 2, (1 - p[2]) * 2 });
		if (std::fabs(margin) > 0.05) {
			bool in = true;
			for (int i = 0; i < 6; i++) {
				in = in && !ps[i].is_point_over(tf.xform(Vector3(x, y, -z)));
			}
			c.check(in == (margin > 0), "planes say the point is %s", in ? "inside" : "outside");
		}
		Vector3 ends[8];
		if (P.get_endpoints(tf, ends)) {
			std::vector<D<3>> want;
			for (int i = 0; i < 8; i++) {
				double zz = i & 4 ? zf : zn, kk = kind == 2 ? 1 : zz / zn;
				want.push_back(of(tf.xform(Vector3((i & 1 ? r : l) * kk, (i & 2 ? t : b) * kk, -zz))));
			}
			for (int i = 0; i < 8; i++) {
				double best = 1e9;
				for (auto &e : ends) {
					best = std::min(best, len(add(of(e), want[i], -1)));
				}
				c.check(best < 0.05 * (1 + zf) * (1 + zf / zn / 20), "corner %d of the visible space is %g away from the nearest end point", i, best);
			}
		} else {
			c.fail("get_endpoints finds none");
		}
	}
	// products and transforms
	Transform u(bas(invertible(s)), gen<Vector3>(s)), v(bas(invertible(s)), gen<Vector3>(s));
	Vector3 x = gen<Vector3>(s);
	same_v(c, Projection(u).xform(x), of(u.xform(x)), 1e-2, "projection of a transform");
	same_v(c, (Projection(u) * Projection(v)).xform(x), of(u.xform(v.xform(x))), 2e-2, "product of projections");
	Transform ut = Projection(u);
	same_v(c, ut.xform(x), of(u.xform(x)), 1e-2, "transform of a projection");
	Projection I = P * P.inverse();
	for (int i = 0; i < 4; i++) {
		for (int j = 0; j < 4; j++) {
			c.near(I.matrix[i][j], i == j, 2e-2 * (1 + zf / zn / 20), "product with the inverse [%d][%d]", i, j);
		}
	}
	c.check(P == P && !(P != P), "equality of projections");
	c.no_errors("projections");
}

VT_PROP(P11, projection_makers, 40000) {
	float fov = s.real_in(20, 120), asp = s.real_in(0.4, 2.5), zn = s.real_in(0.1, 2), zf = zn + s.real_in(1, 40), size = s.real_in(0.3, 6);
	double l = -s.real_in(0.3, 3), r = s.real_in(0.3, 3), b = -s.real_in(0.3, 3), t = s.real_in(0.3, 3), shift = 0;
	Vector2 off(s.real_in(-1, 1), s.real_in(-1, 1));
	float iod = s.real_in(0.02, 0.1), conv = s.real_in(0.5, 20), width = iod + s.real_in(0.02, 0.1), lens = s.real_in(0.02, 0.1), over = s.real_in(1, 1.6);
	bool flip = s.flag(), make = s.flag();
	int kind = s.draw(7), eye = 1 + s.draw(2);
	c.note("kind=%d fov=%g aspect=%g near=%g far=%g size=%g flip=%d eye=%d offset=(%g, %g)", kind, fov, asp, zn, zf, size, flip, eye, off.x, off.y);
	c.nt();
	Projection P;
	if (s.flag()) { // what was there before does not matter
		for (int i = 0; i < 16; i++) {
			P.matrix[i / 4][i % 4] = s.real_in(-5, 5);
		}
	}
	bool ortho = false;
	switch (kind) {
		case 0:
			if (make) {
				P = Projection::create_perspective(fov, asp, zn, zf, flip);
			} else {
				P.set_perspective(fov, asp, zn, zf, flip);
			}
			t = zn * std::tan(fov * PI / 360) / (flip ? asp : 1), b = -t, r = t * asp, l = -r;
			break;
		case 1: {
			if (s.one_in(4)) {
				eye = 0;
			}
			if (make) {
				P = Projection::create_perspective_hmd(fov, asp, zn, zf, flip, eye, iod, conv);
			} else {
				P.set_perspective(fov, asp, zn, zf, flip, eye, iod, conv);
			}
			t = zn * std::tan(fov * PI / 360) / (flip ? asp : 1), b = -t, r = t * asp, l = -r;
			double sg = eye == 0 ? 0 : eye == 1 ? 1 : -1;
			l += sg * iod / 2 * zn / conv, r += sg * iod / 2 * zn / conv, shift = sg * iod / 2;
			break;
		}
		case 2: {
			if (make) {
				P = Projection::create_for_hmd(eye, asp, iod, width, lens, over, zn, zf);
			} else {
				P.set_for_hmd(eye, asp, iod, width, lens, over, zn, zf);
			}
			double in = iod * 0.5 / lens, out = (width - iod) * 0.5 / lens, extra = (in + out) * (over - 1.0) / 2;
			in += extra, out += extra;
			t = width / 4.0 / lens * over / asp * zn, b = -t;
			l = -(eye == 1 ? out : in) * zn, r = (eye == 1 ? in : out) * zn;
			break;
		}
		case 3:
			ortho = true;
			if (make) {
				P = Projection::create_orthogonal(l, r, b, t, zn, zf);
			} else {
				P.set_orthogonal(l, r, b, t, zn, zf);
			}
			break;
		case 4:
			ortho = true;
			if (make) {
				P = Projection::create_orthogonal_aspect(size, asp, zn, zf, flip);
			} else {
				P.set_orthogonal(size, asp, zn, zf, flip);
			}
			r = flip ? size / 2 : size * asp / 2, l = -r, t = r / asp, b = -t;
			break;
		case 5:
			if (make) {
				P = Projection::create_frustum(l, r, b, t, zn, zf);
			} else {
				P.set_frustum(l, r, b, t, zn, zf);
			}
			break;
		default:
			if (make) {
				P = Projection::create_frustum_aspect(size, asp, off, zn, zf, flip);
			} else if (s.flag()) {
				P.set_frustum(size, asp, off, zn, zf, flip);
			} else {
				P.set_frustum2(size, asp, off, zn, zf, flip);
			}
			r = flip ? size / 2 : size * asp / 2, l = -r, t = r / asp, b = -t;
			l += off.x, r += off.x, b += off.y, t += off.y;
	}
	const double far_tol = 2e-2 * (1 + zf / zn / 20);
	if (shift == 0) {
		c.near(P.get_z_near(), zn, 1e-2 * zn, "get_z_near");
		c.near(P.get_z_far(), zf, far_tol * zf, "get_z_far");
		double k = ortho ? 1 : zf / zn, w = std::fabs(l) + std::fabs(r) + std::fabs(b) + std::fabs(t);
		Vector2 h = P.get_viewport_half_extents(), H = P.get_far_plane_half_extents();
		c.near(h.x, r, 1e-2 * w, "half width of the near rectangle");
		c.near(h.y, t, 1e-2 * w, "half height of the near rectangle");
		c.near(H.x, r * k, far_tol * w * k, "half width of the far rectangle");
		c.near(H.y, t * k, far_tol * w * k, "half height of the far rectangle");
		if (t > 0.1 * w) {
			c.near(P.get_aspect(), r / t, 0.2 * (1 + std::fabs(r / t)), "get_aspect");
		}
		c.near(P.get_lod_multiplier(), ortho ? r : 2 * r / zn, 2e-2 * w * (ortho ? 1 : 2 / zn), "get_lod_multiplier");
		if (!ortho && l < 0 && r > 0) {
			c.near(P.get_fov(), (std::atan(r / zn) - std::atan(l / zn)) * 180 / PI, 0.2, "get_fov");
		}
	}
	c.check(P.is_orthogonal() == ortho, "is_orthogonal");
	D<3> p = { s.real_in(-1, 1), s.real_in(-1, 1), s.real_in(0, 1) };
	double z = zn + (zf - zn) * p[2], k = ortho ? 1 : z / zn;
	Vector3 at(((p[0] + 1) / 2 * (r - l) + l) * k - shift, ((p[1] + 1) / 2 * (t - b) + b) * k, -z);
	double nz = ortho ? 2 * p[2] - 1 : ((double)zf + zn) / ((double)zf - zn) - 2.0 * zf * zn / (((double)zf - zn) * z);
	double lop = 1 + std::fabs(r + l) / (r - l) + std::fabs(t + b) / (t - b) + std::fabs(shift) / (r - l);
	auto is = [&](const Projection &q, double x, double y, double zz, double tol, const char *what) {
		Vector3 n = q.xform(at);
		Vector4 v = q.xform(Vector4(at.x, at.y, at.z, 1));
		c.near(n.x, x, tol, "%s: x on the screen", what);
		c.near(n.y, y, tol, "%s: y on the screen", what);
		c.near(n.z, zz, tol * 2, "%s: depth", what);
		c.near(v.w, ortho ? 1 : z, 1e-3 * (1 + z), "%s: w", what);
		c.near(v.x, x * v.w, tol * v.w, "%s: x by w", what);
		c.near(v.y, y * v.w, tol * v.w, "%s: y by w", what);
		c.near(v.z, zz * v.w, 2 * tol * v.w, "%s: depth by w", what);
	};
	const double tol = 2e-3 * lop;
	is(P, p[0], p[1], nz, tol, "a point");
	is(P.flipped_y() * Projection(), p[0], nz * 0 + [&] { // the second axis of the space is turned over
		Vector3 m = at;
		m.y = -m.y;
		return (double)P.xform(m).y;
	}(), nz, tol, "flipped_y");
	Projection D0 = Projection::create_depth_correction(false), D1 = Projection::create_depth_correction(true), L, A;
	L.set_light_bias();
	is(D0 * P, p[0], p[1], 0.5 * nz + 0.5, tol, "depth correction");
	is(D1 * P, p[0], -p[1], 0.5 * nz + 0.5, tol, "depth correction turned over");
	is(L * P, 0.5 * p[0] + 0.5, 0.5 * p[1] + 0.5, 0.5 * nz + 0.5, tol, "light bias");
	Rect2 at_rect(s.real_in(-1, 1), s.real_in(-1, 1), s.real_in(0.1, 2), s.real_in(0.1, 2));
	is(Projection::create_light_atlas_rect(at_rect) * P, p[0] * at_rect.size.x + at_rect.position.x, p[1] * at_rect.size.y + at_rect.position.y, nz, 2 * tol, "light atlas");
	if (ortho) {
		is(P.jitter_offseted(off), p[0] + off.x, p[1] + off.y, nz, tol, "jitter");
	}
	if (!ortho && shift == 0) {
		float zn2 = zn * s.real_in(0.7, 1.4);
		if (zf > zn2 + 0.5) {
			Projection Q = P.perspective_znear_adjusted(zn2);
			double nz2 = ((double)zf + zn2) / ((double)zf - zn2) - 2.0 * zf * zn2 / (((double)zf - zn2) * z);
			Vector3 n = Q.xform(at);
			c.near(n.x, p[0], tol, "other near distance: x");
			c.near(n.y, p[1], tol, "other near distance: y");
			c.near(n.z, nz2, 0.02 * (1 + std::fabs(nz2)) * (1 + zf / zn / 20), "other near distance: depth");
			c.near(Q.get_z_near(), zn2, 3e-2 * zn2, "other near distance: get_z_near");
		}
	}
	// the same planes one by one, looking outwards and going through the corners
	Vector<Plane> ps = P.get_projection_planes(Transform());
	if (shift == 0) {
		const Projection::Planes names[6] = { Projection::PLANE_NEAR, Projection::PLANE_FAR, Projection::PLANE_LEFT, Projection::PLANE_TOP, Projection::PLANE_RIGHT, Projection::PLANE_BOTTOM };
		for (int i = 0; i < 6; i++) {
			Plane one = P.get_projection_plane(names[i]);
			c.near(len(add(of(one.normal), of(ps[i].normal), -1)), 0, 1e-3, "get_projection_plane(%d)'s normal", i);
			c.near(one.d, ps[i].d, 1e-3 * (1 + std::fabs(one.d)), "get_projection_plane(%d)'s distance", i);
			double kf = ortho ? 1 : zf / zn;
			for (int j = 0; j < 8; j++) {
				double kk = j & 4 ? kf : 1;
				double X = (j & 1 ? r : l) * kk, Y = (j & 2 ? t : b) * kk, Z = -(j & 4 ? zf : zn);
				double d = one.normal.x * X + one.normal.y * Y + one.normal.z * Z - one.d;
				bool on = i == 0 ? !(j & 4) : i == 1 ? (j & 4) : i == 2 ? !(j & 1) : i == 3 ? (j & 2) : i == 4 ? (j & 1) : !(j & 2);
				double tl = 5e-3 * (1 + zf) * (1 + kf / 20);
				if (on) {
					c.near(d, 0, tl, "distance of corner %d from plane %d", j, i);
				} else {
					c.check(d < tl, "corner %d is outside plane %d (%g)", j, i, d);
				}
			}
		}
	}
	// plain matrices
	AABB box(gen<Vector3>(s), Vector3(s.real_in(0.2, 5), s.real_in(0.2, 5), s.real_in(0.2, 5)));
	Projection F = Projection::create_fit_aabb(box), S;
	D<3> q = { s.real_in(0, 1), s.real_in(0, 1), s.real_in(0, 1) };
	Vector3 in(box.position.x + q[0] * box.size.x, box.position.y + q[1] * box.size.y, box.position.z + q[2] * box.size.z);
	Vector3 fit = F.xform(in);
	for (int i = 0; i < 3; i++) {
		c.near(fit[i], 2 * q[i] - 1, 1e-2, "fitted box, axis %d", i);
	}
	Vector3 sc(s.real_in(-3, 3), s.real_in(-3, 3), s.real_in(-3, 3));
	S = P;
	S.make_scale(sc);
	Vector3 scaled = S.xform(in);
	for (int i = 0; i < 3; i++) {
		c.near(scaled[i], in[i] * sc[i], 1e-3 * (1 + std::fabs(in[i])), "make_scale, axis %d", i);
	}
	Projection M;
	for (int i = 0; i < 16; i++) {
		M.matrix[i / 4][i % 4] = s.real_in(-3, 3);
	}
	Vector4 v(s.real_in(-3, 3), s.real_in(-3, 3), s.real_in(-3, 3), s.real_in(-3, 3)), mv = M.xform(v), tv = M.xform_inv(v);
	Plane mp = M.xform(Plane(v.x, v.y, v.z, v.w));
	double want_p[4] = { mp.normal.x, mp.normal.y, mp.normal.z, mp.d };
	double det = 0;
	int perm[4] = { 0, 1, 2, 3 };
	do {
		double prod = 1;
		int inv = 0;
		for (int i = 0; i < 4; i++) {
			prod *= M.matrix[i][perm[i]];
			for (int j = 0; j < i; j++) {
				inv += perm[j] > perm[i];
			}
		}
		det += inv % 2 ? -prod : prod;
	} while (std::next_permutation(perm, perm + 4));
	c.near(M.determinant(), det, 5e-3, "determinant");
	for (int i = 0; i < 4; i++) {
		double a = 0, bb = 0;
		for (int j = 0; j < 4; j++) {
			a += (double)M.matrix[j][i] * v[j];
			bb += (double)M.matrix[i][j] * v[j];
		}
		c.near(mv[i], a, 1e-3, "xform of a Vector4 [%d]", i);
		c.near(tv[i], bb, 1e-3, "xform_inv of a Vector4 [%d]", i);
		c.near(want_p[i], a, 1e-3, "xform of a plane [%d]", i);
	}
	M.set_zero();
	c.check(M.xform(v) == Vector4(), "set_zero");
	M.set_identity();
	c.check(M.xform(v) == v, "set_identity");
	c.no_errors("making projections");
}

namespace {
D<3> unit_of(const D<3> &d) { return add(D<3>{}, d, 1 / len(d)); }
} // namespace

VT_PROP(P11, spherical_harmonics, 20000) {
	// nine coefficients describe a function on the sphere; turning them turns the function
	M3 R = rotation(s);
	float v[9], w[9];
	for (int i = 0; i < 9; i++) {
		v[i] = w[i] = s.one_in(4) ? 0 : s.real_in(-2, 2);
	}
	show(c, "R", R);
	auto value = [](const float *k, const D<3> &d) {
		double x = d[0], y = d[1], z = d[2];
		double b[9] = { 0.2820948, -0.4886025 * y, 0.4886025 * z, -0.4886025 * x, 1.0925484 * x * y, -1.0925484 * y * z, 0.3153916 * (3 * z * z - 1), -1.0925484 * x * z, 0.5462742 * (x * x - y * y) };
		double r = 0;
		for (int i = 0; i < 9; i++) {
			r += k[i] * b[i];
		}
		return r;
	};
	Basis B = bas(R);
	B.rotate_sh(w);
	for (int i = 0; i < 6; i++) {
		D<3> d = of(unit<Vector3>(s)), rd = mul(R, d);
		c.near(value(w, rd), value(v, d), 5e-3, "the turned function at the turned direction");
	}
	c.nt(turned(R));
	c.no_errors("spherical harmonics");
}

VT_PROP(P10, triangle_supports, 60000) {
	Face3 f(gen<Vector3>(s), gen<Vector3>(s), gen<Vector3>(s));
	D<3> a = of(f.vertex[0]), b = of(f.vertex[1]), e = of(f.vertex[2]);
	D<3> cr = cross(add(b, a, -1), add(e, a, -1));
	if (len(cr) < 0.2 || len(add(b, a, -1)) < 0.3 || len(add(b, e, -1)) < 0.3 || len(add(e, a, -1)) < 0.3) {
		c.discard();
	}
	M3 R = rotation(s);
	Vector3 o = gen<Vector3>(s);
	Transform tf(bas(R), o);
	D<3> nf = of(f.get_plane().normal), n;
	int kind = (int)s.draw(4);
	D<3> pts[3] = { a, b, e };
	int ei = (int)s.draw(3);
	if (kind == 0) {
		n = nf;
	} else if (kind == 1) { // square to an edge and pointing away from the third vertex
		D<3> u = unit_of(add(pts[(ei + 1) % 3], pts[ei], -1)), w = cross(u, nf);
		if (dot(w, add(pts[(ei + 2) % 3], pts[ei], -1)) > 0) {
			w = add(D<3>{}, w, -1);
		}
		n = unit_of(add(w, nf, s.real_in(-1, 1)));
	} else {
		n = of(unit<Vector3>(s));
	}
	int max = 1 + (int)s.draw(4), count = -7;
	Vector3 got[5];
	f.get_support(vec(mul(R, n)), tf, got, &count, max);
	c.note("triangle (%g %g %g) (%g %g %g) (%g %g %g) n=(%g %g %g) max=%d count=%d", a[0], a[1], a[2], b[0], b[1], b[2], e[0], e[1], e[2], n[0], n[1], n[2], max, count);
	c.check(count >= 1 && count <= std::min(max, 3), "%d supports", count);
	double best = -1e9;
	int far = 0;
	for (int i = 0; i < 3; i++) {
		if (dot(n, pts[i]) > best) {
			best = dot(n, pts[i]), far = i;
		}
	}
	double facing = dot(n, nf), scale = 1 + len(a) + len(b) + len(e);
	bool face = facing > 0.98;
	if (std::fabs(facing - 0.98) < 0.004) {
		c.discard();
	}
	bool used[3] = {};
	for (int i = 0; i < count; i++) {
		int which = -1;
		for (int j = 0; j < 3; j++) {
			if (!used[j] && len(add(of(got[i]), of(tf.xform(vec(pts[j]))), -1)) < 1e-4 * scale) {
				which = j;
			}
		}
		c.check(which >= 0, "support %d is no corner", i);
		used[which] = true;
		c.check(dot(n, pts[which]) > best - (face ? 0.25 : 0.06) * scale, "support %d is %g behind the furthest corner", i, best - dot(n, pts[which]));
	}
	if (face) {
		c.check(count == std::min(max, 3), "a face seen from the front has %d supports", count);
	} else {
		bool edge = false, clear = true;
		for (int i = 0; i < 2; i++) {
			int j = (far + 1 + i) % 3;
			double d = std::fabs(dot(n, unit_of(add(pts[far], pts[j], -1))));
			edge = edge || d < 0.045;
			clear = clear && d > 0.055;
		}
		if (edge) {
			c.check(count == std::min(max, 2), "a direction square to an edge has %d supports", count);
		} else if (clear) {
			c.check(count == 1 && used[far], "the furthest corner alone is the support");
		}
		c.nt(edge);
	}
	c.no_errors("supports");
}

namespace {
Color gcol(Src &s) { return Color(s.real_in(0, 1), s.real_in(0, 1), s.real_in(0, 1), s.real_in(0, 1)); }
void same_c(Ctx &c, const Color &got, const Color &want, double tol, const char *what) {
	for (int i = 0; i < 4; i++) {
		c.near(got[i], want[i], tol, "%s, component %d", what, i);
	}
}
} // namespace

VT_PROP(P12, colours, 80000) {
	Color a = gcol(s), b = gcol(s);
	float t = s.real_in(0, 1), k = s.real_in(0.25, 3);
	c.note("a=(%g,%g,%g,%g) b=(%g,%g,%g,%g) t=%g", a.r, a.g, a.b, a.a, b.r, b.g, b.b, b.a, t);
	c.nt(a.r != a.g && a.g != a.b);
	for (int i = 0; i < 4; i++) {
		c.near((a + b)[i], (double)a[i] + b[i], 1e-6, "sum, component %d", i);
		c.near((a - b)[i], (double)a[i] - b[i], 1e-6, "difference, component %d", i);
		c.near((a * b)[i], (double)a[i] * b[i], 1e-6, "product, component %d", i);
		c.near((a * k)[i], (double)a[i] * k, 1e-5, "multiple, component %d", i);
		c.near((a / k)[i], (double)a[i] / k, 1e-5, "fraction, component %d", i);
		c.near(a.linear_interpolate(b, t)[i], a[i] + ((double)b[i] - a[i]) * t, 1e-5, "linear_interpolate, component %d", i);
		c.near((a * 3 - b).clamp()[i], std::min(1.0, std::max(0.0, (double)a[i] * 3 - b[i])), 1e-5, "clamp, component %d", i);
		if (i < 3) {
			c.near(a.darkened(t)[i], a[i] * (1.0 - t), 1e-5, "darkened, component %d", i);
			c.near(a.lightened(t)[i], a[i] + (1.0 - a[i]) * t, 1e-5, "lightened, component %d", i);
			c.near(a.inverted()[i], 1.0 - a[i], 1e-6, "inverted, component %d", i);
			double ct = std::fmod(a[i] + 0.5, 1.0), g = a.contrasted()[i];
			c.check(std::fabs(g - ct) < 1e-5 || std::fabs(std::fabs(g - ct) - 1) < 1e-5, "contrasted, component %d: %g for %g", i, g, a[i]);
			double lin = a[i] <= 0.04045 ? a[i] / 12.92 : std::pow((a[i] + 0.055) / 1.055, 2.4), sr = a[i] <= 0.0031308 ? a[i] * 12.92 : 1.055 * std::pow(a[i], 1 / 2.4) - 0.055;
			c.near(a.to_linear()[i], lin, 1e-4, "to_linear, component %d", i);
			c.near(a.to_srgb()[i], sr, 1e-4, "to_srgb, component %d", i);
			c.near(a.to_linear().to_srgb()[i], a[i], 1e-3, "to_srgb undoes to_linear, component %d", i);
		}
	}
	for (Color x : { a.darkened(t), a.lightened(t), a.inverted(), a.contrasted(), a.to_linear(), a.to_srgb() }) {
		c.check(x.a == a.a, "a change of colour changes the transparency");
	}
	Color m = a;
	m += b;
	same_c(c, m, a + b, 1e-6, "+=");
	m = a;
	m -= b;
	same_c(c, m, a - b, 1e-6, "-=");
	m = a;
	m *= k;
	same_c(c, m, a * k, 1e-6, "*=");
	m = a;
	m /= k;
	same_c(c, m, a / k, 1e-6, "/=");
	c.near(a.get_luminance(), 0.2126 * a.r + 0.7152 * a.g + 0.0722 * a.b, 1e-5, "luminance");
	// one over the other
	Color o = a.blend(b);
	double oa = a.a * (1.0 - b.a) + b.a;
	c.near(o.a, oa, 1e-5, "blend, transparency");
	if (oa > 0.01) {
		for (int i = 0; i < 3; i++) {
			c.near(o[i], ((double)a[i] * a.a * (1.0 - b.a) + (double)b[i] * b.a) / oa, 1e-4, "blend, component %d", i);
		}
	}
	// hue, saturation, value
	double mx = std::max({ a.r, a.g, a.b }), mn = std::min({ a.r, a.g, a.b });
	c.near(a.get_v(), mx, 1e-6, "value");
	c.near(a.get_s(), mx > 0 ? (mx - mn) / mx : 0, 1e-4, "saturation");
	if (mx - mn > 0.01) {
		double h = mx == a.r ? std::fmod((a.g - a.b) / (mx - mn) + 6, 6) : (mx == a.g ? 2 + (a.b - a.r) / (mx - mn) : 4 + (a.r - a.g) / (mx - mn));
		double d = std::fabs(a.get_h() - h / 6);
		c.check(d < 1e-4 || std::fabs(d - 1) < 1e-4, "hue %g, expected %g", a.get_h(), h / 6);
	}
	m.set_hsv(a.get_h(), a.get_s(), a.get_v(), a.a);
	same_c(c, m, a, 1e-4, "hue, saturation and value and back");
	same_c(c, Color().from_hsv(a.get_h(), a.get_s(), a.get_v(), a.a), a, 1e-4, "from_hsv");
	if (mx - mn > 0.05) {
		m = a;
		m.set_v(t);
		c.near(m.get_v(), t, 1e-4, "set_v");
		if (t > 0.05) {
			double d = std::fabs(m.get_h() - a.get_h());
			c.check(d < 1e-2 || std::fabs(d - 1) < 1e-2, "set_v changes the hue");
			c.near(m.get_s(), a.get_s(), 1e-2, "set_v changes the saturation");
		}
		m = a;
		m.set_s(t);
		c.near(m.get_s(), t, 1e-3 / mx, "set_s");
		c.near(m.get_v(), a.get_v(), 1e-4, "set_s changes the value");
		m = a;
		m.set_h(t * 0.99f);
		c.near(m.get_h(), t * 0.99, 1e-3 / (mx - mn), "set_h");
	}
	// any hue, also past a full turn, against the definition
	{
		float h = s.one_in(2) ? (float)s.draw(37) / 12.0f : (float)(s.draw(3001) / 1000.0f), sa = s.one_in(6) ? 1.0f : (float)(s.draw(1001) / 1000.0f), va = s.one_in(6) ? 1.0f : (float)(s.draw(1001) / 1000.0f);
		m.set_hsv(h, sa, va, a.a);
		for (int i = 0; i < 3; i++) {
			double kk = std::fmod((i == 0 ? 5 : i == 1 ? 3 : 1) + std::fmod((double)h, 1.0) * 6, 6.0);
			c.near(m[i], va - va * sa * std::max(0.0, std::min({ kk, 4 - kk, 1.0 })), 1e-4, "hue %g saturation %g value %g, component %d", h, sa, va, i);
		}
		c.near(m.a, a.a, 0, "set_hsv, transparency");
	}
	c.check(a == a && !(a != a) && a.is_equal_approx(a) && (a == b) == !(a != b), "equality");
	c.check((a < b) == (std::array<float, 4>{ a.r, a.g, a.b, a.a } < std::array<float, 4>{ b.r, b.g, b.b, b.a }), "order");
	c.no_errors("colours");
}

VT_PROP(P12, colour_codes, 60000) {
	uint32_t v[4] = { (uint32_t)s.draw(256), (uint32_t)s.draw(256), (uint32_t)s.draw(256), s.one_in(2) ? 255u : (uint32_t)s.draw(256) };
	Color a(v[0] / 255.0f, v[1] / 255.0f, v[2] / 255.0f, v[3] / 255.0f);
	c.note("%02x%02x%02x%02x", v[0], v[1], v[2], v[3]);
	c.nt(v[0] != v[1] && v[1] != v[2]);
	uint32_t rgba = v[0] << 24 | v[1] << 16 | v[2] << 8 | v[3], argb = v[3] << 24 | v[0] << 16 | v[1] << 8 | v[2], abgr = v[3] << 24 | v[2] << 16 | v[1] << 8 | v[0];
	c.check(a.to_rgba32() == rgba, "to_rgba32 %08x", a.to_rgba32());
	c.check(a.to_argb32() == argb, "to_argb32 %08x", a.to_argb32());
	c.check(a.to_abgr32() == abgr, "to_abgr32 %08x", a.to_abgr32());
	same_c(c, Color::hex(rgba), a, 1e-6, "hex");
	char buf[32];
	snprintf(buf, sizeof buf, "%02x%02x%02x%02x", v[3], v[0], v[1], v[2]); // as html() reads it
	c.check(a.get_r8() == (int)v[0] && a.get_g8() == (int)v[1] && a.get_b8() == (int)v[2] && a.get_a8() == (int)v[3], "get_r8 and so on");
	Color e;
	e.set_r8(v[0]);
	e.set_g8(v[1]);
	e.set_b8(v[2]);
	e.set_a8(v[3]);
	same_c(c, e, a, 1e-6, "set_r8 and so on");
	same_c(c, Color::color8(v[0], v[1], v[2], v[3]), a, 1e-6, "color8");
	same_c(c, Color::color8(v[0], v[1], v[2]), Color(a, 1), 1e-6, "color8 without alpha");
	// 16 bits each
	uint64_t w[4];
	for (auto &x : w) {
		x = s.draw(65536);
	}
	Color d(w[0] / 65535.0f, w[1] / 65535.0f, w[2] / 65535.0f, w[3] / 65535.0f);
	c.check(d.to_rgba64() == (w[0] << 48 | w[1] << 32 | w[2] << 16 | w[3]), "to_rgba64");
	c.check(d.to_argb64() == (w[3] << 48 | w[0] << 32 | w[1] << 16 | w[2]), "to_argb64");
	c.check(d.to_abgr64() == (w[3] << 48 | w[2] << 32 | w[1] << 16 | w[0]), "to_abgr64");
	same_c(c, Color::hex64(d.to_rgba64()), d, 1e-6, "hex64");
	// text
	String h = a.to_html(true), h6 = a.to_html(false);
	c.check(h.length() == 8 && h6.length() == 6, "lengths of html codes");
	c.check(Color::html_is_valid(h) && Color::html_is_valid(h6) && Color::html_is_valid("#" + h), "a printed code is not valid");
	same_c(c, Color::html(h), a, 1e-6, "html of to_html");
	same_c(c, Color::html("#" + h), a, 1e-6, "html with #");
	same_c(c, Color::html(h6), Color(a, 1), 1e-6, "html without alpha");
	snprintf(buf, sizeof buf, "%02x%02x%02x", v[0], v[1], v[2]);
	c.check(h6.to_lower() == String(buf), "to_html gives %s", sh(h6).c_str());
	c.no_errors("html codes");
	// three-digit codes
	uint32_t q[3] = { (uint32_t)s.draw(16), (uint32_t)s.draw(16), (uint32_t)s.draw(16) };
	snprintf(buf, sizeof buf, "%x%x%x", q[0], q[1], q[2]);
	if (Color::html_is_valid(buf)) {
		same_c(c, Color::html(buf), Color(q[0] / 15.0f, q[1] / 15.0f, q[2] / 15.0f), 1e-5, "three-digit code");
		c.no_errors("three-digit codes");
	}
	// no codes
	U bad = un(h);
	bad[s.draw(8)] = U"gz #-x"[s.draw(6)];
	bool ok = bad[0] == '#' && false;
	if (bad[0] != '#') {
		c.check(Color::html_is_valid(mk(bad)) == ok, "%s passes for a colour code", sh(bad).c_str());
	}
	// shared exponent: every component within one step of 9 bits
	Color f(s.real_in(0, 4), s.real_in(0, 4), s.real_in(0, 4));
	double mx = std::max({ f.r, f.g, f.b });
	if (mx > 0.01) {
		Color g = Color::from_rgbe9995(f.to_rgbe9995());
		for (int i = 0; i < 3; i++) {
			c.near(g[i], f[i], mx / 256, "shared exponent, component %d", i);
		}
	}
	c.no_errors("colour codes");
}

// ---------------------------------------------------------------------------------- P11: the remaining spellings
VT_PROP(P11, basis_spellings, 40000) {
	M3 A = invertible(s), R = rotation(s);
	D<3> S = scaling(s);
	Vector3 v = gen<Vector3>(s), sc = vec(S), eu(angle(s), angle(s), angle(s)), ax = unit<Vector3>(s);
	float phi = angle(s), k = s.real_in(0.3, 3);
	Basis a = bas(A), r = bas(R);
	Quaternion q(ax, phi);
	show(c, "A", A);
	show(c, "R", R);
	show(c, "S", sc);
	show(c, "euler", eu);
	show(c, "axis", ax);
	c.note("phi=%g k=%g", (double)phi, (double)k);
	c.nt(turned(A) && turned(R));
	M3 E = of(Basis(eu)), Q = turn(of(ax), phi);
	Basis x = a;
	x.rotatev(eu);
	same_m(c, x, mul(E, A), 1e-3, "rotatev");
	same_m(c, a.rotatedv(eu), mul(E, A), 1e-3, "rotatedv");
	x = a;
	x.rotateq(q);
	same_m(c, x, mul(Q, A), 1e-3, "rotateq");
	same_m(c, a.rotatedq(q), mul(Q, A), 1e-3, "rotatedq");
	c.check(r.get_rotation() == r.get_rotation_euler(), "get_rotation");
	same_m(c, Basis(q, sc), mul(Q, diag(S)), 1e-3, "of quaternion and scale");
	same_m(c, Basis(eu, sc), mul(E, diag(S)), 1e-3, "of angles and scale");
	same_m(c, Basis(ax, phi, sc), mul(Q, diag(S)), 1e-3, "of axis, angle and scale");
	x.set(a.get_column(0), a.get_column(1), a.get_column(2));
	c.check(x == a && x.is_equal_approx(a), "set from columns");
	c.check(Basis(a.get_row(0), a.get_row(1), a.get_row(2)) == a, "made from rows");
	same_v(c, a.get_main_diagonal(), { A[0][0], A[1][1], A[2][2] }, 1e-5, "get_main_diagonal");
	x.set_zero();
	M3 Z = diag({ 0, 0, 0 });
	same_m(c, x, Z, 0, "set_zero");
	int at = (int)s.draw(9);
	x = a;
	x[at / 3][at % 3] += 0.05f * (1 + std::fabs(x[at / 3][at % 3]));
	c.check(a.is_equal_approx_ratio(a, a) && !a.is_equal_approx_ratio(a, x, 0.001f) && !a.is_equal_approx_ratio(x, a, 0.001f) && !a.is_equal_approx(x), "is_equal_approx of bases that differ in number %d", at);
	// normals stay orthogonal to what they are orthogonal to
	M3 N = tr(inverse(A));
	D<3> n = mul(N, of(v));
	double nl = len(n);
	same_m(c, a.get_normal_xform_basis(), N, 2e-2, "get_normal_xform_basis");
	if (nl > 0.3) {
		D<3> w = per<3>([&](size_t i) { return n[i] / nl; });
		same_v(c, a.xform_normal(v), w, 5e-3, "xform_normal");
		same_v(c, a.get_normal_xform_basis().xform_normal_fast(v), w, 5e-3, "xform_normal_fast");
	}
	// scale
	double sg = s.flag() ? 1 : -1;
	M3 RS = mul(R, diag({ sg * S[0], sg * S[1], sg * S[2] })), SR = mul(diag({ sg * S[0], sg * S[1], sg * S[2] }), R);
	Basis rs = bas(RS), sr = bas(SR);
	same_v(c, sr.get_scale_local(), { sg * S[0], sg * S[1], sg * S[2] }, 1e-3, "get_scale_local");
	Basis rk = bas(mul(R, diag({ k, k, k })));
	c.near(rk.get_uniform_scale(), k, 1e-3, "get_uniform_scale");
	x = a;
	x.make_scale_uniform();
	double mean = 0;
	for (int i = 0; i < 3; i++) {
		mean += len(of(a.get_row(i))) / 3;
	}
	for (int i = 0; i < 3; i++) {
		double l = len(of(a.get_row(i)));
		same_v(c, x.get_row(i), per<3>([&](size_t j) { return A[i][j] / l * mean; }), 2e-3, "make_scale_uniform");
	}
	same_m(c, Basis().scaled_orthogonal(sc), diag(S), 1e-3, "scaled_orthogonal of the identity");
	x = Basis();
	x.scale_orthogonal(sc);
	same_m(c, x, diag(S), 1e-3, "scale_orthogonal of the identity");
	// a rotation and a scale come apart again
	if (sg > 0) {
		Basis o;
		Vector3 ps = rs.rotref_posscale_decomposition(o);
		same_v(c, ps, S, 2e-3, "scale of rotref_posscale_decomposition");
		same_m(c, o, R, 2e-3, "rotation of rotref_posscale_decomposition");
	}
	Vector3 ra;
	real_t ang = 0;
	rs.get_rotation_axis_angle(ra, ang);
	c.check(apart(turn(of(ra), ang), R) < 0.03, "get_rotation_axis_angle is another rotation by %g", apart(turn(of(ra), ang), R));
	sr.get_rotation_axis_angle_local(ra, ang);
	c.check(apart(turn(of(ra), ang), R) < 0.03, "get_rotation_axis_angle_local is another rotation by %g", apart(turn(of(ra), ang), R));
	// orthogonal columns of the same lengths
	same_m(c, rs.orthogonalized(), RS, 2e-3, "orthogonalized changes what is orthogonal already");
	x = a;
	x.orthogonalize();
	c.check(x == a.orthogonalized(), "orthogonalize and orthogonalized");
	M3 X = of(x);
	for (int i = 0; i < 3; i++) {
		D<3> ci = of(x.get_column(i)), was = of(a.get_column(i));
		c.near(len(ci), len(was), 5e-3, "length of column %d after orthogonalize", i);
		for (int j = 0; j < i; j++) {
			c.near(dot(ci, of(x.get_column(j))), 0, 2e-2, "columns %d and %d after orthogonalize", i, j);
		}
	}
	c.check(det(X) * det(A) > 0, "orthogonalize mirrors");
	// whole vectors under whole matrices
	M3 W;
	Vector3i iv;
	for (int i = 0; i < 9; i++) {
		W[i / 3][i % 3] = (double)s.sint(4);
		iv[i % 3] = (int)s.sint(20);
	}
	Basis w = bas(W);
	D<3> wi = mul(W, D<3>{ (double)iv.x, (double)iv.y, (double)iv.z }), wt = mul(tr(W), D<3>{ (double)iv.x, (double)iv.y, (double)iv.z });
	Vector3i gi = w.xform(iv), gt = w.xform_inv(iv);
	Vector3i org((int)s.sint(20), (int)s.sint(20), (int)s.sint(20));
	Transform tw(w, Vector3(org));
	Vector3i ti = tw.xform(iv), tt = tw.xform_inv(iv);
	D<3> dv = mul(tr(W), D<3>{ (double)iv.x - org.x, (double)iv.y - org.y, (double)iv.z - org.z });
	PoolVector<Vector3i> pv;
	pv.push_back(iv);
	pv.push_back(org);
	PoolVector<Vector3i> px = tw.xform(pv), pi = tw.xform_inv(pv);
	c.check(px.size() == 2 && px[0] == ti && px[1] == tw.xform(org) && pi.size() == 2 && pi[0] == tt && pi[1] == tw.xform_inv(org), "arrays of whole vectors");
	for (int i = 0; i < 3; i++) {
		c.check(gi[i] == (int)wi[i] && gt[i] == (int)wt[i], "whole vector through a basis, component %d: %d and %d, expected %g and %g", i, gi[i], gt[i], wi[i], wt[i]);
		c.check(ti[i] == (int)wi[i] + org[i] && tt[i] == (int)dv[i], "whole vector through a transform, component %d: %d and %d, expected %g and %g", i, ti[i], tt[i], wi[i] + org[i], dv[i]);
	}
	c.no_errors("bases");
}

VT_PROP(P11, transform_spellings, 40000) {
	M3 A = invertible(s), B = invertible(s);
	D<3> O = of(gen<Vector3>(s)), P = of(gen<Vector3>(s));
	Vector3 v = gen<Vector3>(s), ax = unit<Vector3>(s);
	D<3> V = of(v);
	float phi = angle(s), k = s.real(3), t = s.real_in(0, 1);
	Transform a(bas(A), vec(O)), b(bas(B), vec(P)), x;
	show(c, "A", A);
	show(c, "O", vec(O));
	show(c, "v", v);
	c.note("phi=%g k=%g", (double)phi, (double)k);
	c.nt(turned(A) && len(O) > 0.5);
	auto same = [&](const Transform &g, const M3 &m, const D<3> &o, double e, const char *what) {
		same_m(c, g.basis, m, e, what);
		same_v(c, g.origin, o, e, what);
	};
	M3 Q = turn(of(ax), phi);
	x = a;
	x.rotate_local(ax, phi);
	same(x, mul(A, Q), O, 1e-3, "rotate_local");
	D<3> tl = add(O, mul(A, V));
	x = a;
	x.translate_local(v.x, v.y, v.z);
	same(x, A, tl, 1e-3, "translate_local of numbers");
	x = a;
	x.translate_local(v);
	same(x, A, tl, 1e-3, "translate_local");
	x = a;
	x.translate_localr(v.x, v.y, v.z);
	same(x, A, tl, 1e-3, "translate_localr");
	x = a;
	x.translate_localv(v);
	same(x, A, tl, 1e-3, "translate_localv");
	M3 kA;
	for (int i = 0; i < 9; i++) {
		kA[i / 3][i % 3] = k * A[i / 3][i % 3];
	}
	D<3> kO = per<3>([&](size_t i) { return k * O[i]; });
	x = a;
	x *= k;
	same(x, kA, kO, 1e-3, "*= number");
	same(a * k, kA, kO, 1e-3, "* number");
	x = a;
	x.orthonormalize();
	c.check(x == a.orthonormalized() && x.basis == a.basis.orthonormalized() && x.origin == a.origin, "orthonormalize");
	x = a;
	x.orthogonalize();
	c.check(x == a.orthogonalized() && x.basis == a.basis.orthogonalized() && x.origin == a.origin, "orthogonalize");
	Transform u = a.spherical_interpolate_with(b, t), w = a.interpolate_with(b, t);
	c.check(u.is_equal_approx(w) || apart(of(u.basis), of(w.basis)) < 1e-3, "two ways to interpolate");
	same(Transform(A[0][0], A[0][1], A[0][2], A[1][0], A[1][1], A[1][2], A[2][0], A[2][1], A[2][2], O[0], O[1], O[2]), A, O, 1e-5, "made from numbers");
	same(Transform(a.basis.get_column(0), a.basis.get_column(1), a.basis.get_column(2), a.origin), A, O, 1e-5, "made from columns");
	x.set(A[0][0], A[0][1], A[0][2], A[1][0], A[1][1], A[1][2], A[2][0], A[2][1], A[2][2], O[0], O[1], O[2]);
	same(x, A, O, 1e-5, "set");
	x = b;
	x.set_basis(a.get_basis());
	c.check(x.basis == a.basis && x.origin == b.origin, "set_basis");
	x.set_origin(a.get_origin());
	c.check(x == a && !(x != a), "set_origin");
	// quaternions
	M3 R = rotation(s);
	Quaternion q = bas(R).get_quaternion(), h(s.real(2), s.real(2), s.real(2), s.real(2)), y;
	double qd[4] = { q.x, q.y, q.z, q.w }, hd[4] = { h.x, h.y, h.z, h.w };
	y = q;
	y += h;
	Quaternion sum = q + h, dif = q - h, mk = q * k, neg = -q, dm = q, dk = q;
	dm -= h;
	dk *= k;
	for (int i = 0; i < 4; i++) {
		c.check(static_cast<const Quaternion &>(q)[i] == (float)qd[i], "component %d of a quaternion", i);
		c.near(y[i], qd[i] + hd[i], 1e-5, "quaternion +=, %d", i);
		c.near(sum[i], qd[i] + hd[i], 1e-5, "quaternion +, %d", i);
		c.near(dif[i], qd[i] - hd[i], 1e-5, "quaternion -, %d", i);
		c.near(dm[i], qd[i] - hd[i], 1e-5, "quaternion -=, %d", i);
		c.near(mk[i], qd[i] * k, 1e-5, "quaternion * number, %d", i);
		c.near(dk[i], qd[i] * k, 1e-5, "quaternion *= number, %d", i);
		c.near(neg[i], -qd[i], 0, "quaternion -, %d", i);
	}
	if (std::fabs(k) > 0.1) {
		Quaternion d1 = h / k, d2 = h;
		d2 /= k;
		for (int i = 0; i < 4; i++) {
			c.near(d1[i], hd[i] / k, 1e-3, "quaternion / number, %d", i);
			c.near(d2[i], hd[i] / k, 1e-3, "quaternion /= number, %d", i);
		}
	}
	Quaternion pv(v.x, v.y, v.z, 0), qp = q * pv, qv = q * v;
	for (int i = 0; i < 4; i++) {
		c.near(qv[i], qp[i], 1e-4, "quaternion times vector, %d", i);
	}
	double hl = std::sqrt(hd[0] * hd[0] + hd[1] * hd[1] + hd[2] * hd[2] + hd[3] * hd[3]);
	if (hl > 0.1) {
		y = h;
		y.normalize();
		for (int i = 0; i < 4; i++) {
			c.near(y[i], hd[i] / hl, 1e-5, "normalize, %d", i);
		}
		c.check(y.is_normalized() && y.is_equal_approx(h.normalized()), "normalized");
	}
	int at = (int)s.draw(4);
	y = q;
	y[at] += 0.01f;
	c.check(q.is_equal_approx(q) && !q.is_equal_approx(y) && !y.is_equal_approx(q) && !(y == q) && y != q, "is_equal_approx of quaternions that differ in number %d", at);
	Vector3 eu(angle(s), angle(s), angle(s));
	c.check(apart(of(Quaternion(eu)), of(Basis(eu))) < 1e-3, "quaternion and basis of the same angles");
	c.no_errors("transforms");
}

VT_PROP(P11, plane_transform_spellings, 40000) {
	double ra = angle(s), skew = s.real_in(-1, 1), sx = s.real_in(0.3, 3), sy = s.real_in(0.3, 3);
	Vector2 o = gen<Vector2>(s), v = gen<Vector2>(s);
	D<2> O = of(o), V = of(v);
	float k = s.real(3);
	c.note("rotation=%g skew=%g scale=%g,%g k=%g", ra, skew, sx, sy, (double)k);
	show(c, "o", o);
	show(c, "v", v);
	c.nt(std::fabs(ra) > 0.1 && std::fabs(skew) > 0.1);
	Transform2D a((float)ra, Vector2(sx, sy), (float)skew, o);
	double X[2] = { std::cos(ra) * sx, std::sin(ra) * sx }, Y[2] = { -std::sin(ra + skew) * sy, std::cos(ra + skew) * sy };
	auto same = [&](const Transform2D &g, const D<2> &x, const D<2> &y, const D<2> &org, const char *what) {
		same_v(c, g.columns[0], x, 1e-3, what);
		same_v(c, g.columns[1], y, 1e-3, what);
		same_v(c, g.columns[2], org, 1e-3, what);
	};
	D<2> DX = { X[0], X[1] }, DY = { Y[0], Y[1] };
	same(a, DX, DY, O, "made from rotation, scale and skew");
	c.near(std::remainder(a.get_rotation() - ra, 2 * PI), 0, 1e-3, "get_rotation");
	c.near(a.get_skew(), skew, 2e-3, "get_skew");
	same_v(c, a.get_scale(), { sx, sy }, 1e-3, "get_scale");
	D<2> moved = add(O, V), local = { O[0] + X[0] * V[0] + Y[0] * V[1], O[1] + X[1] * V[0] + Y[1] * V[1] };
	Transform2D x = a;
	x.translate(v.x, v.y);
	same(x, DX, DY, moved, "translate of numbers");
	x = a;
	x.translatev(v);
	same(x, DX, DY, moved, "translatev");
	x = a;
	x.translater(v.x, v.y);
	same(x, DX, DY, moved, "translater");
	x = a;
	x.translate_local(v.x, v.y);
	same(x, DX, DY, local, "translate_local of numbers");
	x = a;
	x.translate_localr(v.x, v.y);
	same(x, DX, DY, local, "translate_localr");
	x = a;
	x.translate_localv(v);
	same(x, DX, DY, local, "translate_localv");
	auto times = [&](const D<2> &d) { return per<2>([&](size_t i) { return d[i] * k; }); };
	x = a;
	x *= k;
	same(x, times(DX), times(DY), times(O), "*= number");
	same(a * k, times(DX), times(DY), times(O), "* number");
	auto by = [&](const D<2> &d) { return D<2>{ d[0] * V[0], d[1] * V[1] }; };
	same(a.basis_scaled(v), by(DX), by(DY), O, "basis_scaled");
	for (int i = 0; i < 3; i++) {
		c.check(a.get_column(i) == a.columns[i] && a.get_axis(i) == a.columns[i] && a[i] == a.columns[i], "column %d", i);
		Transform2D y = a, z = a;
		y.set_column(i, v);
		z.set_axis(i, v);
		for (int j = 0; j < 3; j++) {
			c.check(y.columns[j] == (j == i ? v : a.columns[j]) && z.columns[j] == y.columns[j], "set_column or set_axis %d", i);
		}
		y = a;
		y[i] = v;
		c.check(y == z, "column %d through []", i);
	}
	// whole vectors under whole matrices
	Transform2D w;
	Vector2i iv((int)s.sint(20), (int)s.sint(20)), org((int)s.sint(20), (int)s.sint(20));
	int m[4];
	for (int &e : m) {
		e = (int)s.sint(4);
	}
	w.columns[0] = Vector2(m[0], m[1]);
	w.columns[1] = Vector2(m[2], m[3]);
	w.columns[2] = Vector2(org);
	c.note("whole: %d %d %d %d", m[0], m[1], m[2], m[3]);
	auto f = [&](Vector2i p) { return Vector2i(m[0] * p.x + m[2] * p.y, m[1] * p.x + m[3] * p.y); };
	auto g = [&](Vector2i p) { return Vector2i(m[0] * p.x + m[1] * p.y, m[2] * p.x + m[3] * p.y); };
	c.check(w.basis_xform(iv) == f(iv) && w.basis_xform_inv(iv) == g(iv), "basis_xform of a whole vector");
	c.check(w.xform(iv) == f(iv) + org && w.xform_inv(iv) == g(iv - org), "xform of a whole vector");
	PoolVector<Vector2i> pv;
	pv.push_back(iv);
	pv.push_back(org);
	PoolVector<Vector2i> px = w.xform(pv), pi = w.xform_inv(pv);
	c.check(px.size() == 2 && px[0] == f(iv) + org && px[1] == f(org) + org && pi.size() == 2 && pi[0] == g(iv - org) && pi[1] == Vector2i(), "arrays of whole vectors");
	// projections
	float fov = s.real_in(20, 120), asp = s.real_in(0.4, 2.5), n = s.real_in(0.05, 1), fa = n + s.real_in(1, 90);
	bool flip = s.flag();
	Projection p, q;
	p.set_perspective(fov, asp, n, fa, flip);
	q.set_perspective1(fov, asp, n, fa, flip);
	c.check(p == q && !(p != q), "set_perspective1");
	for (int eye = 0; eye <= 2; eye++) {
		p.set_perspective(fov, asp, n, fa, flip, eye, 0.06f, 5);
		q.set_perspective2(fov, asp, n, fa, flip, eye, 0.06f, 5);
		c.check(p == q, "set_perspective2 for eye %d", eye);
	}
	p.set_orthogonal(-1 - k * k, 2, -1, 3 + k * k, n, fa);
	q.set_orthogonal1(-1 - k * k, 2, -1, 3 + k * k, n, fa);
	c.check(p == q, "set_orthogonal1");
	p.set_orthogonal(fov, asp, n, fa, flip);
	q.set_orthogonal2(fov, asp, n, fa, flip);
	c.check(p == q, "set_orthogonal2");
	p.set_frustum(-1 - k * k, 2, -1, 3 + k * k, n, fa);
	q.set_frustum1(-1 - k * k, 2, -1, 3 + k * k, n, fa);
	c.check(p == q, "set_frustum1");
	p.set_frustum(fov, asp, Vector2(0.1f, 0.2f), n, fa, flip);
	q.set_frustum2(fov, asp, Vector2(0.1f, 0.2f), n, fa, flip);
	c.check(p == q, "set_frustum2");
	const Projection &cp = p;
	Projection r(cp[0], cp[1], cp[2], cp[3]);
	c.check(r == p, "made from columns");
	int at = (int)s.draw(4);
	r[at][at] += 0.5f;
	c.check(r != p && !(r == p), "projections that differ in number %d", at);
	c.near(p.calculate_fovy(fov, asp), 2 * std::atan(asp * std::tan(fov * PI / 360)) * 180 / PI, 2e-2, "calculate_fovy");
	c.near(Projection::get_fovy(fov, asp), 2 * std::atan(asp * std::tan(fov * PI / 360)) * 180 / PI, 2e-2, "get_fovy");
	c.no_errors("plane transforms");
}
