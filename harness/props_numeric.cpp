// C15-C18: statistics, numerical analysis, convolutions and the cosine transform against double precision definitions
#include "core/convolutions.h"
#include "core/numerical_analysis.h"
#include "core/stat.h"
#include "core/transforms.h"
#include "ml.h"

using vt::Ctx;
using vt::Src;

// ------------------------------------------------------------------------------------ C15 statistics
static double mean_of(const DV &v) {
	double t = 0;
	for (double x : v) {
		t += x;
	}
	return t / v.size();
}
static double cov_of(const DV &a, const DV &b) {
	double ma = mean_of(a), mb = mean_of(b), t = 0;
	for (size_t i = 0; i < a.size(); i++) {
		t += (a[i] - ma) * (b[i] - mb);
	}
	return t / (a.size() - 1);
}
static DV sample(Src &s, int n, bool pos) {
	DV v(n);
	bool rep = s.flag(); // few distinct values
	for (auto &x : v) {
		if (pos) {
			x = rep ? (double)s.range(1, 4) : f32(s.real_in(0.125f, 6.0f));
		} else {
			x = rep ? (double)s.sint(3) : f32(s.real(16));
		}
	}
	return v;
}
static bool varied(const DV &v) {
	for (double x : v) {
		if (x != v[0]) {
			return true;
		}
	}
	return false;
}

VT_PROP(C15, order_statistics, 20000) {
	Ref<MLPPStat> st;
	st.instance();
	int n = s.grown(1, 12, 100);
	DV v = sample(s, n, false);
	note(c, "x", v);
	Ref<MLPPVector> x = mkv(v);
	DV o = v;
	std::sort(o.begin(), o.end());
	double med = n % 2 ? o[n / 2] : (o[n / 2 - 1] + o[n / 2]) / 2;
	c.near(st->median(x), med, 1e-5, "median");
	c.near(st->range(x), o.back() - o.front(), 1e-5, "range");
	std::map<double, int> cnt;
	int best = 0;
	for (double d : v) {
		best = std::max(best, ++cnt[d]);
	}
	std::vector<double> want, got;
	for (auto &kv : cnt) {
		if (kv.second == best) {
			want.push_back(kv.first);
		}
	}
	Ref<MLPPVector> mo = st->mode(x);
	c.check(mo.is_valid(), "mode: no result");
	got = dv(mo);
	std::sort(got.begin(), got.end());
	c.check(got == want, "mode: %d values, expected %d (or other values)", (int)got.size(), (int)want.size());
	double m = mean_of(v), dev = 0;
	for (double d : v) {
		dev += std::fabs(d - m) / n;
	}
	c.near(st->meanv(x), m, 1e-5, "mean");
	c.near(st->abs_avg_deviation(x), dev, 1e-5, "average absolute deviation");
	eqv(c, x, v, 0, 0, "sample afterwards");
	c.no_errors("statistics");
	c.nt(varied(v));
}

VT_PROP(C15, moments, 20000) {
	Ref<MLPPStat> st;
	st.instance();
	int n = s.grown(2, 12, 100);
	DV a = sample(s, n, false), b = sample(s, n, false);
	if (s.one_in(4)) { // linear dependence
		double k = s.sint(3), d = s.sint(4);
		for (int i = 0; i < n; i++) {
			b[i] = f32(k * a[i] + d);
		}
	}
	note(c, "x", a);
	note(c, "y", b);
	Ref<MLPPVector> x = mkv(a), y = mkv(b);
	double va = cov_of(a, a), vb = cov_of(b, b), ab = cov_of(a, b), mag = 0, magb = 0;
	for (int i = 0; i < n; i++) {
		mag = std::max(mag, std::fabs(a[i]));
		magb = std::max(magb, std::fabs(b[i]));
	}
	double tol = 4e-6 * (mag * mag + 1), tolab = 4e-6 * (mag * magb + 1);
	c.near(st->variancev(x), va, tol, "variance");
	c.near(st->covariancev(x, y), ab, tolab, "covariance");
	if (va > 1e-2) {
		c.near(st->standard_deviationv(x), std::sqrt(va), tol / std::sqrt(va), "standard deviation");
		if (vb > 1e-2) {
			double r = ab / std::sqrt(va * vb), t = 3 * tolab / std::sqrt(va * vb) + 2 * tol / va + 8e-6 * (magb * magb + 1) / vb;
			c.near(st->correlation(x, y), r, t, "correlation");
			c.near(st->r2(x, y), r * r, 2 * t, "coefficient of determination");
		}
	}
	double k = s.real_in(1, 10);
	c.near(st->chebyshev_ineq((real_t)k), 1 - 1 / (k * k), 1e-6, "Chebyshev bound");
	if (va > 0.05) { // least squares line
		double b1 = ab / va, b0 = mean_of(b) - b1 * mean_of(a);
		double t = 8 * (tolab + tol * (1 + std::fabs(b1))) / va;
		c.near(st->b1_estimation(x, y), b1, t, "slope estimate");
		c.near(st->b0_estimation(x, y), b0, t * (1 + mag) + 1e-5 * (magb + std::fabs(b1) * mag), "intercept estimate");
	}
	eqv(c, x, a, 0, 0, "sample afterwards");
	eqv(c, y, b, 0, 0, "sample afterwards");
	c.no_errors("statistics");
	c.nt(varied(a) && varied(b));
}

VT_PROP(C15, means, 20000) {
	Ref<MLPPStat> st;
	st.instance();
	int n = s.grown(1, 10, 60);
	DV a = sample(s, n, true), w = sample(s, n, true);
	note(c, "x", a);
	note(c, "w", w);
	double p = s.pick({ 1.0, 2.0, 3.0, -1.0, 0.5, -2.0 });
	c.note("p=%g", p);
	Ref<MLPPVector> x = mkv(a), wv = mkv(w);
	double sw = 0, swx = 0, lg = 0, inv = 0, sq = 0, sp = 0, sp1 = 0, wp = 0, wp1 = 0, s1 = 0, s2 = 0;
	for (int i = 0; i < n; i++) {
		sw += w[i];
		swx += w[i] * a[i];
		lg += std::log(a[i]);
		inv += 1 / a[i];
		sq += a[i] * a[i];
		sp += std::pow(a[i], p);
		sp1 += std::pow(a[i], p - 1);
		wp += w[i] * std::pow(a[i], p);
		wp1 += w[i] * std::pow(a[i], p - 1);
		s1 += a[i];
		s2 += a[i] * a[i];
	}
	auto nr = [&](double got, double want, const char *what) { c.near(got, want, 2e-5 * (1 + std::fabs(want)), "%s", what); };
	nr(st->weighted_mean(x, wv), swx / sw, "weighted mean");
	nr(st->geometric_mean(x), std::exp(lg / n), "geometric mean");
	nr(st->harmonic_mean(x), n / inv, "harmonic mean");
	nr(st->rms(x), std::sqrt(sq / n), "root mean square");
	nr(st->power_mean(x, (real_t)p), std::pow(sp / n, 1 / p), "power mean");
	nr(st->lehmer_mean(x, (real_t)p), sp / sp1, "Lehmer mean");
	nr(st->weighted_lehmer_mean(x, wv, (real_t)p), wp / wp1, "weighted Lehmer mean");
	nr(st->contra_harmonic_mean(x), s2 / s1, "contraharmonic mean");
	double A = a[0], B = w[0], h = s.real_in(0, 1);
	c.note("h=%g", h);
	nr(st->heronian_mean((real_t)A, (real_t)B), (A + std::sqrt(A * B) + B) / 3, "Heronian mean");
	nr(st->heinz_mean((real_t)A, (real_t)B, (real_t)h), (std::pow(A, h) * std::pow(B, 1 - h) + std::pow(A, 1 - h) * std::pow(B, h)) / 2, "Heinz mean");
	if (A == B || std::fabs(A - B) > 0.25) {
		double st_want = A, id = A, lm = A;
		double q = s.pick({ 2.0, 3.0, 4.0, -1.0 });
		if (A != B) {
			st_want = std::pow((std::pow(A, q) - std::pow(B, q)) / (q * (A - B)), 1 / (q - 1));
			id = std::exp(-1 + (A * std::log(A) - B * std::log(B)) / (A - B));
			lm = (B - A) / (std::log(B) - std::log(A));
		}
		c.near(st->stolarsky_mean((real_t)A, (real_t)B, (real_t)q), st_want, 1e-3 * (1 + std::fabs(st_want)), "Stolarsky mean (p=%g)", q);
		c.near(st->identric_mean((real_t)A, (real_t)B), id, 2e-4 * (1 + id), "identric mean");
		c.near(st->log_mean((real_t)A, (real_t)B), lm, 2e-5 * (1 + lm), "logarithmic mean");
	}
	eqv(c, x, a, 0, 0, "sample afterwards");
	c.no_errors("statistics");
	c.nt(varied(a));
}

// the tests of the repository pin the wrong values of these two
VT_WITNESS(C15, midrange) {
	Ref<MLPPStat> st;
	st.instance();
	c.near(st->midrange(mkv(DV{ 1, 10 })), 5.5, 1e-5, "midrange of 1 and 10");
}
VT_WITNESS(C15, neuman_sandor_mean) {
	Ref<MLPPStat> st;
	st.instance();
	c.near(st->neuman_sandor_mean(1, 10), 9 / (2 * std::asinh(9.0 / 11)), 1e-3, "Neuman-Sandor mean of 1 and 10");
}

// ------------------------------------------------------------------------------------ C16 numerical analysis
struct Mono {
	double k;
	int e[3];
};
struct Poly {
	int n = 1;
	std::vector<Mono> t;
	double at(const double *x) const {
		double v = 0;
		for (auto &m : t) {
			double y = m.k;
			for (int i = 0; i < n; i++) {
				for (int j = 0; j < m.e[i]; j++) {
					y *= x[i];
				}
			}
			v += y;
		}
		return v;
	}
	Poly d(int axis) const {
		Poly o;
		o.n = n;
		for (auto m : t) {
			if (m.e[axis]) {
				m.k *= m.e[axis]--;
				o.t.push_back(m);
			}
		}
		return o;
	}
	Poly abs() const {
		Poly o = *this;
		for (auto &m : o.t) {
			m.k = std::fabs(m.k);
		}
		return o;
	}
};
static Poly g_poly;
static int g_calls;
static real_t eval1(real_t x) {
	double d[3] = { x, 0, 0 };
	return (real_t)g_poly.at(d);
}
static real_t evalv(const Ref<MLPPVector> &x) {
	double d[3] = { 0, 0, 0 };
	for (int i = 0; i < x->size() && i < 3; i++) {
		d[i] = x->element_get(i);
	}
	return (real_t)g_poly.at(d);
}
static Poly gen_poly(Src &s, Ctx &c, int n, int deg) {
	Poly p;
	p.n = n;
	int k = s.size(1, n == 1 ? 5 : 6);
	for (int i = 0; i < k; i++) {
		Mono m;
		m.k = s.pick({ 1.0, -1.0, 2.0, 0.5, -1.5, 0.25, -2.0 });
		int left = (int)s.range(0, deg);
		for (int j = 0; j < 3; j++) {
			m.e[j] = 0;
		}
		while (left-- > 0) {
			m.e[s.draw((uint64_t)n)]++;
		}
		p.t.push_back(m);
		c.note("%+g*x^%d*y^%d*z^%d", m.k, m.e[0], m.e[1], m.e[2]);
	}
	return p;
}
// error allowances for quotients of first to third order
struct Tol {
	double b[6]; // bounds of all derivatives of each total order near the point
	double order(int k) const {
		static const double step[4] = { 0, 2e-3, 0.04, 0.15 }, noise[4] = { 1e-6, 4e-4, 4e-3, 8e-3 };
		double t = noise[k] * (b[0] + 1);
		if (k) {
			t += step[k] * (b[k + 1] + 0.1 * b[std::min(5, k + 2)]);
		}
		return t;
	}
};
static void bounds(const Poly &p, const double *x, int k, double *b) {
	double y[3];
	for (int i = 0; i < p.n; i++) {
		y[i] = std::fabs(x[i]) + 0.25;
	}
	b[k] += p.abs().at(y);
	if (k < 5) {
		for (int i = 0; i < p.n; i++) {
			bounds(p.d(i), x, k + 1, b);
		}
	}
}
static Tol tolerances(const Poly &p, const double *x) {
	Tol t;
	for (double &v : t.b) {
		v = 0;
	}
	bounds(p, x, 0, t.b);
	return t;
}

VT_PROP(C16, derivatives_1d, 30000) {
	Ref<MLPPNumericalAnalysis> na;
	na.instance();
	g_poly = gen_poly(s, c, 1, 4);
	double x = s.real_in(-2, 2), x2 = x + s.real_in(-1, 1);
	c.note("at %g, evaluated at %g", x, x2);
	x2 = f32(x2);
	Tol t = tolerances(g_poly, &x);
	double f = g_poly.at(&x), d1 = g_poly.d(0).at(&x), d2 = g_poly.d(0).d(0).at(&x), d3 = g_poly.d(0).d(0).d(0).at(&x);
	c.near(na->num_diffr(eval1, (real_t)x), d1, t.order(1), "first derivative");
	c.near(na->num_diff_2r(eval1, (real_t)x), d2, t.order(2), "second derivative");
	c.near(na->num_diff_3r(eval1, (real_t)x), d3, t.order(3), "third derivative");
	double h = x2 - x, w = f, tol = t.order(0);
	c.near(na->constant_approximationr(eval1, (real_t)x), w, tol, "constant approximation");
	w += d1 * h;
	tol += t.order(1) * std::fabs(h) + 1e-6 * std::fabs(d1 * h);
	c.near(na->linear_approximationr(eval1, (real_t)x, (real_t)x2), w, tol, "linear approximation");
	w += d2 * h * h / 2;
	tol += t.order(2) * h * h / 2;
	c.near(na->quadratic_approximationr(eval1, (real_t)x, (real_t)x2), w, tol, "quadratic approximation");
	w += d3 * h * h * h / 6;
	tol += t.order(3) * std::fabs(h * h * h) / 6;
	c.near(na->cubic_approximationr(eval1, (real_t)x, (real_t)x2), w, tol, "cubic approximation");
	c.no_errors("numerical analysis");
	c.nt(d1 != 0 || d2 != 0);
}

VT_PROP(C16, derivatives_nd, 8000) {
	Ref<MLPPNumericalAnalysis> na;
	na.instance();
	int n = (int)s.range(1, 3);
	g_poly = gen_poly(s, c, n, 3);
	double x[3] = { 0, 0, 0 }, h[3] = { 0, 0, 0 };
	DV xv(n), yv(n);
	for (int i = 0; i < n; i++) {
		xv[i] = x[i] = s.real_in(-2, 2);
		yv[i] = f32(x[i] + s.real_in(-1, 1));
		h[i] = yv[i] - x[i];
	}
	note(c, "c", xv);
	note(c, "x", yv);
	Ref<MLPPVector> X = mkv(xv), Y = mkv(yv);
	Tol t = tolerances(g_poly, x);
	DV J(n);
	DM H(n, n);
	double lap = 0, w = g_poly.at(x), lin = 0, quad = 0, cub = 0, ah = 0;
	Ref<MLPPVector> gj = na->jacobian(evalv, X);
	c.check(gj.is_valid() && gj->size() == n, "gradient: wrong size");
	Ref<MLPPMatrix> gh = na->hessian(evalv, X);
	c.check(gh.is_valid() && gh->size() == Size2i(n, n), "Hessian: wrong size");
	Ref<MLPPTensor3> gt = na->third_order_tensor(evalv, X);
	c.check(gt.is_valid() && gt->size() == Size3i(n, n, n), "third order tensor: wrong size");
	Vector<Ref<MLPPMatrix>> gv = na->third_order_tensorvt(evalv, X);
	c.check(gv.size() == n, "third order tensor (list): wrong size");
	for (int i = 0; i < n; i++) {
		Poly pi = g_poly.d(i);
		J[i] = pi.at(x);
		lin += J[i] * h[i];
		ah += std::fabs(h[i]);
		c.near(na->num_diffv(evalv, X, i), J[i], t.order(1), "partial derivative %d", i);
		c.near(gj->element_get(i), J[i], t.order(1), "gradient, element %d", i);
		for (int j = 0; j < n; j++) {
			Poly pij = pi.d(j);
			H.at(i, j) = pij.at(x);
			quad += H.at(i, j) * h[i] * h[j] / 2;
			c.near(na->num_diff_2v(evalv, X, i, j), H.at(i, j), t.order(2), "second partial derivative %d %d", i, j);
			c.near(gh->element_get(i, j), H.at(i, j), t.order(2), "Hessian element %d %d", i, j);
			for (int k = 0; k < n; k++) {
				double v = pij.d(k).at(x);
				cub += v * h[i] * h[j] * h[k] / 6;
				c.near(na->num_diff_3v(evalv, X, i, j, k), v, t.order(3), "third partial derivative %d %d %d", i, j, k);
				c.near(gt->element_get(i, j, k), v, t.order(3), "third order tensor element %d %d %d", i, j, k);
				c.near(gv[i]->element_get(j, k), v, t.order(3), "third order tensor (list) element %d %d %d", i, j, k);
			}
		}
		lap += H.at(i, i);
	}
	c.near(na->laplacian(evalv, X), lap, n * t.order(2), "Laplacian");
	double tol = t.order(0);
	c.near(na->constant_approximationv(evalv, X), w, tol, "constant approximation");
	tol += t.order(1) * ah + 1e-6 * std::fabs(lin);
	c.near(na->linear_approximationv(evalv, X, Y), w + lin, tol, "linear approximation");
	tol += t.order(2) * ah * ah / 2;
	c.near(na->quadratic_approximationv(evalv, X, Y), w + lin + quad, tol, "quadratic approximation");
	tol += t.order(3) * ah * ah * ah / 6;
	c.near(na->cubic_approximationv(evalv, X, Y), w + lin + quad + cub, tol, "cubic approximation");
	eqv(c, X, xv, 0, 0, "point afterwards");
	eqv(c, Y, yv, 0, 0, "point afterwards");
	c.no_errors("numerical analysis");
	c.nt(n > 1 && lin != 0);
}

static double g_root, g_k, g_m, g_a;
static real_t evalroot(real_t x) {
	double u = (double)x - g_root;
	return (real_t)(g_a * (u + g_k * u * u + g_m * u * u * u));
}
VT_PROP(C16, roots, 20000) {
	Ref<MLPPNumericalAnalysis> na;
	na.instance();
	g_root = s.real(4);
	g_k = s.real_in(-0.3f, 0.3f);
	g_m = s.real_in(-0.3f, 0.3f);
	g_a = s.pick({ 1.0, -1.0, 2.0, -0.5, 4.0 });
	double start = f32(g_root + s.real_in(-0.4f, 0.4f));
	c.note("f = %g*(u %+g*u^2 %+g*u^3), u = x - %g; start %g", g_a, g_k, g_m, g_root, start);
	int epochs = (int)s.range(12, 20);
	c.near(na->newton_raphson_method(evalroot, (real_t)start, epochs), g_root, 1e-5, "Newton iteration");
	c.near(na->halley_method(evalroot, (real_t)start, epochs), g_root, 1e-5, "Halley iteration");
	c.nt(std::fabs(start - g_root) > 1e-3);
	// inverse quadratic interpolation: the recurrence itself, for as long as it is well conditioned
	double p[3] = { start, f32(start + s.pick({ 0.25, -0.25, 0.5 })), f32(start - s.pick({ 0.75, 0.125, 1.0 })) };
	int ep = (int)s.range(1, 3);
	DV pv(p, p + 3);
	double x = 0, mag = 0, cond = 1;
	for (int e = 0; e < ep; e++) {
		double f[3];
		for (int i = 0; i < 3; i++) {
			double u = p[i] - g_root;
			f[i] = g_a * (u + g_k * u * u + g_m * u * u * u);
		}
		x = 0;
		for (int i = 0; i < 3; i++) {
			int j = (i + 1) % 3, k = (i + 2) % 3;
			double den = (f[i] - f[j]) * (f[i] - f[k]);
			if (std::fabs(f[i] - f[j]) < 0.03 * std::fabs(g_a) || std::fabs(f[i] - f[k]) < 0.03 * std::fabs(g_a)) {
				c.discard();
			}
			x += p[i] * f[j] * f[k] / den;
			mag += std::fabs(p[i] * f[j] * f[k] / den);
		}
		cond *= 60;
		if (std::fabs(x) > 20) {
			c.discard();
		}
		p[0] = p[1];
		p[1] = p[2];
		p[2] = x;
	}
	note(c, "three points", pv);
	Ref<MLPPVector> pts = mkv(pv);
	c.near(na->inv_quadratic_interpolation(evalroot, pts, ep), x, 1e-6 * cond * (1 + mag), "inverse quadratic interpolation, %d steps", ep);
	eqv(c, pts, pv, 0, 0, "points afterwards");
}

static double g_c0, g_c1, g_c2;
static real_t slope1(real_t x) { return (real_t)(g_c0 + g_c1 * x); }
static real_t slope2(const Ref<MLPPVector> &v) { return (real_t)(g_c0 + g_c1 * v->element_get(0) + g_c2 * v->element_get(1)); }
VT_PROP(C16, euler_and_growth, 20000) {
	Ref<MLPPNumericalAnalysis> na;
	na.instance();
	g_c0 = s.real(2);
	g_c1 = s.real(2);
	g_c2 = s.real_in(-1, 1);
	double h = s.pick({ 0.25, 0.125, 0.5, 0.0625 });
	int n = (int)s.range(0, 12);
	double x0 = s.sint(8) / 4.0, y0 = s.real(4), p = x0 + n * h;
	c.note("slope %g %+gx %+gy from (%g,%g) to %g in steps of %g", g_c0, g_c1, g_c2, x0, y0, p, h);
	double x = x0, y1 = y0, y2 = y0, mag = 1;
	for (int i = 0; i < n; i++) {
		y1 += h * (g_c0 + g_c1 * x);
		y2 += h * (g_c0 + g_c1 * x + g_c2 * y2);
		x += h;
		mag = std::max(mag, std::max(std::fabs(y1), std::fabs(y2)));
	}
	c.near(na->eulerian_methodr(slope1, (real_t)x0, (real_t)y0, (real_t)p, (real_t)h), y1, 1e-5 * mag, "Euler's method");
	c.near(na->eulerian_methodv(slope2, (real_t)x0, (real_t)y0, (real_t)p, (real_t)h), y2, 2e-5 * mag, "Euler's method, slope of x and y");
	double C = s.real(4), k = s.real_in(-2, 2), t = s.real_in(0, 3), w = C * std::exp(k * t);
	c.near(na->growth_method((real_t)C, (real_t)k, (real_t)t), w, 4e-6 * (1 + std::fabs(w)), "growth");
	c.nt(n > 1);
}

VT_PROP(C16, critical_points, 4000) {
	Ref<MLPPNumericalAnalysis> na;
	na.instance();
	int n = (int)s.range(1, 3);
	DM H(n, n);
	DV ev(n);
	bool pos = true, neg = true, zero = false;
	bool singular = n == 2 && s.one_in(6);
	for (int i = 0; i < n; i++) {
		ev[i] = s.pick({ 1.0, 2.0, 4.0, 1.5 }) * (s.flag() ? -1 : 1);
		if (singular && i == 1) {
			ev[i] = 0;
		}
		pos = pos && ev[i] > 0;
		neg = neg && ev[i] < 0;
		zero = zero || ev[i] == 0;
		H.at(i, i) = ev[i];
	}
	if (!singular) {
		for (int a = 0; a < n; a++) {
			for (int b = a + 1; b < n; b++) {
				double th = s.real_in(-1.5f, 1.5f);
				DM R(n, n);
				for (int i = 0; i < n; i++) {
					R.at(i, i) = 1;
				}
				R.at(a, a) = R.at(b, b) = std::cos(th);
				R.at(a, b) = std::sin(th);
				R.at(b, a) = -std::sin(th);
				H = R.t() * (H * R);
			}
		}
	}
	double x[3] = { 0, 0, 0 };
	DV xv(n);
	for (int i = 0; i < n; i++) {
		xv[i] = x[i] = s.sint(4);
	}
	note(c, "Hessian", H);
	note(c, "at", xv);
	// 1/2 (p-x)'H(p-x), expanded
	Poly p;
	p.n = n;
	for (int i = 0; i < n; i++) {
		double lin = 0;
		for (int j = 0; j < n; j++) {
			Mono m = { H.at(i, j) / 2, { 0, 0, 0 } };
			m.e[i]++;
			m.e[j]++;
			p.t.push_back(m);
			lin -= H.at(i, j) * x[j];
		}
		Mono m = { lin, { 0, 0, 0 } };
		m.e[i] = 1;
		p.t.push_back(m);
	}
	g_poly = p;
	String r = na->second_partial_derivative_test(evalv, mkv(xv));
	const char *want = zero ? "test was inconclusive" : (pos ? "min" : (neg ? "max" : "saddle"));
	c.check(r == String(want), "critical point classified as '%s', expected '%s'", r.utf8().get_data(), want);
	c.no_errors("second derivative test");
	c.nt(n > 1);
}

// ------------------------------------------------------------------------------------ C17 convolutions
struct DT { // channels of equal shape
	std::vector<DM> z;
};
static Ref<MLPPTensor3> mkt(const DT &t) {
	Ref<MLPPTensor3> r;
	r.instance();
	r->resize(Size3i(t.z[0].c, t.z[0].r, (int)t.z.size()));
	for (size_t k = 0; k < t.z.size(); k++) {
		for (int i = 0; i < t.z[0].r; i++) {
			for (int j = 0; j < t.z[0].c; j++) {
				r->element_set((int)k, i, j, (real_t)t.z[k].at(i, j));
			}
		}
	}
	return r;
}
static void eqt(Ctx &c, const Ref<MLPPTensor3> &g, const DT &w, double tol, const char *what) {
	c.check(g.is_valid(), "%s: no result", what);
	Size3i sz = g->size();
	c.check(sz.z == (int)w.z.size() && sz.y == w.z[0].r && sz.x == w.z[0].c, "%s: size %dx%dx%d, expected %dx%dx%d", what, sz.z, sz.y, sz.x, (int)w.z.size(), w.z[0].r, w.z[0].c);
	for (int k = 0; k < sz.z; k++) {
		for (int i = 0; i < sz.y; i++) {
			for (int j = 0; j < sz.x; j++) {
				c.near(g->element_get(k, i, j), w.z[k].at(i, j), tol, "%s: element (%d,%d,%d)", what, k, i, j);
			}
		}
	}
}
static double pix(const DM &m, int i, int j) { return i < 0 || j < 0 || i >= m.r || j >= m.c ? 0 : m.at(i, j); }
static DM conv(const DT &in, const DT &f, int first, int S, int P) {
	int F = f.z[0].r, h = (in.z[0].r + 2 * P - F) / S + 1, w = (in.z[0].c + 2 * P - F) / S + 1;
	DM o(h, w);
	for (int i = 0; i < h; i++) {
		for (int j = 0; j < w; j++) {
			for (size_t t = 0; t < in.z.size(); t++) {
				for (int k = 0; k < F; k++) {
					for (int l = 0; l < F; l++) {
						o.at(i, j) += pix(in.z[t], i * S + k - P, j * S + l - P) * f.z[first + t].at(k, l);
					}
				}
			}
		}
	}
	return o;
}
typedef MLPPConvolutions CV;
static double pool(const DM &m, int i0, int j0, int h, int w, int type) {
	double mn = 1e300, mx = -1e300, sum = 0;
	for (int i = 0; i < h; i++) {
		for (int j = 0; j < w; j++) {
			double v = m.at(i0 + i, j0 + j);
			mn = std::min(mn, v);
			mx = std::max(mx, v);
			sum += v;
		}
	}
	return type == CV::POOL_TYPE_MIN ? mn : (type == CV::POOL_TYPE_MAX ? mx : sum / (h * w));
}

VT_PROP(C17, convolution, 15000) {
	Ref<CV> cv;
	cv.instance();
	int F = (int)s.range(1, 3), P = (int)s.range(0, 2), S = (int)s.range(1, 3), C = (int)s.range(1, 3), K = (int)s.range(1, 3);
	int lo = std::max(1, F - 2 * P), h = s.size(lo, 8), w = s.flag() ? h : s.size(lo, 8);
	DT in, f;
	for (int i = 0; i < C; i++) {
		in.z.push_back(gen_dm(s, h, w, 6));
	}
	for (int i = 0; i < C * K; i++) {
		f.z.push_back(gen_dm(s, F, F, 3));
	}
	c.note("F=%d S=%d P=%d channels=%d filters=%d", F, S, P, C, K);
	note(c, "first channel", in.z[0]);
	note(c, "first filter", f.z[0]);
	DT one, fone, want;
	one.z.push_back(in.z[0]);
	fone.z.push_back(f.z[0]);
	DM w2 = conv(one, fone, 0, S, P);
	Ref<MLPPMatrix> a = mkm(in.z[0]), b = mkm(f.z[0]);
	eqm(c, cv->convolve_2d(a, b, S, P), w2, 1e-5, 1e-4, "convolve_2d");
	if (P == 0) {
		eqm(c, cv->convolve_2d(a, b, S), w2, 1e-5, 1e-4, "convolve_2d without padding");
	}
	eqm(c, a, in.z[0], 0, 0, "image afterwards");
	eqm(c, b, f.z[0], 0, 0, "filter afterwards");
	for (int k = 0; k < K; k++) {
		want.z.push_back(conv(in, f, k * C, S, P));
	}
	Ref<MLPPTensor3> ti = mkt(in), tf = mkt(f);
	eqt(c, cv->convolve_3d(ti, tf, S, P), want, 4e-4, "convolve_3d");
	eqt(c, ti, in, 0, "image afterwards");
	eqt(c, tf, f, 0, "filters afterwards");
	c.no_errors("convolution");
	c.nt(w2.r * w2.c > 1);
}

VT_PROP(C17, pooling, 15000) {
	Ref<CV> cv;
	cv.instance();
	int F = (int)s.range(1, 3), S = (int)s.range(1, 3), C = (int)s.range(1, 3);
	int h = s.size(F, 8), w = s.flag() ? h : s.size(F, 8);
	CV::PoolType t = s.pick({ CV::POOL_TYPE_AVERAGE, CV::POOL_TYPE_MIN, CV::POOL_TYPE_MAX });
	DT in, want;
	for (int i = 0; i < C; i++) {
		in.z.push_back(gen_dm(s, h, w, 6));
	}
	c.note("F=%d S=%d type %d channels=%d", F, S, (int)t, C);
	note(c, "first channel", in.z[0]);
	int oh = (h - F) / S + 1, ow = (w - F) / S + 1;
	DV gl;
	for (int k = 0; k < C; k++) {
		DM o(oh, ow);
		for (int i = 0; i < oh; i++) {
			for (int j = 0; j < ow; j++) {
				o.at(i, j) = pool(in.z[k], i * S, j * S, F, F, t);
			}
		}
		want.z.push_back(o);
		gl.push_back(pool(in.z[k], 0, 0, h, w, t));
	}
	Ref<MLPPMatrix> m = mkm(in.z[0]);
	Ref<MLPPTensor3> ti = mkt(in);
	eqm(c, cv->pool_2d(m, F, S, t), want.z[0], 1e-6, 1e-5, "pool_2d");
	eqt(c, cv->pool_3d(ti, F, S, t), want, 1e-5, "pool_3d");
	c.near(cv->global_pool_2d(m, t), gl[0], 1e-5, "global_pool_2d");
	eqv(c, cv->global_pool_3d(ti, t), gl, 1e-6, 1e-5, "global_pool_3d");
	eqm(c, m, in.z[0], 0, 0, "image afterwards");
	eqt(c, ti, in, 0, "image afterwards");
	c.no_errors("pooling");
	c.nt(oh * ow > 1);
}

static double gauss2(double x, double y, double sd) { return std::exp(-(x * x + y * y) / (2 * sd * sd)) / (2 * M_PI * sd * sd); }
VT_PROP(C17, gaussian_filter, 5000) {
	Ref<CV> cv;
	cv.instance();
	int size = 2 * (int)s.range(0, 3) + 1;
	double sd = s.real_in(0.5f, 3);
	c.note("size=%d std=%g", size, sd);
	DM w(size, size);
	for (int i = 0; i < size; i++) {
		for (int j = 0; j < size; j++) {
			w.at(i, j) = gauss2(j - size / 2, i - size / 2, sd);
		}
	}
	eqm(c, cv->gaussian_filter_2d(size, (real_t)sd), w, 1e-5, 1e-7, "Gaussian filter");
	double x = s.real(3), y = s.real(3);
	c.near(cv->gaussian_2d((real_t)x, (real_t)y, (real_t)sd), gauss2(x, y, sd), 1e-6, "Gaussian at (%g,%g)", x, y);
	c.nt(size > 1);
}

VT_PROP(C17, image_gradients, 15000) {
	Ref<CV> cv;
	cv.instance();
	int h = s.grown(1, 7, 20), w = s.flag() ? h : s.size(1, 7);
	DM in = gen_dm(s, h, w, 6);
	if (s.one_in(3)) { // mostly flat
		for (auto &v : in.a) {
			v = s.one_in(5) ? v : 0;
		}
	}
	note(c, "image", in);
	DM X(h, w), Y(h, w), G(h, w);
	for (int i = 0; i < h; i++) {
		for (int j = 0; j < w; j++) {
			X.at(i, j) = pix(in, i, j + 1) - pix(in, i, j - 1);
			Y.at(i, j) = pix(in, i - 1, j) - pix(in, i + 1, j);
			G.at(i, j) = std::hypot(X.at(i, j), Y.at(i, j));
		}
	}
	Ref<MLPPMatrix> m = mkm(in);
	eqm(c, cv->dx(m), X, 1e-6, 1e-6, "horizontal derivative");
	eqm(c, cv->dy(m), Y, 1e-6, 1e-6, "vertical derivative");
	eqm(c, cv->grad_magnitude(m), G, 1e-5, 1e-5, "gradient magnitude");
	Ref<MLPPMatrix> o = cv->grad_orientation(m);
	c.check(o.is_valid() && o->size() == Size2i(w, h), "gradient orientation: wrong size");
	DT M;
	DM xx(h, w), yy(h, w), xy(h, w), g(3, 3);
	double mag = 1;
	for (int i = 0; i < h; i++) {
		for (int j = 0; j < w; j++) {
			if (G.at(i, j) > 1e-2) {
				double d = o->element_get(i, j) - std::atan2(Y.at(i, j), X.at(i, j));
				d -= 2 * M_PI * std::round(d / (2 * M_PI));
				c.check(std::fabs(d) < 1e-3, "gradient orientation at (%d,%d): off by %g", i, j, d);
			}
			xx.at(i, j) = X.at(i, j) * X.at(i, j);
			yy.at(i, j) = Y.at(i, j) * Y.at(i, j);
			xy.at(i, j) = X.at(i, j) * Y.at(i, j);
			mag = std::max(mag, G.at(i, j) * G.at(i, j));
		}
	}
	for (int i = 0; i < 3; i++) {
		for (int j = 0; j < 3; j++) {
			g.at(i, j) = gauss2(i - 1, j - 1, 1);
		}
	}
	DT f;
	f.z.push_back(g);
	for (const DM &q : { xx, yy, xy }) {
		DT one;
		one.z.push_back(q);
		M.z.push_back(conv(one, f, 0, 1, 1));
	}
	double tol = 3e-6 * mag;
	eqt(c, cv->compute_m(m), M, tol, "structure tensor");
	Vector<Ref<MLPPMatrix>> mv = cv->compute_mv(m);
	c.check(mv.size() == 3, "structure tensor (list): %d matrices", mv.size());
	for (int k = 0; k < 3; k++) {
		eqm(c, mv[k], M.z[k], 0, tol, "structure tensor (list)");
	}
	Vector<Vector<CharType>> hc = cv->harris_corner_detection(m);
	c.check(hc.size() == h, "corner detection: %d rows", hc.size());
	for (int i = 0; i < h; i++) {
		c.check(hc[i].size() == w, "corner detection: %d columns in row %d", hc[i].size(), i);
		for (int j = 0; j < w; j++) {
			double a = M.z[0].at(i, j), b = M.z[1].at(i, j), d = M.z[2].at(i, j), r = a * b - d * d - 0.05 * (a + b) * (a + b);
			bool zero = a == 0 && b == 0 && d == 0;
			if (!zero && std::fabs(r) < 1e-5 * (a + b + 1e-3 * mag) * (a + b + 1e-3 * mag)) {
				continue;
			}
			char e = zero ? 'N' : (r > 0 ? 'C' : 'E');
			c.check((char)hc[i][j] == e, "corner detection at (%d,%d): '%c', expected '%c'", i, j, (char)hc[i][j], e);
		}
	}
	eqm(c, m, in, 0, 0, "image afterwards");
	c.no_errors("image gradients");
	c.nt(h * w > 1 && G.maxabs() > 0);
}

VT_PROP(C17, named_filters, 50) {
	Ref<CV> cv;
	cv.instance();
	struct {
		const char *n;
		Ref<MLPPMatrix> m;
		std::vector<double> v;
	} t[] = {
		{ "Prewitt, horizontal", cv->get_prewitt_horizontal(), { 1, 1, 1, 0, 0, 0, -1, -1, -1 } },
		{ "Prewitt, vertical", cv->get_prewitt_vertical(), { 1, 0, -1, 1, 0, -1, 1, 0, -1 } },
		{ "Sobel, horizontal", cv->get_sobel_horizontal(), { 1, 2, 1, 0, 0, 0, -1, -2, -1 } },
		{ "Sobel, vertical", cv->get_sobel_vertical(), { -1, 0, 1, -2, 0, 2, -1, 0, 1 } },
		{ "Scharr, horizontal", cv->get_scharr_horizontal(), { 3, 10, 3, 0, 0, 0, -3, -10, -3 } },
		{ "Scharr, vertical", cv->get_scharr_vertical(), { 3, 0, -3, 10, 0, -10, 3, 0, -3 } },
		{ "Roberts, horizontal", cv->get_roberts_horizontal(), { 0, 1, -1, 0 } },
		{ "Roberts, vertical", cv->get_roberts_vertical(), { 1, 0, 0, -1 } },
	};
	auto &e = t[s.draw(8)];
	c.note("%s", e.n);
	DM w(e.v.size() == 9 ? 3 : 2, e.v.size() == 9 ? 3 : 2);
	w.a = e.v;
	eqm(c, e.m, w, 0, 0, e.n);
	c.nt();
}

// ------------------------------------------------------------------------------------ C18 cosine transform
VT_PROP(C18, cosine_transform, 15000) {
	Ref<MLPPTransforms> tr;
	tr.instance();
	int h = s.grown(1, 8, 16), w = s.flag() ? h : s.size(1, 8);
	DM a(h, w), b(h, w);
	for (auto &v : a.a) {
		v = s.flag() ? (double)s.range(0, 255) : f32(s.real_in(0, 255));
	}
	note(c, "A", a);
	double e1 = 0, e2 = 0;
	for (int p = 0; p < h; p++) {
		for (int q = 0; q < w; q++) {
			double t = 0;
			for (int i = 0; i < h; i++) {
				for (int j = 0; j < w; j++) {
					t += (a.at(i, j) - 128) * std::cos((2 * i + 1) * p * M_PI / (2 * h)) * std::cos((2 * j + 1) * q * M_PI / (2 * w));
				}
			}
			b.at(p, q) = t * std::sqrt((p ? 2.0 : 1.0) / h) * std::sqrt((q ? 2.0 : 1.0) / w);
			e1 += (a.at(p, q) - 128) * (a.at(p, q) - 128);
		}
	}
	Ref<MLPPMatrix> m = mkm(a), g = tr->discrete_cosine_transform(m);
	eqm(c, g, b, 1e-5, 1e-4 * h * w, "cosine transform");
	DM gd = dm(g);
	for (double v : gd.a) {
		e2 += v * v;
	}
	c.near(e2, e1, 1e-4 * (e1 + 1), "energy of the transform");
	eqm(c, m, a, 0, 0, "matrix afterwards");
	c.no_errors("cosine transform");
	c.nt(h > 1 && w > 1);
}
