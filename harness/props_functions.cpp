// C10-C14: activations, costs and regularisation against closed forms in double precision
#include "core/activation.h"
#include "core/cost.h"
#include "core/reg.h"
#include "ml.h"

typedef MLPPActivation A;
typedef double (*DF)(double);

enum Dom { ANY,
	UNIT, // (0, 1)
	BALL, // (-1, 1)
	GE1, // > 1
	OUT1, // |z| > 1
	NZ, // != 0
};

struct Act {
	const char *name;
	int id; // enumerator, -1 when there is none
	real_t (A::*nr)(real_t);
	Ref<MLPPVector> (A::*nv)(const Ref<MLPPVector> &);
	Ref<MLPPMatrix> (A::*nm)(const Ref<MLPPMatrix> &);
	real_t (A::*dr)(real_t);
	Ref<MLPPVector> (A::*dvf)(const Ref<MLPPVector> &);
	Ref<MLPPMatrix> (A::*dmf)(const Ref<MLPPMatrix> &);
	DF f;
	Dom dom;
	bool kink; // not differentiable at 0
	float big; // largest magnitude at which the result is an ordinary number
};

static double f_lin(double z) { return z; }
static double f_sig(double z) { return 1 / (1 + std::exp(-z)); }
static double f_softplus(double z) { return z > 0 ? z + std::log1p(std::exp(-z)) : std::log1p(std::exp(z)); }
static double f_swish(double z) { return z * f_sig(z); }
static double f_mish(double z) { return z * std::tanh(f_softplus(z)); }
static double f_sinc(double z) { return z == 0 ? 1 : std::sin(z) / z; }
static double f_softsign(double z) { return z / (1 + std::fabs(z)); }
static double f_cloglog(double z) { return -std::expm1(-std::exp(z)); }
static double f_logit(double z) { return std::log(z / (1 - z)); }
static double f_cdf(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); }
static double f_relu(double z) { return z > 0 ? z : 0; }
static double f_gelu(double z) { return 0.5 * z * (1 + std::tanh(std::sqrt(2 / M_PI) * (z + 0.044715 * z * z * z))); }
static double f_sign(double z) { return z > 0 ? 1 : (z < 0 ? -1 : 0); }
static double f_step(double z) { return z < 0 ? 0 : 1; }
static double f_sinh(double z) { return std::sinh(z); }
static double f_cosh(double z) { return std::cosh(z); }
static double f_tanh(double z) { return std::tanh(z); }
static double f_csch(double z) { return 1 / std::sinh(z); }
static double f_sech(double z) { return 1 / std::cosh(z); }
static double f_coth(double z) { return 1 / std::tanh(z); }
static double f_arsinh(double z) { return std::asinh(z); }
static double f_arcosh(double z) { return std::acosh(z); }
static double f_artanh(double z) { return std::atanh(z); }
static double f_arcsch(double z) { return std::asinh(1 / z); }
static double f_arsech(double z) { return std::acosh(1 / z); }
static double f_arcoth(double z) { return std::atanh(1 / z); }

#define ACT(N, E, F, D, K, BIG)                                                                                            \
	{ #N, A::ACTIVATION_FUNCTION_##E, &A::N##_normr, &A::N##_normv, &A::N##_normm, &A::N##_derivr, &A::N##_derivv, &A::N##_derivm, F, D, K, BIG }

static const Act ACTS[] = {
	ACT(linear, LINEAR, f_lin, ANY, false, 1e6f),
	ACT(sigmoid, SIGMOID, f_sig, ANY, false, 1000),
	ACT(swish, SWISH, f_swish, ANY, false, 1000),
	ACT(mish, MISH, f_mish, ANY, false, 1000),
	ACT(sinc, SIN_C, f_sinc, ANY, false, 100),
	ACT(softplus, SOFTPLUS, f_softplus, ANY, false, 1000),
	ACT(softsign, SOFTSIGN, f_softsign, ANY, false, 1e6f),
	ACT(cloglog, C_LOG_LOG, f_cloglog, ANY, false, 80),
	ACT(logit, LOGIT, f_logit, UNIT, false, 0),
	ACT(gaussian_cdf, GAUSSIAN_CDF, f_cdf, ANY, false, 100),
	ACT(relu, RELU, f_relu, ANY, true, 1e6f),
	ACT(gelu, GELU, f_gelu, ANY, false, 100),
	ACT(sign, SIGN, f_sign, ANY, true, 1e6f),
	ACT(unit_step, UNIT_STEP, f_step, ANY, true, 1e6f),
	ACT(sinh, SINH, f_sinh, ANY, false, 20),
	ACT(cosh, COSH, f_cosh, ANY, false, 20),
	ACT(tanh, TANH, f_tanh, ANY, false, 1000),
	ACT(csch, CSCH, f_csch, NZ, false, 60),
	ACT(sech, SECH, f_sech, ANY, false, 60),
	ACT(coth, COTH, f_coth, NZ, false, 60),
	ACT(arsinh, ARSINH, f_arsinh, ANY, false, 10000),
	ACT(arcosh, ARCOSH, f_arcosh, GE1, false, 10000),
	ACT(artanh, ARTANH, f_artanh, BALL, false, 0),
	ACT(arcsch, ARCSCH, f_arcsch, NZ, false, 100),
	ACT(arsech, ARSECH, f_arsech, UNIT, false, 0),
	ACT(arcoth, ARCOTH, f_arcoth, OUT1, false, 50),
};
static const int NACTS = sizeof(ACTS) / sizeof(ACTS[0]);

static float gen_z(vt::Src &s, const Act &a) {
	float mag = 6;
	if (a.big > 0 && s.one_in(5)) {
		mag = a.big;
	}
	switch (a.dom) {
		case ANY: {
			float z = s.real(mag);
			return std::fabs(z) < 0.02f ? 0 : z;
		}
		case UNIT:
			return s.real_in(0.02f, 0.97f);
		case BALL: {
			float z = s.real_in(-0.97f, 0.97f);
			return std::fabs(z) < 0.02f ? 0 : z;
		}
		case GE1:
			return s.real_in(1.02f, mag);
		case OUT1: {
			float z = s.real_in(1.02f, mag);
			return s.flag() ? -z : z;
		}
		case NZ: {
			float z = s.real_in(0.05f, mag);
			return s.flag() ? -z : z;
		}
	}
	return 0;
}

// one check of the three forms of one function, and of the forms selected by identifier
static void forms(vt::Src &s, vt::Ctx &c, bool deriv) {
	const Act &a = ACTS[s.draw(NACTS)];
	c.note("%s%s", a.name, deriv ? "'" : "");
	Ref<A> act;
	act.instance();
	int n = s.grown(1, 6, 40), r = s.grown(1, 3, 12), k = s.grown(1, 4, 12);
	DV z(n);
	DM zm(r, k);
	auto gen = [&]() {
		float v = gen_z(s, a);
		if (deriv && a.kink && v == 0) {
			v = 1;
		}
		return v;
	};
	for (auto &v : z) {
		v = gen();
	}
	for (auto &v : zm.a) {
		v = gen();
	}
	note(c, "z", z);
	note(c, "Z", zm);
	auto want = [&](double x) -> double {
		if (!deriv) {
			return a.f(x);
		}
		double h = 1e-5 * std::max(1.0, std::fabs(x) * 0.01);
		if (a.dom == UNIT || a.dom == BALL || a.dom == GE1 || a.dom == OUT1) {
			h = 1e-6;
		}
		return (a.f(x + h) - a.f(x - h)) / (2 * h);
	};
	DV w(n);
	DM wm(r, k);
	for (int i = 0; i < n; i++) {
		w[i] = want(z[i]);
	}
	for (size_t i = 0; i < wm.a.size(); i++) {
		wm.a[i] = want(zm.a[i]);
	}
	const double rel = 3e-4, abs_ = 5e-5;
	A::ActivationFunction id = (A::ActivationFunction)a.id;
	Ref<MLPPVector> v = mkv(z);
	Ref<MLPPMatrix> m = mkm(zm);
	A *o = act.ptr();
	char buf[96];
	auto nm = [&](const char *form) {
		snprintf(buf, sizeof buf, "%s%s, %s", a.name, deriv ? " derivative" : "", form);
		return buf;
	};
	auto chkr = [&](std::function<double(real_t)> f, const char *form) {
		for (int i = 0; i < n; i++) {
			c.near(f((real_t)z[i]), w[i], abs_ + rel * std::fabs(w[i]), "%s(%g)", nm(form), z[i]);
		}
	};
	chkr([&](real_t x) { return deriv ? (o->*a.dr)(x) : (o->*a.nr)(x); }, "scalar form");
	eqv(c, deriv ? (o->*a.dvf)(v) : (o->*a.nv)(v), w, rel, abs_, nm("vector form"));
	eqm(c, deriv ? (o->*a.dmf)(m) : (o->*a.nm)(m), wm, rel, abs_, nm("matrix form"));
	chkr([&](real_t x) { return deriv ? o->run_activation_deriv_real(id, x) : o->run_activation_norm_real(id, x); }, "scalar form by identifier");
	eqv(c, deriv ? o->run_activation_deriv_vector(id, v) : o->run_activation_norm_vector(id, v), w, rel, abs_, nm("vector form by identifier"));
	eqm(c, deriv ? o->run_activation_deriv_matrix(id, m) : o->run_activation_norm_matrix(id, m), wm, rel, abs_, nm("matrix form by identifier"));
	chkr([&](real_t x) { return o->run_activation_real(id, x, deriv); }, "scalar form by identifier and flag");
	eqv(c, o->run_activation_vector(id, v, deriv), w, rel, abs_, nm("vector form by identifier and flag"));
	eqm(c, o->run_activation_matrix(id, m, deriv), wm, rel, abs_, nm("matrix form by identifier and flag"));
	{
		auto p = o->get_activation_function_ptr_real(id, deriv);
		auto p2 = deriv ? o->get_activation_function_ptr_deriv_real(id) : o->get_activation_function_ptr_normal_real(id);
		c.check(p && p2, "%s", nm("no scalar function for the identifier"));
		chkr([&](real_t x) { return (o->*p)(x); }, "scalar function pointer");
		chkr([&](real_t x) { return (o->*p2)(x); }, "scalar function pointer (direct)");
		auto q = o->get_activation_function_ptr_vector(id, deriv);
		auto q2 = deriv ? o->get_activation_function_ptr_deriv_vector(id) : o->get_activation_function_ptr_normal_vector(id);
		c.check(q && q2, "%s", nm("no vector function for the identifier"));
		eqv(c, (o->*q)(v), w, rel, abs_, nm("vector function pointer"));
		eqv(c, (o->*q2)(v), w, rel, abs_, nm("vector function pointer (direct)"));
		auto t = o->get_activation_function_ptr_matrix(id, deriv);
		auto t2 = deriv ? o->get_activation_function_ptr_deriv_matrix(id) : o->get_activation_function_ptr_normal_matrix(id);
		c.check(t && t2, "%s", nm("no matrix function for the identifier"));
		eqm(c, (o->*t)(m), wm, rel, abs_, nm("matrix function pointer"));
		eqm(c, (o->*t2)(m), wm, rel, abs_, nm("matrix function pointer (direct)"));
	}
	eqv(c, v, z, 0, 0, "input vector afterwards");
	eqm(c, m, zm, 0, 0, "input matrix afterwards");
	c.no_errors(a.name);
	c.nt();
}

VT_PROP(C10, activation_values, 40000) { forms(s, c, false); }
VT_PROP(C11, activation_slopes, 40000) { forms(s, c, true); }

static real_t sq_plus_one(real_t x) { return x * x + 1; }

// the piecewise functions with parameters
static void param_forms(vt::Src &s, vt::Ctx &c, bool deriv) {
	Ref<A> o;
	o.instance();
	int which = (int)s.draw(3);
	float cc = s.real_in(0.01f, which == 0 ? 0.9f : 2.0f), lam = s.real_in(0.5f, 2.0f);
	int n = s.grown(1, 6, 40), r = s.grown(1, 3, 12), k = s.grown(1, 4, 12);
	DV z(n);
	DM zm(r, k);
	auto gen = [&]() {
		float v = s.real(s.one_in(5) ? 60 : 4);
		return deriv && std::fabs(v) < 0.01f ? 1.0f : v;
	};
	for (auto &v : z) {
		v = gen();
	}
	for (auto &v : zm.a) {
		v = gen();
	}
	c.note("%s c=%g lambda=%g", which == 0 ? "leaky_relu" : (which == 1 ? "elu" : "selu"), cc, lam);
	note(c, "z", z);
	note(c, "Z", zm);
	auto want = [&](double x) -> double {
		if (which == 0) {
			return deriv ? (x > 0 ? 1 : cc) : (x > 0 ? x : cc * x);
		}
		double l = which == 2 ? lam : 1;
		return l * (deriv ? (x > 0 ? 1 : cc * std::exp(x)) : (x > 0 ? x : cc * std::expm1(x)));
	};
	DV w(n);
	DM wm(r, k);
	for (int i = 0; i < n; i++) {
		w[i] = want(z[i]);
	}
	for (size_t i = 0; i < wm.a.size(); i++) {
		wm.a[i] = want(zm.a[i]);
	}
	Ref<MLPPVector> v = mkv(z);
	Ref<MLPPMatrix> m = mkm(zm);
	for (int i = 0; i < n; i++) {
		real_t x = (real_t)z[i];
		real_t got = which == 0 ? (deriv ? o->leaky_relu_derivr(x, cc) : o->leaky_relu_normr(x, cc)) : (which == 1 ? (deriv ? o->elu_derivr(x, cc) : o->elu_normr(x, cc)) : (deriv ? o->selu_derivr(x, lam, cc) : o->selu_normr(x, lam, cc)));
		c.near(got, w[i], 1e-5 + 1e-5 * std::fabs(w[i]), "scalar form at %g", z[i]);
	}
	Ref<MLPPVector> gv = which == 0 ? (deriv ? o->leaky_relu_derivv(v, cc) : o->leaky_relu_normv(v, cc)) : (which == 1 ? (deriv ? o->elu_derivv(v, cc) : o->elu_normv(v, cc)) : (deriv ? o->selu_derivv(v, lam, cc) : o->selu_normv(v, lam, cc)));
	Ref<MLPPMatrix> gm = which == 0 ? (deriv ? o->leaky_relu_derivm(m, cc) : o->leaky_relu_normm(m, cc)) : (which == 1 ? (deriv ? o->elu_derivm(m, cc) : o->elu_normm(m, cc)) : (deriv ? o->selu_derivm(m, lam, cc) : o->selu_normm(m, lam, cc)));
	eqv(c, gv, w, 1e-5, 1e-5, "vector form");
	eqm(c, gm, wm, 1e-5, 1e-5, "matrix form");
	if (!deriv) {
		Ref<MLPPVector> av = o->activationr(v, sq_plus_one);
		DV aw(n);
		for (int i = 0; i < n; i++) {
			aw[i] = z[i] * z[i] + 1;
		}
		eqv(c, av, aw, 1e-6, 1e-6, "activationr");
	}
	c.no_errors("parametrised activation");
	c.nt();
}
VT_PROP(C10, parametrised_values, 5000) { param_forms(s, c, false); }
VT_PROP(C11, parametrised_slopes, 5000) { param_forms(s, c, true); }

static DV ref_softmax(const DV &z) {
	double m = *std::max_element(z.begin(), z.end()), t = 0;
	DV o(z.size());
	for (size_t i = 0; i < z.size(); i++) {
		t += o[i] = std::exp(z[i] - m);
	}
	for (auto &v : o) {
		v /= t;
	}
	return o;
}

VT_PROP(C10, softmax, 6000) {
	Ref<A> o;
	o.instance();
	bool adj = s.flag();
	float mag = adj ? (s.one_in(3) ? 500 : 5) : 12;
	int r = s.grown(1, 4, 12), k = s.grown(1, 6, 20);
	DM z = gen_dm(s, r, k, mag);
	if (s.one_in(4)) { // all alike
		for (auto &v : z.a) {
			v = z.a[0];
		}
	}
	if (adj && s.one_in(4)) { // everything far below zero
		for (auto &v : z.a) {
			v = f32(v - 2000);
		}
	}
	note(c, adj ? "adj softmax" : "softmax", z);
	DM w(r, k);
	for (int i = 0; i < r; i++) {
		DV row(z.a.begin() + i * k, z.a.begin() + (i + 1) * k);
		DV sm = ref_softmax(row);
		std::copy(sm.begin(), sm.end(), w.a.begin() + i * k);
		Ref<MLPPVector> v = mkv(row);
		A::ActivationFunction id = adj ? A::ACTIVATION_FUNCTION_ADJ_SOFTMAX : A::ACTIVATION_FUNCTION_SOFTMAX;
		double tol = 2e-5 + (mag > 100 ? 3e-4 : 0);
		for (Ref<MLPPVector> got : { adj ? o->adj_softmax_normv(v) : o->softmax_normv(v), o->run_activation_norm_vector(id, v), o->run_activation_vector(id, v, false) }) {
			eqv(c, got, sm, 0, tol, "softmax of a vector");
			double t = 0;
			for (double x : dv(got)) {
				c.check(x >= 0, "a softmax output is negative: %g", x);
				t += x;
			}
			c.near(t, 1, 1e-5, "softmax outputs sum");
		}
		eqv(c, v, row, 0, 0, "softmax input afterwards");
	}
	double tol = 2e-5 + (mag > 100 ? 3e-4 : 0);
	Ref<MLPPMatrix> m = mkm(z);
	A::ActivationFunction id = adj ? A::ACTIVATION_FUNCTION_ADJ_SOFTMAX : A::ACTIVATION_FUNCTION_SOFTMAX;
	eqm(c, adj ? o->adj_softmax_normm(m) : o->softmax_normm(m), w, 0, tol, "softmax of the rows of a matrix");
	eqm(c, o->run_activation_norm_matrix(id, m), w, 0, tol, "softmax of the rows of a matrix by identifier");
	eqm(c, o->run_activation_matrix(id, m, false), w, 0, tol, "softmax of the rows of a matrix by identifier and flag");
	eqm(c, m, z, 0, 0, "softmax input afterwards");
	c.no_errors("softmax");
	c.nt(k > 1);
}

VT_PROP(C11, softmax_jacobian, 4000) {
	Ref<A> o;
	o.instance();
	int k = s.grown(1, 6, 20);
	DV z = gen_dv(s, k, 5);
	note(c, "z", z);
	Ref<MLPPVector> v = mkv(z);
	DM w(k, k);
	for (int j = 0; j < k; j++) {
		DV a = z, b = z;
		a[j] += 1e-5;
		b[j] -= 1e-5;
		DV fa = ref_softmax(a), fb = ref_softmax(b);
		for (int i = 0; i < k; i++) {
			w.at(i, j) = (fa[i] - fb[i]) / 2e-5;
		}
	}
	eqm(c, o->softmax_deriv_normv(v), w, 1e-5, 2e-6, "Jacobian of softmax");
	eqm(c, o->softmax_deriv_derivv(v), w, 1e-5, 2e-6, "Jacobian of softmax (derivative form)");
	c.no_errors("softmax jacobian");
	c.nt(k > 1);
}

// ------------------------------------------------------------------------------------ costs
typedef MLPPCost K;

struct Cost {
	const char *name;
	int id; // -1: none (Huber)
	real_t (K::*fv)(const Ref<MLPPVector> &, const Ref<MLPPVector> &);
	real_t (K::*fm)(const Ref<MLPPMatrix> &, const Ref<MLPPMatrix> &);
	Ref<MLPPVector> (K::*gv)(const Ref<MLPPVector> &, const Ref<MLPPVector> &);
	Ref<MLPPMatrix> (K::*gm)(const Ref<MLPPMatrix> &, const Ref<MLPPMatrix> &);
};
#define COST(N, D, E) \
	{ #N, K::COST_TYPE_##E, &K::N##v, &K::N##m, &K::D##v, &K::D##m }
static const Cost COSTS[] = {
	COST(mse, mse_deriv, MSE),
	COST(rmse, rmse_deriv, RMSE),
	COST(mae, mae_deriv, MAE),
	COST(mbe, mbe_deriv, MBE),
	COST(log_loss, log_loss_deriv, LOGISTIC_LOSS),
	COST(cross_entropy, cross_entropy_deriv, CROSS_ENTROPY),
	COST(hinge_loss, hinge_loss_deriv, HINGE_LOSS),
	COST(wasserstein_loss, wasserstein_loss_deriv, WASSERSTEIN_LOSS),
};

// the definitions, on flat data
static double ref_cost(int id, const DV &p, const DV &y, double delta = 1) {
	double t = 0, n = (double)p.size();
	for (size_t i = 0; i < p.size(); i++) {
		double d = p[i] - y[i];
		switch (id) {
			case K::COST_TYPE_MSE:
			case K::COST_TYPE_RMSE:
				t += d * d;
				break;
			case K::COST_TYPE_MAE:
				t += std::fabs(d);
				break;
			case K::COST_TYPE_MBE:
				t += d;
				break;
			case K::COST_TYPE_LOGISTIC_LOSS:
				t -= y[i] * std::log(p[i] + 1e-8) + (1 - y[i]) * std::log(1 - p[i] + 1e-8);
				break;
			case K::COST_TYPE_CROSS_ENTROPY:
				t -= y[i] * std::log(p[i]);
				break;
			case K::COST_TYPE_HINGE_LOSS:
				t += std::max(0.0, 1 - y[i] * p[i]);
				break;
			case K::COST_TYPE_WASSERSTEIN_LOSS:
				t -= y[i] * p[i];
				break;
			default: // Huber
				t += std::fabs(d) <= delta ? d * d : 2 * delta * std::fabs(d) - delta * delta;
		}
	}
	switch (id) {
		case K::COST_TYPE_MSE:
			return t / (2 * n);
		case K::COST_TYPE_RMSE:
			return std::sqrt(t / n);
		case K::COST_TYPE_CROSS_ENTROPY:
		case -1:
			return t;
		default:
			return t / n;
	}
}

struct CostCase {
	int id;
	DM p, y;
	float delta = 1;
};

static CostCase gen_cost(vt::Src &s, bool smooth) {
	CostCase q;
	q.id = (int)s.draw(9) - 1;
	int r = s.grown(1, 4, 12), k = s.grown(1, 5, 20);
	q.p = DM(r, k);
	q.y = DM(r, k);
	q.delta = s.real_in(0.25f, 3);
	bool perfect = !smooth && s.one_in(8);
	for (size_t i = 0; i < q.p.a.size(); i++) {
		double &p = q.p.a[i], &y = q.y.a[i];
		switch (q.id) {
			case K::COST_TYPE_LOGISTIC_LOSS:
				p = s.real_in(0.02f, 0.98f);
				y = s.one_in(4) ? s.real_in(0, 1) : (float)s.draw(2);
				break;
			case K::COST_TYPE_CROSS_ENTROPY:
				p = s.real_in(0.02f, 1);
				y = s.one_in(4) ? s.real_in(0, 1) : (float)s.draw(2);
				break;
			case K::COST_TYPE_HINGE_LOSS:
				p = s.real(3);
				y = s.flag() ? 1 : -1;
				if (smooth && std::fabs(1 - y * p) < 0.02) {
					p = 0;
				}
				break;
			default:
				p = s.real(4);
				y = perfect ? p : s.real(4);
				if (smooth && std::fabs(p - y) < 0.02) {
					y = p + 1;
				}
				if (smooth && q.id == -1 && std::fabs(std::fabs(p - y) - q.delta) < 0.02) {
					y = p + q.delta / 2;
				}
		}
		p = f32(p);
		y = f32(y);
	}
	return q;
}

VT_PROP(C12, cost_values, 60000) {
	CostCase q = gen_cost(s, false);
	Ref<K> o;
	o.instance();
	K *k = o.ptr();
	c.note("cost %s", q.id < 0 ? "huber" : COSTS[q.id].name);
	note(c, "y_hat", q.p);
	note(c, "y", q.y);
	double w = ref_cost(q.id, q.p.a, q.y.a, q.delta);
	double tol = 3e-5 * (1 + std::fabs(w)) + 1e-6 * q.p.a.size() * 16;
	Ref<MLPPVector> pv = mkv(q.p.a), yv = mkv(q.y.a);
	Ref<MLPPMatrix> pm = mkm(q.p), ym = mkm(q.y);
	if (q.id < 0) {
		c.note("delta=%g", q.delta);
		c.near(k->huber_lossv(pv, yv, q.delta), w, tol, "Huber loss of vectors");
		c.near(k->huber_lossm(pm, ym, q.delta), w, tol, "Huber loss of matrices");
	} else {
		const Cost &t = COSTS[q.id];
		K::CostTypes id = (K::CostTypes)t.id;
		c.near((k->*t.fv)(pv, yv), w, tol, "%s of vectors", t.name);
		c.near((k->*t.fm)(pm, ym), w, tol, "%s of matrices", t.name);
		c.near(k->run_cost_norm_vector(id, pv, yv), w, tol, "%s of vectors by identifier", t.name);
		c.near(k->run_cost_norm_matrix(id, pm, ym), w, tol, "%s of matrices by identifier", t.name);
		auto fv = k->get_cost_function_ptr_normal_vector(id);
		auto fm = k->get_cost_function_ptr_normal_matrix(id);
		c.check(fv && fm, "%s: no function for the identifier", t.name);
		c.near((k->*fv)(pv, yv), w, tol, "%s of vectors by pointer", t.name);
		c.near((k->*fm)(pm, ym), w, tol, "%s of matrices by pointer", t.name);
		// labels of another size are refused
		if (s.one_in(8)) {
			Ref<MLPPVector> longer = mkv(q.y.a);
			longer->push_back(1);
			k->run_cost_norm_vector(id, pv, longer);
			c.check(c.errors() > 0, "%s accepted labels of another size", t.name);
		}
	}
	if (q.id == K::COST_TYPE_HINGE_LOSS) {
		int n = s.grown(1, 5, 20);
		float C = s.real_in(0, 3);
		DV wt = gen_dv(s, n, 3);
		DM wm = gen_dm(s, 2, n, 3);
		double a = 0, b = 0;
		for (double x : wt) {
			a += x * x / 2;
		}
		for (double x : wm.a) {
			b += x * x / 2;
		}
		c.near(k->hinge_losswv(pv, yv, mkv(wt), C), C * w + a, tol * (1 + C) + 1e-5 * a, "soft-margin cost of vectors");
		c.near(k->hinge_losswm(pm, ym, mkm(wm), C), C * w + b, tol * (1 + C) + 1e-5 * b, "soft-margin cost of matrices");
	}
	eqv(c, pv, q.p.a, 0, 0, "predictions afterwards");
	eqm(c, ym, q.y, 0, 0, "labels afterwards");
	c.no_errors("cost");
	c.nt();
}

VT_PROP(C13, cost_gradients, 60000) {
	CostCase q = gen_cost(s, true);
	Ref<K> o;
	o.instance();
	K *k = o.ptr();
	c.note("cost %s", q.id < 0 ? "huber" : COSTS[q.id].name);
	note(c, "y_hat", q.p);
	note(c, "y", q.y);
	Ref<MLPPVector> pv = mkv(q.p.a), yv = mkv(q.y.a);
	Ref<MLPPMatrix> pm = mkm(q.p), ym = mkm(q.y);
	int n = (int)q.p.a.size();
	// the averaged costs leave out the division by the number of samples
	double factor = (q.id == K::COST_TYPE_CROSS_ENTROPY || q.id < 0) ? 1 : n;
	DM w(q.p.r, q.p.c);
	for (int i = 0; i < n; i++) {
		DV a = q.p.a, b = q.p.a;
		a[i] += 1e-6;
		b[i] -= 1e-6;
		w.a[i] = factor * (ref_cost(q.id, a, q.y.a, q.delta) - ref_cost(q.id, b, q.y.a, q.delta)) / 2e-6;
	}
	const double rel = 2e-4, abs_ = 2e-5;
	if (q.id < 0) {
		c.note("delta=%g", q.delta);
		eqv(c, k->huber_loss_derivv(pv, yv, q.delta), w.a, rel, abs_, "Huber gradient of vectors");
		eqm(c, k->huber_loss_derivm(pm, ym, q.delta), w, rel, abs_, "Huber gradient of matrices");
	} else {
		const Cost &t = COSTS[q.id];
		K::CostTypes id = (K::CostTypes)t.id;
		char b1[64], b2[64];
		snprintf(b1, sizeof b1, "%s gradient of vectors", t.name);
		snprintf(b2, sizeof b2, "%s gradient of matrices", t.name);
		eqv(c, (k->*t.gv)(pv, yv), w.a, rel, abs_, b1);
		eqm(c, (k->*t.gm)(pm, ym), w, rel, abs_, b2);
		eqv(c, k->run_cost_deriv_vector(id, pv, yv), w.a, rel, abs_, b1);
		eqm(c, k->run_cost_deriv_matrix(id, pm, ym), w, rel, abs_, b2);
		auto gv = k->get_cost_function_ptr_deriv_vector(id);
		auto gm = k->get_cost_function_ptr_deriv_matrix(id);
		c.check(gv && gm, "%s: no derivative for the identifier", t.name);
		eqv(c, (k->*gv)(pv, yv), w.a, rel, abs_, b1);
		eqm(c, (k->*gm)(pm, ym), w, rel, abs_, b2);
	}
	if (q.id == K::COST_TYPE_HINGE_LOSS) {
		float C = s.real_in(0, 3);
		DM wc = w;
		for (auto &x : wc.a) {
			x *= C;
		}
		eqv(c, k->hinge_loss_derivwv(pv, yv, C), wc.a, rel, abs_, "soft-margin gradient of vectors");
		eqm(c, k->hinge_loss_derivwm(pm, ym, C), wc, rel, abs_, "soft-margin gradient of matrices");
	}
	eqv(c, pv, q.p.a, 0, 0, "predictions afterwards");
	eqm(c, ym, q.y, 0, 0, "labels afterwards");
	c.no_errors("cost derivative");
	c.nt();
}

static double ref_dual(const DV &al, const DM &x, const DV &y) {
	double t = 0;
	for (int i = 0; i < x.r; i++) {
		t -= al[i];
		for (int j = 0; j < x.r; j++) {
			double d = 0;
			for (int k = 0; k < x.c; k++) {
				d += x.at(i, k) * x.at(j, k);
			}
			t += 0.5 * al[i] * al[j] * y[i] * y[j] * d;
		}
	}
	return t;
}
static void dual(vt::Src &s, vt::Ctx &c, bool deriv) {
	Ref<K> k;
	k.instance();
	int n = s.grown(1, 5, 12), d = s.grown(1, 4, 12);
	DM x = gen_dm(s, n, d, 3);
	DV al(n), y(n);
	for (int i = 0; i < n; i++) {
		al[i] = s.real_in(0, 2);
		y[i] = s.flag() ? 1 : -1;
	}
	note(c, "alpha", al);
	note(c, "X", x);
	note(c, "y", y);
	if (!deriv) {
		double w = ref_dual(al, x, y);
		c.near(k->dual_form_svm(mkv(al), mkm(x), mkv(y)), w, 1e-3 + 1e-4 * std::fabs(w), "dual objective");
	} else {
		DV w(n);
		for (int i = 0; i < n; i++) {
			DV a = al, b = al;
			a[i] += 1e-4;
			b[i] -= 1e-4;
			w[i] = (ref_dual(a, x, y) - ref_dual(b, x, y)) / 2e-4;
		}
		eqv(c, k->dual_form_svm_deriv(mkv(al), mkm(x), mkv(y)), w, 1e-4, 1e-3, "gradient of the dual objective");
	}
	c.no_errors("dual form");
	c.nt(n > 1);
}
VT_PROP(C12, dual_objective, 3000) { dual(s, c, false); }
VT_PROP(C13, dual_gradient, 3000) { dual(s, c, true); }

// ------------------------------------------------------------------------------------ regularisation
VT_PROP(C14, regularisation, 60000) {
	Ref<MLPPReg> o;
	o.instance();
	MLPPReg::RegularizationType t = s.pick({ MLPPReg::REGULARIZATION_TYPE_NONE, MLPPReg::REGULARIZATION_TYPE_RIDGE, MLPPReg::REGULARIZATION_TYPE_LASSO, MLPPReg::REGULARIZATION_TYPE_ELASTIC_NET, MLPPReg::REGULARIZATION_TYPE_WEIGHT_CLIPPING });
	bool clip = t == MLPPReg::REGULARIZATION_TYPE_WEIGHT_CLIPPING;
	double lam = clip ? s.real_in(-3, 0) : s.real_in(0, 2), al = clip ? s.real_in(0, 3) : s.real_in(0, 1);
	int r = s.grown(1, 4, 12), k = s.grown(1, 5, 20);
	DM w = gen_dm(s, r, k, 4);
	c.note("type %d lambda=%g alpha=%g", (int)t, lam, al);
	note(c, "w", w);
	double term = 0;
	DM d(r, k), after(r, k);
	for (size_t i = 0; i < w.a.size(); i++) {
		double x = w.a[i], sg = x > 0 ? 1 : (x < 0 ? -1 : 0);
		after.a[i] = x;
		switch (t) {
			case MLPPReg::REGULARIZATION_TYPE_RIDGE:
				term += lam * x * x / 2;
				d.a[i] = lam * x;
				break;
			case MLPPReg::REGULARIZATION_TYPE_LASSO:
				term += lam * std::fabs(x);
				d.a[i] = lam * sg;
				break;
			case MLPPReg::REGULARIZATION_TYPE_ELASTIC_NET:
				term += lam * (al * std::fabs(x) + (1 - al) / 2 * x * x);
				d.a[i] = lam * (al * sg + (1 - al) * x);
				break;
			default:
				break;
		}
		after.a[i] -= d.a[i];
		if (clip) {
			after.a[i] = std::min(std::max(x, lam), al);
		}
	}
	Ref<MLPPVector> v = mkv(w.a);
	Ref<MLPPMatrix> m = mkm(w);
	double tol = 1e-5 * (1 + std::fabs(term)) * 4;
	if (!clip) {
		c.near(o->reg_termv(v, lam, al, t), term, tol, "penalty of a vector");
		c.near(o->reg_termm(m, lam, al, t), term, tol, "penalty of a matrix");
		eqv(c, o->reg_deriv_termv(v, lam, al, t), d.a, 1e-5, 1e-5, "penalty derivative of a vector");
		eqm(c, o->reg_deriv_termm(m, lam, al, t), d, 1e-5, 1e-5, "penalty derivative of a matrix");
	}
	eqv(c, o->reg_weightsv(v, lam, al, t), after.a, 1e-5, 1e-5, "regularised vector");
	eqm(c, o->reg_weightsm(m, lam, al, t), after, 1e-5, 1e-5, "regularised matrix");
	eqv(c, v, w.a, 0, 0, "weights afterwards");
	eqm(c, m, w, 0, 0, "weights afterwards");
	c.no_errors("regularisation");
	c.nt(t != MLPPReg::REGULARIZATION_TYPE_NONE);
}
