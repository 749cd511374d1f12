// C34-C36, C38, C39: layers and the networks made of them
#include "core/activation.h"
#include "core/cost.h"
#include "core/utilities.h"
#include "ml.h"
#include "modules/ann/ann.h"
#include "modules/auto_encoder/auto_encoder.h"
#include "modules/gan/gan.h"
#include "modules/hidden_layer/hidden_layer.h"
#include "modules/kmeans/kmeans.h"
#include "modules/knn/knn.h"
#include "modules/lin_reg/lin_reg.h"
#include "modules/log_reg/log_reg.h"
#include "modules/mann/mann.h"
#include "modules/mlp/mlp.h"
#include "modules/multi_output_layer/multi_output_layer.h"
#include "modules/output_layer/output_layer.h"
#include "modules/pca/pca.h"
#include "modules/probit_reg/probit_reg.h"
#include "modules/softmax_net/softmax_net.h"
#include "modules/softmax_reg/softmax_reg.h"
#include "modules/svc/svc.h"
#include "modules/tanh_reg/tanh_reg.h"
#include "modules/uni_lin_reg/uni_lin_reg.h"
#include "modules/wgan/wgan.h"
#include <functional>

using vt::Ctx;
using vt::Src;
typedef MLPPReg::RegularizationType RT;
typedef MLPPActivation A;
typedef MLPPCost K;
typedef MLPPUtilities U;

// read access to the private members of MLPPMANN (explicit instantiations may name them)
template <class Tag, typename Tag::type M>
struct Rob {
	friend typename Tag::type rob(Tag) { return M; }
};
struct MannNet {
	typedef Vector<Ref<MLPPHiddenLayer>> MLPPMANN::*type;
	friend type rob(MannNet);
};
template struct Rob<MannNet, &MLPPMANN::_network>;
struct MannOut {
	typedef Ref<MLPPMultiOutputLayer> MLPPMANN::*type;
	friend type rob(MannOut);
};
template struct Rob<MannOut, &MLPPMANN::_output_layer>;

namespace {

// ---------------------------------------------------------------------------------- reference network
double sg(double z) { return 1 / (1 + exp(-z)); }
double f_lin(double z) { return z; }
double f_softplus(double z) { return z > 0 ? z + log1p(exp(-z)) : log1p(exp(z)); }
double f_tanh(double z) { return tanh(z); }
double f_relu(double z) { return z > 0 ? z : 0; }
double f_softsign(double z) { return z / (1 + fabs(z)); }
double f_swish(double z) { return z * sg(z); }
double f_asinh(double z) { return asinh(z); }
double f_cdf(double z) { return 0.5 * erfc(-z / sqrt(2.0)); }
double f_cll(double z) { return -expm1(-exp(z)); }
struct FA {
	int id;
	double (*f)(double);
	const char *name;
};
const FA FS[] = {
	{ A::ACTIVATION_FUNCTION_SIGMOID, sg, "sigmoid" },
	{ A::ACTIVATION_FUNCTION_LINEAR, f_lin, "linear" },
	{ A::ACTIVATION_FUNCTION_TANH, f_tanh, "tanh" },
	{ A::ACTIVATION_FUNCTION_RELU, f_relu, "relu" },
	{ A::ACTIVATION_FUNCTION_SOFTPLUS, f_softplus, "softplus" },
	{ A::ACTIVATION_FUNCTION_SOFTSIGN, f_softsign, "softsign" },
	{ A::ACTIVATION_FUNCTION_SWISH, f_swish, "swish" },
	{ A::ACTIVATION_FUNCTION_ARSINH, f_asinh, "arsinh" },
	{ A::ACTIVATION_FUNCTION_GAUSSIAN_CDF, f_cdf, "gaussian cdf" },
	{ A::ACTIVATION_FUNCTION_C_LOG_LOG, f_cll, "cloglog" },
};
const int NFS = sizeof(FS) / sizeof(FS[0]);
const int SOFTMAX = -7; // index standing for a softmax output

struct Layer {
	DM w; // inputs x units
	DV b;
	int act = 0; // index into FS, or SOFTMAX
	RT reg = MLPPReg::REGULARIZATION_TYPE_NONE;
	double lam = 0, al = 0;
	DM in, z, a, delta, dw; // state of the last pass
};

struct Net {
	std::vector<Layer> L;
	int cost = K::COST_TYPE_MSE;
	double peak = 1;
	bool delicate = false;

	double df(int k, double z) {
		if (FS[k].f == f_relu) {
			delicate |= std::fabs(z) < 1e-3;
			return z > 0;
		}
		return (FS[k].f(z + 1e-5) - FS[k].f(z - 1e-5)) / 2e-5;
	}
	DM forward(const DM &X, int from = 0, int to = -1) {
		DM x = X;
		to = to < 0 ? (int)L.size() : to;
		for (int i = from; i < to; i++) {
			Layer &l = L[i];
			l.in = x;
			l.z = x * l.w;
			l.a = DM(l.z.r, l.z.c);
			for (int r = 0; r < l.z.r; r++) {
				double mx = -1e300, t = 0;
				for (int q = 0; q < l.z.c; q++) {
					l.z.at(r, q) += l.b[q];
					mx = std::max(mx, l.z.at(r, q));
					peak = std::max(peak, std::fabs(l.z.at(r, q)));
				}
				for (int q = 0; q < l.z.c; q++) {
					double z = l.z.at(r, q);
					l.a.at(r, q) = l.act == SOFTMAX ? exp(z - mx) : FS[l.act].f(z);
					t += l.a.at(r, q);
				}
				if (l.act == SOFTMAX) {
					for (int q = 0; q < l.z.c; q++) {
						l.a.at(r, q) /= t;
					}
				}
			}
			x = l.a;
		}
		return x;
	}
	// n times the derivative of the cost by the prediction
	double dcost(double p, double y) {
		switch (cost) {
			case K::COST_TYPE_MSE:
				return p - y;
			case K::COST_TYPE_MAE:
				delicate |= std::fabs(p - y) < 1e-3;
				return p > y ? 1 : -1;
			case K::COST_TYPE_MBE:
				return 1;
			case K::COST_TYPE_LOGISTIC_LOSS:
				delicate |= p < 0.01 || p > 0.99;
				return -(y / p) + (1 - y) / (1 - p);
			case K::COST_TYPE_CROSS_ENTROPY:
				delicate |= p < 0.01;
				return -y / p;
			case K::COST_TYPE_HINGE_LOSS:
				delicate |= std::fabs(1 - y * p) < 1e-3;
				return 1 - y * p > 0 ? -y : 0;
			case K::COST_TYPE_WASSERSTEIN_LOSS:
				return -y;
		}
		return 0;
	}
	void out_delta(const DM &Y, bool plain) {
		Layer &l = L.back();
		l.delta = DM(l.a.r, l.a.c);
		for (int i = 0; i < l.a.r; i++) {
			for (int q = 0; q < l.a.c; q++) {
				double e = l.a.at(i, q) - Y.at(i, q);
				l.delta.at(i, q) = plain || l.act == SOFTMAX ? e : dcost(l.a.at(i, q), Y.at(i, q)) * df(l.act, l.z.at(i, q));
			}
		}
	}
	void back(int i) { // delta of layer i from layer i + 1 and its current weights
		Layer &l = L[i], &nx = L[i + 1];
		l.delta = nx.delta * nx.w.t();
		for (size_t q = 0; q < l.delta.a.size(); q++) {
			l.delta.a[q] *= df(l.act, l.z.a[q]);
		}
	}
	static double reg_grad(const Layer &l, double w, bool &delicate) {
		DV t{ w };
		ref_reg(t, l.reg, l.lam, l.al, delicate);
		return w - t[0];
	}
	// gradients of all layers at the current weights, regularization included
	void gradients(const DM &Y, bool plain = false, int from = 0) {
		out_delta(Y, plain);
		for (int i = (int)L.size() - 1; i >= from; i--) {
			if (i < (int)L.size() - 1) {
				back(i);
			}
			Layer &l = L[i];
			l.dw = l.in.t() * l.delta;
			for (size_t q = 0; q < l.w.a.size(); q++) {
				l.dw.a[q] += reg_grad(l, l.w.a[q], delicate);
			}
		}
	}
	static void move_bias(Layer &l, double s) {
		for (int q = 0; q < l.delta.c; q++) {
			for (int i = 0; i < l.delta.r; i++) {
				l.b[q] -= s * l.delta.at(i, q);
			}
		}
	}
	void grow() {
		for (Layer &l : L) {
			peak = std::max(peak, l.w.maxabs());
			for (double b : l.b) {
				peak = std::max(peak, std::fabs(b));
			}
		}
	}
	// one step with the regularization applied to the weights after the step.
	// `seq`: the error is propagated through the weights already updated
	void step(const DM &X, const DM &Y, double s, bool plain, bool seq) {
		forward(X);
		out_delta(Y, plain);
		int n = (int)L.size();
		if (!seq) {
			for (int i = n - 2; i >= 0; i--) {
				back(i);
			}
		}
		for (int i = n - 1; i >= 0; i--) {
			if (seq && i < n - 1) {
				back(i);
			}
			Layer &l = L[i];
			DM g = l.in.t() * l.delta;
			for (size_t q = 0; q < l.w.a.size(); q++) {
				l.w.a[q] -= s * g.a[q];
			}
			ref_reg(l.w.a, l.reg, l.lam, l.al, delicate);
			move_bias(l, s);
		}
		grow();
	}
	double tol() const { return 4e-5 * peak * (1 + 0.02 * peak); }
};
const double PEAK = 60;

DM rows_of(const DM &X, const std::vector<int> &rows) {
	DM o((int)rows.size(), X.c);
	for (size_t i = 0; i < rows.size(); i++) {
		for (int j = 0; j < X.c; j++) {
			o.at((int)i, j) = X.at(rows[i], j);
		}
	}
	return o;
}
std::vector<std::vector<int>> batches(int n, int size) {
	int nb = n / size;
	std::vector<std::vector<int>> o(nb);
	for (int i = 0; i < n; i++) {
		o[std::min(i / (n / nb), nb - 1)].push_back(i);
	}
	return o;
}
std::vector<int> all(int n) {
	std::vector<int> v(n);
	for (int i = 0; i < n; i++) {
		v[i] = i;
	}
	return v;
}
DM rowm(const DV &v) {
	DM o(1, (int)v.size());
	o.a = v;
	return o;
}
DM colm(const DV &v) {
	DM o((int)v.size(), 1);
	o.a = v;
	return o;
}

void gen_reg(Src &s, Layer &l, bool clip) {
	switch (s.draw(clip ? 6 : 5)) {
		case 2:
			l.reg = MLPPReg::REGULARIZATION_TYPE_RIDGE;
			break;
		case 3:
			l.reg = MLPPReg::REGULARIZATION_TYPE_LASSO;
			break;
		case 4:
			l.reg = MLPPReg::REGULARIZATION_TYPE_ELASTIC_NET;
			break;
		case 5:
			l.reg = MLPPReg::REGULARIZATION_TYPE_WEIGHT_CLIPPING;
			l.lam = -s.real_in(0.25, 2);
			l.al = s.real_in(0.25, 2);
			return;
		default:
			break;
	}
	l.lam = s.real_in(0, 0.25);
	l.al = s.real_in(0, 1);
}
void gen_weights(Src &s, Layer &l, int in, int out) {
	l.w = gen_dm(s, in, out, 1.5);
	l.b = gen_dv(s, out, 1);
}
void note_net(Ctx &c, const Net &n) {
	for (size_t i = 0; i < n.L.size(); i++) {
		const Layer &l = n.L[i];
		c.note("layer %d: %s reg=%d lambda=%.9g alpha=%.9g", (int)i, l.act == SOFTMAX ? "softmax" : FS[l.act].name, (int)l.reg, l.lam, l.al);
		note(c, "W", l.w);
		note(c, "b", l.b);
	}
}
bool close(const Ref<MLPPMatrix> &m, const DM &w, double tol) {
	if (!m.is_valid() || m->size() != Size2i(w.c, w.r)) {
		return false;
	}
	DM g = dm(m);
	for (size_t i = 0; i < w.a.size(); i++) {
		if (!(std::fabs(g.a[i] - w.a[i]) <= tol)) {
			return false;
		}
	}
	return true;
}
bool close(const Ref<MLPPVector> &v, const DV &w, double tol) {
	if (!v.is_valid() || v->size() != (int)w.size()) {
		return false;
	}
	DV g = dv(v);
	for (size_t i = 0; i < w.size(); i++) {
		if (!(std::fabs(g[i] - w[i]) <= tol)) {
			return false;
		}
	}
	return true;
}
std::string show(const DV &v) {
	std::string o = "[";
	for (size_t i = 0; i < v.size() && i < 12; i++) {
		char b[32];
		snprintf(b, sizeof b, "%s%.7g", i ? "," : "", v[i]);
		o += b;
	}
	return o + "]";
}
// copies of live layers: what they hold now
typedef std::vector<std::pair<DM, DV>> Params;
bool same(const Params &p, const Net &r, double tol) {
	if (p.size() != r.L.size()) {
		return false;
	}
	for (size_t i = 0; i < p.size(); i++) {
		const Layer &l = r.L[i];
		if (p[i].first.r != l.w.r || p[i].first.c != l.w.c || p[i].second.size() != l.b.size()) {
			return false;
		}
		for (size_t q = 0; q < l.w.a.size(); q++) {
			if (!(std::fabs(p[i].first.a[q] - l.w.a[q]) <= tol)) {
				return false;
			}
		}
		for (size_t q = 0; q < l.b.size(); q++) {
			if (!(std::fabs(p[i].second[q] - l.b[q]) <= tol)) {
				return false;
			}
		}
	}
	return true;
}
// how far a run from slightly different weights ends up: float rounding does no more
template <class F>
bool steady(const Net &start, const Net &end, F run) {
	Net t = start;
	unsigned h = 12345;
	auto nudge = [&](double &v) {
		h = h * 1103515245 + 12345;
		v += ((h >> 16 & 1) ? 1 : -1) * 1e-6 * (0.25 + std::fabs(v));
	};
	for (Layer &l : t.L) {
		for (double &v : l.w.a) {
			nudge(v);
		}
		for (double &v : l.b) {
			nudge(v);
		}
	}
	run(t);
	for (size_t i = 0; i < t.L.size(); i++) {
		for (size_t q = 0; q < t.L[i].w.a.size(); q++) {
			if (!(std::fabs(t.L[i].w.a[q] - end.L[i].w.a[q]) <= end.tol())) {
				return false;
			}
		}
		for (size_t q = 0; q < t.L[i].b.size(); q++) {
			if (!(std::fabs(t.L[i].b[q] - end.L[i].b[q]) <= end.tol())) {
				return false;
			}
		}
	}
	return true;
}
void check_params(Ctx &c, const Params &p, const std::vector<Net> &alts, const char *what) {
	for (const Net &r : alts) {
		if (same(p, r, r.tol())) {
			return;
		}
	}
	const Net &r = alts[0];
	for (size_t i = 0; i < p.size(); i++) {
		c.check(p[i].first.r == r.L[i].w.r && p[i].first.c == r.L[i].w.c, "%s: layer %d has %dx%d weights, expected %dx%d", what, (int)i, p[i].first.r, p[i].first.c, r.L[i].w.r, r.L[i].w.c);
		Net one;
		one.L = { r.L[i] };
		c.check(same({ p[i] }, one, r.tol()), "%s: layer %d: weights %s bias %s, expected %s %s (tolerance %g%s)", what, (int)i, show(p[i].first.a).c_str(), show(p[i].second).c_str(), show(r.L[i].w.a).c_str(), show(r.L[i].b).c_str(), r.tol(), alts.size() > 1 ? "; or an alternative" : "");
	}
	c.fail("%s: not the expected parameters", what);
}

// ---------------------------------------------------------------------------------- C34 layers
bool same_bits(real_t a, real_t b) { return a == b || (std::isnan(a) && std::isnan(b)); }
struct Lay { // one interface to the three kinds of layers
	int kind; // 0 hidden, 1 output, 2 multi output
	Ref<MLPPHiddenLayer> h;
	Ref<MLPPOutputLayer> o;
	Ref<MLPPMultiOutputLayer> m;
	Ref<MLPPMatrix> w() {
		if (kind == 1) {
			return mkm(colm(dv(o->get_weights())));
		}
		return kind == 0 ? h->get_weights() : m->get_weights();
	}
	DV b() { return kind == 1 ? DV{ o->get_bias() } : dv(kind == 0 ? h->get_bias() : m->get_bias()); }
	void put_w(const DM &w) {
		if (kind == 1) {
			o->set_weights(mkv(w.a));
		} else if (kind == 0) {
			h->set_weights(mkm(w));
		} else {
			m->set_weights(mkm(w));
		}
	}
	void put_b(const DV &b) {
		if (kind == 1) {
			o->set_bias(b[0]);
		} else if (kind == 0) {
			h->set_bias(mkv(b));
		} else {
			m->set_bias(mkv(b));
		}
	}
#define EACH(CALL) (kind == 0 ? h->CALL : kind == 1 ? o->CALL : m->CALL)
	void put_in(const DM &x) { EACH(set_input(mkm(x))); }
	void act(int a) { EACH(set_activation((A::ActivationFunction)a)); }
	int act() { return EACH(get_activation()); }
	void forward() { EACH(forward_pass()); }
	void test(const DV &x) { EACH(test(mkv(x))); }
	DM z() { return kind == 0 ? dm(h->get_z()) : kind == 1 ? colm(dv(o->get_z())) : dm(m->get_z()); }
	DM a() { return kind == 0 ? dm(h->get_a()) : kind == 1 ? colm(dv(o->get_a())) : dm(m->get_a()); }
	DV zt() { return kind == 0 ? dv(h->get_z_test()) : kind == 1 ? DV{ o->get_z_test() } : dv(m->get_z_test()); }
	DV at() { return kind == 0 ? dv(h->get_a_test()) : kind == 1 ? DV{ o->get_a_test() } : dv(m->get_a_test()); }
};
// what a layer computes, checked against its own weights
void check_forward(Ctx &c, Lay &l, const DM &X, const DM &W, const DV &B, int act) {
	l.forward();
	DM z = X * W;
	for (int i = 0; i < z.r; i++) {
		for (int q = 0; q < z.c; q++) {
			z.at(i, q) += B[q];
		}
	}
	DM gz = l.z(), ga = l.a();
	c.check(gz.r == z.r && gz.c == z.c, "forward pass: z is %dx%d, expected %dx%d", gz.r, gz.c, z.r, z.c);
	c.check(ga.r == z.r && ga.c == z.c, "forward pass: a is %dx%d, expected %dx%d", ga.r, ga.c, z.r, z.c);
	for (size_t i = 0; i < z.a.size(); i++) {
		c.near(gz.a[i], z.a[i], 1e-4, "forward pass: z element %d", (int)i);
	}
	MLPPActivation avn;
	DM want;
	if (l.kind == 1) {
		want = colm(dv(avn.run_activation_norm_vector((A::ActivationFunction)act, mkv(gz.a))));
	} else {
		want = dm(avn.run_activation_norm_matrix((A::ActivationFunction)act, mkm(gz)));
	}
	for (size_t i = 0; i < want.a.size(); i++) {
		c.check(same_bits(ga.a[i], want.a[i]), "forward pass: a element %d is %.9g, the activation %d of z=%.9g is %.9g", (int)i, ga.a[i], act, gz.a[i], want.a[i]);
	}
	c.check(close(l.w(), W, 0), "the forward pass changed the weights");
	DV b = l.b();
	for (size_t i = 0; i < B.size(); i++) {
		c.check((float)b[i] == (float)B[i], "the forward pass changed bias %d: %.9g to %.9g", (int)i, B[i], b[i]);
	}
}
void check_test(Ctx &c, Lay &l, const DV &x, const DM &W, const DV &B, int act) {
	l.test(x);
	DM z = rowm(x) * W;
	DV gz = l.zt(), ga = l.at();
	c.check((int)gz.size() == z.c && (int)ga.size() == z.c, "test: %d and %d values, expected %d", (int)gz.size(), (int)ga.size(), z.c);
	for (int q = 0; q < z.c; q++) {
		c.near(gz[q], z.a[q] + B[q], 1e-4, "test: z element %d", q);
	}
	MLPPActivation avn;
	DV want = l.kind == 1 ? DV{ avn.run_activation_norm_real((A::ActivationFunction)act, (real_t)gz[0]) } : dv(avn.run_activation_norm_vector((A::ActivationFunction)act, mkv(gz)));
	for (int q = 0; q < z.c; q++) {
		c.check(same_bits(ga[q], want[q]), "test: a element %d is %.9g, the activation %d of z=%.9g is %.9g", q, ga[q], act, gz[q], want[q]);
	}
	c.check(close(l.w(), W, 0), "test changed the weights");
}
const int ACT_IDS[] = {
	A::ACTIVATION_FUNCTION_LINEAR, A::ACTIVATION_FUNCTION_SIGMOID, A::ACTIVATION_FUNCTION_SWISH, A::ACTIVATION_FUNCTION_MISH, A::ACTIVATION_FUNCTION_SIN_C, A::ACTIVATION_FUNCTION_SOFTPLUS,
	A::ACTIVATION_FUNCTION_SOFTSIGN, A::ACTIVATION_FUNCTION_C_LOG_LOG, A::ACTIVATION_FUNCTION_LOGIT, A::ACTIVATION_FUNCTION_GAUSSIAN_CDF, A::ACTIVATION_FUNCTION_RELU, A::ACTIVATION_FUNCTION_GELU,
	A::ACTIVATION_FUNCTION_SIGN, A::ACTIVATION_FUNCTION_UNIT_STEP, A::ACTIVATION_FUNCTION_SINH, A::ACTIVATION_FUNCTION_COSH, A::ACTIVATION_FUNCTION_TANH, A::ACTIVATION_FUNCTION_CSCH, A::ACTIVATION_FUNCTION_SECH,
	A::ACTIVATION_FUNCTION_COTH, A::ACTIVATION_FUNCTION_ARSINH, A::ACTIVATION_FUNCTION_ARCOSH, A::ACTIVATION_FUNCTION_ARTANH, A::ACTIVATION_FUNCTION_ARCSCH, A::ACTIVATION_FUNCTION_ARSECH, A::ACTIVATION_FUNCTION_ARCOTH,
	A::ACTIVATION_FUNCTION_SOFTMAX
};
int gen_act(Src &s, int kind) {
	int n = sizeof(ACT_IDS) / sizeof(ACT_IDS[0]);
	return ACT_IDS[s.draw(kind == 1 ? n - 1 : n)];
}
U::WeightDistributionType gen_dist(Src &s) { return (U::WeightDistributionType)s.draw(8); }

void prop_layer(Src &s, Ctx &c, int kind) {
	Lay l;
	l.kind = kind;
	int in = s.grown(1, 4, 10), out = kind == 1 ? 1 : s.grown(1, 4, 10), n = s.grown(1, 4, 20), act = gen_act(s, kind);
	DM X = gen_dm(s, n, in, 2);
	bool by_ctor = s.flag();
	U::WeightDistributionType dist = gen_dist(s);
	RT reg = (RT)s.range(0, 3);
	float lam = s.real_in(0, 1), al = s.real_in(0, 1);
	K::CostTypes cost = s.pick({ K::COST_TYPE_MSE, K::COST_TYPE_MAE, K::COST_TYPE_HINGE_LOSS });
	c.note("%s layer, %d inputs, %d units, %s, activation %d, weight init %d", kind == 0 ? "hidden" : kind == 1 ? "output" : "multi output", in, out, by_ctor ? "constructed" : "set up", act, (int)dist);
	DM W;
	DV B;
	if (by_ctor) {
		if (kind == 0) {
			l.h = Ref<MLPPHiddenLayer>(memnew(MLPPHiddenLayer(out, (A::ActivationFunction)act, kpm(X), dist, reg, lam, al)));
			c.check(l.h->get_n_hidden() == out && l.h->get_reg() == reg && l.h->get_lambda() == lam && l.h->get_alpha() == al && l.h->get_weight_init() == dist && l.h->is_initialized(), "constructor arguments not kept");
		} else if (kind == 1) {
			l.o = Ref<MLPPOutputLayer>(memnew(MLPPOutputLayer(in, (A::ActivationFunction)act, cost, kpm(X), dist, reg, lam, al)));
			c.check(l.o->get_n_hidden() == in && l.o->get_cost() == cost && l.o->get_reg() == reg && l.o->get_lambda() == lam && l.o->get_alpha() == al && l.o->get_weight_init() == dist && l.o->is_initialized(), "constructor arguments not kept");
		} else {
			l.m = Ref<MLPPMultiOutputLayer>(memnew(MLPPMultiOutputLayer(out, in, (A::ActivationFunction)act, cost, kpm(X), dist, reg, lam, al)));
			c.check(l.m->get_n_output() == out && l.m->get_n_hidden() == in && l.m->get_cost() == cost && l.m->get_reg() == reg && l.m->get_lambda() == lam && l.m->get_alpha() == al && l.m->get_weight_init() == dist, "constructor arguments not kept");
		}
	} else {
		// the setters in any order
		std::vector<int> order{ 0, 1, 2, 3, 4, 5 };
		for (int i = 5; i > 0; i--) {
			std::swap(order[i], order[s.draw(i + 1)]);
		}
		if (kind == 0) {
			l.h.instance();
			c.check(l.h->get_reg() == MLPPReg::REGULARIZATION_TYPE_NONE, "a new layer is regularized");
		} else if (kind == 1) {
			l.o.instance();
			c.check(l.o->get_reg() == MLPPReg::REGULARIZATION_TYPE_NONE, "a new layer is regularized");
		} else {
			l.m.instance();
			c.check(l.m->get_reg() == MLPPReg::REGULARIZATION_TYPE_NONE, "a new layer is regularized");
		}
		for (int q : order) {
			switch (q) {
				case 0:
					kind == 0 ? l.h->set_n_hidden(out) : kind == 1 ? l.o->set_n_hidden(in) : l.m->set_n_hidden(in);
					if (kind == 2) {
						l.m->set_n_output(out);
					}
					break;
				case 1:
					l.act(act);
					break;
				case 2:
					l.put_in(X);
					break;
				case 3:
					kind == 0 ? l.h->set_weight_init(dist) : kind == 1 ? l.o->set_weight_init(dist) : l.m->set_weight_init(dist);
					break;
				case 4:
					kind == 0 ? l.h->set_reg(reg) : kind == 1 ? l.o->set_reg(reg) : l.m->set_reg(reg);
					break;
				case 5:
					kind == 0 ? l.h->set_lambda(lam) : kind == 1 ? l.o->set_lambda(lam) : l.m->set_lambda(lam);
					kind == 0 ? l.h->set_alpha(al) : kind == 1 ? l.o->set_alpha(al) : l.m->set_alpha(al);
					break;
			}
		}
		if (kind == 2 || s.flag()) {
			W = gen_dm(s, in, out, 2);
			B = gen_dv(s, out, 2);
			if (s.flag()) {
				l.put_w(W);
				l.put_b(B);
			} else {
				l.put_b(B);
				l.put_w(W);
			}
			c.note("weights set before the first use");
		} else {
			kind == 0 ? l.h->initialize() : l.o->initialize();
		}
	}
	if (W.r == 0) {
		c.check(l.w().is_valid() && l.w()->size() == Size2i(out, in), "new weights are %dx%d, expected %dx%d", l.w()->size().y, l.w()->size().x, in, out);
		c.check((int)l.b().size() == out, "%d biases, expected %d", (int)l.b().size(), out);
		W = dm(l.w());
		B = l.b();
		for (double x : W.a) {
			c.check(std::isfinite(x), "a new weight is not finite");
		}
	}
	int steps = (int)s.range(1, 8), uses = 0;
	for (int t = 0; t < steps; t++) {
		switch (s.draw(9)) {
			case 0:
			case 1:
				check_forward(c, l, X, W, B, act);
				uses++;
				break;
			case 2:
				check_test(c, l, gen_dv(s, in, 2), W, B, act);
				uses++;
				break;
			case 3: {
				W = gen_dm(s, in, out, 2);
				l.put_w(W);
				c.note("set_weights");
				break;
			}
			case 4:
				B = gen_dv(s, out, 2);
				l.put_b(B);
				c.note("set_bias");
				break;
			case 5:
				X = gen_dm(s, s.size(1, 5), in, 2);
				l.put_in(X);
				c.note("set_input %d rows", X.r);
				break;
			case 6:
				act = gen_act(s, kind);
				l.act(act);
				c.check(l.act() == act, "activation not kept");
				c.note("set_activation %d", act);
				break;
			case 7: { // values which belong to the training state
				DM d = gen_dm(s, X.r, out, 2);
				if (kind == 1) {
					l.o->set_delta(mkv(d.a));
					l.o->set_z_test((real_t)d.a[0]);
					c.check(l.o->get_z_test() == (real_t)d.a[0], "z_test not kept");
					c.check(close(l.o->get_delta(), d.a, 0), "delta not kept");
				} else if (kind == 0) {
					l.h->set_delta(mkm(d));
					l.h->set_z(mkm(d));
					c.check(close(l.h->get_delta(), d, 0), "delta not kept");
				} else {
					l.m->set_delta(mkm(d));
					l.m->set_a(mkm(d));
					c.check(close(l.m->get_delta(), d, 0), "delta not kept");
				}
				c.note("set_delta");
				break;
			}
			default: {
				float v = s.real_in(0, 1);
				RT g = (RT)s.range(0, 3);
				if (kind == 0) {
					l.h->set_lambda(v);
					l.h->set_reg(g);
					l.h->set_alpha(1 - v);
				} else if (kind == 1) {
					l.o->set_lambda(v);
					l.o->set_reg(g);
					l.o->set_alpha(1 - v);
					l.o->set_cost(K::COST_TYPE_MBE);
				} else {
					l.m->set_lambda(v);
					l.m->set_reg(g);
					l.m->set_alpha(1 - v);
				}
				c.note("set_lambda, set_reg, set_alpha");
			}
		}
	}
	check_forward(c, l, X, W, B, act);
	check_test(c, l, gen_dv(s, in, 2), W, B, act);
	c.no_errors("the layer");
	c.nt(steps >= 3 && in * out > 1);
}

void prop_layer_resize(Src &s, Ctx &c) {
	// new dimensions need new weights, of the right shape
	int in = s.size(1, 4), out = s.size(1, 4), in2 = s.size(1, 4), out2 = s.size(1, 4);
	Ref<MLPPHiddenLayer> l(memnew(MLPPHiddenLayer(out, A::ACTIVATION_FUNCTION_LINEAR, mkm(gen_dm(s, 2, in, 2)), MLPPUtilities::WEIGHT_DISTRIBUTION_TYPE_UNIFORM, MLPPReg::REGULARIZATION_TYPE_NONE, 0, 0)));
	l->forward_pass();
	DM X = gen_dm(s, s.size(1, 3), in2, 2);
	bool first = s.flag();
	c.note("%d -> %d units, %d -> %d inputs", out, out2, in, in2);
	if (first) {
		l->set_n_hidden(out2);
	}
	l->set_input(mkm(X));
	if (!first) {
		l->set_n_hidden(out2);
	}
	l->forward_pass();
	c.check(l->get_weights()->size() == Size2i(out2, in2), "weights are %dx%d after the dimensions changed to %dx%d", l->get_weights()->size().y, l->get_weights()->size().x, in2, out2);
	c.check(l->get_bias()->size() == out2, "%d biases, expected %d", l->get_bias()->size(), out2);
	DM z = X * dm(l->get_weights());
	DV b = dv(l->get_bias());
	for (int i = 0; i < z.r; i++) {
		for (int q = 0; q < z.c; q++) {
			z.at(i, q) += b[q];
		}
	}
	eqm(c, l->get_a(), z, 1e-4, 1e-4, "output after the dimensions changed");
	Ref<MLPPOutputLayer> o(memnew(MLPPOutputLayer(out, A::ACTIVATION_FUNCTION_LINEAR, K::COST_TYPE_MSE, mkm(gen_dm(s, 2, out, 2)), MLPPUtilities::WEIGHT_DISTRIBUTION_TYPE_UNIFORM, MLPPReg::REGULARIZATION_TYPE_NONE, 0, 0)));
	o->forward_pass();
	o->set_n_hidden(out2);
	o->set_input(l->get_a());
	o->forward_pass();
	c.check(o->get_weights()->size() == out2, "output layer: %d weights, expected %d", o->get_weights()->size(), out2);
	DM w = z * colm(dv(o->get_weights()));
	for (double &x : w.a) {
		x += o->get_bias();
	}
	eqv(c, o->get_a(), w.a, 1e-4, 1e-4, "output layer after the dimensions changed");
	c.no_errors("changing dimensions");
	c.nt(in != in2 || out != out2);
}

// ---------------------------------------------------------------------------------- C35 two-layer networks
struct PMlp : MLPPMLP {
	using MLPPMLP::MLPPMLP;
	Params get() { return { { dm(_weights1), dv(_bias1) }, { colm(dv(_weights2)), DV{ _bias2 } } }; }
	void put(const Net &n) {
		_weights1->set_from_mlpp_matrix(mkm(n.L[0].w));
		_weights2->set_from_mlpp_vector(mkv(n.L[1].w.a));
		_bias1->set_from_mlpp_vector(mkv(n.L[0].b));
		_bias2 = n.L[1].b[0];
	}
};
struct PAuto : MLPPAutoEncoder {
	using MLPPAutoEncoder::MLPPAutoEncoder;
	Params get() { return { { dm(_weights1), dv(_bias1) }, { dm(_weights2), dv(_bias2) } }; }
	void put(const Net &n) {
		_weights1->set_from_mlpp_matrix(mkm(n.L[0].w));
		_weights2->set_from_mlpp_matrix(mkm(n.L[1].w));
		_bias1->set_from_mlpp_vector(mkv(n.L[0].b));
		_bias2->set_from_mlpp_vector(mkv(n.L[1].b));
	}
};
enum Two { MLP,
	SNET,
	AUTO };
struct TwoNet {
	int kind;
	Ref<PMlp> mlp;
	Ref<MLPPSoftmaxNet> snet;
	Ref<PAuto> aut;
	TwoNet(int p_kind, const Net &r, const DM &X, const DM &Y, int h) :
			kind(p_kind) {
		if (kind == MLP) {
			mlp = Ref<PMlp>(memnew(PMlp(kpm(X), kpv(Y.a), h, r.L[0].reg, r.L[0].lam, r.L[0].al)));
			mlp->put(r);
		} else if (kind == SNET) {
			snet = Ref<MLPPSoftmaxNet>(memnew(MLPPSoftmaxNet(kpm(X), kpm(Y), h, r.L[0].reg, r.L[0].lam, r.L[0].al)));
			if (snet->needs_init()) {
				snet->initialize();
			}
			snet->data_weights1_set(mkm(r.L[0].w));
			snet->data_weights2_set(mkm(r.L[1].w));
			snet->data_bias1_set(mkv(r.L[0].b));
			snet->data_bias2_set(mkv(r.L[1].b));
		} else {
			aut = Ref<PAuto>(memnew(PAuto(kpm(X), h)));
			aut->put(r);
		}
	}
	Params get() {
		return kind == MLP ? mlp->get() : kind == AUTO ? aut->get() : Params{ { dm(snet->data_weights1_get()), dv(snet->data_bias1_get()) }, { dm(snet->data_weights2_get()), dv(snet->data_bias2_get()) } };
	}
	void gd(double lr, int e, bool ui) { kind == MLP ? mlp->gradient_descent(lr, e, ui) : kind == SNET ? snet->train_gradient_descent(lr, e, ui) : aut->gradient_descent(lr, e, ui); }
	void sgd(double lr, int e, bool ui) { kind == MLP ? mlp->sgd(lr, e, ui) : kind == SNET ? snet->train_sgd(lr, e, ui) : aut->sgd(lr, e, ui); }
	void mbgd(double lr, int e, int b, bool ui) { kind == MLP ? mlp->mbgd(lr, e, b, ui) : kind == SNET ? snet->train_mbgd(lr, e, b, ui) : aut->mbgd(lr, e, b, ui); }
	DM predict(const DM &X) { return kind == MLP ? colm(dv(mlp->model_set_test(kpm(X)))) : kind == SNET ? dm(snet->model_set_test(kpm(X))) : dm(aut->model_set_test(kpm(X))); }
	DV predict1(const DV &x) { return kind == MLP ? DV{ mlp->model_test(kpv(x)) } : kind == SNET ? dv(snet->model_test(kpv(x))) : dv(aut->model_test(kpv(x))); }
	double score() { return kind == MLP ? mlp->score() : kind == SNET ? snet->score() : aut->score(); }
};
struct TwoCase {
	Net r;
	DM X, Y;
	int h;
	double lr;
};
TwoCase gen_two(Src &s, Ctx &c, int kind, int max_n) {
	TwoCase o;
	int n = max_n >= 5 ? s.grown(1, max_n, 20) : s.size(1, max_n), k = s.grown(1, 3, 8), out = kind == MLP ? 1 : kind == AUTO ? k : s.size(2, 3);
	o.h = s.grown(1, 3, 9);
	o.X = gen_dm(s, n, k, 2);
	o.Y = DM(n, out);
	if (kind == AUTO) {
		o.Y = o.X;
	} else {
		for (int i = 0; i < n; i++) {
			if (kind == MLP) {
				o.Y.at(i, 0) = (double)s.flag();
			} else {
				o.Y.at(i, (int)s.draw(out)) = 1;
			}
		}
	}
	Layer a, b;
	gen_weights(s, a, k, o.h);
	gen_weights(s, b, o.h, out);
	a.act = 0;
	b.act = kind == MLP ? 0 : kind == SNET ? SOFTMAX : 1;
	if (kind != AUTO) {
		gen_reg(s, a, true);
		b.reg = a.reg;
		b.lam = a.lam;
		b.al = a.al;
	}
	o.r.L = { a, b };
	o.lr = s.real_in(0.01, 0.5);
	c.note("%s n=%d k=%d hidden=%d lr=%.9g", kind == MLP ? "MLP" : kind == SNET ? "softmax net" : "auto encoder", n, k, o.h, o.lr);
	note(c, "X", o.X);
	note(c, "Y", o.Y);
	note_net(c, o.r);
	return o;
}
void two_step(int kind, Net &r, const DM &X, const DM &Y, double lr, bool seq) { r.step(X, Y, kind == SNET ? lr : lr / X.r, true, seq); }
void check_predict(Ctx &c, TwoNet &m, Net r, const DM &X, Src &s) {
	// the predictions belong to the parameters the model holds
	Params p = m.get();
	for (size_t i = 0; i < p.size(); i++) {
		r.L[i].w = p[i].first;
		r.L[i].b = p[i].second;
	}
	DM Q = gen_dm(s, s.size(1, 3), X.c, 2);
	DM want = r.forward(Q);
	eqm(c, kpm(m.predict(Q)), want, 1e-4, 1e-4, "prediction");
	DV q(Q.a.begin(), Q.a.begin() + Q.c);
	DV one = m.predict1(q);
	c.check((int)one.size() == want.c, "prediction of one sample: %d values, expected %d", (int)one.size(), want.c);
	for (int j = 0; j < want.c; j++) {
		c.near(one[j], want.at(0, j), 1e-4 + 1e-4 * std::fabs(want.at(0, j)), "prediction of one sample: value %d", j);
	}
}
void check_score(Ctx &c, TwoNet &m, const DM &X, const DM &Y) {
	DM p = m.predict(X);
	U util;
	double sc = m.score(), want = m.kind == MLP ? util.performance_vec(kpv(p.a), kpv(Y.a)) : util.performance_mat(kpm(p), kpm(Y));
	for (double v : p.a) { // rounding would decide
		if (std::fabs(std::fabs(v - std::floor(v)) - 0.5) < 1e-3) {
			return;
		}
	}
	c.near(sc, want, 1e-6, "score");
}
void prop_two_gd(Src &s, Ctx &c, int kind) {
	TwoCase o = gen_two(s, c, kind, 6);
	int E = (int)s.range(1, 4);
	bool ui = s.one_in(10);
	c.note("epochs=%d", E);
	Net a = o.r, b = o.r;
	for (int e = 0; e < E; e++) {
		two_step(kind, a, o.X, o.Y, o.lr, true);
		two_step(kind, b, o.X, o.Y, o.lr, false);
	}
	if (a.delicate || b.delicate || a.peak > PEAK) {
		c.discard();
	}
	TwoNet m(kind, o.r, o.X, o.Y, o.h);
	check_predict(c, m, o.r, o.X, s);
	m.gd(o.lr, E, ui);
	check_params(c, m.get(), { a, b }, "after gradient descent");
	check_predict(c, m, a, o.X, s);
	check_score(c, m, o.X, o.Y);
	c.no_errors("training");
	c.nt(o.X.r >= 2 && o.h >= 2 && !same(m.get(), o.r, 1e-3));
}
void prop_two_mbgd(Src &s, Ctx &c, int kind) {
	TwoCase o = gen_two(s, c, kind, 8);
	int E = (int)s.range(1, 3), bs = (int)s.range(1, o.X.r);
	bool ui = s.one_in(10);
	c.note("epochs=%d batch=%d", E, bs);
	Net a = o.r, b = o.r;
	for (int e = 0; e < E; e++) {
		for (auto &rows : batches(o.X.r, bs)) {
			DM x = rows_of(o.X, rows), y = rows_of(o.Y, rows);
			two_step(kind, a, x, y, o.lr, true);
			two_step(kind, b, x, y, o.lr, false);
		}
	}
	if (a.delicate || b.delicate || a.peak > PEAK) {
		c.discard();
	}
	TwoNet m(kind, o.r, o.X, o.Y, o.h);
	m.mbgd(o.lr, E, bs, ui);
	check_params(c, m.get(), { a, b }, "after mini-batch gradient descent");
	check_predict(c, m, a, o.X, s);
	check_score(c, m, o.X, o.Y);
	c.no_errors("training");
	c.nt(bs < o.X.r && o.h >= 2 && !same(m.get(), o.r, 1e-3));
}
void prop_two_sgd(Src &s, Ctx &c, int kind) {
	TwoCase o = gen_two(s, c, kind, 3);
	int E = (int)s.range(1, 3), n = o.X.r;
	bool ui = s.one_in(10);
	c.note("epochs=%d", E);
	std::vector<Net> cand{ o.r, o.r };
	for (int e = 0; e < E; e++) {
		std::vector<Net> nx;
		for (size_t q = 0; q < cand.size(); q++) {
			for (int i = 0; i < n; i++) {
				Net t = cand[q];
				DM x = rows_of(o.X, { i }), y = rows_of(o.Y, { i });
				two_step(kind, t, x, y, o.lr, q < cand.size() / 2);
				nx.push_back(t);
			}
		}
		cand = nx;
	}
	for (Net &t : cand) {
		if (t.delicate || t.peak > PEAK) {
			c.discard();
		}
	}
	TwoNet m(kind, o.r, o.X, o.Y, o.h);
	m.sgd(o.lr, E, ui);
	check_params(c, m.get(), cand, "after stochastic gradient descent (any rows)");
	check_predict(c, m, o.r, o.X, s);
	check_score(c, m, o.X, o.Y);
	c.no_errors("training");
	c.nt(n >= 2 && o.h >= 2 && !same(m.get(), o.r, 1e-3));
}

// ---------------------------------------------------------------------------------- deep networks
struct PAnn : MLPPANN {
	using MLPPANN::MLPPANN;
	Vector<Ref<MLPPHiddenLayer>> net() { return _network; }
	Ref<MLPPOutputLayer> out() { return _output_layer; }
	double the_cost(const Ref<MLPPVector> &a, const Ref<MLPPVector> &b) { return cost(a, b); }
};
Params layers_of(const Vector<Ref<MLPPHiddenLayer>> &net) {
	Params p;
	for (int i = 0; i < net.size(); i++) {
		Ref<MLPPHiddenLayer> l = net[i];
		p.push_back({ dm(l->get_weights()), dv(l->get_bias()) });
	}
	return p;
}
struct Deep {
	Net r;
	DM X, Y;
	int cost;
};
Deep gen_deep(Src &s, Ctx &c, bool multi, int max_n, bool mann_reg) {
	Deep o;
	int n = max_n >= 5 ? s.grown(1, max_n, 20) : s.size(1, max_n), k = s.grown(1, 3, 8), depth = (int)s.range(0, s.one_in(8) ? 6 : 3), out = multi ? s.grown(1, 3, 8) : 1;
	o.X = gen_dm(s, n, k, 2);
	int in = k;
	for (int i = 0; i < depth; i++) {
		Layer l;
		int h = s.size(1, 3);
		gen_weights(s, l, in, h);
		l.act = (int)s.draw(NFS);
		gen_reg(s, l, mann_reg);
		o.r.L.push_back(l);
		in = h;
	}
	Layer l;
	gen_weights(s, l, in, out);
	gen_reg(s, l, mann_reg);
	bool soft = multi && s.one_in(4);
	o.Y = DM(n, out);
	o.r.cost = soft ? K::COST_TYPE_CROSS_ENTROPY : s.pick({ K::COST_TYPE_MSE, K::COST_TYPE_MSE, K::COST_TYPE_LOGISTIC_LOSS, K::COST_TYPE_MAE, K::COST_TYPE_MBE, K::COST_TYPE_HINGE_LOSS, K::COST_TYPE_WASSERSTEIN_LOSS });
	l.act = soft ? SOFTMAX : o.r.cost == K::COST_TYPE_LOGISTIC_LOSS ? 0 : (int)s.draw(NFS);
	for (int i = 0; i < n; i++) {
		for (int q = 0; q < out; q++) {
			o.Y.at(i, q) = o.r.cost == K::COST_TYPE_LOGISTIC_LOSS ? (double)s.flag() : o.r.cost == K::COST_TYPE_HINGE_LOSS || o.r.cost == K::COST_TYPE_WASSERSTEIN_LOSS ? (s.flag() ? 1 : -1) : soft ? 0 : s.real(2);
		}
		if (soft) {
			o.Y.at(i, (int)s.draw(out)) = 1;
		}
	}
	o.r.L.push_back(l);
	c.note("n=%d inputs=%d hidden layers=%d outputs=%d cost=%d", n, k, depth, out, o.r.cost);
	note(c, "X", o.X);
	note(c, "Y", o.Y);
	note_net(c, o.r);
	return o;
}
A::ActivationFunction act_id(const Layer &l) { return (A::ActivationFunction)(l.act == SOFTMAX ? (int)A::ACTIVATION_FUNCTION_SOFTMAX : FS[l.act].id); }
template <class M>
void build(M &m, const Net &r, U::WeightDistributionType dist) {
	for (size_t i = 0; i + 1 < r.L.size(); i++) {
		const Layer &l = r.L[i];
		m->add_layer(l.w.c, act_id(l), dist, l.reg, l.lam, l.al);
	}
	const Layer &l = r.L.back();
	m->add_output_layer(act_id(l), (K::CostTypes)r.cost, dist, l.reg, l.lam, l.al);
}
void put_hidden(Vector<Ref<MLPPHiddenLayer>> net, const Net &r) {
	for (int i = 0; i < net.size(); i++) {
		Ref<MLPPHiddenLayer> l = net[i];
		l->set_weights(mkm(r.L[i].w));
		l->set_bias(mkv(r.L[i].b));
	}
}
struct Ann {
	Ref<PAnn> m;
	Ann(const Net &r, const DM &X, const DM &Y, U::WeightDistributionType dist, bool own) {
		m = Ref<PAnn>(memnew(PAnn(kpm(X), kpv(Y.a))));
		build(m, r, dist);
		if (own) {
			put_hidden(m->net(), r);
			m->out()->set_weights(mkv(r.L.back().w.a));
			m->out()->set_bias(r.L.back().b[0]);
		}
	}
	Params get() {
		Params p = layers_of(m->net());
		p.push_back({ colm(dv(m->out()->get_weights())), DV{ m->out()->get_bias() } });
		return p;
	}
};
struct Mann {
	Ref<MLPPMANN> m;
	Vector<Ref<MLPPHiddenLayer>> net() { return (**m).*rob(MannNet()); }
	Ref<MLPPMultiOutputLayer> out() { return (**m).*rob(MannOut()); }
	Mann(const Net &r, const DM &X, const DM &Y, U::WeightDistributionType dist, bool own) {
		m = Ref<MLPPMANN>(memnew(MLPPMANN(kpm(X), kpm(Y))));
		build(m, r, dist);
		if (own) {
			put_hidden(net(), r);
			out()->set_weights(mkm(r.L.back().w));
			out()->set_bias(mkv(r.L.back().b));
		}
	}
	Params get() {
		Params p = layers_of(net());
		p.push_back({ dm(out()->get_weights()), dv(out()->get_bias()) });
		return p;
	}
};
void take(Net &r, const Params &p) {
	for (size_t i = 0; i < p.size(); i++) {
		r.L[i].w = p[i].first;
		r.L[i].b = p[i].second;
	}
}
// the shapes the layers must have
void check_shapes(Ctx &c, const Params &p, const Net &r) {
	c.check(p.size() == r.L.size(), "%d layers, expected %d", (int)p.size(), (int)r.L.size());
	for (size_t i = 0; i < p.size(); i++) {
		c.check(p[i].first.r == r.L[i].w.r && p[i].first.c == r.L[i].w.c && p[i].second.size() == r.L[i].b.size(), "layer %d: %dx%d weights and %d biases, expected %dx%d", (int)i, p[i].first.r, p[i].first.c, (int)p[i].second.size(), r.L[i].w.r, r.L[i].w.c);
	}
}
U::WeightDistributionType fit_dist(Src &s) { return s.pick({ U::WEIGHT_DISTRIBUTION_TYPE_DEFAULT, U::WEIGHT_DISTRIBUTION_TYPE_XAVIER_NORMAL, U::WEIGHT_DISTRIBUTION_TYPE_XAVIER_UNIFORM, U::WEIGHT_DISTRIBUTION_TYPE_HE_NORMAL, U::WEIGHT_DISTRIBUTION_TYPE_UNIFORM }); }

double reg_term(const Layer &l) {
	MLPPReg reg;
	double t = 0;
	for (double w : l.w.a) {
		switch (l.reg) {
			case MLPPReg::REGULARIZATION_TYPE_RIDGE:
				t += l.lam / 2 * w * w;
				break;
			case MLPPReg::REGULARIZATION_TYPE_LASSO:
				t += l.lam * std::fabs(w);
				break;
			case MLPPReg::REGULARIZATION_TYPE_ELASTIC_NET:
				t += l.lam * (l.al * std::fabs(w) + (1 - l.al) / 2 * w * w);
				break;
			default:
				break;
		}
	}
	return t;
}
void prop_ann_eval(Src &s, Ctx &c) {
	// predictions, score and cost of an untrained network; nothing changes its weights
	Deep o = gen_deep(s, c, false, 5, false);
	bool own = s.flag();
	Ann m(o.r, o.X, o.Y, fit_dist(s), own);
	check_shapes(c, m.get(), o.r);
	Net r = o.r;
	if (!own) {
		take(r, m.get());
	}
	Params before = m.get();
	for (int t = 0; t < 3; t++) {
		if (s.flag()) {
			DM Q = gen_dm(s, s.size(1, 4), o.X.c, 2);
			eqv(c, m.m->model_set_test(kpm(Q)), r.forward(Q).a, 1e-4, 1e-4 * r.peak, "prediction of several samples");
		} else {
			DV q = gen_dv(s, o.X.c, 2);
			double w = r.forward(rowm(q)).a[0];
			c.near(m.m->model_test(kpv(q)), w, 1e-4 * r.peak, "prediction of one sample");
		}
		c.check(same(m.get(), r, own ? 0 : 0), "a prediction changed the weights");
	}
	Ref<MLPPVector> p = m.m->model_set_test(kpm(o.X));
	U util;
	c.near(m.m->score(), util.performance_vec(p, kpv(o.Y.a)), 1e-6, "score");
	MLPPCost cost;
	double want = cost.run_cost_norm_vector((K::CostTypes)o.r.cost, p, kpv(o.Y.a));
	for (Layer &l : r.L) {
		want += reg_term(l);
	}
	c.near(m.m->the_cost(p, kpv(o.Y.a)), want, 1e-4 * (1 + std::fabs(want)), "cost with the regularization of all layers");
	c.check(same(m.get(), r, 0), "score or cost changed the weights");
	c.no_errors("predicting");
	c.nt(o.r.L.size() >= 3);
}
enum Opt { GD,
	MB,
	MOM,
	NAG,
	ADAGRAD,
	ADADELTA,
	ADAM,
	ADAMAX,
	NADAM,
	AMSGRAD,
	NOPT };
const char *OPT[] = { "gradient descent", "mini-batch", "momentum", "nesterov momentum", "adagrad", "adadelta", "adam", "adamax", "nadam", "amsgrad" };
struct Rate {
	int kind;
	double decay, drop;
	double at(double lr, int epoch) const {
		switch (kind) {
			case MLPPANN::SCHEDULER_TYPE_TIME:
				return lr / (1 + decay * epoch);
			case MLPPANN::SCHEDULER_TYPE_EPOCH:
				return lr * decay / sqrt((double)epoch);
			case MLPPANN::SCHEDULER_TYPE_STEP:
				return lr * pow(decay, floor((1 + epoch) / drop));
			case MLPPANN::SCHEDULER_TYPE_EXPONENTIAL:
				return lr * exp(-decay * epoch);
		}
		return lr;
	}
};
void prop_ann_train(Src &s, Ctx &c, int opt) {
	Deep o = gen_deep(s, c, false, 6, false);
	int n = o.X.r, E = (int)s.range(1, 4), bs = opt == GD ? n : (int)s.range(1, n);
	Rate rate{ (int)s.draw(5), s.real_in(0.25, 1), s.pick({ 1.0, 2.0, 4.0 }) };
	double lr = s.real_in(0.01, 0.5), gamma = s.real_in(0, 0.95), b1 = s.real_in(0, 0.95), b2 = s.real_in(0, 0.99), eps = s.pick({ 0.125, 0.5, 1.0 });
	bool ui = s.one_in(12), own = !s.one_in(4), drop_form = rate.kind == MLPPANN::SCHEDULER_TYPE_STEP || s.flag();
	U::WeightDistributionType dist = fit_dist(s);
	c.note("%s epochs=%d batch=%d lr=%.9g schedule=%d decay=%.9g drop=%g gamma=%.9g b1=%.9g b2=%.9g e=%g", OPT[opt], E, bs, lr, rate.kind, rate.decay, rate.drop, gamma, b1, b2, eps);
	Ann m(o.r, o.X, o.Y, dist, own);
	check_shapes(c, m.get(), o.r);
	if (rate.kind) {
		if (drop_form) {
			m.m->set_learning_rate_scheduler_drop((MLPPANN::SchedulerType)rate.kind, rate.decay, rate.drop);
		} else {
			m.m->set_learning_rate_scheduler((MLPPANN::SchedulerType)rate.kind, rate.decay);
		}
	}
	if (s.one_in(3)) { // a prediction before must not matter
		m.m->model_set_test(kpm(gen_dm(s, 2, o.X.c, 2)));
	}
	Net r = o.r;
	if (!own) {
		take(r, m.get());
	}
	Net start = r;
	auto run = [&](Net &r) {
		std::vector<DM> M1, M2, M3;
		for (Layer &l : r.L) {
			M1.push_back(DM(l.w.r, l.w.c));
		}
		M2 = M3 = M1;
		for (int e = 1; e <= E && r.peak < PEAK; e++) {
			double a = rate.at(lr, e);
			for (auto &rows : batches(n, bs)) {
				DM x = rows_of(o.X, rows), y = rows_of(o.Y, rows);
				if (opt == NAG) {
					Net ahead = r;
					for (size_t i = 0; i < r.L.size(); i++) {
						for (size_t q = 0; q < r.L[i].w.a.size(); q++) {
							ahead.L[i].w.a[q] -= gamma * M1[i].a[q];
						}
					}
					r.forward(x);
					r.gradients(y);
					ahead.forward(x);
					ahead.gradients(y);
					for (size_t i = 0; i < r.L.size(); i++) {
						r.L[i].dw = ahead.L[i].dw;
						r.L[i].delta = ahead.L[i].delta;
					}
					r.delicate |= ahead.delicate;
					r.peak = std::max(r.peak, ahead.peak);
				} else {
					r.forward(x);
					r.gradients(y);
				}
				for (size_t i = 0; i < r.L.size(); i++) {
					Layer &l = r.L[i];
					for (size_t q = 0; q < l.w.a.size(); q++) {
						double g = l.dw.a[q], &u = M1[i].a[q], &v = M2[i].a[q], &vm = M3[i].a[q], up = 0, k1 = 1 - pow(b1, e), k2 = 1 - pow(b2, e);
						r.peak = std::max(r.peak, std::fabs(g));
						switch (opt) {
							case GD:
							case MB:
								up = a / n * g;
								break;
							case MOM:
							case NAG:
								u = gamma * u + a / n * g;
								up = u;
								break;
							case ADAGRAD:
								v += g * g;
								up = a / n * g / (sqrt(v) + eps);
								break;
							case ADADELTA:
								v = b1 * v + (1 - b1) * g * g;
								up = a / n * g / (sqrt(v) + eps);
								break;
							case ADAM:
							case NADAM:
								u = b1 * u + (1 - b1) * g;
								v = b2 * v + (1 - b2) * g * g;
								up = opt == ADAM ? u / k1 : b1 * u / k1 + (1 - b1) * g / k1;
								up = a / n * up / (sqrt(v / k2) + eps);
								break;
							case ADAMAX:
								u = b1 * u + (1 - b1) * g;
								v = std::max(b2 * v, std::fabs(g));
								up = a / n * (u / k1) / (v + eps);
								break;
							case AMSGRAD:
								u = b1 * u + (1 - b1) * g;
								v = b2 * v + (1 - b2) * g * g;
								vm = std::max(vm, v);
								up = a / n * u / (sqrt(vm) + eps);
								break;
						}
						l.w.a[q] -= up;
					}
					Net::move_bias(l, a / n);
				}
				r.grow();
			}
		}
	};
	run(r);
	if (r.delicate || r.peak > PEAK || !steady(start, r, run)) {
		c.discard();
	}
	switch (opt) {
		case GD:
			m.m->gradient_descent(lr, E, ui);
			break;
		case MB:
			m.m->mbgd(lr, E, bs, ui);
			break;
		case MOM:
		case NAG:
			m.m->momentum(lr, E, bs, gamma, opt == NAG, ui);
			break;
		case ADAGRAD:
			m.m->adagrad(lr, E, bs, eps, ui);
			break;
		case ADADELTA:
			m.m->adadelta(lr, E, bs, b1, eps, ui);
			break;
		case ADAM:
			m.m->adam(lr, E, bs, b1, b2, eps, ui);
			break;
		case ADAMAX:
			m.m->adamax(lr, E, bs, b1, b2, eps, ui);
			break;
		case NADAM:
			m.m->nadam(lr, E, bs, b1, b2, eps, ui);
			break;
		case AMSGRAD:
			m.m->amsgrad(lr, E, bs, b1, b2, eps, ui);
			break;
	}
	check_params(c, m.get(), { r }, "after training");
	take(r, m.get());
	eqv(c, m.m->model_set_test(kpm(o.X)), r.forward(o.X).a, 1e-4, 1e-4 * r.peak, "prediction after training");
	c.check(same(m.get(), r, 0), "a prediction changed the trained weights");
	c.no_errors("training");
	c.nt(o.r.L.size() >= 2 && !same(m.get(), start, 1e-3));
}
void prop_ann_sgd(Src &s, Ctx &c) {
	Deep o = gen_deep(s, c, false, 3, false);
	int n = o.X.r, E = (int)s.range(1, 3);
	double lr = s.real_in(0.01, 0.5);
	bool ui = s.one_in(12);
	c.note("sgd epochs=%d lr=%.9g", E, lr);
	std::vector<Net> cand{ o.r };
	for (int e = 0; e < E; e++) {
		std::vector<Net> nx;
		for (Net &t0 : cand) {
			for (int i = 0; i < n; i++) {
				Net t = t0;
				t.forward(rows_of(o.X, { i }));
				t.gradients(rows_of(o.Y, { i }));
				for (Layer &l : t.L) {
					for (size_t q = 0; q < l.w.a.size(); q++) {
						l.w.a[q] -= lr / n * l.dw.a[q];
						t.peak = std::max(t.peak, std::fabs(l.dw.a[q]));
					}
					Net::move_bias(l, lr / n);
				}
				t.grow();
				nx.push_back(t);
			}
		}
		cand = nx;
	}
	for (Net &t : cand) {
		if (t.delicate || t.peak > PEAK) {
			c.discard();
		}
	}
	Ann m(o.r, o.X, o.Y, U::WEIGHT_DISTRIBUTION_TYPE_DEFAULT, true);
	m.m->sgd(lr, E, ui);
	check_params(c, m.get(), cand, "after stochastic gradient descent (any rows)");
	c.no_errors("training");
	c.nt(n >= 2 && o.r.L.size() >= 2 && !same(m.get(), o.r, 1e-3));
}
void prop_mann(Src &s, Ctx &c) {
	Deep o = gen_deep(s, c, true, 5, true);
	int n = o.X.r, E = (int)s.range(1, 4);
	double lr = s.real_in(0.01, 0.5);
	bool ui = s.one_in(12), own = !s.one_in(4);
	c.note("MANN epochs=%d lr=%.9g", E, lr);
	Mann m(o.r, o.X, o.Y, fit_dist(s), own);
	check_shapes(c, m.get(), o.r);
	Net r = o.r;
	if (!own) {
		take(r, m.get());
	}
	Net a = r, b = r;
	for (int e = 0; e < E; e++) {
		a.step(o.X, o.Y, lr / n, false, true);
		b.step(o.X, o.Y, lr / n, false, false);
	}
	if (a.delicate || b.delicate || a.peak > PEAK || b.peak > PEAK) {
		c.discard();
	}
	DM Q = gen_dm(s, s.size(1, 3), o.X.c, 2);
	Net start = r;
	DM w = r.forward(Q);
	eqm(c, m.m->model_set_test(kpm(Q)), w, 1e-4, 1e-4 * r.peak, "prediction of several samples");
	eqv(c, m.m->model_test(kpv(DV(Q.a.begin(), Q.a.begin() + Q.c))), DV(w.a.begin(), w.a.begin() + w.c), 1e-4, 1e-4 * r.peak, "prediction of one sample");
	c.check(same(m.get(), r, 0), "a prediction changed the weights");
	m.m->gradient_descent(lr, E, ui);
	check_params(c, m.get(), { a, b }, "after gradient descent");
	Ref<MLPPMatrix> p = m.m->model_set_test(kpm(o.X));
	U util;
	c.near(m.m->score(), util.performance_mat(p, kpm(o.Y)), 1e-6, "score");
	c.no_errors("training");
	c.nt(o.r.L.size() >= 3 && !same(m.get(), start, 1e-3));
}

// ---------------------------------------------------------------------------------- C38 generative networks
struct PGan : MLPPGAN {
	using MLPPGAN::MLPPGAN;
	Vector<Ref<MLPPHiddenLayer>> net() { return _network; }
	Ref<MLPPOutputLayer> out() { return _output_layer; }
	Ref<MLPPMatrix> gen(const Ref<MLPPMatrix> &X) { return model_set_test_generator(X); }
	Ref<MLPPVector> disc(const Ref<MLPPMatrix> &X) { return model_set_test_discriminator(X); }
	double the_cost(const Ref<MLPPVector> &a, const Ref<MLPPVector> &b) { return cost(a, b); }
	Ref<MLPPMatrix> real() { return _output_set; }
};
struct PWgan : MLPPWGAN {
	using MLPPWGAN::MLPPWGAN;
	Vector<Ref<MLPPHiddenLayer>> net() { return _network; }
	Ref<MLPPOutputLayer> out() { return _output_layer; }
	Ref<MLPPMatrix> gen(const Ref<MLPPMatrix> &X) { return model_set_test_generator(X); }
	Ref<MLPPVector> disc(const Ref<MLPPMatrix> &X) { return model_set_test_discriminator(X); }
	double the_cost(const Ref<MLPPVector> &a, const Ref<MLPPVector> &b) { return cost(a, b); }
	Ref<MLPPMatrix> real() { return _output_set; }
	void add_layer(int h, A::ActivationFunction a, U::WeightDistributionType d, RT r, double l, double al) { create_layer(h, a, d, r, l, al); }
};

template <class M>
void prop_gan(Src &s, Ctx &c, bool wasserstein) {
	int n = s.size(1, 4), k = s.size(1, 3), depth = s.one_in(8) ? (int)s.range(5, 8) : (int)s.range(1, 5), E = (int)s.range(0, 2), width = s.size(1, 3);
	double lr = s.real_in(0.01, 0.5);
	int g_last = depth / 2; // the generator is made of the layers up to this one
	DM X = gen_dm(s, n, width, 2);
	Net r;
	r.cost = wasserstein ? K::COST_TYPE_WASSERSTEIN_LOSS : K::COST_TYPE_LOGISTIC_LOSS;
	int in = k;
	for (int i = 0; i < depth; i++) {
		Layer l;
		int h = i == g_last ? width : s.size(1, 3);
		gen_weights(s, l, in, h);
		l.act = (int)s.draw(NFS);
		gen_reg(s, l, false);
		r.L.push_back(l);
		in = h;
	}
	Layer ol;
	gen_weights(s, ol, in, 1);
	gen_reg(s, ol, false);
	ol.act = wasserstein ? 1 : 0;
	r.L.push_back(ol);
	bool own = !s.one_in(4), ui = s.one_in(12);
	U::WeightDistributionType dist = fit_dist(s);
	c.note("%s n=%d noise=%d layers=%d epochs=%d lr=%.9g", wasserstein ? "WGAN" : "GAN", n, k, depth, E, lr);
	note(c, "real", X);
	note_net(c, r);
	vt::freeze_entropy(true);
	Ref<M> m(memnew(M(k, kpm(X))));
	for (int i = 0; i < depth; i++) {
		const Layer &l = r.L[i];
		m->add_layer(l.w.c, act_id(l), dist, l.reg, l.lam, l.al);
	}
	m->add_output_layer(dist, ol.reg, ol.lam, ol.al);
	m->score(); // one pass through all layers
	auto get = [&]() {
		Params p = layers_of(m->net());
		p.push_back({ colm(dv(m->out()->get_weights())), DV{ m->out()->get_bias() } });
		return p;
	};
	check_shapes(c, get(), r);
	if (own) {
		put_hidden(m->net(), r);
		m->out()->set_weights(mkv(ol.w.a));
		m->out()->set_bias(ol.b[0]);
	} else {
		take(r, get());
	}
	Net start = r;
	DM N = dm(MLPPMatrix::create_gaussian_noise(n, k)); // what every pass draws now
	auto generate = [&](Net &t, const DM &noise) { return t.forward(noise, 0, g_last + 1); };
	auto judge = [&](Net &t, const DM &x) {
		DM p = t.forward(x, g_last + 1);
		return p;
	};
	auto run = [&](Net &r) {
		for (int e = 0; e < E && r.peak < PEAK; e++) {
			for (int q = 0; q < (wasserstein ? 5 : 1); q++) {
				DM fake = generate(r, N), both(2 * n, width), y(2 * n, 1);
				for (int i = 0; i < 2 * n; i++) {
					y.at(i, 0) = i < n ? (wasserstein ? -1 : 0) : 1;
					for (int j = 0; j < width; j++) {
						both.at(i, j) = i < n ? fake.at(i, j) : X.at(i - n, j);
					}
				}
				judge(r, both);
				r.gradients(y, false, g_last + 1);
				for (int i = g_last + 1; i <= depth; i++) {
					Layer &l = r.L[i];
					for (size_t w = 0; w < l.w.a.size(); w++) {
						l.w.a[w] -= lr / n * l.dw.a[w];
					}
					Net::move_bias(l, lr / n);
				}
				r.grow();
			}
			judge(r, generate(r, N));
			DM y(n, 1);
			for (double &v : y.a) {
				v = 1;
			}
			r.gradients(y);
			for (int i = 0; i <= g_last; i++) {
				Layer &l = r.L[i];
				for (size_t w = 0; w < l.w.a.size(); w++) {
					l.w.a[w] -= lr / n * l.dw.a[w];
					r.peak = std::max(r.peak, std::fabs(l.dw.a[w]));
				}
				Net::move_bias(l, lr / n);
			}
			r.grow();
		}
	};
	run(r);
	if (r.delicate || r.peak > PEAK || !steady(start, r, run)) {
		c.discard();
	}
	if (E) {
		m->gradient_descent(lr, E, ui);
		check_params(c, get(), { r }, "after training");
	}
	take(r, get());
	// examples come from the generator, probabilities from the discriminator
	int cnt = s.size(1, 4);
	DM noise = dm(MLPPMatrix::create_gaussian_noise(cnt, k));
	Ref<MLPPMatrix> ex = m->generate_example(cnt);
	c.check(ex.is_valid() && ex->size() == Size2i(width, cnt), "generated examples are %dx%d, expected %dx%d", ex.is_valid() ? ex->size().y : -1, ex.is_valid() ? ex->size().x : -1, cnt, width);
	eqm(c, ex, generate(r, noise), 1e-4, 1e-4 * r.peak, "generated examples");
	DM Q = gen_dm(s, s.size(1, 4), width, 2);
	eqv(c, m->disc(kpm(Q)), judge(r, Q).a, 1e-4, 1e-4 * r.peak, "discriminator");
	DM Z = gen_dm(s, s.size(1, 4), k, 2);
	eqm(c, m->gen(kpm(Z)), generate(r, Z), 1e-4, 1e-4 * r.peak, "generator");
	c.check(same(get(), r, 0), "using the network changed its weights");
	c.check(close(m->real(), X, 0), "the real samples were changed");
	DM p = r.forward(N);
	MLPPCost cost;
	DV ones(n, 1.0);
	Ref<MLPPVector> yh = kpv(p.a);
	double want = cost.run_cost_norm_vector((K::CostTypes)r.cost, yh, kpv(ones));
	for (Layer &l : r.L) {
		want += reg_term(l);
	}
	c.near(m->the_cost(yh, kpv(ones)), want, 1e-4 * (1 + std::fabs(want)), "cost with the regularization of all layers");
	c.no_errors("training");
	vt::freeze_entropy(false);
	c.nt(E >= 1 && depth >= 3 && !same(get(), start, 1e-3));
}

// ---------------------------------------------------------------------------------- C39 life cycle
template <class M>
struct Is {
	static const bool multi = std::is_same<M, MLPPSoftmaxNet>::value || std::is_same<M, MLPPSoftmaxReg>::value;
	static const bool hidden = std::is_same<M, MLPPSoftmaxNet>::value || std::is_same<M, MLPPMLP>::value;
	static const bool svc = std::is_same<M, MLPPSVC>::value;
	static const bool old = std::is_same<M, MLPPLinReg>::value || std::is_same<M, MLPPLogReg>::value || std::is_same<M, MLPPMLP>::value; // is_initialized(), untagged training functions
};
template <class M>
void set_y(M &m, const DM &Y) {
	if constexpr (Is<M>::multi) {
		m->set_output_set(kpm(Y));
	} else {
		m->set_output_set(kpv(Y.a));
	}
}
struct Hyper {
	int h;
	RT reg;
	double lam, al;
};
template <class M>
Ref<M> constructed(const DM &X, const DM &Y, const Hyper &p) {
	if constexpr (std::is_same<M, MLPPSVC>::value) {
		return Ref<M>(memnew(M(kpm(X), kpv(Y.a), p.lam)));
	} else if constexpr (std::is_same<M, MLPPSoftmaxNet>::value) {
		return Ref<M>(memnew(M(kpm(X), kpm(Y), p.h, p.reg, p.lam, p.al)));
	} else if constexpr (std::is_same<M, MLPPSoftmaxReg>::value) {
		return Ref<M>(memnew(M(kpm(X), kpm(Y), p.reg, p.lam, p.al)));
	} else if constexpr (std::is_same<M, MLPPMLP>::value) {
		return Ref<M>(memnew(M(kpm(X), kpv(Y.a), p.h, p.reg, p.lam, p.al)));
	} else {
		return Ref<M>(memnew(M(kpm(X), kpv(Y.a), p.reg, p.lam, p.al)));
	}
}
template <class M>
void put(Ref<M> m, int what, const DM &X, const DM &Y, const Hyper &p) {
	switch (what) {
		case 0:
			m->set_input_set(kpm(X));
			break;
		case 1:
			if constexpr (Is<M>::multi) {
				m->set_output_set(kpm(Y));
			} else {
				m->set_output_set(kpv(Y.a));
			}
			break;
		case 2:
			if constexpr (Is<M>::svc) {
				m->set_c(p.lam);
			} else {
				m->set_reg(p.reg);
			}
			break;
		case 3:
			if constexpr (!Is<M>::svc) {
				m->set_lambda(p.lam);
			}
			break;
		case 4:
			if constexpr (!Is<M>::svc) {
				m->set_alpha(p.al);
			}
			break;
		case 5:
			if constexpr (Is<M>::hidden) {
				m->set_n_hidden(p.h);
			}
			break;
	}
}
template <class M>
bool ready(Ref<M> m) {
	if constexpr (Is<M>::old) {
		return m->is_initialized();
	} else {
		return !m->needs_init();
	}
}
template <class M>
void learn(Ref<M> m, int how, double lr, int e, int b) {
	if constexpr (Is<M>::old) {
		how == 0 ? m->gradient_descent(lr, e) : how == 1 ? m->sgd(lr, e) : m->mbgd(lr, e, b);
	} else {
		how == 0 ? m->train_gradient_descent(lr, e) : how == 1 ? m->train_sgd(lr, e) : m->train_mbgd(lr, e, b);
	}
}
template <class M>
DV ask(Ref<M> m, const DM &Q, bool &valid) {
	auto r = m->model_set_test(kpm(Q));
	valid = r.is_valid();
	if (!valid) {
		return DV();
	}
	if constexpr (Is<M>::multi) {
		return dm(r).a;
	} else {
		return dv(r);
	}
}
template <class M>
bool ask1(Ref<M> m, const DV &q) { // anything but an empty answer?
	if constexpr (Is<M>::multi) {
		return m->model_test(kpv(q)).is_valid();
	} else {
		return m->model_test(kpv(q)) != 0;
	}
}

template <class M>
void prop_life(Src &s, Ctx &c, const char *name) {
	int n = s.size(1, 5), k = s.size(1, 3), nc = Is<M>::multi ? s.size(2, 3) : 1;
	DM X = gen_dm(s, n, k, 2), Y(n, nc), Q = gen_dm(s, s.size(1, 3), k, 2);
	for (int i = 0; i < n; i++) {
		if (Is<M>::multi) {
			Y.at(i, (int)s.draw(nc)) = 1;
		} else {
			Y.at(i, 0) = Is<M>::svc ? (s.flag() ? 1 : -1) : (double)s.flag();
		}
	}
	Hyper p{ s.size(1, 3), (RT)s.range(0, 3), s.real_in(0, 0.25), s.real_in(0, 1) };
	int how = (int)s.draw(3), E = (int)s.range(1, 3), bs = (int)s.range(1, n);
	double lr = s.real_in(0.01, 0.3);
	c.note("%s n=%d k=%d training=%d epochs=%d batch=%d lr=%.9g reg=%d lambda=%.9g alpha=%.9g hidden=%d", name, n, k, how, E, bs, lr, (int)p.reg, p.lam, p.al, p.h);
	note(c, "X", X);
	note(c, "Y", Y);
	std::vector<int> order{ 0, 1, 2, 3, 4, 5 };
	for (int i = 5; i > 0; i--) {
		std::swap(order[i], order[s.draw(i + 1)]);
	}
	Ref<M> m;
	m.instance();
	// not usable before the data is there: refuses, and reports it
	int early = (int)s.draw(7), after = early == 6 ? 0 : (int)s.draw(6);
	for (int i = 0; i < after; i++) {
		put(m, order[i], X, Y, p);
	}
	c.check(!ready(m), "a model without %s says that it is ready", after < 2 ? "data" : "all its data, or initialization");
	if (early < 6) {
		c.note("use %d after %d setters", early, after);
		bool v = false;
		c.errors();
		switch (early) {
			case 0:
				ask(m, Q, v);
				c.check(!v, "predictions without initialization");
				break;
			case 1:
				c.check(!ask1(m, DV(Q.a.begin(), Q.a.begin() + k)), "a prediction without initialization");
				break;
			case 2:
				c.check(m->score() == 0, "a score without initialization");
				break;
			default:
				learn(m, early - 3, lr, E, bs);
		}
		c.check(c.errors() > 0, "use before initialization was not reported");
		c.check(!ready(m), "failed use made the model ready");
	}
	for (int i = after; i < 6; i++) {
		put(m, order[i], X, Y, p);
	}
	c.errors();
	// set up step by step or constructed: the same model
	vt::seed_entropy(12345);
	m->initialize();
	c.check(ready(m), "not ready after initialization");
	Ref<M> d;
	if (s.flag()) {
		vt::seed_entropy(12345);
		d = constructed<M>(X, Y, p);
		if (!ready(d)) {
			d->initialize();
		}
		c.check(ready(d), "a constructed model is not ready");
	}
	bool v1, v2;
	DV a = ask(m, Q, v1);
	c.check(v1 && (int)a.size() == Q.r * nc, "%d predictions, expected %d", (int)a.size(), Q.r * nc);
	for (double x : a) {
		c.check(std::isfinite(x), "the first prediction is not finite");
	}
	vt::seed_entropy(777);
	learn(m, how, lr, E, bs);
	c.check(ready(m), "training made the model not ready");
	DV b = ask(m, Q, v1);
	if (d.is_valid()) {
		DV a2 = ask(d, Q, v2);
		c.check(a2.size() == a.size(), "the constructed model predicts %d values, the one set up %d", (int)a2.size(), (int)a.size());
		for (size_t i = 0; i < a.size(); i++) {
			c.near(a2[i], a[i], 1e-5 * (1 + std::fabs(a[i])), "constructed and set up model, before training: value %d", (int)i);
		}
		vt::seed_entropy(777);
		learn(d, how, lr, E, bs);
		DV b2 = ask(d, Q, v2);
		for (size_t i = 0; i < b.size(); i++) {
			if (!std::isfinite(b[i]) && !std::isfinite(b2[i])) {
				continue;
			}
			c.near(b2[i], b[i], 1e-5 * (1 + std::fabs(b[i])), "constructed and set up model, after training: value %d", (int)i);
		}
	}
	c.no_errors("the initialized model");
	c.nt(d.is_valid() && n >= 2);
}
// ---------------------------------------------------------------------------------- C39 accessors
template <class T>
struct Val {
	static T make(Src &s) { return (T)s.range(0, 3); } // enumerations
	static std::string rep(T v) { return std::to_string((long long)v); }
};
template <>
struct Val<int> {
	static int make(Src &s) { return (int)s.range(0, 40); }
	static std::string rep(int v) { return std::to_string(v); }
};
template <>
struct Val<real_t> {
	static real_t make(Src &s) { return (real_t)s.real_in(-4, 4); }
	static std::string rep(real_t v) {
		char b[40];
		snprintf(b, sizeof b, "%.9g", (double)v);
		return b;
	}
};
template <>
struct Val<Ref<MLPPVector>> {
	static Ref<MLPPVector> make(Src &s) { return mkv(gen_dv(s, s.size(0, 4), 3)); }
	static std::string rep(const Ref<MLPPVector> &v) {
		std::string r = v.is_valid() ? "(" : "null";
		for (int i = 0; v.is_valid() && i < v->size(); i++) {
			r += " " + Val<real_t>::rep(v->element_get(i));
		}
		return r;
	}
};
template <>
struct Val<Ref<MLPPMatrix>> {
	static Ref<MLPPMatrix> make(Src &s) {
		int r = s.size(1, 3);
		return mkm(gen_dm(s, r, s.size(1, 3), 3));
	}
	static std::string rep(const Ref<MLPPMatrix> &v) {
		if (!v.is_valid()) {
			return "null";
		}
		std::string r = std::to_string(v->size().y) + "x" + std::to_string(v->size().x);
		for (int i = 0; i < v->size().y; i++) {
			for (int j = 0; j < v->size().x; j++) {
				r += " " + Val<real_t>::rep(v->element_get(i, j));
			}
		}
		return r;
	}
};
struct Slot {
	std::string name;
	std::function<std::string(Src &)> set;
	std::function<std::string()> get;
};
typedef std::vector<Slot> Slots;
#define SLOT_(NAME, GET, SET)                                                                \
	{                                                                                        \
		typedef typename std::decay<decltype(m->GET())>::type T;                             \
		o.push_back(Slot{ NAME, [m](Src &s) { T v = Val<T>::make(s); Ref<Mo> k = m; k->SET(v); return Val<T>::rep(v); }, [m]() { Ref<Mo> k = m; return Val<T>::rep(k->GET()); } }); \
	}
#define SLOT(N) SLOT_(#N, get_##N, set_##N)
template <class Mo, class F>
void prop_accessors(Src &s, Ctx &c, F list) {
	Slots o;
	Ref<Mo> ms[2];
	for (auto &m : ms) { // two models: they share nothing
		m.instance();
		list(m, o);
	}
	std::vector<std::string> want(o.size());
	for (size_t i = 0; i < o.size(); i++) {
		want[i] = o[i].get();
	}
	int steps = (int)s.range(1, 25);
	size_t sets = 0, half = o.size() / 2;
	std::vector<bool> known(o.size());
	for (int k = 0; k < steps; k++) {
		size_t i = s.draw(o.size());
		want[i] = o[i].set(s);
		c.note("model %d: %s = %s", (int)(i / half), o[i].name.c_str(), want[i].c_str());
		sets += !known[i];
		known[i] = true;
		for (size_t j = 0; j < o.size(); j++) {
			if (!known[j] && j / half == i / half) {
				continue; // what other settings do to values nobody has set is left open
			}
			std::string g = o[j].get();
			c.check(g == want[j], "after setting %s of model %d, %s of model %d is %s, expected %s", o[i].name.c_str(), (int)(i / half), o[j].name.c_str(), (int)(j / half), g.c_str(), want[j].c_str());
		}
	}
	c.no_errors("setting and getting");
	c.nt(sets >= 3 || sets == o.size());
}
void acc_hidden_layer(Src &s, Ctx &c) {
	typedef MLPPHiddenLayer Mo;
	prop_accessors<Mo>(s, c, [](Ref<Mo> m, Slots &o) {
		SLOT(n_hidden);
		SLOT(activation);
		SLOT(input);
		SLOT(weights);
		SLOT(bias);
		SLOT(z);
		SLOT(a);
		SLOT(z_test);
		SLOT(a_test);
		SLOT(delta);
		SLOT(reg);
		SLOT(lambda);
		SLOT(alpha);
		SLOT(weight_init);
	});
}
void acc_output_layer(Src &s, Ctx &c) {
	typedef MLPPOutputLayer Mo;
	prop_accessors<Mo>(s, c, [](Ref<Mo> m, Slots &o) {
		SLOT(n_hidden);
		SLOT(activation);
		SLOT(cost);
		SLOT(input);
		SLOT(weights);
		SLOT(bias);
		SLOT(z);
		SLOT(a);
		SLOT(z_test);
		SLOT(a_test);
		SLOT(delta);
		SLOT(reg);
		SLOT(lambda);
		SLOT(alpha);
		SLOT(weight_init);
	});
}
void acc_multi_output_layer(Src &s, Ctx &c) {
	typedef MLPPMultiOutputLayer Mo;
	prop_accessors<Mo>(s, c, [](Ref<Mo> m, Slots &o) {
		SLOT(n_output);
		SLOT(n_hidden);
		SLOT(activation);
		SLOT(cost);
		SLOT(input);
		SLOT(weights);
		SLOT(bias);
		SLOT(z);
		SLOT(a);
		SLOT(z_test);
		SLOT(a_test);
		SLOT(delta);
		SLOT(reg);
		SLOT(lambda);
		SLOT(alpha);
		SLOT(weight_init);
	});
}
void acc_auto_encoder(Src &s, Ctx &c) {
	typedef MLPPAutoEncoder Mo;
	prop_accessors<Mo>(s, c, [](Ref<Mo> m, Slots &o) {
		SLOT(input_set);
		SLOT(n_hidden);
	});
}
void acc_kmeans(Src &s, Ctx &c) {
	typedef MLPPKMeans Mo;
	prop_accessors<Mo>(s, c, [](Ref<Mo> m, Slots &o) {
		SLOT(input_set);
		SLOT(k);
		SLOT(mean_type);
	});
}
void acc_knn(Src &s, Ctx &c) {
	typedef MLPPKNN Mo;
	prop_accessors<Mo>(s, c, [](Ref<Mo> m, Slots &o) {
		SLOT(input_set);
		SLOT(output_set);
		SLOT(k);
	});
}
void acc_mlp(Src &s, Ctx &c) {
	typedef MLPPMLP Mo;
	prop_accessors<Mo>(s, c, [](Ref<Mo> m, Slots &o) {
		SLOT(input_set);
		SLOT(output_set);
		SLOT(n_hidden);
		SLOT(lambda);
		SLOT(alpha);
		SLOT(reg);
	});
}
void acc_pca(Src &s, Ctx &c) {
	typedef MLPPPCA Mo;
	prop_accessors<Mo>(s, c, [](Ref<Mo> m, Slots &o) {
		SLOT(input_set);
		SLOT(k);
	});
}
void acc_probit_reg(Src &s, Ctx &c) {
	typedef MLPPProbitReg Mo;
	prop_accessors<Mo>(s, c, [](Ref<Mo> m, Slots &o) {
		SLOT(input_set);
		SLOT(output_set);
		SLOT(reg);
		SLOT(lambda);
		SLOT(alpha);
	});
}
void acc_softmax_net(Src &s, Ctx &c) {
	typedef MLPPSoftmaxNet Mo;
	prop_accessors<Mo>(s, c, [](Ref<Mo> m, Slots &o) {
		SLOT(input_set);
		SLOT(output_set);
		SLOT(n_hidden);
		SLOT(reg);
		SLOT(lambda);
		SLOT(alpha);
	});
}
void acc_softmax_reg(Src &s, Ctx &c) {
	typedef MLPPSoftmaxReg Mo;
	prop_accessors<Mo>(s, c, [](Ref<Mo> m, Slots &o) {
		SLOT(input_set);
		SLOT(output_set);
		SLOT(reg);
		SLOT(lambda);
		SLOT(alpha);
	});
}
void acc_svc(Src &s, Ctx &c) {
	typedef MLPPSVC Mo;
	prop_accessors<Mo>(s, c, [](Ref<Mo> m, Slots &o) {
		SLOT(input_set);
		SLOT(output_set);
		SLOT(c);
	});
}
void acc_tanh_reg(Src &s, Ctx &c) {
	typedef MLPPTanhReg Mo;
	prop_accessors<Mo>(s, c, [](Ref<Mo> m, Slots &o) {
		SLOT(input_set);
		SLOT(output_set);
		SLOT(reg);
		SLOT(lambda);
		SLOT(alpha);
	});
}
void acc_uni_lin_reg(Src &s, Ctx &c) {
	typedef MLPPUniLinReg Mo;
	prop_accessors<Mo>(s, c, [](Ref<Mo> m, Slots &o) {
		SLOT(input_set);
		SLOT(output_set);
		SLOT(b0);
		SLOT(b1);
	});
}
void acc_wgan(Src &s, Ctx &c) {
	typedef MLPPWGAN Mo;
	prop_accessors<Mo>(s, c, [](Ref<Mo> m, Slots &o) {
		SLOT(output_set);
		SLOT(k);
	});
}
} // namespace

VT_PROP(C34, hidden_layer, 3000) { prop_layer(s, c, 0); }
VT_PROP(C34, output_layer, 3000) { prop_layer(s, c, 1); }
VT_PROP(C34, multi_output_layer, 3000) { prop_layer(s, c, 2); }
VT_PROP(C34, new_dimensions, 1500) { prop_layer_resize(s, c); }

VT_PROP(C35, mlp_gradient_descent, 1200) { prop_two_gd(s, c, MLP); }
VT_PROP(C35, mlp_mini_batch, 1200) { prop_two_mbgd(s, c, MLP); }
VT_PROP(C35, mlp_stochastic, 800) { prop_two_sgd(s, c, MLP); }
VT_PROP(C35, softmax_net_gradient_descent, 1200) { prop_two_gd(s, c, SNET); }
VT_PROP(C35, softmax_net_mini_batch, 1200) { prop_two_mbgd(s, c, SNET); }
VT_PROP(C35, softmax_net_stochastic, 800) { prop_two_sgd(s, c, SNET); }
VT_PROP(C35, auto_encoder_gradient_descent, 1200) { prop_two_gd(s, c, AUTO); }
VT_PROP(C35, auto_encoder_mini_batch, 1200) { prop_two_mbgd(s, c, AUTO); }
VT_PROP(C35, auto_encoder_stochastic, 800) { prop_two_sgd(s, c, AUTO); }

VT_PROP(C36, predictions, 2500) { prop_ann_eval(s, c); }
VT_PROP(C36, gradient_descent, 1500) { prop_ann_train(s, c, GD); }
VT_PROP(C36, mini_batch, 1500) { prop_ann_train(s, c, MB); }
VT_PROP(C36, momentum, 1200) { prop_ann_train(s, c, MOM); }
VT_PROP(C36, nesterov, 1200) { prop_ann_train(s, c, NAG); }
VT_PROP(C36, adagrad, 1200) { prop_ann_train(s, c, ADAGRAD); }
VT_PROP(C36, adadelta, 1200) { prop_ann_train(s, c, ADADELTA); }
VT_PROP(C36, adam, 1200) { prop_ann_train(s, c, ADAM); }
VT_PROP(C36, adamax, 1200) { prop_ann_train(s, c, ADAMAX); }
VT_PROP(C36, nadam, 1200) { prop_ann_train(s, c, NADAM); }
VT_PROP(C36, amsgrad, 1200) { prop_ann_train(s, c, AMSGRAD); }
VT_PROP(C36, stochastic, 1000) { prop_ann_sgd(s, c); }
VT_PROP(C36, multi_output, 2500) { prop_mann(s, c); }

VT_PROP(C38, gan, 2500) { prop_gan<PGan>(s, c, false); }
VT_PROP(C38, wgan, 2500) { prop_gan<PWgan>(s, c, true); }

VT_PROP(C39, probit_reg, 600) { prop_life<MLPPProbitReg>(s, c, "ProbitReg"); }
VT_PROP(C39, tanh_reg, 600) { prop_life<MLPPTanhReg>(s, c, "TanhReg"); }
VT_PROP(C39, svc, 600) { prop_life<MLPPSVC>(s, c, "SVC"); }
VT_PROP(C39, softmax_reg, 600) { prop_life<MLPPSoftmaxReg>(s, c, "SoftmaxReg"); }
VT_PROP(C39, softmax_net, 600) { prop_life<MLPPSoftmaxNet>(s, c, "SoftmaxNet"); }
VT_PROP(C39, mlp, 600) { prop_life<MLPPMLP>(s, c, "MLP"); }
VT_PROP(C39, hidden_layer_accessors, 150) { acc_hidden_layer(s, c); }
VT_PROP(C39, output_layer_accessors, 150) { acc_output_layer(s, c); }
VT_PROP(C39, multi_output_layer_accessors, 150) { acc_multi_output_layer(s, c); }
VT_PROP(C39, auto_encoder_accessors, 150) { acc_auto_encoder(s, c); }
VT_PROP(C39, kmeans_accessors, 150) { acc_kmeans(s, c); }
VT_PROP(C39, knn_accessors, 150) { acc_knn(s, c); }
VT_PROP(C39, mlp_accessors, 150) { acc_mlp(s, c); }
VT_PROP(C39, pca_accessors, 150) { acc_pca(s, c); }
VT_PROP(C39, probit_reg_accessors, 150) { acc_probit_reg(s, c); }
VT_PROP(C39, softmax_net_accessors, 150) { acc_softmax_net(s, c); }
VT_PROP(C39, softmax_reg_accessors, 150) { acc_softmax_reg(s, c); }
VT_PROP(C39, svc_accessors, 150) { acc_svc(s, c); }
VT_PROP(C39, tanh_reg_accessors, 150) { acc_tanh_reg(s, c); }
VT_PROP(C39, uni_lin_reg_accessors, 150) { acc_uni_lin_reg(s, c); }
VT_PROP(C39, wgan_accessors, 150) { acc_wgan(s, c); }
