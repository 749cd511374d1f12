// C30-C33, C37, C40, C41: models with one layer of weights, trained by gradients
#include "ml.h"
#include "modules/c_log_log_reg/c_log_log_reg.h"
#include "modules/dual_svc/dual_svc.h"
#include "modules/exp_reg/exp_reg.h"
#include "modules/lin_reg/lin_reg.h"
#include "modules/log_reg/log_reg.h"
#include "modules/probit_reg/probit_reg.h"
#include "modules/softmax_reg/softmax_reg.h"
#include "modules/svc/svc.h"
#include "modules/tanh_reg/tanh_reg.h"

using vt::Ctx;
using vt::Src;
typedef MLPPReg::RegularizationType RT;

namespace {

enum Kind { LIN,
	LOG,
	PROBIT,
	CLOGLOG,
	TANH,
	SVC,
	NKIND };
const char *KIND[] = { "linear", "logistic", "probit", "cloglog", "tanh", "SVC" };

double link(int k, double z) {
	switch (k) {
		case LOG:
			return 1 / (1 + exp(-z));
		case PROBIT:
			return 0.5 * erfc(-z / sqrt(2.0));
		case CLOGLOG:
			return 1 - exp(-exp(z));
		case TANH:
			return tanh(z);
		case SVC:
			return z > 0 ? 1 : (z < 0 ? -1 : 0);
	}
	return z;
}
// d(loss)/dz for one sample
double delta(int k, double z, double y, double C) {
	double e = link(k, z) - y;
	switch (k) {
		case PROBIT:
			return e * exp(-z * z / 2) / sqrt(2 * M_PI);
		case CLOGLOG:
			return e * exp(z - exp(z));
		case TANH:
			return e * (1 - tanh(z) * tanh(z));
		case SVC:
			return 1 - y * z > 0 ? -C * y : 0;
	}
	return e;
}

struct Lin {
	int kind;
	DV w;
	double b, C = 1;
	RT reg = MLPPReg::REGULARIZATION_TYPE_NONE;
	double lam = 0, al = 0, peak = 1;
	bool delicate = false; // met a point where the update is not continuous
	double nudge = 0; // added to every parameter after every step, relative to the largest number met
	double z(const DM &X, int i) const {
		double t = b;
		for (int j = 0; j < X.c; j++) {
			t += w[j] * X.at(i, j);
		}
		return t;
	}
	void step(const DM &X, const DV &y, const std::vector<int> &rows, double lr) {
		double m = (double)rows.size(), gb = 0;
		DV g(w.size(), 0.0);
		for (int i : rows) {
			double zi = z(X, i), d = delta(kind, zi, y[i], C);
			peak = std::max(peak, std::fabs(zi));
			delicate |= kind == SVC && std::fabs(1 - y[i] * zi) < 1e-3;
			gb += d / m;
			for (int j = 0; j < X.c; j++) {
				g[j] += d * X.at(i, j) / m;
			}
		}
		for (size_t j = 0; j < w.size(); j++) {
			w[j] -= lr * g[j];
		}
		if (kind == SVC) {
			for (auto &x : w) {
				x -= lr / m * x;
			}
		} else {
			ref_reg(w, reg, lam, al, delicate);
		}
		b -= lr * gb;
		for (double x : w) {
			peak = std::max(peak, std::fabs(x));
		}
		peak = std::max(peak, std::fabs(b));
		for (size_t j = 0; j < w.size(); j++) {
			w[j] += (j % 2 ? -1 : 1) * nudge * peak;
		}
		b += nudge * peak;
	}
};

std::vector<std::vector<int>> batches(int n, int size) {
	int nb = n / size;
	std::vector<std::vector<int>> o(nb);
	for (int i = 0; i < n; i++) {
		o[std::min(i / (n / nb), nb - 1)].push_back(i);
	}
	return o;
}

template <class M>
struct Peek : M {
	using M::M;
};
struct PLin : MLPPLinReg {
	using MLPPLinReg::MLPPLinReg;
	void put(const DV &w, double b) {
		_weights = mkv(w);
		_bias = b;
	}
	DV w() { return dv(_weights); }
	double b() { return _bias; }
};
struct PLog : MLPPLogReg {
	using MLPPLogReg::MLPPLogReg;
	void put(const DV &w, double b) {
		_weights = mkv(w);
		_bias = b;
	}
	DV w() { return dv(_weights); }
	double b() { return _bias; }
};
struct PClog : MLPPCLogLogReg {
	using MLPPCLogLogReg::MLPPCLogLogReg;
	void put(const DV &w, double b) {
		_weights = mkv(w);
		bias = b;
	}
	DV w() { return dv(_weights); }
	double b() { return bias; }
};
struct PExp : MLPPExpReg {
	using MLPPExpReg::MLPPExpReg;
	void put(const DV &w, const DV &i, double b) {
		_weights = mkv(w);
		_initial = mkv(i);
		_bias = b;
	}
	DV w() { return dv(_weights); }
	DV in() { return dv(_initial); }
	double b() { return _bias; }
};
struct PDual : MLPPDualSVC {
	using MLPPDualSVC::MLPPDualSVC;
	void put(const DV &a, double b) {
		_alpha = mkv(a);
		_bias = b;
	}
	DV a() { return dv(_alpha); }
	double b() { return _bias; }
};

// one model of any of the kinds, seen through the same interface
struct Model {
	int kind;
	Ref<MLPPMatrix> X;
	Ref<MLPPVector> y;
	Ref<PLin> lin;
	Ref<PLog> log;
	Ref<MLPPProbitReg> probit;
	Ref<PClog> clog;
	Ref<MLPPTanhReg> th;
	Ref<MLPPSVC> svc;

	Model(const Lin &p, const DM &dx, const DV &dy, bool in_place) :
			kind(p.kind) {
		X = kpm(dx);
		y = kpv(dy);
		switch (kind) {
			case LIN:
				lin = Ref<PLin>(memnew(PLin(X, y, p.reg, p.lam, p.al)));
				break;
			case LOG:
				log = Ref<PLog>(memnew(PLog(X, y, p.reg, p.lam, p.al)));
				break;
			case CLOGLOG:
				clog = Ref<PClog>(memnew(PClog(X, y, p.reg, p.lam, p.al)));
				break;
			case PROBIT:
				if (in_place) {
					probit.instance();
					probit->set_input_set(X);
					probit->set_output_set(y);
					probit->set_reg(p.reg);
					probit->set_lambda(p.lam);
					probit->set_alpha(p.al);
					probit->initialize();
				} else {
					probit = Ref<MLPPProbitReg>(memnew(MLPPProbitReg(X, y, p.reg, p.lam, p.al)));
				}
				break;
			case TANH:
				if (in_place) {
					th.instance();
					th->set_input_set(X);
					th->set_output_set(y);
					th->set_reg(p.reg);
					th->set_lambda(p.lam);
					th->set_alpha(p.al);
					th->initialize();
				} else {
					th = Ref<MLPPTanhReg>(memnew(MLPPTanhReg(X, y, p.reg, p.lam, p.al)));
				}
				break;
			case SVC:
				if (in_place) {
					svc.instance();
					svc->set_input_set(X);
					svc->set_output_set(y);
					svc->set_c(p.C);
					svc->initialize();
				} else {
					svc = Ref<MLPPSVC>(memnew(MLPPSVC(X, y, p.C)));
				}
				break;
		}
	}
	void put(const DV &w, double b) {
		switch (kind) {
			case LIN:
				return lin->put(w, b);
			case LOG:
				return log->put(w, b);
			case CLOGLOG:
				return clog->put(w, b);
			case PROBIT:
				probit->data_weights_set(mkv(w));
				probit->data_bias_set(b);
				return;
			case TANH:
				th->data_weights_set(mkv(w));
				th->data_bias_set(b);
				return;
			case SVC:
				svc->data_weights_set(mkv(w));
				svc->data_bias_set(b);
				return;
		}
	}
	DV w() {
		switch (kind) {
			case LIN:
				return lin->w();
			case LOG:
				return log->w();
			case CLOGLOG:
				return clog->w();
			case PROBIT:
				return dv(probit->data_weights_get());
			case TANH:
				return dv(th->data_weights_get());
		}
		return dv(svc->data_weights_get());
	}
	double b() {
		switch (kind) {
			case LIN:
				return lin->b();
			case LOG:
				return log->b();
			case CLOGLOG:
				return clog->b();
			case PROBIT:
				return probit->data_bias_get();
			case TANH:
				return th->data_bias_get();
		}
		return svc->data_bias_get();
	}
	double predict(const DV &x) {
		Ref<MLPPVector> v = kpv(x);
		switch (kind) {
			case LIN:
				return lin->model_test(v);
			case LOG:
				return log->model_test(v);
			case CLOGLOG:
				return clog->model_test(v);
			case PROBIT:
				return probit->model_test(v);
			case TANH:
				return th->model_test(v);
		}
		return svc->model_test(v);
	}
	Ref<MLPPVector> predict_set(const Ref<MLPPMatrix> &m) {
		switch (kind) {
			case LIN:
				return lin->model_set_test(m);
			case LOG:
				return log->model_set_test(m);
			case CLOGLOG:
				return clog->model_set_test(m);
			case PROBIT:
				return probit->model_set_test(m);
			case TANH:
				return th->model_set_test(m);
		}
		return svc->model_set_test(m);
	}
	double score() {
		switch (kind) {
			case LIN:
				return lin->score();
			case LOG:
				return log->score();
			case CLOGLOG:
				return clog->score();
			case PROBIT:
				return probit->score();
			case TANH:
				return th->score();
		}
		return svc->score();
	}
	void gd(double lr, int e, bool ui = false) {
		switch (kind) {
			case LIN:
				return lin->gradient_descent(lr, e, ui);
			case LOG:
				return log->gradient_descent(lr, e, ui);
			case CLOGLOG:
				return clog->gradient_descent(lr, e, ui);
			case PROBIT:
				return probit->train_gradient_descent(lr, e, ui);
			case TANH:
				return th->train_gradient_descent(lr, e, ui);
			case SVC:
				return svc->train_gradient_descent(lr, e, ui);
		}
	}
	bool mle(double lr, int e) {
		switch (kind) {
			case LOG:
				log->mle(lr, e);
				return true;
			case CLOGLOG:
				clog->mle(lr, e);
				return true;
			case PROBIT:
				probit->train_mle(lr, e);
				return true;
		}
		return false;
	}
	void sgd(double lr, int e, bool ui = false) {
		switch (kind) {
			case LIN:
				return lin->sgd(lr, e, ui);
			case LOG:
				return log->sgd(lr, e, ui);
			case CLOGLOG:
				return clog->sgd(lr, e, ui);
			case PROBIT:
				return probit->train_sgd(lr, e, ui);
			case TANH:
				return th->train_sgd(lr, e, ui);
			case SVC:
				return svc->train_sgd(lr, e, ui);
		}
	}
	void mbgd(double lr, int e, int bs, bool ui = false) {
		switch (kind) {
			case LIN:
				return lin->mbgd(lr, e, bs, ui);
			case LOG:
				return log->mbgd(lr, e, bs, ui);
			case CLOGLOG:
				return clog->mbgd(lr, e, bs, ui);
			case PROBIT:
				return probit->train_mbgd(lr, e, bs, ui);
			case TANH:
				return th->train_mbgd(lr, e, bs, ui);
			case SVC:
				return svc->train_mbgd(lr, e, bs, ui);
		}
	}
	void same_data(Ctx &c, const DM &dx, const DV &dy) {
		eqm(c, X, dx, 0, 0, "training inputs afterwards");
		eqv(c, y, dy, 0, 0, "training outputs afterwards");
	}
};

void gen_reg(Src &s, RT &t, double &lam, double &al) {
	t = s.pick({ MLPPReg::REGULARIZATION_TYPE_NONE, MLPPReg::REGULARIZATION_TYPE_NONE, MLPPReg::REGULARIZATION_TYPE_RIDGE, MLPPReg::REGULARIZATION_TYPE_LASSO, MLPPReg::REGULARIZATION_TYPE_ELASTIC_NET, MLPPReg::REGULARIZATION_TYPE_WEIGHT_CLIPPING });
	bool clip = t == MLPPReg::REGULARIZATION_TYPE_WEIGHT_CLIPPING;
	lam = clip ? s.real_in(-1.5, 0) : s.real_in(0, 0.5);
	al = clip ? s.real_in(0, 1.5) : s.real_in(0, 1);
}
struct Setup {
	DM X;
	DV y;
	Lin p;
	int n, k;
	double lr;
};
Setup gen_setup(Src &s, Ctx &c, int kind, int max_n = 7, int max_k = 10) {
	Setup o;
	o.p.kind = kind;
	o.n = max_n >= 7 ? s.grown(1, max_n, 30) : s.size(1, max_n);
	o.k = s.grown(1, 4, max_k);
	o.X = gen_dm(s, o.n, o.k, 2);
	for (int i = 0; i < o.n; i++) {
		o.y.push_back(kind == LIN ? s.real(4) : kind == SVC ? (s.flag() ? 1 : -1) : kind == TANH ? s.real(1) : (s.one_in(6) ? s.real_in(0, 1) : (double)s.flag()));
	}
	o.p.w = gen_dv(s, o.k, 1.5);
	o.p.b = s.real(1.5);
	o.p.C = s.real_in(0.125, 3);
	gen_reg(s, o.p.reg, o.p.lam, o.p.al);
	o.lr = s.real_in(0.01, 0.5);
	c.note("%s n=%d k=%d reg=%d lambda=%g alpha=%g C=%g lr=%.9g", KIND[kind], o.n, o.k, (int)o.p.reg, o.p.lam, o.p.al, o.p.C, o.lr);
	note(c, "X", o.X);
	note(c, "y", o.y);
	note(c, "w", o.p.w);
	c.note("b=%.9g", o.p.b);
	return o;
}
double tol_of(const Lin &p) { return 2e-5 * p.peak * (1 + 0.02 * p.peak); }
void same_params(Ctx &c, Model &m, const Lin &p, double tol, const char *what) {
	DV w = m.w();
	c.check(w.size() == p.w.size(), "%s: %d weights, expected %d", what, (int)w.size(), (int)p.w.size());
	for (size_t j = 0; j < w.size(); j++) {
		c.near(w[j], p.w[j], tol, "%s: weight %d", what, (int)j);
	}
	c.near(m.b(), p.b, tol, "%s: bias", what);
}
// a run that amplifies rounding too much to be decided, judged by one that rounds more than the real one
const double NUDGE = 3e-7;
bool drifts(const Lin &p, const Lin &nudged) {
	double d = std::fabs(p.b - nudged.b);
	for (size_t j = 0; j < p.w.size(); j++) {
		d = std::max(d, std::fabs(p.w[j] - nudged.w[j]));
	}
	return !(d <= tol_of(p));
}
bool moved(const Lin &a, const Lin &b) {
	double d = std::fabs(a.b - b.b);
	for (size_t i = 0; i < a.w.size(); i++) {
		d = std::max(d, std::fabs(a.w[i] - b.w[i]));
	}
	return d > 1e-3;
}
std::vector<int> all(int n) {
	std::vector<int> v(n);
	for (int i = 0; i < n; i++) {
		v[i] = i;
	}
	return v;
}
const double PEAK = 200;

// ------------------------------------------------------------------------------ C31 gradient descent
void prop_gd(Src &s, Ctx &c, int kind) {
	Setup o = gen_setup(s, c, kind);
	int E = (int)s.range(1, 4);
	bool in_place = s.flag(), mle = s.one_in(3), ui = s.one_in(8);
	c.note("epochs=%d", E);
	Lin r = o.p, nudged = o.p;
	nudged.nudge = NUDGE;
	for (int e = 0; e < E; e++) {
		r.step(o.X, o.y, all(o.n), o.lr);
		nudged.step(o.X, o.y, all(o.n), o.lr);
	}
	if (r.delicate || !(r.peak <= PEAK) || drifts(r, nudged)) {
		c.discard();
	}
	Model m(o.p, o.X, o.y, in_place);
	m.put(o.p.w, o.p.b);
	if (mle && m.mle(o.lr, E)) {
		same_params(c, m, r, tol_of(r), "after maximum likelihood estimation");
	} else {
		m.gd(o.lr, E, ui);
		same_params(c, m, r, tol_of(r), "after gradient descent");
	}
	m.same_data(c, o.X, o.y);
	c.no_errors("training");
	c.nt(moved(o.p, r) && o.n > 1);
}
} // namespace
VT_PROP(C31, linear_regression, 8000) { prop_gd(s, c, LIN); }
VT_PROP(C31, logistic_regression, 8000) { prop_gd(s, c, LOG); }
VT_PROP(C31, probit_regression, 8000) { prop_gd(s, c, PROBIT); }
VT_PROP(C31, cloglog_regression, 8000) { prop_gd(s, c, CLOGLOG); }
VT_PROP(C31, tanh_regression, 8000) { prop_gd(s, c, TANH); }

// ------------------------------------------------------------------------------ C32 mini-batches
namespace {
void prop_mbgd(Src &s, Ctx &c, int kind) {
	Setup o = gen_setup(s, c, kind, 9);
	int E = (int)s.range(1, 3), bs = (int)s.range(1, o.n);
	bool in_place = s.flag(), ui = s.one_in(8);
	c.note("epochs=%d batch=%d", E, bs);
	Lin r = o.p, nudged = o.p;
	nudged.nudge = NUDGE;
	auto bt = batches(o.n, bs);
	for (int e = 0; e < E; e++) {
		for (auto &rows : bt) {
			r.step(o.X, o.y, rows, o.lr);
			nudged.step(o.X, o.y, rows, o.lr);
		}
	}
	if (r.delicate || !(r.peak <= PEAK) || drifts(r, nudged)) {
		c.discard();
	}
	Model m(o.p, o.X, o.y, in_place);
	m.put(o.p.w, o.p.b);
	m.mbgd(o.lr, E, bs, ui);
	same_params(c, m, r, 2 * tol_of(r), "after mini-batch gradient descent");
	m.same_data(c, o.X, o.y);
	c.no_errors("training");
	c.nt(moved(o.p, r) && bt.size() > 1);
}
} // namespace
VT_PROP(C32, linear_regression, 8000) { prop_mbgd(s, c, LIN); }
VT_PROP(C32, logistic_regression, 8000) { prop_mbgd(s, c, LOG); }
VT_PROP(C32, probit_regression, 8000) { prop_mbgd(s, c, PROBIT); }
VT_PROP(C32, cloglog_regression, 8000) { prop_mbgd(s, c, CLOGLOG); }
VT_PROP(C32, tanh_regression, 8000) { prop_mbgd(s, c, TANH); }

// ------------------------------------------------------------------------------ C41 stochastic steps
namespace {
// the result has to be what some sequence of single rows gives
void prop_sgd(Src &s, Ctx &c, int kind) {
	Setup o = gen_setup(s, c, kind, 5);
	int E = o.n <= 3 ? (int)s.range(1, 4) : (int)s.range(1, 2);
	bool in_place = s.flag(), ui = s.one_in(8);
	c.note("epochs=%d", E);
	vt::seed_entropy(s.draw(1000000));
	std::vector<Lin> rs{ o.p }, ns{ o.p };
	ns[0].nudge = NUDGE;
	for (int e = 0; e < E; e++) {
		std::vector<Lin> nx, nn;
		for (size_t q = 0; q < rs.size(); q++) {
			for (int i = 0; i < o.n; i++) {
				nx.push_back(rs[q]);
				nn.push_back(ns[q]);
				nx.back().step(o.X, o.y, { i }, o.lr);
				nn.back().step(o.X, o.y, { i }, o.lr);
				if (nx.back().delicate || !(nx.back().peak <= PEAK) || drifts(nx.back(), nn.back())) {
					c.discard();
				}
			}
		}
		rs = nx;
		ns = nn;
	}
	Model m(o.p, o.X, o.y, in_place);
	m.put(o.p.w, o.p.b);
	m.sgd(o.lr, E, ui);
	DV w = m.w();
	double b = m.b(), best = 1e300;
	c.check((int)w.size() == o.k, "%d weights after training, expected %d", (int)w.size(), o.k);
	for (auto &p : rs) {
		double d = std::fabs(b - p.b) / tol_of(p);
		for (int j = 0; j < o.k; j++) {
			d = std::max(d, std::fabs(w[j] - p.w[j]) / tol_of(p));
		}
		best = std::min(best, d);
	}
	c.check(best <= 2, "parameters after %d stochastic steps are not those of any sequence of single samples (closest is %.3g tolerances away; w0=%.9g b=%.9g)", E, best, w[0], b);
	m.same_data(c, o.X, o.y);
	c.no_errors("training");
	c.nt(moved(o.p, rs[0]));
}
// every sample gets its turn
void prop_sgd_rows(Src &s, Ctx &c, int kind) {
	int n = (int)s.range(2, 4);
	Lin p;
	p.kind = kind;
	p.w = DV(n, 0.25);
	p.b = 0.125;
	DM X(n, n);
	DV y(n);
	for (int i = 0; i < n; i++) {
		X.at(i, i) = 1;
		y[i] = kind == SVC ? -1 : 0;
	}
	c.note("%s n=%d", KIND[kind], n);
	std::set<int> seen;
	for (int t = 0; t < 120; t++) {
		vt::seed_entropy(s.draw(1000000007));
		Model m(p, X, y, false);
		m.put(p.w, p.b);
		m.sgd(0.25, 1);
		DV w = m.w();
		std::vector<int> ch;
		double lim = kind == SVC ? 0.1 : 1e-4;
		for (int j = 0; j < n; j++) {
			if (std::fabs(w[j] - p.w[j]) > lim) {
				ch.push_back(j);
			}
		}
		c.check(ch.size() == 1, "one stochastic step used %d samples", (int)ch.size());
		seen.insert(ch[0]);
	}
	c.check((int)seen.size() == n, "120 single steps used only %d of %d samples", (int)seen.size(), n);
	c.nt();
}
} // namespace
VT_PROP(C41, linear_regression, 8000) { prop_sgd(s, c, LIN); }
VT_PROP(C41, logistic_regression, 8000) { prop_sgd(s, c, LOG); }
VT_PROP(C41, probit_regression, 8000) { prop_sgd(s, c, PROBIT); }
VT_PROP(C41, cloglog_regression, 8000) { prop_sgd(s, c, CLOGLOG); }
VT_PROP(C41, tanh_regression, 8000) { prop_sgd(s, c, TANH); }
VT_PROP(C41, every_sample_used, 20) { prop_sgd_rows(s, c, (int)s.range(0, NKIND - 1)); }

// ------------------------------------------------------------------------------ C30 predictions
namespace {
double perf(const DV &yh, const DV &y, bool &tie) {
	int ok = 0;
	for (size_t i = 0; i < y.size(); i++) {
		double e = std::fabs(y[i] - round(y[i]));
		tie |= std::fabs(yh[i] - floor(yh[i]) - 0.5) < 1e-4 || (e > 0 && e < 1e-3);
		ok += round(yh[i]) == y[i];
	}
	return y.empty() ? 0 : (double)ok / y.size();
}
} // namespace
VT_PROP(C30, one_output_models, 8000) {
	int kind = (int)s.range(0, NKIND - 1);
	Setup o = gen_setup(s, c, kind);
	if (kind == LIN || kind == TANH) { // scores count exact hits after rounding
		for (auto &v : o.y) {
			v = round(v);
		}
	}
	for (auto &v : o.y) {
		v = kind == SVC ? v : round(v);
	}
	int how = (int)s.range(0, 3), E = (int)s.range(1, 3), bs = (int)s.range(1, o.n), q = s.grown(1, 5, 40);
	DM Q = gen_dm(s, q, o.k, 2);
	c.note("training %d epochs=%d batch=%d", how, E, bs);
	note(c, "queries", Q);
	vt::seed_entropy(s.draw(1000000));
	Model m(o.p, o.X, o.y, s.flag());
	if (s.flag()) {
		m.put(o.p.w, o.p.b);
	}
	if (how == 0) {
		m.gd(o.lr, E);
	} else if (how == 1) {
		m.sgd(o.lr, E);
	} else if (how == 2) {
		m.mbgd(o.lr, E, bs);
	} else if (!m.mle(o.lr, E)) {
		m.gd(o.lr, E);
	}
	Lin p = o.p;
	p.w = m.w();
	p.b = m.b();
	Ref<MLPPMatrix> qm = kpm(Q);
	Ref<MLPPVector> r1 = m.predict_set(qm), r2 = m.predict_set(qm), rt = m.predict_set(m.X);
	DV want;
	bool bad = false;
	for (int i = 0; i < q; i++) {
		double z = p.z(Q, i);
		bad |= std::isnan(z) || std::fabs(z) > 1e4 || (kind == SVC && std::fabs(z) < 1e-4);
		want.push_back(link(kind, z));
	}
	if (bad) {
		c.discard();
	}
	double t = kind == LIN ? 1e-4 : 2e-5;
	eqv(c, r1, want, t, t, "predictions of a set");
	eqv(c, r2, dv(r1), 0, 0, "second prediction of the same set");
	for (int i = 0; i < q; i++) {
		c.near(m.predict(DV(Q.a.begin() + (size_t)i * o.k, Q.a.begin() + (size_t)(i + 1) * o.k)), want[i], t * (1 + std::fabs(want[i])), "prediction of row %d alone", i);
	}
	eqm(c, qm, Q, 0, 0, "queries afterwards");
	bool tie = false;
	double sc = perf(dv(rt), o.y, tie);
	if (!tie) {
		c.near(m.score(), sc, 1e-5, "score after training");
	}
	Lin p2 = p;
	p2.w = m.w();
	p2.b = m.b();
	c.check(p2.w == p.w && p2.b == p.b, "predicting changed the parameters");
	m.same_data(c, o.X, o.y);
	c.no_errors("predictions");
	c.nt(o.n > 1 && q > 1);
}

// ------------------------------------------------------------------------------ C33 optimisers of linear regression
namespace {
enum Opt { MOMENTUM,
	NAG,
	ADAGRAD,
	ADADELTA,
	ADAM,
	ADAMAX,
	NADAM };
void prop_opt(Src &s, Ctx &c, Opt op) {
	Setup o = gen_setup(s, c, LIN, 8);
	if (o.p.reg == MLPPReg::REGULARIZATION_TYPE_WEIGHT_CLIPPING) {
		o.p.reg = MLPPReg::REGULARIZATION_TYPE_NONE;
	}
	int E = (int)s.range(1, 3), bs = (int)s.range(1, o.n);
	double b1 = s.real_in(0.1, 0.95), b2 = s.real_in(0.1, 0.999), eps = s.pick({ 1e-3, 1e-2, 0.1 });
	if (op == MOMENTUM || op == NAG) {
		b1 = s.real_in(0, 0.95);
	}
	eps = f32(eps);
	c.note("epochs=%d batch=%d b1=%.9g b2=%.9g e=%.9g", E, bs, b1, b2, eps);
	bool ui = s.one_in(8);
	Lin r = o.p;
	DV v(o.k, 0.0), m1(o.k, 0.0);
	for (int e = 1; e <= E; e++) {
		for (auto &rows : batches(o.n, bs)) {
			if (op == NAG) {
				for (int j = 0; j < o.k; j++) {
					r.w[j] -= b1 * v[j];
				}
			}
			double m = rows.size(), gb = 0;
			DV g(o.k, 0.0);
			for (int i : rows) {
				double z = r.z(o.X, i), d = z - o.y[i];
				r.peak = std::max(r.peak, std::fabs(z));
				gb += d / m;
				for (int j = 0; j < o.k; j++) {
					g[j] += d * o.X.at(i, j) / m;
				}
			}
			DV before = r.w, after = r.w;
			ref_reg(after, r.reg, r.lam, r.al, r.delicate);
			for (int j = 0; j < o.k; j++) {
				double gj = g[j] + before[j] - after[j], st = 0;
				// the direction of a step is sensitive where the gradient vanishes
				switch (op) {
					case MOMENTUM:
						v[j] = b1 * v[j] + o.lr * gj;
						st = v[j];
						break;
					case NAG:
						v[j] = b1 * v[j] + o.lr * gj;
						st = o.lr * gj;
						break;
					case ADAGRAD:
						v[j] += gj * gj;
						st = o.lr * gj / sqrt(v[j] + eps);
						break;
					case ADADELTA:
						v[j] = b1 * v[j] + (1 - b1) * gj * gj;
						st = o.lr * gj / sqrt(v[j] + eps);
						break;
					case ADAM:
					case NADAM: {
						m1[j] = b1 * m1[j] + (1 - b1) * gj;
						v[j] = b2 * v[j] + (1 - b2) * gj * gj;
						double mh = m1[j] / (1 - pow(b1, e)), vh = v[j] / (1 - pow(b2, e));
						if (op == NADAM) {
							mh = b1 * mh + (1 - b1) / (1 - pow(b1, e)) * gj;
						}
						st = o.lr * mh / (sqrt(vh) + eps);
					} break;
					case ADAMAX:
						m1[j] = b1 * m1[j] + (1 - b1) * gj;
						v[j] = std::max(b2 * v[j], std::fabs(gj));
						if (v[j] < 0.05) {
							c.discard(); // 0/0 at the minimum
						}
						st = o.lr * m1[j] / (1 - pow(b1, e)) / v[j];
						break;
				}
				r.w[j] -= st;
				r.peak = std::max(r.peak, std::fabs(r.w[j]));
			}
			r.b -= o.lr * gb;
			r.peak = std::max(r.peak, std::fabs(r.b));
		}
	}
	if (r.delicate || r.peak > PEAK) {
		c.discard();
	}
	Model m(o.p, o.X, o.y, false);
	m.put(o.p.w, o.p.b);
	switch (op) {
		case MOMENTUM:
			m.lin->momentum(o.lr, E, bs, b1, ui);
			break;
		case NAG:
			m.lin->nag(o.lr, E, bs, b1, ui);
			break;
		case ADAGRAD:
			m.lin->adagrad(o.lr, E, bs, eps, ui);
			break;
		case ADADELTA:
			m.lin->adadelta(o.lr, E, bs, b1, eps, ui);
			break;
		case ADAM:
			m.lin->adam(o.lr, E, bs, b1, b2, eps, ui);
			break;
		case ADAMAX:
			m.lin->adamax(o.lr, E, bs, b1, b2, eps, ui);
			break;
		case NADAM:
			m.lin->nadam(o.lr, E, bs, b1, b2, eps, ui);
			break;
	}
	same_params(c, m, r, 1e-3 * r.peak, "after training");
	m.same_data(c, o.X, o.y);
	eqv(c, m.predict_set(m.X), [&] {
		DV z;
		for (int i = 0; i < o.n; i++) {
			z.push_back(r.z(o.X, i));
		}
		return z;
	}(),
			1e-2, 1e-2 * r.peak, "predictions after training");
	c.no_errors("training");
	c.nt(moved(o.p, r) && (E > 1 || bs < o.n));
}
} // namespace
VT_PROP(C33, momentum, 8000) { prop_opt(s, c, MOMENTUM); }
VT_PROP(C33, nesterov, 8000) { prop_opt(s, c, NAG); }
VT_PROP(C33, adagrad, 8000) { prop_opt(s, c, ADAGRAD); }
VT_PROP(C33, adadelta, 8000) { prop_opt(s, c, ADADELTA); }
VT_PROP(C33, adam, 8000) { prop_opt(s, c, ADAM); }
VT_PROP(C33, adamax, 8000) { prop_opt(s, c, ADAMAX); }
VT_PROP(C33, nadam, 8000) { prop_opt(s, c, NADAM); }

// ------------------------------------------------------------------------------ C40 closed form and Newton
namespace {
// solves A x = b, returns false if A is badly conditioned
bool solve(DM A, DV b, DV &x) {
	int n = A.r;
	double mx = A.maxabs();
	for (int i = 0; i < n; i++) {
		int p = i;
		for (int j = i; j < n; j++) {
			if (std::fabs(A.at(j, i)) > std::fabs(A.at(p, i))) {
				p = j;
			}
		}
		if (std::fabs(A.at(p, i)) < 0.02 * mx) {
			return false;
		}
		for (int j = 0; j < n; j++) {
			std::swap(A.at(i, j), A.at(p, j));
		}
		std::swap(b[i], b[p]);
		for (int j = i + 1; j < n; j++) {
			double f = A.at(j, i) / A.at(i, i);
			for (int k = i; k < n; k++) {
				A.at(j, k) -= f * A.at(i, k);
			}
			b[j] -= f * b[i];
		}
	}
	x.assign(n, 0);
	for (int i = n - 1; i >= 0; i--) {
		double t = b[i];
		for (int j = i + 1; j < n; j++) {
			t -= A.at(i, j) * x[j];
		}
		x[i] = t / A.at(i, i);
	}
	return true;
}
} // namespace
VT_PROP(C40, least_squares, 8000) {
	Setup o = gen_setup(s, c, LIN, 9, 5);
	if (o.n <= o.k) {
		c.discard();
	}
	bool ridge = s.one_in(3), exact = s.one_in(3);
	o.p.reg = ridge ? MLPPReg::REGULARIZATION_TYPE_RIDGE : MLPPReg::REGULARIZATION_TYPE_NONE;
	o.p.lam = s.real_in(0.05, 4);
	double off = s.flag() ? s.real(4) : 0; // away from the origin
	for (auto &v : o.X.a) {
		v = f32(v + off);
	}
	if (exact) {
		for (int i = 0; i < o.n; i++) {
			o.y[i] = f32(o.p.z(o.X, i));
		}
	}
	c.note("ridge=%d lambda=%.9g offset=%g", ridge, o.p.lam, off);
	// minimise sum (w.x + b - y)^2 (+ lambda |w|^2), b not penalised
	DV mx(o.k, 0.0);
	double my = 0;
	for (int i = 0; i < o.n; i++) {
		my += o.y[i] / o.n;
		for (int j = 0; j < o.k; j++) {
			mx[j] += o.X.at(i, j) / o.n;
		}
	}
	DM A(o.k, o.k);
	DV g(o.k, 0.0), w;
	for (int i = 0; i < o.n; i++) {
		for (int a = 0; a < o.k; a++) {
			g[a] += (o.X.at(i, a) - mx[a]) * (o.y[i] - my);
			for (int b = 0; b < o.k; b++) {
				A.at(a, b) += (o.X.at(i, a) - mx[a]) * (o.X.at(i, b) - mx[b]);
			}
		}
	}
	if (ridge) {
		for (int a = 0; a < o.k; a++) {
			A.at(a, a) += o.p.lam;
		}
	}
	if (A.maxabs() < 0.05 || !solve(A, g, w)) {
		c.discard();
	}
	double b = my, pk = 1 + std::fabs(my);
	for (int j = 0; j < o.k; j++) {
		b -= w[j] * mx[j];
		pk = std::max(pk, std::fabs(w[j]));
	}
	pk = std::max(pk, std::fabs(b));
	Model m(o.p, o.X, o.y, false);
	m.lin->normal_equation();
	Lin r = o.p;
	r.w = w;
	r.b = b;
	same_params(c, m, r, 3e-3 * pk, "normal equation");
	bool tie = false;
	DV yh = dv(m.predict_set(m.X));
	double sc = perf(yh, o.y, tie);
	if (!tie) {
		c.near(m.score(), sc, 1e-5, "score");
	}
	m.same_data(c, o.X, o.y);
	c.no_errors("normal equation");
	c.nt(o.k > 1);
}
VT_PROP(C40, newton_raphson, 8000) {
	Setup o = gen_setup(s, c, LIN, 7, 5);
	int E = (int)s.range(1, 3);
	if (o.n < o.k) {
		c.discard();
	}
	double lr = s.flag() ? o.n : o.lr; // a learning rate of n is the full Newton step
	c.note("epochs=%d lr=%.9g", E, lr);
	DM A = o.X.t() * o.X;
	Lin r = o.p;
	for (int e = 0; e < E; e++) {
		DV g(o.k, 0.0), d;
		double gb = 0;
		for (int i = 0; i < o.n; i++) {
			double er = r.z(o.X, i) - o.y[i];
			gb += er;
			for (int j = 0; j < o.k; j++) {
				g[j] += er * o.X.at(i, j);
			}
		}
		if (A.maxabs() < 0.05 || !solve(A, g, d)) {
			c.discard();
		}
		for (int j = 0; j < o.k; j++) {
			r.w[j] -= lr / o.n * d[j];
		}
		ref_reg(r.w, r.reg, r.lam, r.al, r.delicate);
		r.b -= lr * gb / o.n;
		for (int j = 0; j < o.k; j++) {
			r.peak = std::max(r.peak, std::fabs(r.w[j]));
		}
		r.peak = std::max(r.peak, std::fabs(r.b));
	}
	if (r.delicate || r.peak > PEAK) {
		c.discard();
	}
	Model m(o.p, o.X, o.y, false);
	m.put(o.p.w, o.p.b);
	m.lin->newton_raphson(lr, E);
	same_params(c, m, r, 2e-3 * r.peak, "after Newton's method");
	m.same_data(c, o.X, o.y);
	c.no_errors("Newton's method");
	c.nt(o.k > 1 && moved(o.p, r));
}

// ------------------------------------------------------------------------------ C42 exponential regression
namespace {
struct Exp {
	DV w, in;
	double b, peak = 1;
	RT reg;
	double lam, al;
	bool delicate = false;
	double f(const DM &X, int i) const {
		double t = b;
		for (int j = 0; j < X.c; j++) {
			t += in[j] * pow(w[j], X.at(i, j));
		}
		return t;
	}
	void step(const DM &X, const DV &y, const std::vector<int> &rows, double lr) {
		int k = X.c;
		double gb = 0, m = rows.size();
		DV gw(k, 0.0), gi(k, 0.0);
		for (int i : rows) {
			double e = f(X, i) - y[i];
			peak = std::max(peak, std::fabs(e));
			gb += e / m;
			for (int j = 0; j < k; j++) {
				double x = X.at(i, j);
				gw[j] += e * in[j] * x * pow(w[j], x - 1) / m;
				gi[j] += e * pow(w[j], x) / m;
			}
		}
		for (int j = 0; j < k; j++) {
			w[j] -= lr * gw[j];
			in[j] -= lr * gi[j];
			peak = std::max(peak, std::max(std::fabs(lr * gw[j]), std::fabs(in[j])));
		}
		ref_reg(w, reg, lam, al, delicate);
		for (int j = 0; j < k; j++) {
			delicate |= w[j] < 0.2;
		}
		b -= lr * gb;
	}
};
void prop_exp(Src &s, Ctx &c, int how) {
	int n = s.size(1, how == 1 ? 4 : 6), k = s.size(1, 3), bs = (int)s.range(1, n);
	int E = how == 1 ? (int)s.range(1, 2) : (int)s.range(1, 3);
	DM X = gen_dm(s, n, k, 2);
	DV y = gen_dv(s, n, 4);
	if (s.flag()) { // as for the score, which counts exact hits after rounding
		for (auto &v : y) {
			v = round(v);
		}
	}
	Exp p;
	for (int j = 0; j < k; j++) {
		p.w.push_back(s.real_in(0.4, 1.75));
		p.in.push_back(s.real(2));
	}
	p.b = s.real(1);
	gen_reg(s, p.reg, p.lam, p.al);
	if (p.reg == MLPPReg::REGULARIZATION_TYPE_WEIGHT_CLIPPING) {
		p.lam += 2;
		p.al += 2;
	}
	double lr = s.real_in(0.005, 0.1);
	c.note("how=%d n=%d k=%d reg=%d lambda=%g alpha=%g lr=%.9g epochs=%d batch=%d", how, n, k, (int)p.reg, p.lam, p.al, lr, E, bs);
	note(c, "X", X);
	note(c, "y", y);
	note(c, "w", p.w);
	note(c, "initial", p.in);
	c.note("b=%.9g", p.b);
	Ref<MLPPMatrix> Xm = kpm(X);
	Ref<MLPPVector> ym = kpv(y);
	vt::seed_entropy(s.draw(100000));
	auto run = [&](const Exp &from) {
		std::vector<Exp> rs{ from };
		for (int e = 0; e < E; e++) {
			if (how == 0) {
				rs[0].step(X, y, all(n), lr);
			} else if (how == 2) {
				for (auto &rows : batches(n, bs)) {
					rs[0].step(X, y, rows, lr);
				}
			} else {
				std::vector<Exp> nx;
				for (auto &q : rs) {
					for (int i = 0; i < n; i++) {
						nx.push_back(q);
						nx.back().step(X, y, { i }, lr);
					}
				}
				rs = nx;
			}
			for (auto &q : rs) {
				if (q.delicate || !(q.peak < 50)) {
					c.discard();
				}
			}
		}
		return rs;
	};
	std::vector<Exp> rs = run(p);
	Exp nudged = p;
	for (int j = 0; j < k; j++) {
		nudged.w[j] *= j % 2 ? 1 - 1e-6 : 1 + 1e-6;
		nudged.in[j] *= 1 + 1e-6;
	}
	std::vector<Exp> ns = run(nudged);
	for (size_t r = 0; r < rs.size(); r++) { // runs that amplify rounding are not decided
		for (int j = 0; j < k; j++) {
			if (std::fabs(rs[r].w[j] - ns[r].w[j]) > 1.5e-5 * rs[r].peak || std::fabs(rs[r].in[j] - ns[r].in[j]) > 1.5e-5 * rs[r].peak || std::fabs(rs[r].b - ns[r].b) > 1.5e-5 * rs[r].peak) {
				c.discard();
			}
		}
	}
	Ref<PExp> m(memnew(PExp(Xm, ym, p.reg, p.lam, p.al)));
	m->put(p.w, p.in, p.b);
	if (how == 0) {
		m->gradient_descent(lr, E);
	} else if (how == 1) {
		m->sgd(lr, E);
	} else {
		m->mbgd(lr, E, bs);
	}
	DV w = m->w(), in = m->in();
	double best = 1e300, b = m->b();
	for (auto &q : rs) {
		double d = std::fabs(b - q.b);
		for (int j = 0; j < k; j++) {
			d = std::max(d, std::max(std::fabs(w[j] - q.w[j]), std::fabs(in[j] - q.in[j])));
		}
		best = std::min(best, d / (1e-4 * q.peak));
	}
	c.check(best <= 1, "parameters after training are %.3g tolerances away from the expected ones (w0=%.9g expected %.9g, initial0=%.9g expected %.9g, bias=%.9g expected %.9g)", best, w[0], rs[0].w[0], in[0], rs[0].in[0], b, rs[0].b);
	// predictions
	Exp q = p;
	q.w = w;
	q.in = in;
	q.b = b;
	DV want;
	for (int i = 0; i < n; i++) {
		want.push_back(q.f(X, i));
	}
	eqv(c, m->model_set_test(Xm), want, 1e-4, 1e-3, "predictions of a set");
	for (int i = 0; i < n; i++) {
		c.near(m->model_test(kpv(DV(X.a.begin() + (size_t)i * k, X.a.begin() + (size_t)(i + 1) * k))), want[i], 1e-3 + 1e-4 * std::fabs(want[i]), "prediction of row %d alone", i);
	}
	bool tie = false;
	double sc = perf(dv(m->model_set_test(Xm)), y, tie);
	if (!tie) {
		c.near(m->score(), sc, 1e-5, "score");
	}
	eqm(c, Xm, X, 0, 0, "training inputs afterwards");
	eqv(c, ym, y, 0, 0, "training outputs afterwards");
	c.no_errors("training");
	c.nt(n > 1 && std::fabs(rs[0].w[0] - p.w[0]) > 1e-3);
}
} // namespace
VT_PROP(C42, gradient_descent, 8000) { prop_exp(s, c, 0); }
VT_PROP(C42, stochastic, 8000) { prop_exp(s, c, 1); }
VT_PROP(C42, mini_batches, 8000) { prop_exp(s, c, 2); }

// ------------------------------------------------------------------------------ C43 softmax regression
namespace {
struct Soft {
	DM w;
	DV b;
	RT reg;
	double lam, al, peak = 1, nudge = 0;
	bool delicate = false;
	DV f(const DM &X, int i) const {
		DV z(b);
		double mx = -1e300, t = 0;
		for (int q = 0; q < w.c; q++) {
			for (int j = 0; j < X.c; j++) {
				z[q] += X.at(i, j) * w.at(j, q);
			}
			mx = std::max(mx, z[q]);
		}
		for (auto &v : z) {
			t += v = exp(v - mx);
		}
		for (auto &v : z) {
			v /= t;
		}
		return z;
	}
	void step(const DM &X, const DM &Y, const std::vector<int> &rows, double lr) {
		DM g(w.r, w.c);
		DV gb(w.c, 0.0);
		for (int i : rows) {
			DV p = f(X, i);
			for (int q = 0; q < w.c; q++) {
				gb[q] += p[q] - Y.at(i, q);
				for (int j = 0; j < w.r; j++) {
					g.at(j, q) += X.at(i, j) * (p[q] - Y.at(i, q));
				}
			}
		}
		for (size_t i = 0; i < w.a.size(); i++) {
			w.a[i] -= lr * g.a[i];
		}
		ref_reg(w.a, reg, lam, al, delicate);
		for (int q = 0; q < w.c; q++) {
			b[q] -= lr * gb[q];
		}
		peak = std::max(peak, w.maxabs());
		for (size_t i = 0; i < w.a.size(); i++) {
			w.a[i] += (i % 2 ? -1 : 1) * nudge * peak;
		}
		for (int q = 0; q < w.c; q++) {
			b[q] += (q % 2 ? -1 : 1) * nudge * peak;
		}
	}
};
void prop_soft(Src &s, Ctx &c, int how) {
	int n = s.size(1, how == 1 ? 4 : 6), k = s.size(1, 3), q = (int)s.range(1, 4), bs = (int)s.range(1, n);
	int E = how == 1 ? (int)s.range(1, 2) : (int)s.range(1, 3);
	DM X = gen_dm(s, n, k, 2), Y(n, q);
	for (int i = 0; i < n; i++) {
		Y.at(i, (int)s.range(0, q - 1)) = 1;
	}
	Soft p;
	p.w = gen_dm(s, k, q, 1.5);
	p.b = gen_dv(s, q, 1.5);
	gen_reg(s, p.reg, p.lam, p.al);
	double lr = s.real_in(0.01, 0.5);
	c.note("how=%d n=%d k=%d classes=%d reg=%d lambda=%g alpha=%g lr=%.9g epochs=%d batch=%d", how, n, k, q, (int)p.reg, p.lam, p.al, lr, E, bs);
	note(c, "X", X);
	note(c, "Y", Y);
	note(c, "w", p.w);
	note(c, "b", p.b);
	Ref<MLPPMatrix> Xm = kpm(X), Ym = kpm(Y);
	vt::seed_entropy(s.draw(100000));
	Soft np = p;
	np.nudge = NUDGE;
	std::vector<Soft> rs{ p }, ns{ np };
	for (int e = 0; e < E; e++) {
		for (auto *v : { &rs, &ns }) {
			if (how == 0) {
				(*v)[0].step(X, Y, all(n), lr);
			} else if (how == 2) {
				for (auto &rows : batches(n, bs)) {
					(*v)[0].step(X, Y, rows, lr);
				}
			} else {
				std::vector<Soft> nx;
				for (auto &r : *v) {
					for (int i = 0; i < n; i++) {
						nx.push_back(r);
						nx.back().step(X, Y, { i }, lr);
					}
				}
				*v = nx;
			}
		}
		for (size_t r = 0; r < rs.size(); r++) {
			double d = 0; // a run that amplifies rounding is not decided
			for (size_t i = 0; i < rs[r].w.a.size(); i++) {
				d = std::max(d, std::fabs(rs[r].w.a[i] - ns[r].w.a[i]));
			}
			for (int i = 0; i < q; i++) {
				d = std::max(d, std::fabs(rs[r].b[i] - ns[r].b[i]));
			}
			if (rs[r].delicate || !(d <= 2e-5 * rs[r].peak)) {
				c.discard();
			}
		}
	}
	Ref<MLPPSoftmaxReg> m;
	if (s.flag()) {
		m.instance();
		m->set_input_set(Xm);
		m->set_output_set(Ym);
		m->set_reg(p.reg);
		m->set_lambda(p.lam);
		m->set_alpha(p.al);
		m->initialize();
	} else {
		m = Ref<MLPPSoftmaxReg>(memnew(MLPPSoftmaxReg(Xm, Ym, p.reg, p.lam, p.al)));
	}
	m->data_weights_set(mkm(p.w));
	m->data_bias_set(mkv(p.b));
	if (how == 0) {
		m->train_gradient_descent(lr, E);
	} else if (how == 1) {
		m->train_sgd(lr, E);
	} else {
		m->train_mbgd(lr, E, bs);
	}
	DM w = dm(m->data_weights_get());
	DV b = dv(m->data_bias_get());
	c.check(w.r == k && w.c == q && (int)b.size() == q, "shape of the parameters changed");
	double best = 1e300;
	for (auto &r : rs) {
		double d = 0;
		for (int j = 0; j < q; j++) {
			d = std::max(d, std::fabs(b[j] - r.b[j]));
		}
		for (size_t j = 0; j < w.a.size(); j++) {
			d = std::max(d, std::fabs(w.a[j] - r.w.a[j]));
		}
		best = std::min(best, d / (5e-5 * r.peak));
	}
	c.check(best <= 1, "parameters after training are %.3g tolerances away from the expected ones (w00=%.9g expected %.9g, b0=%.9g expected %.9g)", best, w.a[0], rs[0].w.a[0], b[0], rs[0].b[0]);
	Soft r = p;
	r.w = w;
	r.b = b;
	DM want(n, q);
	int ok = 0;
	bool tie = false;
	for (int i = 0; i < n; i++) {
		DV f = r.f(X, i);
		bool good = true;
		for (int j = 0; j < q; j++) {
			want.at(i, j) = f[j];
			tie |= std::fabs(f[j] - 0.5) < 1e-4;
			good &= round(f[j]) == Y.at(i, j);
		}
		ok += good;
		eqv(c, m->model_test(kpv(DV(X.a.begin() + (size_t)i * k, X.a.begin() + (size_t)(i + 1) * k))), f, 0, 2e-5, "prediction of one row");
	}
	eqm(c, m->model_set_test(Xm), want, 0, 2e-5, "predictions of a set");
	if (!tie) {
		c.near(m->score(), (double)ok / n, 1e-5, "score");
	}
	eqm(c, Xm, X, 0, 0, "training inputs afterwards");
	eqm(c, Ym, Y, 0, 0, "training outputs afterwards");
	c.no_errors("training");
	c.nt(n > 1 && q > 1);
}
} // namespace
VT_PROP(C43, gradient_descent, 8000) { prop_soft(s, c, 0); }
VT_PROP(C43, stochastic, 8000) { prop_soft(s, c, 1); }
VT_PROP(C43, mini_batches, 8000) { prop_soft(s, c, 2); }

// ------------------------------------------------------------------------------ C37 support vector classifier
VT_PROP(C37, gradient_descent, 8000) { prop_gd(s, c, SVC); }
VT_PROP(C37, mini_batches, 8000) { prop_mbgd(s, c, SVC); }
VT_PROP(C37, stochastic, 8000) { prop_sgd(s, c, SVC); }

// ------------------------------------------------------------------------------ C44 dual support vector classifier
VT_PROP(C44, projected_gradient, 8000) {
	int n = s.size(1, 5), k = s.size(1, 3), E = (int)s.range(1, 3);
	DM X = gen_dm(s, n, k, 2);
	DV y(n), a(n);
	for (auto &v : y) {
		v = s.flag() ? 1 : -1;
	}
	double C = s.real_in(0.25, 2), b = s.real(1), lr = s.real_in(0.01, 0.3);
	for (auto &v : a) {
		v = s.real_in(-0.25, 1) * (s.flag() ? C : 1);
	}
	c.note("n=%d k=%d epochs=%d C=%.9g b=%.9g lr=%.9g", n, k, E, C, b, lr);
	note(c, "X", X);
	note(c, "y", y);
	note(c, "alpha", a);
	DV ra = a;
	double rb = b, peak = 1;
	for (int e = 0; e < E; e++) {
		DV g(n, 0.0);
		for (int i = 0; i < n; i++) {
			for (int j = 0; j < n; j++) {
				double kij = 0;
				for (int d = 0; d < k; d++) {
					kij += X.at(i, d) * X.at(j, d);
				}
				g[i] += y[i] * y[j] * kij * ra[j];
			}
			g[i] -= 1;
		}
		for (int i = 0; i < n; i++) {
			ra[i] -= lr * g[i];
			if (std::fabs(ra[i]) < 1e-4 || std::fabs(ra[i] - C) < 1e-4) {
				c.discard();
			}
			ra[i] = std::min(std::max(ra[i], 0.0), C);
		}
		for (int i = 0; i < n; i++) {
			if (ra[i] > 0 && ra[i] < C) { // the first support vector strictly inside the box
				double t = 0;
				for (int j = 0; j < n; j++) {
					for (int d = 0; d < k; d++) {
						t += ra[j] * y[j] * X.at(i, d) * X.at(j, d);
					}
				}
				rb -= lr * (t + rb - y[i]);
				peak = std::max(peak, std::fabs(t));
				break;
			}
		}
	}
	Ref<MLPPMatrix> Xm = kpm(X);
	Ref<MLPPVector> ym = kpv(y);
	Ref<PDual> m(memnew(PDual(Xm, ym, C)));
	m->put(a, b);
	m->gradient_descent(lr, E);
	DV ga = m->a();
	c.check((int)ga.size() == n, "number of multipliers changed");
	for (int i = 0; i < n; i++) {
		c.check(ga[i] >= 0 && ga[i] <= f32(C), "multiplier %d is %g, outside [0, %g]", i, ga[i], C);
		c.near(ga[i], ra[i], 1e-4 * peak, "multiplier %d", i);
	}
	c.near(m->b(), rb, 2e-4 * peak, "bias");
	// predictions
	int q = s.size(1, 4);
	DM Q = gen_dm(s, q, k, 2);
	DV want;
	for (int i = 0; i < q; i++) {
		double t = m->b();
		for (int j = 0; j < n; j++) {
			for (int d = 0; d < k; d++) {
				t += ga[j] * y[j] * Q.at(i, d) * X.at(j, d);
			}
		}
		if (std::fabs(t) < 1e-3) {
			c.discard();
		}
		want.push_back(t > 0 ? 1 : -1);
	}
	eqv(c, m->model_set_test(kpm(Q)), want, 0, 1e-6, "classes of a set");
	for (int i = 0; i < q; i++) {
		c.near(m->model_test(kpv(DV(Q.a.begin() + (size_t)i * k, Q.a.begin() + (size_t)(i + 1) * k))), want[i], 1e-6, "class of row %d alone", i);
	}
	bool tie = false;
	c.near(m->score(), perf(dv(m->model_set_test(Xm)), y, tie), 1e-5, "score");
	eqm(c, Xm, X, 0, 0, "training inputs afterwards");
	eqv(c, ym, y, 0, 0, "training outputs afterwards");
	c.no_errors("training");
	c.nt(n > 1);
}
