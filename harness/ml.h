// helpers shared by the checks of the ML code: reference containers in double
// precision and conversions from/to the library's objects
#pragma once
#include "sfw.h"
#include "vt.h"

#include "core/mlpp_matrix.h"
#include "core/mlpp_tensor3.h"
#include "core/mlpp_vector.h"

#include <algorithm>
#include <array>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

typedef std::vector<double> DV;

struct DM {
	int r = 0, c = 0;
	DV a;
	DM() {}
	DM(int p_r, int p_c) :
			r(p_r), c(p_c), a((size_t)p_r * p_c, 0.0) {}
	double &at(int i, int j) { return a[(size_t)i * c + j]; }
	double at(int i, int j) const { return a[(size_t)i * c + j]; }
	DM t() const {
		DM o(c, r);
		for (int i = 0; i < r; i++) {
			for (int j = 0; j < c; j++) {
				o.at(j, i) = at(i, j);
			}
		}
		return o;
	}
	DM operator*(const DM &b) const {
		DM o(r, b.c);
		for (int i = 0; i < r; i++) {
			for (int k = 0; k < c; k++) {
				for (int j = 0; j < b.c; j++) {
					o.at(i, j) += at(i, k) * b.at(k, j);
				}
			}
		}
		return o;
	}
	double maxabs() const {
		double m = 0;
		for (double v : a) {
			m = std::max(m, std::fabs(v));
		}
		return m;
	}
};

inline Ref<MLPPVector> mkv(const std::vector<float> &v) {
	Ref<MLPPVector> r;
	r.instance();
	r->resize((int)v.size());
	for (size_t i = 0; i < v.size(); i++) {
		r->element_set((int)i, v[i]);
	}
	return r;
}
inline Ref<MLPPVector> mkv(const DV &v) {
	return mkv(std::vector<float>(v.begin(), v.end()));
}
inline Ref<MLPPMatrix> mkm(const DM &m) {
	Ref<MLPPMatrix> r;
	r.instance();
	r->resize(Size2i(m.c, m.r));
	for (int i = 0; i < m.r; i++) {
		for (int j = 0; j < m.c; j++) {
			r->element_set(i, j, (real_t)m.at(i, j));
		}
	}
	return r;
}
// the same, for what a model is given to work on: at the end of the case it has to be as it was
Ref<MLPPVector> kpv(const DV &v);
Ref<MLPPMatrix> kpm(const DM &m);
inline DV dv(const Ref<MLPPVector> &v) {
	DV o;
	for (int i = 0; i < v->size(); i++) {
		o.push_back(v->element_get(i));
	}
	return o;
}
inline DM dm(const Ref<MLPPMatrix> &m) {
	DM o(m->size().y, m->size().x);
	for (int i = 0; i < o.r; i++) {
		for (int j = 0; j < o.c; j++) {
			o.at(i, j) = m->element_get(i, j);
		}
	}
	return o;
}
inline std::string left_alone(const DV &was, const DV &is) {
	if (was.size() != is.size()) {
		return "what the model was given changed its size";
	}
	for (size_t i = 0; i < was.size(); i++) {
		if (was[i] != is[i] && !(std::isnan(was[i]) && std::isnan(is[i]))) {
			char b[160];
			snprintf(b, sizeof b, "what the model was given was changed: element %d from %g to %g", (int)i, was[i], is[i]);
			return b;
		}
	}
	return "";
}
inline Ref<MLPPVector> kpv(const DV &v) {
	Ref<MLPPVector> r = mkv(v);
	DV was = dv(r);
	vt::at_case_end.push_back([r, was]() { return left_alone(was, dv(r)); });
	return r;
}
inline Ref<MLPPMatrix> kpm(const DM &m) {
	Ref<MLPPMatrix> r = mkm(m);
	DM was = dm(r);
	vt::at_case_end.push_back([r, was]() {
		DM is = dm(r);
		return was.r != is.r || was.c != is.c ? std::string("what the model was given changed its size") : left_alone(was.a, is.a);
	});
	return r;
}

inline DV gen_dv(vt::Src &s, int n, float mag = 8) {
	DV v(n);
	for (int i = 0; i < n; i++) {
		v[i] = s.real(mag);
	}
	return v;
}
inline DM gen_dm(vt::Src &s, int r, int c, float mag = 8) {
	DM m(r, c);
	for (auto &x : m.a) {
		x = s.real(mag);
	}
	return m;
}

inline void note(vt::Ctx &c, const char *n, const DV &v) {
	if (!c.want_desc) {
		return;
	}
	std::string o = std::string(n) + "=[";
	for (size_t i = 0; i < v.size() && i < 40; i++) {
		char b[32];
		snprintf(b, sizeof b, "%s%.9g", i ? "," : "", v[i]);
		o += b;
	}
	c.desc += o + "] ";
	c.sync_desc();
}
inline void note(vt::Ctx &c, const char *n, const DM &m) {
	if (!c.want_desc) {
		return;
	}
	std::string o = std::string(n) + "=[";
	for (int i = 0; i < m.r && i < 12; i++) {
		o += i ? ";[" : "[";
		for (int j = 0; j < m.c && j < 12; j++) {
			char b[32];
			snprintf(b, sizeof b, "%s%.9g", j ? "," : "", m.at(i, j));
			o += b;
		}
		o += "]";
	}
	c.desc += o + "] ";
	c.sync_desc();
}

inline void eqv(vt::Ctx &c, const Ref<MLPPVector> &got, const DV &want, double rel, double abs_, const char *what) {
	c.check(got.is_valid(), "%s: no result", what);
	c.check(got->size() == (int)want.size(), "%s: size %d, expected %d", what, got->size(), (int)want.size());
	for (size_t i = 0; i < want.size(); i++) {
		c.near(got->element_get((int)i), want[i], abs_ + rel * std::fabs(want[i]), "%s: element %d", what, (int)i);
	}
}
inline void eqm(vt::Ctx &c, const Ref<MLPPMatrix> &got, const DM &want, double rel, double abs_, const char *what) {
	c.check(got.is_valid(), "%s: no result", what);
	c.check(got->size().y == want.r && got->size().x == want.c, "%s: size %dx%d (rows x cols), expected %dx%d", what, got->size().y, got->size().x, want.r, want.c);
	for (int i = 0; i < want.r; i++) {
		for (int j = 0; j < want.c; j++) {
			c.near(got->element_get(i, j), want.at(i, j), abs_ + rel * std::fabs(want.at(i, j)), "%s: element (%d,%d)", what, i, j);
		}
	}
}
inline float f32(double v) { return (float)v; }

#include "core/reg.h"
// what regularisation does to the weights after a step. `delicate` is set when a
// weight is so close to 0 that its sign is not decided by the mathematics
inline void ref_reg(DV &w, MLPPReg::RegularizationType t, double lam, double al, bool &delicate) {
	for (auto &x : w) {
		double sg = x > 0 ? 1 : (x < 0 ? -1 : 0);
		bool uses_sign = lam != 0 && (t == MLPPReg::REGULARIZATION_TYPE_LASSO || (t == MLPPReg::REGULARIZATION_TYPE_ELASTIC_NET && al != 0));
		delicate |= uses_sign && std::fabs(x) < 1e-3;
		switch (t) {
			case MLPPReg::REGULARIZATION_TYPE_RIDGE:
				x -= lam * x;
				break;
			case MLPPReg::REGULARIZATION_TYPE_LASSO:
				x -= lam * sg;
				break;
			case MLPPReg::REGULARIZATION_TYPE_ELASTIC_NET:
				x -= lam * (al * sg + (1 - al) * x);
				break;
			case MLPPReg::REGULARIZATION_TYPE_WEIGHT_CLIPPING:
				x = std::min(std::max(x, lam), al);
				break;
			default:
				break;
		}
	}
}
