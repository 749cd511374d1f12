// C04: element-wise arithmetic, every form of every operation on every container
// C05: wrong arguments are reported and change nothing
#include "ml.h"

#include "core/lin_alg.h"

// ---- shape + values of a container, in one form for vectors, matrices and tensors
struct Box {
	int x = 0, y = 1, z = 1;
	DV a;
	bool same_shape(const Box &o) const { return x == o.x && y == o.y && z == o.z; }
};

static Ref<MLPPVector> make(const Box &b, MLPPVector *) { return mkv(b.a); }
static Ref<MLPPMatrix> make(const Box &b, MLPPMatrix *) {
	DM m(b.y, b.x);
	m.a = b.a;
	return mkm(m);
}
static Ref<MLPPTensor3> make(const Box &b, MLPPTensor3 *) {
	Ref<MLPPTensor3> t;
	t.instance();
	t->resize(Size3i(b.x, b.y, b.z));
	for (size_t i = 0; i < b.a.size(); i++) {
		t->element_set_index((int)i, (real_t)b.a[i]);
	}
	return t;
}
static Box read(const Ref<MLPPVector> &v) {
	Box b;
	b.x = v->size();
	b.a = dv(v);
	return b;
}
static Box read(const Ref<MLPPMatrix> &v) {
	Box b;
	b.x = v->size().x;
	b.y = v->size().y;
	b.a = dm(v).a;
	return b;
}
static Box read(const Ref<MLPPTensor3> &v) {
	Box b;
	b.x = v->size().x;
	b.y = v->size().y;
	b.z = v->size().z;
	for (int i = 0; i < v->data_size(); i++) {
		b.a.push_back(v->element_get_index(i));
	}
	return b;
}
static Box gen_box(vt::Src &s, MLPPVector *) {
	Box b;
	b.x = s.grown(0, 12, 70);
	return b;
}
static Box gen_box(vt::Src &s, MLPPMatrix *) {
	Box b;
	b.x = s.one_in(16) ? (int)s.range(1, 20) : (int)s.range(1, 5);
	b.y = s.one_in(16) ? (int)s.range(1, 20) : (int)s.range(1, 5);
	return b;
}
static Box gen_box(vt::Src &s, MLPPTensor3 *) {
	Box b;
	b.x = s.one_in(16) ? (int)s.range(1, 9) : (int)s.range(1, 4);
	b.y = s.one_in(16) ? (int)s.range(1, 9) : (int)s.range(1, 4);
	b.z = s.one_in(16) ? (int)s.range(1, 9) : (int)s.range(1, 4);
	return b;
}
static void fill(vt::Src &s, Box &b, float mag, bool positive) {
	b.a.resize((size_t)b.x * b.y * b.z);
	for (auto &v : b.a) {
		v = positive ? s.pos_real(mag) : s.real(mag);
	}
}

template <class R>
static void cmp(vt::Ctx &c, const R &got, const Box &want, const char *what) {
	c.check(got.is_valid(), "%s: no result", what);
	Box g = read(got);
	c.check(g.same_shape(want), "%s: shape (%d,%d,%d), expected (%d,%d,%d)", what, g.x, g.y, g.z, want.x, want.y, want.z);
	for (size_t i = 0; i < want.a.size(); i++) {
		c.near(g.a[i], want.a[i], 2e-6 + 2e-5 * std::fabs(want.a[i]), "%s: element %d", what, (int)i);
	}
}

template <class T>
struct Bin {
	const char *name;
	void (T::*in)(const Ref<T> &);
	Ref<T> (T::*n)(const Ref<T> &) const;
	void (T::*b)(const Ref<T> &, const Ref<T> &);
	double (*f)(double, double);
	bool nz; // second operand must not be zero
};
template <class T>
struct Un {
	const char *name;
	void (T::*in)();
	Ref<T> (T::*n)() const;
	void (T::*b)(const Ref<T> &);
	double (*f)(double);
	bool pos;
};
template <class T>
struct Sc {
	const char *name;
	void (T::*in)(real_t);
	Ref<T> (T::*n)(real_t) const;
	void (T::*b)(real_t, const Ref<T> &);
	void (T::*b2)(const Ref<T> &, real_t);
	double (*f)(double, double);
	bool pos;
};

static double f_mul(double a, double b) { return a * b; }
static double f_div(double a, double b) { return a / b; }
static double f_add(double a, double b) { return a + b; }
static double f_sub(double a, double b) { return a - b; }
static double f_max(double a, double b) { return a > b ? a : b; }
static double f_min(double a, double b) { return a < b ? a : b; }
static double f_log(double a) { return std::log(a); }
static double f_log10(double a) { return std::log10(a); }
static double f_exp(double a) { return std::exp(a); }
static double f_erf(double a) { return std::erf(a); }
static double f_sqrt(double a) { return std::sqrt(a); }
static double f_cbrt(double a) { return std::cbrt(a); }
static double f_abs(double a) { return std::fabs(a); }
static double f_sin(double a) { return std::sin(a); }
static double f_cos(double a) { return std::cos(a); }
static double f_pow(double a, double p) { return std::pow(a, p); }

#define BIN(T, N, F, NZ) \
	{ #T "::" #N, &T::N, &T::N##n, &T::N##b, F, NZ }
#define UN(T, N, F, P) \
	{ #T "::" #N, &T::N, &T::N##n, &T::N##b, F, P }
#define SC(T, N, F, P) \
	{ #T "::" #N, &T::N, &T::N##n, &T::N##b, nullptr, F, P }
#define SC2(T, N, F, P) \
	{ #T "::" #N, &T::N, &T::N##n, nullptr, &T::N##b, F, P }

template <class T>
struct Ops;
template <>
struct Ops<MLPPVector> {
	static std::vector<Bin<MLPPVector>> bin() {
		return { BIN(MLPPVector, hadamard_product, f_mul, false), BIN(MLPPVector, division_element_wise, f_div, true), BIN(MLPPVector, add, f_add, false), BIN(MLPPVector, sub, f_sub, false), BIN(MLPPVector, max, f_max, false), BIN(MLPPVector, min, f_min, false) };
	}
	static std::vector<Un<MLPPVector>> un() {
		return { UN(MLPPVector, log, f_log, true), UN(MLPPVector, log10, f_log10, true), UN(MLPPVector, exp, f_exp, false), UN(MLPPVector, erf, f_erf, false), UN(MLPPVector, sqrt, f_sqrt, true), UN(MLPPVector, cbrt, f_cbrt, true), UN(MLPPVector, abs, f_abs, false), UN(MLPPVector, sin, f_sin, false), UN(MLPPVector, cos, f_cos, false) };
	}
	static std::vector<Sc<MLPPVector>> sc() {
		return { SC(MLPPVector, scalar_multiply, f_mul, false), SC(MLPPVector, scalar_add, f_add, false), SC2(MLPPVector, exponentiate, f_pow, true) };
	}
};
template <>
struct Ops<MLPPMatrix> {
	static std::vector<Bin<MLPPMatrix>> bin() {
		return { BIN(MLPPMatrix, hadamard_product, f_mul, false), BIN(MLPPMatrix, division_element_wise, f_div, true), BIN(MLPPMatrix, add, f_add, false), BIN(MLPPMatrix, sub, f_sub, false), BIN(MLPPMatrix, max, f_max, false), BIN(MLPPMatrix, min, f_min, false) };
	}
	static std::vector<Un<MLPPMatrix>> un() {
		return { UN(MLPPMatrix, log, f_log, true), UN(MLPPMatrix, log10, f_log10, true), UN(MLPPMatrix, exp, f_exp, false), UN(MLPPMatrix, erf, f_erf, false), UN(MLPPMatrix, sqrt, f_sqrt, true), UN(MLPPMatrix, cbrt, f_cbrt, true), UN(MLPPMatrix, abs, f_abs, false), UN(MLPPMatrix, sin, f_sin, false), UN(MLPPMatrix, cos, f_cos, false) };
	}
	static std::vector<Sc<MLPPMatrix>> sc() {
		return { SC(MLPPMatrix, scalar_multiply, f_mul, false), SC(MLPPMatrix, scalar_add, f_add, false), SC2(MLPPMatrix, exponentiate, f_pow, true) };
	}
};
template <>
struct Ops<MLPPTensor3> {
	static std::vector<Bin<MLPPTensor3>> bin() {
		return { BIN(MLPPTensor3, hadamard_product, f_mul, false), BIN(MLPPTensor3, division_element_wise, f_div, true), BIN(MLPPTensor3, add, f_add, false), BIN(MLPPTensor3, sub, f_sub, false), BIN(MLPPTensor3, max, f_max, false) };
	}
	static std::vector<Un<MLPPTensor3>> un() {
		return { UN(MLPPTensor3, sqrt, f_sqrt, true), UN(MLPPTensor3, abs, f_abs, false) };
	}
	static std::vector<Sc<MLPPTensor3>> sc() {
		return { SC(MLPPTensor3, scalar_multiply, f_mul, false), SC(MLPPTensor3, scalar_add, f_add, false), SC2(MLPPTensor3, exponentiate, f_pow, true) };
	}
};

template <class T>
static void check_bin(vt::Src &s, vt::Ctx &c) {
	auto ops = Ops<T>::bin();
	const Bin<T> &op = s.pick(ops);
	Box a = gen_box(s, (T *)nullptr), b = a;
	fill(s, a, 8, false);
	fill(s, b, 8, op.nz);
	bool self = s.one_in(8); // both operands are one object
	if (self) {
		if (op.nz) {
			a = b;
		}
		b = a;
	}
	c.note("%s", op.name);
	note(c, "a", a.a);
	note(c, "b", b.a);
	Box want = a;
	for (size_t i = 0; i < a.a.size(); i++) {
		want.a[i] = op.f(a.a[i], b.a[i]);
	}
	Ref<T> ra = make(a, (T *)nullptr);
	Ref<T> rb = self ? ra : make(b, (T *)nullptr);
	cmp(c, (ra.ptr()->*op.n)(rb), want, op.name);
	cmp(c, ra, a, "left operand of the n form");
	cmp(c, rb, b, "right operand of the n form");
	// into: a fresh result object, one with other contents and shape, or an operand itself
	Ref<T> out;
	int kind = (int)s.draw(4);
	if (kind == 0) {
		out.instance();
	} else if (kind == 1) {
		Box o = gen_box(s, (T *)nullptr);
		fill(s, o, 8, false);
		out = make(o, (T *)nullptr);
	} else {
		out = make(kind == 2 ? a : b, (T *)nullptr);
	}
	if (kind <= 1) {
		(out.ptr()->*op.b)(ra, rb);
		cmp(c, ra, a, "left operand of the b form");
		cmp(c, rb, b, "right operand of the b form");
	} else if (kind == 2) {
		(out.ptr()->*op.b)(out, rb);
	} else {
		(out.ptr()->*op.b)(ra, out);
	}
	cmp(c, out, want, op.name);
	(ra.ptr()->*op.in)(rb);
	cmp(c, ra, want, op.name);
	if (!self) {
		cmp(c, rb, b, "argument of the in-place form");
	}
	c.no_errors(op.name);
	c.nt(a.a.size() > 1);
}

template <class T>
static void check_un(vt::Src &s, vt::Ctx &c) {
	auto ops = Ops<T>::un();
	const Un<T> &op = s.pick(ops);
	Box a = gen_box(s, (T *)nullptr);
	fill(s, a, 8, op.pos);
	c.note("%s", op.name);
	note(c, "a", a.a);
	Box want = a;
	for (size_t i = 0; i < a.a.size(); i++) {
		want.a[i] = op.f(a.a[i]);
	}
	Ref<T> ra = make(a, (T *)nullptr);
	cmp(c, (ra.ptr()->*op.n)(), want, op.name);
	cmp(c, ra, a, "operand of the n form");
	Ref<T> out;
	int kind = (int)s.draw(3);
	if (kind == 0) {
		out.instance();
		(out.ptr()->*op.b)(ra);
	} else if (kind == 1) {
		Box o = gen_box(s, (T *)nullptr);
		fill(s, o, 8, false);
		out = make(o, (T *)nullptr);
		(out.ptr()->*op.b)(ra);
	} else {
		out = make(a, (T *)nullptr);
		(out.ptr()->*op.b)(out);
	}
	cmp(c, out, want, op.name);
	cmp(c, ra, a, "operand of the b form");
	(ra.ptr()->*op.in)();
	cmp(c, ra, want, op.name);
	c.no_errors(op.name);
	c.nt(a.a.size() > 1);
}

template <class T>
static void check_sc(vt::Src &s, vt::Ctx &c) {
	auto ops = Ops<T>::sc();
	const Sc<T> &op = s.pick(ops);
	Box a = gen_box(s, (T *)nullptr);
	bool integral = op.pos && s.flag();
	fill(s, a, 8, op.pos && !integral);
	real_t k = op.pos ? (integral ? (real_t)s.range(0, 4) : s.real(3)) : s.real(8);
	c.note("%s k=%g", op.name, k);
	note(c, "a", a.a);
	Box want = a;
	for (size_t i = 0; i < a.a.size(); i++) {
		want.a[i] = op.f(a.a[i], k);
	}
	Ref<T> ra = make(a, (T *)nullptr);
	cmp(c, (ra.ptr()->*op.n)(k), want, op.name);
	cmp(c, ra, a, "operand of the n form");
	Ref<T> out;
	int kind = (int)s.draw(3);
	if (kind == 0) {
		out.instance();
	} else if (kind == 1) {
		Box o = gen_box(s, (T *)nullptr);
		fill(s, o, 8, false);
		out = make(o, (T *)nullptr);
	} else {
		out = make(a, (T *)nullptr);
	}
	Ref<T> src = kind == 2 ? out : ra;
	if (op.b) {
		(out.ptr()->*op.b)(k, src);
	} else {
		(out.ptr()->*op.b2)(src, k);
	}
	cmp(c, out, want, op.name);
	cmp(c, ra, a, "operand of the b form");
	(ra.ptr()->*op.in)(k);
	cmp(c, ra, want, op.name);
	c.no_errors(op.name);
	c.nt(a.a.size() > 1);
}

VT_PROP(C04, ew_vector_binary, 40000) { check_bin<MLPPVector>(s, c); }
VT_PROP(C04, ew_matrix_binary, 40000) { check_bin<MLPPMatrix>(s, c); }
VT_PROP(C04, ew_tensor_binary, 40000) { check_bin<MLPPTensor3>(s, c); }
VT_PROP(C04, ew_vector_unary, 40000) { check_un<MLPPVector>(s, c); }
VT_PROP(C04, ew_matrix_unary, 40000) { check_un<MLPPMatrix>(s, c); }
VT_PROP(C04, ew_tensor_unary, 20000) { check_un<MLPPTensor3>(s, c); }
VT_PROP(C04, ew_vector_scalar, 30000) { check_sc<MLPPVector>(s, c); }
VT_PROP(C04, ew_matrix_scalar, 30000) { check_sc<MLPPMatrix>(s, c); }
VT_PROP(C04, ew_tensor_scalar, 30000) { check_sc<MLPPTensor3>(s, c); }

// the same operations through the linear-algebra helper
typedef Vector<Ref<MLPPMatrix>> VM;
static VM mkvm(const Box &b) {
	VM v;
	for (int k = 0; k < b.z; k++) {
		Box q;
		q.x = b.x;
		q.y = b.y;
		q.a.assign(b.a.begin() + (size_t)k * b.x * b.y, b.a.begin() + (size_t)(k + 1) * b.x * b.y);
		v.push_back(make(q, (MLPPMatrix *)nullptr));
	}
	return v;
}
static void cmpvm(vt::Ctx &c, const VM &got, const Box &want, const char *what) {
	c.check(got.size() == want.z, "%s: %d matrices, expected %d", what, got.size(), want.z);
	for (int k = 0; k < want.z; k++) {
		Box q;
		q.x = want.x;
		q.y = want.y;
		q.a.assign(want.a.begin() + (size_t)k * want.x * want.y, want.a.begin() + (size_t)(k + 1) * want.x * want.y);
		cmp(c, got[k], q, what);
	}
}

VT_PROP(C04, ew_helper, 60000) {
	MLPPLinAlg alg;
	int kind = (int)s.draw(3);
	int op = (int)s.draw(16);
	bool pos = op == 9 || op == 10 || op == 12 || op == 13 || (op == 8);
	Box a = kind == 0 ? gen_box(s, (MLPPVector *)nullptr) : (kind == 1 ? gen_box(s, (MLPPMatrix *)nullptr) : gen_box(s, (MLPPTensor3 *)nullptr));
	if (a.x == 0) {
		a.x = 1;
	}
	Box b = a;
	fill(s, a, 8, pos);
	fill(s, b, 8, op == 3);
	real_t k = s.real(3);
	c.note("kind %d op %d k %g", kind, op, k);
	note(c, "a", a.a);
	note(c, "b", b.a);
	Box w = a;
	double (*f2)(double, double) = nullptr;
	double (*f1)(double) = nullptr;
	switch (op) {
		case 0:
			f2 = f_add;
			break;
		case 1:
			f2 = f_sub;
			break;
		case 2:
			f2 = f_mul;
			break;
		case 3:
			f2 = f_div;
			break;
		case 4:
			f2 = f_max;
			break;
		case 5:
			f2 = f_mul;
			break; // scalar
		case 6:
			f2 = f_add;
			break; // scalar
		case 7:
			f1 = f_abs;
			break;
		case 8:
			f2 = f_pow;
			break;
		case 9:
			f1 = f_log;
			break;
		case 10:
			f1 = f_log10;
			break;
		case 11:
			f1 = f_exp;
			break;
		case 12:
			f1 = f_sqrt;
			break;
		case 13:
			f1 = f_cbrt;
			break;
		case 14:
			f1 = f_sin;
			break;
		default:
			f1 = f_cos;
			break;
	}
	bool scalar = op == 5 || op == 6 || op == 8;
	for (size_t i = 0; i < a.a.size(); i++) {
		w.a[i] = f1 ? f1(a.a[i]) : f2(a.a[i], scalar ? (double)k : b.a[i]);
	}
	c.nt(a.a.size() > 1);
	if (kind == 0) {
		Ref<MLPPVector> x = mkv(a.a), y = mkv(b.a), o;
		o.instance();
		Ref<MLPPVector> r;
		switch (op) {
			case 0:
				r = alg.additionnv(x, y);
				alg.additionv(x, y, o);
				cmp(c, o, w, "additionv");
				break;
			case 1:
				r = alg.subtractionnv(x, y);
				alg.subtractionv(x, y, o);
				cmp(c, o, w, "subtractionv");
				break;
			case 2:
				r = alg.hadamard_productnv(x, y);
				alg.hadamard_productv(x, y, o);
				cmp(c, o, w, "hadamard_productv");
				break;
			case 3:
				r = alg.division_element_wisenv(x, y);
				break;
			case 4:
				r = alg.maxnvv(x, y);
				break;
			case 5:
				r = alg.scalar_multiplynv(k, x);
				alg.scalar_multiplyv(k, x, o);
				cmp(c, o, w, "scalar_multiplyv");
				break;
			case 6:
				r = alg.scalar_addnv(k, x);
				alg.scalar_addv(k, x, o);
				cmp(c, o, w, "scalar_addv");
				break;
			case 7:
				r = alg.absv(x);
				break;
			case 8:
				r = alg.exponentiatenv(x, k);
				break;
			case 9:
				r = alg.lognv(x);
				break;
			case 10:
				r = alg.log10nv(x);
				break;
			case 11:
				r = s.flag() ? alg.expnv(x) : alg.expnv(x);
				break;
			case 12:
				r = alg.sqrtnv(x);
				break;
			case 13:
				r = alg.cbrtnv(x);
				break;
			case 14:
				r = alg.sinnv(x);
				break;
			default:
				r = alg.cosnv(x);
				break;
		}
		cmp(c, r, w, "vector helper");
		cmp(c, x, a, "operand");
		cmp(c, y, b, "operand");
		for (size_t i = 0; i < a.a.size(); i++) {
			w.a[i] = std::erf(a.a[i]);
		}
		cmp(c, alg.erfnv(x), w, "erfnv");
	} else if (kind == 1) {
		Ref<MLPPMatrix> x = make(a, (MLPPMatrix *)nullptr), y = make(b, (MLPPMatrix *)nullptr);
		Ref<MLPPMatrix> r;
		switch (op) {
			case 0:
				r = alg.additionnm(x, y);
				break;
			case 1:
				r = alg.subtractionnm(x, y);
				break;
			case 2:
				r = alg.hadamard_productnm(x, y);
				break;
			case 3:
				r = alg.division_element_wisenvnm(x, y);
				break;
			case 4:
				r = alg.maxnm(x, y);
				break;
			case 5:
				r = alg.scalar_multiplynm(k, x);
				break;
			case 6:
				r = alg.scalar_addnm(k, x);
				break;
			case 7:
				r = alg.absnm(x);
				break;
			case 8:
				r = alg.exponentiatenm(x, k);
				break;
			case 9:
				r = alg.lognm(x);
				break;
			case 10:
				r = alg.log10nm(x);
				break;
			case 11:
				r = alg.expnm(x);
				break;
			case 12:
				r = alg.sqrtnm(x);
				break;
			case 13:
				r = alg.cbrtnm(x);
				break;
			case 14:
				r = alg.sinnm(x);
				break;
			default:
				r = alg.cosnm(x);
				break;
		}
		cmp(c, r, w, "matrix helper");
		cmp(c, x, a, "operand");
		cmp(c, y, b, "operand");
		for (size_t i = 0; i < a.a.size(); i++) {
			w.a[i] = std::erf(a.a[i]);
		}
		cmp(c, alg.erfnm(x), w, "erfnm");
	} else {
		VM x = mkvm(a), y = mkvm(b), r;
		switch (op) {
			case 0:
				r = alg.additionnvt(x, y);
				break;
			case 3:
				r = alg.division_element_wisenvnvt(x, y);
				break;
			case 4:
				r = alg.maxnvt(x, y);
				break;
			case 5:
				r = alg.scalar_multiplynvt(k, x);
				break;
			case 6:
				r = alg.scalar_addnvt(k, x);
				break;
			case 7:
				r = alg.absnvt(x);
				break;
			case 8:
				r = alg.exponentiatenvt(x, k);
				break;
			case 12:
				r = alg.sqrtnvt(x);
				break;
			default: {
				VM t = alg.resizencvt(x), u;
				alg.resizevt(u, x);
				c.check(t.size() == a.z && u.size() == a.z, "resize of a list of matrices: %d, %d for %d", t.size(), u.size(), a.z);
				for (int i = 0; i < a.z; i++) {
					c.check(t[i]->size() == Size2i(a.x, a.y) && u[i]->size() == Size2i(a.x, a.y), "resize of a list of matrices: shape of %d", i);
				}
				return;
			}
		}
		cmpvm(c, r, w, "matrix list helper");
		if (op != 5 && op != 6) {
			cmpvm(c, x, a, "operand");
			cmpvm(c, y, b, "operand");
		}
		if (op == 3) {
			alg.division_element_wisevt(x, y);
		}
	}
	c.no_errors("helper");
}

// ---------------------------------------------------------------- C05
template <class T>
static void unchanged(vt::Ctx &c, const Ref<T> &r, const Box &a, const char *what, const char *op) {
	Box g = read(r);
	c.check(g.same_shape(a) && g.a == a.a, "%s with %s changed its receiver", op, what);
}

template <class T>
static void misuse_ops(vt::Src &s, vt::Ctx &c) {
	Box a = gen_box(s, (T *)nullptr);
	if (a.x == 0) {
		a.x = 2;
	}
	fill(s, a, 8, true);
	Box b = a;
	do {
		b = gen_box(s, (T *)nullptr);
		if (s.pos > 4000) {
			c.discard();
		}
	} while (b.same_shape(a));
	fill(s, b, 8, true);
	Ref<T> ra = make(a, (T *)nullptr), rb = make(b, (T *)nullptr), null;
	bool use_null = s.flag();
	Ref<T> bad = use_null ? null : rb;
	const char *what = use_null ? "a null operand" : "an operand of another shape";
	int k = (int)s.draw(3);
	c.errors();
	c.nt();
	if (k == 0 || !use_null) {
		auto ops = Ops<T>::bin();
		const Bin<T> &op = s.pick(ops);
		c.note("%s %s a(%d,%d,%d) b(%d,%d,%d)", op.name, what, a.x, a.y, a.z, b.x, b.y, b.z);
		(ra.ptr()->*op.in)(bad);
		c.check(c.errors() > 0, "%s with %s reported nothing", op.name, what);
		unchanged(c, ra, a, what, op.name);
		Ref<T> r = (ra.ptr()->*op.n)(bad);
		c.check(c.errors() > 0, "%sn with %s reported nothing", op.name, what);
		c.check(!r.is_valid(), "%sn with %s returned a result", op.name, what);
		Ref<T> out = make(a, (T *)nullptr);
		(out.ptr()->*op.b)(ra, bad);
		c.check(c.errors() > 0, "%sb with %s reported nothing", op.name, what);
		unchanged(c, out, a, what, op.name);
		(out.ptr()->*op.b)(bad, ra);
		c.check(c.errors() > 0, "%sb with %s first reported nothing", op.name, what);
		unchanged(c, out, a, what, op.name);
		unchanged(c, ra, a, what, op.name);
	} else if (k == 1) {
		auto ops = Ops<T>::un();
		const Un<T> &op = s.pick(ops);
		c.note("%s null", op.name);
		(ra.ptr()->*op.b)(null);
		c.check(c.errors() > 0, "%sb with a null operand reported nothing", op.name);
		unchanged(c, ra, a, what, op.name);
	} else {
		auto ops = Ops<T>::sc();
		const Sc<T> &op = s.pick(ops);
		c.note("%s null", op.name);
		if (op.b) {
			(ra.ptr()->*op.b)(2, null);
		} else {
			(ra.ptr()->*op.b2)(null, 2);
		}
		c.check(c.errors() > 0, "%sb with a null operand reported nothing", op.name);
		unchanged(c, ra, a, what, op.name);
	}
}
VT_PROP(C05, misuse_vector_ops, 15000) { misuse_ops<MLPPVector>(s, c); }
VT_PROP(C05, misuse_matrix_ops, 15000) { misuse_ops<MLPPMatrix>(s, c); }
VT_PROP(C05, misuse_tensor_ops, 15000) { misuse_ops<MLPPTensor3>(s, c); }

#define REFUSED(RECV, WHAT, CALL)                                                 \
	do {                                                                          \
		CALL;                                                                     \
		c.check(c.errors() > 0, "%s reported nothing", WHAT);                     \
		unchanged(c, RECV, a, "bad arguments", WHAT);                             \
	} while (0)

// an index outside [0, n)
static int bad_index(vt::Src &s, int n) {
	switch (s.draw(4)) {
		case 0:
			return n;
		case 1:
			return -1;
		case 2:
			return n + (int)s.range(1, 1000);
		default:
			return -(int)s.range(2, 1000);
	}
}

VT_PROP(C05, misuse_vector_access, 20000) {
	Box a;
	a.x = (int)s.range(0, 6);
	fill(s, a, 8, false);
	Ref<MLPPVector> v = mkv(a.a), null, other;
	int n = a.x;
	int i = bad_index(s, n);
	int len = n;
	while (len == n) {
		len = (int)s.range(0, 8);
	}
	other = mkv(DV(len, 1.0));
	c.errors();
	c.note("size %d index %d other %d", n, i, len);
	c.nt();
	switch (s.draw(10)) {
		case 0: {
			real_t r = v->element_get(i);
			c.check(r == 0 && c.errors() > 0, "element_get out of range returned %g silently", r);
		} break;
		case 1:
			REFUSED(v, "element_set out of range", v->element_set(i, 5));
			break;
		case 2:
			REFUSED(v, "remove out of range", v->remove(i));
			break;
		case 3:
			REFUSED(v, "remove_unordered out of range", v->remove_unordered(i));
			break;
		case 4:
			REFUSED(v, "insert out of range", v->insert(i == n ? n + 1 : i, 5));
			break;
		case 5:
			REFUSED(v, "append null", v->append_mlpp_vector(null));
			REFUSED(v, "set from null", v->set_from_mlpp_vector(null));
			break;
		case 6:
			c.check(v->dot(null) == 0 && c.errors() > 0, "dot with null");
			c.check(v->dot(other) == 0 && c.errors() > 0, "dot of different sizes");
			break;
		case 7:
			c.check(!v->is_equal_approx(other), "vectors of different sizes compare equal");
			c.check(!v->is_equal_approx(null) && c.errors() > 0, "comparison with null");
			break;
		case 8: {
			c.check(v->euclidean_distance(null) == 0 && c.errors() > 0, "euclidean_distance to null");
			c.check(v->euclidean_distance(other) == 0 && c.errors() > 0, "euclidean_distance of different sizes");
			c.check(v->euclidean_distance_squared(null) == 0 && c.errors() > 0, "euclidean_distance_squared to null");
			c.check(v->euclidean_distance_squared(other) == 0 && c.errors() > 0, "euclidean_distance_squared of different sizes");
		} break;
		default: {
			if (n == 3) {
				c.check(!v->cross(other).is_valid() && c.errors() > 0, "cross product outside three dimensions");
			} else {
				c.check(!v->cross(mkv(a.a)).is_valid() && c.errors() > 0, "cross product outside three dimensions");
			}
			c.check(!v->cross(null).is_valid() && c.errors() > 0, "cross product with null");
			c.check(!v->outer_product(null).is_valid() && c.errors() > 0, "outer product with null");
		} break;
	}
	unchanged(c, v, a, "bad arguments", "the call");
}

VT_PROP(C05, misuse_matrix_access, 30000) {
	Box a;
	a.x = (int)s.range(1, 5);
	a.y = (int)s.range(1, 5);
	fill(s, a, 8, false);
	Ref<MLPPMatrix> m = make(a, (MLPPMatrix *)nullptr), null;
	Ref<MLPPVector> nullv;
	int iy = bad_index(s, a.y), ix = bad_index(s, a.x);
	int gy = (int)s.draw(a.y), gx = (int)s.draw(a.x);
	int w = a.x;
	while (w == a.x) {
		w = (int)s.range(1, 8);
	}
	Ref<MLPPVector> good = mkv(DV(a.x, 1.0)), bad = mkv(DV(w, 1.0));
	Vector<real_t> gv, bv;
	PoolRealArray gp, bp;
	for (int i = 0; i < a.x; i++) {
		gv.push_back(1);
		gp.push_back(1);
	}
	for (int i = 0; i < w; i++) {
		bv.push_back(1);
		bp.push_back(1);
	}
	std::vector<real_t> gs(a.x, 1), bs(w, 1);
	Ref<MLPPMatrix> o;
	c.errors();
	c.note("%dx%d bad row %d bad col %d width %d", a.y, a.x, iy, ix, w);
	c.nt();
	switch (s.draw(16)) {
		case 0:
			c.check(m->element_get(iy, gx) == 0 && c.errors() > 0, "element_get bad row");
			c.check(m->element_get(gy, ix) == 0 && c.errors() > 0, "element_get bad column");
			c.check(m->element_get_index(bad_index(s, a.x * a.y)) == 0 && c.errors() > 0, "element_get_index");
			break;
		case 1:
			REFUSED(m, "element_set bad row", m->element_set(iy, gx, 9));
			REFUSED(m, "element_set bad column", m->element_set(gy, ix, 9));
			REFUSED(m, "element_set_index", m->element_set_index(bad_index(s, a.x * a.y), 9));
			break;
		case 2:
			REFUSED(m, "row_remove", m->row_remove(iy));
			REFUSED(m, "row_remove_unordered", m->row_remove_unordered(iy));
			break;
		case 3:
			REFUSED(m, "row_swap first", m->row_swap(iy, gy));
			REFUSED(m, "row_swap second", m->row_swap(gy, iy));
			break;
		case 4:
			REFUSED(m, "row_add of another width", m->row_add(bv));
			REFUSED(m, "row_add_pool_vector of another width", m->row_add_pool_vector(bp));
			REFUSED(m, "row_add_mlpp_vector of another width", m->row_add_mlpp_vector(bad));
			REFUSED(m, "row_add_mlpp_vector null", m->row_add_mlpp_vector(nullv));
			break;
		case 5: {
			Box q;
			q.x = w;
			q.y = 2;
			fill(s, q, 1, false);
			REFUSED(m, "rows_add_mlpp_matrix of another width", m->rows_add_mlpp_matrix(make(q, (MLPPMatrix *)nullptr)));
			REFUSED(m, "rows_add_mlpp_matrix null", m->rows_add_mlpp_matrix(null));
		} break;
		case 6:
			c.check(m->row_get_vector(iy).size() == 0 && c.errors() > 0, "row_get_vector");
			c.check(m->row_get_pool_vector(iy).size() == 0 && c.errors() > 0, "row_get_pool_vector");
			c.check(!m->row_get_mlpp_vector(iy).is_valid() && c.errors() > 0, "row_get_mlpp_vector");
			m->row_get_into_mlpp_vector(iy, bad);
			c.check(c.errors() > 0 && bad->size() == w, "row_get_into_mlpp_vector");
			m->row_get_into_mlpp_vector(gy, nullv);
			c.check(c.errors() > 0, "row_get_into_mlpp_vector null");
			break;
		case 7:
			REFUSED(m, "row_set_vector bad row", m->row_set_vector(iy, gv));
			REFUSED(m, "row_set_vector bad width", m->row_set_vector(gy, bv));
			REFUSED(m, "row_set_pool_vector bad row", m->row_set_pool_vector(iy, gp));
			REFUSED(m, "row_set_pool_vector bad width", m->row_set_pool_vector(gy, bp));
			REFUSED(m, "row_set_mlpp_vector bad row", m->row_set_mlpp_vector(iy, good));
			REFUSED(m, "row_set_mlpp_vector bad width", m->row_set_mlpp_vector(gy, bad));
			REFUSED(m, "row_set_mlpp_vector null", m->row_set_mlpp_vector(gy, nullv));
			REFUSED(m, "set_row_std_vector bad row", m->set_row_std_vector(iy, gs));
			REFUSED(m, "set_row_std_vector bad width", m->set_row_std_vector(gy, bs));
			break;
		case 8: // products need matching inner sizes
		{
			Box q;
			q.x = (int)s.range(1, 4);
			q.y = w;
			fill(s, q, 1, false);
			Ref<MLPPMatrix> Q = make(q, (MLPPMatrix *)nullptr);
			REFUSED(m, "mult", m->mult(Q));
			REFUSED(m, "mult null", m->mult(null));
			c.check(!m->multn(Q).is_valid() && c.errors() > 0, "multn");
			c.check(!m->multn(null).is_valid() && c.errors() > 0, "multn null");
			Ref<MLPPMatrix> r = make(a, (MLPPMatrix *)nullptr);
			REFUSED(r, "multb", r->multb(m, Q));
			REFUSED(r, "multb null", r->multb(m, null));
			REFUSED(r, "multb null", r->multb(null, m));
			MLPPLinAlg alg;
			c.check(!alg.matmultnm(m, Q).is_valid() && c.errors() > 0, "matmultnm");
		} break;
		case 9:
			c.check(!m->mult_vec(bad).is_valid() && c.errors() > 0, "mult_vec with a vector of size %d for %d columns", w, a.x);
			c.check(!m->mult_vec(nullv).is_valid() && c.errors() > 0, "mult_vec null");
			REFUSED(m, "add_vec", m->add_vec(bad));
			REFUSED(m, "add_vec null", m->add_vec(nullv));
			c.check(!m->add_vecn(bad).is_valid() && c.errors() > 0, "add_vecn");
			REFUSED(m, "add_vecb", m->add_vecb(m, bad));
			break;
		case 10:
			if (a.x != a.y) {
				MLPPLinAlg alg;
				c.check(!m->inverse().is_valid() && c.errors() > 0, "inverse of a %dx%d matrix", a.y, a.x);
				c.check(!alg.inversenm(m).is_valid() && c.errors() > 0, "inversenm of a %dx%d matrix", a.y, a.x);
				c.check(!m->adjoint().is_valid() && c.errors() > 0, "adjoint of a %dx%d matrix", a.y, a.x);
				c.check(!m->solve(mkv(DV(a.y, 1.0))).is_valid() && c.errors() > 0, "solve with a %dx%d matrix", a.y, a.x);
			} else {
				c.check(!m->solve(bad).is_valid() && c.errors() > 0, "solve for a vector of size %d with %d rows", w, a.y);
				c.check(!m->solve(nullv).is_valid() && c.errors() > 0, "solve null");
			}
			REFUSED(m, "set_from_mlpp_matrix null", m->set_from_mlpp_matrix(null));
			REFUSED(m, "set_from_ptr null", m->set_from_ptr(nullptr, 2, 2));
			break;
		case 11: {
			c.check(!m->is_equal_approx(null) && c.errors() > 0, "is_equal_approx null");
			REFUSED(m, "transposeb null", m->transposeb(null));
			REFUSED(m, "kronecker_product null", m->kronecker_product(null));
			c.check(!m->kronecker_productn(null).is_valid() && c.errors() > 0, "kronecker_productn null");
			REFUSED(m, "kronecker_productb null", m->kronecker_productb(m, null));
			REFUSED(m, "kronecker_productb null", m->kronecker_productb(null, m));
		} break;
		case 12: {
			REFUSED(m, "outer_product null", m->outer_product(nullv, good));
			REFUSED(m, "outer_product null", m->outer_product(good, nullv));
			c.check(!m->outer_productn(good, nullv).is_valid() && c.errors() > 0, "outer_productn null");
			REFUSED(m, "diagonal_set null", m->diagonal_set(nullv));
			c.check(!m->diagonal_setn(nullv).is_valid() && c.errors() > 0, "diagonal_setn null");
			REFUSED(m, "diagonal_zeroed null", m->diagonal_zeroed(nullv));
			c.check(!m->diagonal_zeroedn(nullv).is_valid() && c.errors() > 0, "diagonal_zeroedn null");
		} break;
		case 13: {
			Ref<Image> ni;
			REFUSED(m, "set_from_image null", m->set_from_image(ni, 0));
			Ref<Image> im;
			im.instance();
			im->create(2, 2, false, Image::FORMAT_RGBA8);
			REFUSED(m, "set_from_image channel", m->set_from_image(im, bad_index(s, 4)));
			m->get_into_image(ni);
			c.check(c.errors() > 0, "get_into_image null");
		} break;
		case 14: {
			m->adjointo(null);
			c.check(c.errors() > 0, "adjointo null");
			m->flatteno(nullv);
			c.check(c.errors() > 0, "flatteno null");
			m->inverseo(null);
			c.check(c.errors() > 0, "inverseo null");
			m->pinverseo(null);
			c.check(c.errors() > 0, "pinverseo null");
			m->covo(null);
			c.check(c.errors() > 0, "covo null");
			m->cofactoro(1, 0, 0, null);
			c.check(c.errors() > 0, "cofactoro null");
		} break;
		default:
			if (a.x != a.y) {
				c.check(m->det() == 0 && c.errors() > 0, "det of a %dx%d matrix", a.y, a.x);
			}
			break;
	}
	unchanged(c, m, a, "bad arguments", "the call");
}

VT_PROP(C05, misuse_tensor_access, 30000) {
	Box a;
	a.x = (int)s.range(1, 4);
	a.y = (int)s.range(1, 4);
	a.z = (int)s.range(1, 4);
	fill(s, a, 8, false);
	Ref<MLPPTensor3> t = make(a, (MLPPTensor3 *)nullptr), null;
	Ref<MLPPVector> nullv;
	Ref<MLPPMatrix> nullm;
	int bx = bad_index(s, a.x), by = bad_index(s, a.y), bz = bad_index(s, a.z);
	int gx = (int)s.draw(a.x), gy = (int)s.draw(a.y), gz = (int)s.draw(a.z);
	c.errors();
	c.note("z%d y%d x%d bad %d %d %d", a.z, a.y, a.x, bz, by, bx);
	c.nt();
	auto vecn = [&](int n) { return mkv(DV(n, 1.0)); };
	auto tv = [&](int n) { Vector<real_t> v; for (int i = 0; i < n; i++) v.push_back(1); return v; };
	auto tp = [&](int n) { PoolRealArray v; for (int i = 0; i < n; i++) v.push_back(1); return v; };
	auto mt = [&](int r, int q) { return mkm(DM(r, q)); };
	int sz = a.x * a.y;
	int wsz = sz + (int)s.range(1, 3);
	switch (s.draw(10)) {
		case 0:
			c.check(t->element_get(bz, gy, gx) == 0 && c.errors() > 0, "element_get bad z");
			c.check(t->element_get(gz, by, gx) == 0 && c.errors() > 0, "element_get bad y");
			c.check(t->element_get(gz, gy, bx) == 0 && c.errors() > 0, "element_get bad x");
			c.check(t->element_get_index(bad_index(s, sz * a.z)) == 0 && c.errors() > 0, "element_get_index");
			break;
		case 1:
			REFUSED(t, "element_set bad z", t->element_set(bz, gy, gx, 9));
			REFUSED(t, "element_set bad y", t->element_set(gz, by, gx, 9));
			REFUSED(t, "element_set bad x", t->element_set(gz, gy, bx, 9));
			REFUSED(t, "element_set_index", t->element_set_index(bad_index(s, sz * a.z), 9));
			break;
		case 2:
			REFUSED(t, "z_slice_add", t->z_slice_add(tv(wsz)));
			REFUSED(t, "z_slice_add_pool_vector", t->z_slice_add_pool_vector(tp(wsz)));
			REFUSED(t, "z_slice_add_mlpp_vector", t->z_slice_add_mlpp_vector(vecn(wsz)));
			REFUSED(t, "z_slice_add_mlpp_vector null", t->z_slice_add_mlpp_vector(nullv));
			REFUSED(t, "z_slice_add_mlpp_matrix", t->z_slice_add_mlpp_matrix(mt(a.y + 1, a.x)));
			REFUSED(t, "z_slice_add_mlpp_matrix null", t->z_slice_add_mlpp_matrix(nullm));
			break;
		case 3:
			REFUSED(t, "z_slice_remove", t->z_slice_remove(bz));
			REFUSED(t, "z_slice_remove_unordered", t->z_slice_remove_unordered(bz));
			REFUSED(t, "z_slice_swap", t->z_slice_swap(bz, gz));
			REFUSED(t, "z_slice_swap", t->z_slice_swap(gz, bz));
			break;
		case 4:
			REFUSED(t, "shape_set to another volume", t->shape_set(Size3i(a.x + 1, a.y, a.z)));
			break;
		case 5:
			c.check(t->row_get_vector(bz, gy).size() == 0 && c.errors() > 0, "row_get_vector z");
			c.check(t->row_get_vector(gz, by).size() == 0 && c.errors() > 0, "row_get_vector y");
			c.check(!t->row_get_mlpp_vector(bz, gy).is_valid() && c.errors() > 0, "row_get_mlpp_vector z");
			c.check(!t->row_get_mlpp_vector(gz, by).is_valid() && c.errors() > 0, "row_get_mlpp_vector y");
			c.check(t->row_get_pool_vector(gz, by).size() == 0 && c.errors() > 0, "row_get_pool_vector");
			t->row_get_into_mlpp_vector(bz, gy, vecn(1));
			c.check(c.errors() > 0, "row_get_into");
			t->row_get_into_mlpp_vector(gz, by, vecn(1));
			c.check(c.errors() > 0, "row_get_into");
			break;
		case 6:
			REFUSED(t, "row_set_vector", t->row_set_vector(bz, gy, tv(a.x)));
			REFUSED(t, "row_set_vector", t->row_set_vector(gz, by, tv(a.x)));
			REFUSED(t, "row_set_vector", t->row_set_vector(gz, gy, tv(a.x + 1)));
			REFUSED(t, "row_set_pool_vector", t->row_set_pool_vector(bz, gy, tp(a.x)));
			REFUSED(t, "row_set_pool_vector", t->row_set_pool_vector(gz, gy, tp(a.x + 1)));
			REFUSED(t, "row_set_mlpp_vector", t->row_set_mlpp_vector(bz, gy, vecn(a.x)));
			REFUSED(t, "row_set_mlpp_vector", t->row_set_mlpp_vector(gz, gy, vecn(a.x + 1)));
			REFUSED(t, "row_set_mlpp_vector null", t->row_set_mlpp_vector(gz, gy, nullv));
			break;
		case 7:
			c.check(t->z_slice_get_vector(bz).size() == 0 && c.errors() > 0, "z_slice_get_vector");
			c.check(t->z_slice_get_pool_vector(bz).size() == 0 && c.errors() > 0, "z_slice_get_pool_vector");
			c.check(!t->z_slice_get_mlpp_vector(bz).is_valid() && c.errors() > 0, "z_slice_get_mlpp_vector");
			c.check(!t->z_slice_get_mlpp_matrix(bz).is_valid() && c.errors() > 0, "z_slice_get_mlpp_matrix");
			c.check(!t->x_slice_get(bx).is_valid() && c.errors() > 0, "x_slice_get");
			c.check(!t->y_slice_get(by).is_valid() && c.errors() > 0, "y_slice_get");
			break;
		case 8:
			REFUSED(t, "z_slice_set_vector", t->z_slice_set_vector(bz, tv(sz)));
			REFUSED(t, "z_slice_set_vector", t->z_slice_set_vector(gz, tv(wsz)));
			REFUSED(t, "z_slice_set_pool_vector", t->z_slice_set_pool_vector(gz, tp(wsz)));
			REFUSED(t, "z_slice_set_mlpp_vector", t->z_slice_set_mlpp_vector(gz, vecn(wsz)));
			REFUSED(t, "z_slice_set_mlpp_vector null", t->z_slice_set_mlpp_vector(gz, nullv));
			REFUSED(t, "z_slice_set_mlpp_matrix", t->z_slice_set_mlpp_matrix(gz, mt(a.y, a.x + 1)));
			REFUSED(t, "z_slice_set_mlpp_matrix null", t->z_slice_set_mlpp_matrix(gz, nullm));
			REFUSED(t, "x_slice_set", t->x_slice_set(bx, mt(a.z, a.y)));
			REFUSED(t, "x_slice_set", t->x_slice_set(gx, mt(a.z + 1, a.y)));
			REFUSED(t, "y_slice_set", t->y_slice_set(by, mt(a.z, a.x)));
			REFUSED(t, "y_slice_set", t->y_slice_set(gy, mt(a.z + 1, a.x)));
			break;
		default: {
			REFUSED(t, "set_from_mlpp_tensor3 null", t->set_from_mlpp_tensor3(null));
			REFUSED(t, "set_from_mlpp_matrix null", t->set_from_mlpp_matrix(nullm));
			c.check(!t->is_equal_approx(null) && c.errors() > 0, "is_equal_approx null");
			Ref<Image> im, ni;
			im.instance();
			im->create(a.x + 1, a.y, false, Image::FORMAT_RGBA8);
			REFUSED(t, "z_slices_add_image of another size", t->z_slices_add_image(im));
			REFUSED(t, "z_slices_add_image null", t->z_slices_add_image(ni));
			REFUSED(t, "z_slice_set_image of another size", t->z_slice_set_image(im, gz));
			REFUSED(t, "set_from_image null", t->set_from_image(ni));
			REFUSED(t, "set_from_image without channels", t->set_from_image(im, 0));
			c.check(!t->z_slice_get_image(bz).is_valid() && c.errors() > 0, "z_slice_get_image");
			c.check(!t->x_slice_get_image(bx).is_valid() && c.errors() > 0, "x_slice_get_image");
			c.check(!t->y_slice_get_image(by).is_valid() && c.errors() > 0, "y_slice_get_image");
		} break;
	}
	unchanged(c, t, a, "bad arguments", "the call");
}
