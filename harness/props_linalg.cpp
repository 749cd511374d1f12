// C06 products and builders, C07 determinant/inverse, C08 factorisations, C09 reductions
#include "core/lin_alg.h"
#include "core/stat.h"
#include "ml.h"

typedef Ref<MLPPMatrix> RM;
typedef Ref<MLPPVector> RV;

static DM ints(vt::Src &s, int r, int c, int mag) {
	DM m(r, c);
	for (auto &x : m.a) {
		x = (double)s.sint(mag);
	}
	return m;
}
static DM eye(int n) {
	DM m(n, n);
	for (int i = 0; i < n; i++) {
		m.at(i, i) = 1;
	}
	return m;
}
static void same(vt::Ctx &c, const RM &got, const DM &want, const char *what) { eqm(c, got, want, 0, 0, what); }
static void same(vt::Ctx &c, const RV &got, const DV &want, const char *what) { eqv(c, got, want, 0, 0, what); }

// ---------------------------------------------------------------- C06
VT_PROP(C06, matrix_product, 20000) {
	int m = s.grown(1, 6, 20), k = s.grown(1, 6, 40), n = s.grown(1, 6, 20);
	bool alias = s.one_in(3);
	if (alias) {
		n = k = m;
	}
	DM A = gen_dm(s, m, k, 4), B = gen_dm(s, k, n, 4);
	note(c, "A", A);
	note(c, "B", B);
	c.nt();
	DM W = A * B, WAA = alias ? A * A : DM();
	double tol = 1e-5 * (A.maxabs() * B.maxabs() * k + 1e-3);
	double tol2 = 1e-5 * (A.maxabs() * A.maxabs() * k + 1e-3);
	RM a = mkm(A), b = mkm(B);
	MLPPLinAlg alg;
	c.errors();
	eqm(c, a->multn(b), W, 0, tol, "multn");
	eqm(c, alg.matmultnm(a, b), W, 0, tol, "matmultnm");
	RM t = mkm(A);
	t->mult(b);
	eqm(c, t, W, 0, tol, "mult");
	RM o = mkm(gen_dm(s, s.size(1, 4), s.size(1, 4), 4));
	o->multb(a, b);
	eqm(c, o, W, 0, tol, "multb");
	same(c, a, A, "left operand");
	same(c, b, B, "right operand");
	if (alias) {
		RM x = mkm(A);
		x->mult(x);
		eqm(c, x, WAA, 0, tol2, "mult by itself");
		x = mkm(A);
		x->multb(x, b);
		eqm(c, x, W, 0, tol, "multb into its left operand");
		x = mkm(B);
		x->multb(a, x);
		eqm(c, x, W, 0, tol, "multb into its right operand");
		eqm(c, a->multn(a), WAA, 0, tol2, "multn by itself");
		int p = (int)s.draw(5);
		DM P = eye(m);
		double mag = 1;
		for (int i = 0; i < p; i++) {
			P = P * A;
			mag *= std::max(1.0, A.maxabs() * m);
		}
		eqm(c, a->matrix_powern(p), P, 0, 1e-5 * mag, "matrix_powern");
		same(c, a, A, "the matrix raised to a power");
	}
	c.no_errors("matrix product");
}

VT_PROP(C06, matrix_vector, 20000) {
	int m = s.grown(1, 6, 40), k = s.grown(1, 6, 40);
	DM A = gen_dm(s, m, k, 6);
	DV b = gen_dv(s, k, 6), u = gen_dv(s, m, 6);
	note(c, "A", A);
	note(c, "b", b);
	note(c, "u", u);
	c.nt();
	RM a = mkm(A);
	RV rb = mkv(b), ru = mkv(u);
	MLPPLinAlg alg;
	c.errors();
	DV w(m), w2 = b;
	DM add(m, k), outer(m, k);
	for (int i = 0; i < m; i++) {
		for (int j = 0; j < k; j++) {
			w[i] += A.at(i, j) * b[j];
			add.at(i, j) = (float)A.at(i, j) + (float)b[j];
			outer.at(i, j) = (float)((float)u[i] * (float)b[j]);
			w2[j] -= A.at(i, j);
		}
	}
	double tol = 1e-5 * (36 * k);
	eqv(c, a->mult_vec(rb), w, 0, tol, "mult_vec");
	eqv(c, alg.mat_vec_multnv(a, rb), w, 0, tol, "mat_vec_multnv");
	RV o = mkv(gen_dv(s, s.size(0, 6)));
	a->mult_veco(rb, o);
	eqv(c, o, w, 0, tol, "mult_veco");
	RM t = mkm(A);
	t->add_vec(rb);
	eqm(c, t, add, 1e-6, 1e-6, "add_vec");
	eqm(c, a->add_vecn(rb), add, 1e-6, 1e-6, "add_vecn");
	t = mkm(gen_dm(s, s.size(1, 4), s.size(1, 4)));
	t->add_vecb(a, rb);
	eqm(c, t, add, 1e-6, 1e-6, "add_vecb");
	eqm(c, alg.mat_vec_addnm(a, rb), add, 1e-6, 1e-6, "mat_vec_addnm");
	eqm(c, ru->outer_product(rb), outer, 1e-6, 1e-6, "vector outer_product");
	eqm(c, a->outer_productn(ru, rb), outer, 1e-6, 1e-6, "outer_productn");
	eqm(c, alg.outer_product(ru, rb), outer, 1e-6, 1e-6, "helper outer_product");
	t = mkm(gen_dm(s, s.size(1, 4), s.size(1, 4)));
	t->outer_product(ru, rb);
	eqm(c, t, outer, 1e-6, 1e-6, "outer_product");
	double tols = 1e-5 * 6 * (m + 1);
	eqv(c, rb->subtract_matrix_rowsn(a), w2, 0, tols, "subtract_matrix_rowsn");
	eqv(c, alg.subtract_matrix_rowsnv(rb, a), w2, 0, tols, "subtract_matrix_rowsnv");
	RV v = mkv(b);
	v->subtract_matrix_rows(a);
	eqv(c, v, w2, 0, tols, "subtract_matrix_rows");
	v = mkv(gen_dv(s, s.size(0, 5)));
	v->subtract_matrix_rowsb(rb, a);
	eqv(c, v, w2, 0, tols, "subtract_matrix_rowsb");
	// tensor times vector: every row of every slice dotted with the vector
	int z = s.size(1, 3);
	Ref<MLPPTensor3> T;
	T.instance();
	T->resize(Size3i(k, m, z));
	DM tw(z, m);
	for (int h = 0; h < z; h++) {
		for (int i = 0; i < m; i++) {
			for (int j = 0; j < k; j++) {
				double x = s.real(4);
				T->element_set(h, i, j, x);
				tw.at(h, i) += x * b[j];
			}
		}
	}
	eqm(c, T->tensor_vec_mult(rb), tw, 0, tol, "tensor_vec_mult");
	same(c, a, A, "matrix operand");
	same(c, rb, b, "vector operand");
	same(c, ru, u, "vector operand");
	c.no_errors("matrix-vector operations");
}

VT_PROP(C06, kronecker_transpose, 15000) {
	DM A = gen_dm(s, s.size(1, 4), s.size(1, 4), 4), B = gen_dm(s, s.size(1, 4), s.size(1, 4), 4);
	note(c, "A", A);
	note(c, "B", B);
	c.nt();
	auto kron = [](const DM &x, const DM &y) {
		DM o(x.r * y.r, x.c * y.c);
		for (int i = 0; i < o.r; i++) {
			for (int j = 0; j < o.c; j++) {
				o.at(i, j) = x.at(i / y.r, j / y.c) * y.at(i % y.r, j % y.c);
			}
		}
		return o;
	};
	MLPPLinAlg alg;
	RM a = mkm(A), b = mkm(B);
	DM K = kron(A, B), KAA = kron(A, A);
	c.errors();
	eqm(c, a->kronecker_productn(b), K, 1e-6, 1e-6, "kronecker_productn");
	eqm(c, alg.kronecker_productnm(a, b), K, 1e-6, 1e-6, "kronecker_productnm");
	RM t = mkm(A);
	t->kronecker_product(b);
	eqm(c, t, K, 1e-6, 1e-6, "kronecker_product");
	t = mkm(gen_dm(s, s.size(1, 4), s.size(1, 4)));
	t->kronecker_productb(a, b);
	eqm(c, t, K, 1e-6, 1e-6, "kronecker_productb");
	t = mkm(A);
	t->kronecker_product(t);
	eqm(c, t, KAA, 1e-6, 1e-6, "kronecker_product with itself");
	t = mkm(A);
	t->kronecker_productb(t, b);
	eqm(c, t, K, 1e-6, 1e-6, "kronecker_productb into its left operand");
	t = mkm(B);
	t->kronecker_productb(a, t);
	eqm(c, t, K, 1e-6, 1e-6, "kronecker_productb into its right operand");
	same(c, a->transposen(), A.t(), "transposen");
	same(c, alg.transposenm(a), A.t(), "transposenm");
	t = mkm(A);
	t->transpose();
	same(c, t, A.t(), "transpose");
	t = mkm(B);
	t->transposeb(a);
	same(c, t, A.t(), "transposeb");
	t = mkm(A);
	t->transposeb(t);
	same(c, t, A.t(), "transposeb of itself");
	eqm(c, alg.gram_matrix(a), A.t() * A, 0, 1e-5 * 16 * A.r, "gram_matrix");
	double tr = 0;
	for (int i = 0; i < std::min(A.r, A.c); i++) {
		tr += A.at(i, i);
	}
	c.near(a->trace(), tr, 1e-4, "trace");
	// flattening
	same(c, a->flatten(), A.a, "flatten");
	RV o = mkv(gen_dv(s, s.size(0, 5)));
	a->flatteno(o);
	same(c, o, A.a, "flatteno");
	same(c, alg.flattenvvnv(a), A.a, "flattenvvnv");
	Vector<Ref<MLPPVector>> list;
	DV cat;
	for (int i = 0, n = s.size(0, 4); i < n; i++) {
		DV x = gen_dv(s, s.size(0, 4));
		list.push_back(mkv(x));
		cat.insert(cat.end(), x.begin(), x.end());
	}
	same(c, alg.flattenmnv(list), cat, "flattenmnv");
	RV f = mkv(gen_dv(s, s.size(0, 5)));
	same(c, f->flatten_vectorsn(list), cat, "flatten_vectorsn");
	f->flatten_vectors(list);
	same(c, f, cat, "flatten_vectors");
	// cofactor: the matrix without one row and one column
	int n = s.size(2, 5);
	DM S = ints(s, n, n, 6);
	int di = (int)s.draw(n), dj = (int)s.draw(n);
	c.note("cofactor n=%d i=%d j=%d", n, di, dj);
	RM rs = mkm(S), co = mkm(gen_dm(s, s.size(1, 3), s.size(1, 3)));
	rs->cofactoro(n, di, dj, co);
	RM cs[3] = { rs->cofactor(n, di, dj), alg.cofactornm(rs, n, di, dj), co };
	for (int q = 0; q < 3; q++) {
		for (int i = 0; i < n - 1; i++) {
			for (int j = 0; j < n - 1; j++) {
				c.near(cs[q]->element_get(i, j), S.at(i + (i >= di), j + (j >= dj)), 0, "cofactor form %d element (%d,%d)", q, i, j);
			}
		}
	}
	same(c, rs, S, "cofactor operand");
	same(c, a, A, "operand");
	same(c, b, B, "operand");
	c.no_errors("kronecker, transpose, flatten, cofactor");
}

VT_PROP(C06, builders, 15000) {
	int n = s.grown(1, 6, 20), m = s.grown(1, 6, 20), k = (int)s.sint(9);
	c.note("n=%d m=%d k=%d", n, m, k);
	c.nt();
	MLPPLinAlg alg;
	RM z = mkm(gen_dm(s, n, m));
	DM Z = dm(z);
	DM zero(n, m), one(n, m), full(n, m), E(n, m);
	for (auto &x : one.a) {
		x = 1;
	}
	for (auto &x : full.a) {
		x = k;
	}
	for (int i = 0; i < std::min(n, m); i++) {
		E.at(i, i) = 1;
	}
	c.errors();
	same(c, z->matn_zero(n, m), zero, "matn_zero");
	same(c, z->matn_one(n, m), one, "matn_one");
	same(c, z->matn_full(n, m, k), full, "matn_full");
	same(c, alg.zeromatnm(n, m), zero, "zeromatnm");
	same(c, alg.onematnm(n, m), one, "onematnm");
	same(c, alg.fullnm(n, m, k), full, "fullnm");
	same(c, z->identityn(), E, "identityn");
	same(c, z->identity_mat(n), eye(n), "identity_mat");
	same(c, MLPPMatrix::create_identity_mat(n), eye(n), "create_identity_mat");
	same(c, alg.identitym(n), eye(n), "identitym");
	same(c, z, Z, "matrix used as a factory");
	RM id = mkm(Z);
	id->identity();
	same(c, id, E, "identity");
	RV v = mkv(gen_dv(s, n));
	DV V = dv(v), vz(m, 0), vo(m, 1), vf(m, k);
	same(c, v->vecn_zero(m), vz, "vecn_zero");
	same(c, v->vecn_one(m), vo, "vecn_one");
	same(c, v->vecn_full(m, k), vf, "vecn_full");
	same(c, MLPPVector::create_vec_zero(m), vz, "create_vec_zero");
	same(c, MLPPVector::create_vec_one(m), vo, "create_vec_one");
	same(c, MLPPVector::create_vec_full(m, k), vf, "create_vec_full");
	same(c, alg.zerovecnv(m), vz, "zerovecnv");
	same(c, alg.onevecnv(m), vo, "onevecnv");
	same(c, alg.fullnv(m, k), vf, "fullnv");
	DM D(n, n);
	for (int i = 0; i < n; i++) {
		D.at(i, i) = V[i];
	}
	same(c, v->diagnm(), D, "diagnm");
	same(c, alg.diagnm(v), D, "helper diagnm");
	int p = s.size(0, 7);
	DV d = gen_dv(s, p);
	RV rd = mkv(d);
	DM ds = Z, dz(n, m);
	for (int i = 0; i < std::min(std::min(n, m), p); i++) {
		ds.at(i, i) = d[i];
		dz.at(i, i) = d[i];
	}
	same(c, z->diagonal_setn(rd), ds, "diagonal_setn");
	same(c, z->diagonal_zeroedn(rd), dz, "diagonal_zeroedn");
	same(c, z, Z, "operand");
	RM t = mkm(Z);
	t->diagonal_set(rd);
	same(c, t, ds, "diagonal_set");
	t = mkm(Z);
	t->diagonal_zeroed(rd);
	same(c, t, dz, "diagonal_zeroed");
	same(c, v, V, "vector operand");
	// cross product
	DV x = gen_dv(s, 3), y = gen_dv(s, 3);
	DV cr = { x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0] };
	eqv(c, mkv(x)->cross(mkv(y)), cr, 0, 1e-4, "cross");
	// rotations
	int axis = (int)s.range(-1, 2);
	float th = s.real(7);
	double co = std::cos((double)th), si = std::sin((double)th);
	int q = axis < 0 ? 2 : 3;
	DM R = eye(q);
	int a0 = axis < 0 ? 0 : (axis == 0 ? 1 : (axis == 1 ? 2 : 0));
	int a1 = axis < 0 ? 1 : (axis == 0 ? 2 : (axis == 1 ? 0 : 1));
	R.at(a0, a0) = co;
	R.at(a1, a1) = co;
	R.at(a0, a1) = -si;
	R.at(a1, a0) = si;
	c.note("axis %d theta %g", axis, th);
	eqm(c, z->create_rotation_matrix(th, axis), R, 0, 2e-6, "create_rotation_matrix");
	DM P = gen_dm(s, s.size(1, 4), q);
	note(c, "P", P);
	DM PR = P * R;
	RM rp = mkm(P);
	eqm(c, rp->rotaten(th, axis), PR, 0, 1e-4, "rotaten");
	same(c, rp, P, "operand of rotaten");
	RM ro = mkm(gen_dm(s, s.size(1, 3), s.size(1, 3)));
	ro->rotateb(rp, th, axis);
	eqm(c, ro, PR, 0, 1e-4, "rotateb");
	rp->rotate(th, axis);
	eqm(c, rp, PR, 0, 1e-4, "rotate");
	c.no_errors("builders");
}

// ---------------------------------------------------------------- C07
static double det_ref(const DM &A) {
	std::vector<int> p(A.r);
	for (int i = 0; i < A.r; i++) {
		p[i] = i;
	}
	double d = 0;
	do {
		double t = 1;
		int inv = 0;
		for (int i = 0; i < A.r; i++) {
			t *= A.at(i, p[i]);
			for (int j = 0; j < i; j++) {
				inv += p[j] > p[i];
			}
		}
		d += inv % 2 ? -t : t;
	} while (std::next_permutation(p.begin(), p.end()));
	return d;
}

// rows of a strongly diagonally dominant matrix, shuffled, with random signs
static DM well_conditioned(vt::Src &s, int n) {
	DM A = gen_dm(s, n, n, 1);
	for (int i = 0; i < n; i++) {
		A.at(i, i) = (s.flag() ? -1 : 1) * (n + s.real_in(0.5f, 2));
	}
	for (int i = n - 1; i > 0; i--) {
		int j = i - (int)s.draw(i + 1);
		for (int k = 0; k < n; k++) {
			std::swap(A.at(i, k), A.at(j, k));
		}
	}
	return A;
}

VT_PROP(C07, determinant, 15000) {
	int n = (int)s.range(1, 5);
	bool exact = s.flag();
	DM A = exact ? ints(s, n, n, 4) : gen_dm(s, n, n, 3);
	note(c, "A", A);
	c.nt(n > 1);
	RM a = mkm(A);
	MLPPLinAlg alg;
	double d = det_ref(A);
	double tol = exact ? 0.5 : 1e-5 * std::pow(3.0 * n, n) + 1e-5;
	c.errors();
	c.near(a->det(), d, tol, "det");
	c.near(a->det(n), d, tol, "det(n)");
	c.near(a->detb(a, n), d, tol, "detb");
	c.near(alg.detm(a, n), d, tol, "detm");
	DM D = eye(n);
	for (auto &x : D.a) {
		x *= d;
	}
	RM o = mkm(gen_dm(s, s.size(1, 4), s.size(1, 4)));
	a->adjointo(o);
	RM ad[3] = { a->adjoint(), alg.adjointnm(a), o };
	for (int q = 0; q < 3; q++) {
		DM adj = dm(ad[q]);
		c.check(adj.r == n && adj.c == n, "adjoint form %d is %dx%d", q, adj.r, adj.c);
		eqm(c, mkm(A * adj), D, 0, exact ? 0.5 : 1e-5 * std::pow(3.0 * n, n) + 1e-5, "A adj(A)");
		eqm(c, mkm(adj * A), D, 0, exact ? 0.5 : 1e-5 * std::pow(3.0 * n, n) + 1e-5, "adj(A) A");
		if (n > 1 && d == 0) { // singular: compare the cofactors themselves
			for (int i = 0; i < n; i++) {
				for (int j = 0; j < n; j++) {
					DM sub(n - 1, n - 1);
					for (int x = 0; x < n - 1; x++) {
						for (int y = 0; y < n - 1; y++) {
							sub.at(x, y) = A.at(x + (x >= i), y + (y >= j));
						}
					}
					c.near(adj.at(j, i), ((i + j) % 2 ? -1 : 1) * det_ref(sub), tol, "adjoint (%d,%d)", j, i);
				}
			}
		}
	}
	same(c, a, A, "operand");
	c.no_errors("determinant");
}

VT_PROP(C07, inverse_solve, 15000) {
	int n = (int)s.range(1, 5);
	DM A = well_conditioned(s, n);
	DV b = gen_dv(s, n, 5);
	int p = (int)s.draw(4);
	note(c, "A", A);
	note(c, "b", b);
	c.nt();
	RM a = mkm(A);
	MLPPLinAlg alg;
	c.errors();
	DM I = eye(n);
	RM o = mkm(gen_dm(s, s.size(1, 4), s.size(1, 4)));
	a->inverseo(o);
	RM in[3] = { a->inverse(), alg.inversenm(a), o };
	for (int q = 0; q < 3; q++) {
		c.check(in[q].is_valid() && in[q]->size() == Size2i(n, n), "inverse form %d: shape", q);
		eqm(c, mkm(A * dm(in[q])), I, 0, 2e-4, "A inverse(A)");
		eqm(c, mkm(dm(in[q]) * A), I, 0, 2e-4, "inverse(A) A");
	}
	RV rb = mkv(b);
	RV xs[2] = { a->solve(rb), alg.solve(a, rb) };
	for (int q = 0; q < 2; q++) {
		c.check(xs[q].is_valid() && xs[q]->size() == n, "solve form %d: shape", q);
		DV x = dv(xs[q]);
		for (int i = 0; i < n; i++) {
			double t = 0;
			for (int j = 0; j < n; j++) {
				t += A.at(i, j) * x[j];
			}
			c.near(t, b[i], 3e-3, "solve form %d: row %d of A x", q, i);
		}
	}
	DM P = I;
	for (int i = 0; i < p; i++) {
		P = P * A;
	}
	RM np = a->matrix_powern(-p);
	c.check(np->size() == Size2i(n, n), "negative power: shape");
	DM inv1 = dm(a->inverse()), want = I;
	for (int i = 0; i < p; i++) {
		want = want * inv1;
	}
	eqm(c, np, want, 1e-4, 1e-5, "negative power");
	same(c, a, A, "operand");
	same(c, rb, b, "operand");
	c.no_errors("inverse");
}

VT_PROP(C07, pseudo_inverse, 10000) {
	int n = (int)s.range(1, 4), m = n + (int)s.draw(3);
	DM W = well_conditioned(s, n), A(m, n);
	std::vector<int> perm(m);
	for (int i = 0; i < m; i++) {
		perm[i] = i;
	}
	for (int i = m - 1; i > 0; i--) {
		std::swap(perm[i], perm[i - (int)s.draw(i + 1)]);
	}
	for (int i = 0; i < m; i++) {
		for (int j = 0; j < n; j++) {
			A.at(perm[i], j) = i < n ? W.at(i, j) : s.real(1);
		}
	}
	note(c, "A", A);
	c.nt();
	RM a = mkm(A), o = mkm(gen_dm(s, s.size(1, 3), s.size(1, 3)));
	MLPPLinAlg alg;
	c.errors();
	a->pinverseo(o);
	RM ps[3] = { a->pinverse(), alg.pinversenm(a), o };
	for (int q = 0; q < 3; q++) {
		c.check(ps[q].is_valid() && ps[q]->size() == Size2i(m, n), "pseudo-inverse form %d: shape", q);
		DM P = dm(ps[q]);
		DM AP = A * P, PA = P * A;
		double mx = A.maxabs();
		eqm(c, mkm(PA), eye(n), 0, 3e-3, "P A");
		eqm(c, mkm(AP * A), A, 0, 3e-3 * mx, "A P A = A");
		eqm(c, mkm(PA * P), P, 0, 3e-3, "P A P = P");
		eqm(c, mkm(AP.t()), AP, 0, 3e-3, "A P symmetric");
	}
	same(c, a, A, "operand");
	c.no_errors("pseudo-inverse");
}

// ---------------------------------------------------------------- C08
// eigenvalues (descending) of a symmetric matrix, by Jacobi in double
static DV eig_ref(DM A) {
	int n = A.r;
	for (int sweep = 0; sweep < 60; sweep++) {
		double off = 0;
		for (int i = 0; i < n; i++) {
			for (int j = i + 1; j < n; j++) {
				off += A.at(i, j) * A.at(i, j);
				if (A.at(i, j) == 0) {
					continue;
				}
				double th = 0.5 * std::atan2(2 * A.at(i, j), A.at(i, i) - A.at(j, j));
				double co = std::cos(th), si = std::sin(th);
				for (int k = 0; k < n; k++) {
					double x = A.at(k, i), y = A.at(k, j);
					A.at(k, i) = co * x + si * y;
					A.at(k, j) = -si * x + co * y;
				}
				for (int k = 0; k < n; k++) {
					double x = A.at(i, k), y = A.at(j, k);
					A.at(i, k) = co * x + si * y;
					A.at(j, k) = -si * x + co * y;
				}
			}
		}
		if (off < 1e-26) {
			break;
		}
	}
	DV l(n);
	for (int i = 0; i < n; i++) {
		l[i] = A.at(i, i);
	}
	std::sort(l.rbegin(), l.rend());
	return l;
}
static DM sym(vt::Src &s, int n) {
	DM A(n, n);
	int kind = (int)s.draw(3);
	for (int i = 0; i < n; i++) {
		for (int j = 0; j <= i; j++) {
			double v = kind == 0 ? (double)s.sint(3) : (kind == 1 ? s.real(4) : (s.one_in(2) ? (double)s.sint(2) : 0.0));
			A.at(i, j) = A.at(j, i) = v;
		}
	}
	return A;
}
static bool diagonal(const DM &A) {
	for (int i = 0; i < A.r; i++) {
		for (int j = 0; j < A.c; j++) {
			if (i != j && A.at(i, j) != 0) {
				return false;
			}
		}
	}
	return true;
}

VT_PROP(C08, eigen_symmetric, 10000) {
	int n = (int)s.range(1, 5);
	DM A = sym(s, n);
	note(c, "A", A);
	c.nt(n > 1 && !diagonal(A));
	RM a = mkm(A);
	MLPPLinAlg alg;
	DV l = eig_ref(A);
	double sc = A.maxabs() * n + 1e-6;
	c.errors();
	auto chk = [&](const RM &vec, const RM &val, const char *f) {
		c.check(vec.is_valid() && val.is_valid(), "%s: no result", f);
		c.check(vec->size() == Size2i(n, n) && val->size() == Size2i(n, n), "%s: shapes", f);
		DM V = dm(vec), L = dm(val);
		for (int i = 0; i < n; i++) {
			for (int j = 0; j < n; j++) {
				if (i != j) {
					c.check(L.at(i, j) == 0, "%s: eigenvalue matrix has %g off the diagonal", f, L.at(i, j));
				}
			}
			c.near(L.at(i, i), l[i], 2e-5 * sc, "%s: eigenvalue %d", f, i);
			if (i) {
				c.check(L.at(i, i) <= L.at(i - 1, i - 1), "%s: eigenvalues not descending at %d", f, i);
			}
		}
		eqm(c, mkm(V.t() * V), eye(n), 0, 5e-5, "eigenvectors orthonormal");
		eqm(c, mkm(A * V), V * L, 0, 5e-5 * sc, "A V = V L");
	};
	MLPPMatrix::EigenResult r1 = a->eigen(), r2 = mkm(A)->eigenb(a);
	MLPPLinAlg::EigenResult r3 = alg.eigen(a);
	chk(r1.eigen_vectors, r1.eigen_values, "eigen");
	chk(r2.eigen_vectors, r2.eigen_values, "eigenb");
	chk(r3.eigen_vectors, r3.eigen_values, "helper eigen");
	if (s.one_in(4)) { // the same as arrays
		Array l1 = a->eigen_bind(), l2 = mkm(A)->eigenb_bind(a);
		c.check(l1.size() == 2 && l2.size() == 2, "eigenvalues and vectors in arrays of %d and %d", l1.size(), l2.size());
		chk(RM(l1[1]), RM(l1[0]), "eigen_bind");
		chk(RM(l2[1]), RM(l2[0]), "eigenb_bind");
	}
	same(c, a, A, "operand");
	// definiteness agrees with the spectrum when it is clear of zero
	double mn = 1e9;
	bool pos = true, neg = true;
	for (double x : l) {
		mn = std::min(mn, std::fabs(x));
		pos = pos && x > 0;
		neg = neg && x < 0;
	}
	if (mn > 1e-3 * sc) {
		c.check(alg.positive_definite_checker(a) == pos, "positive_definite_checker says %d", !pos);
		c.check(alg.negative_definite_checker(a) == neg, "negative_definite_checker says %d", !neg);
		c.check(!alg.zero_eigenvalue(a), "zero_eigenvalue of a regular matrix");
	}
	// a zero row and column make the matrix exactly singular
	DM Z = A;
	int k = (int)s.draw(n);
	for (int i = 0; i < n; i++) {
		Z.at(i, k) = Z.at(k, i) = 0;
	}
	c.check(alg.zero_eigenvalue(mkm(Z)), "zero_eigenvalue of a matrix with a zero row and column %d", k);
	c.check(!alg.positive_definite_checker(mkm(Z)) && !alg.negative_definite_checker(mkm(Z)), "a singular matrix is called definite");
	c.no_errors("eigen");
}

VT_PROP(C08, svd, 8000) {
	int m = (int)s.range(1, 5), n = (int)s.range(1, 5);
	DM A = s.flag() ? ints(s, m, n, 3) : gen_dm(s, m, n, 3);
	note(c, "A", A);
	DV l = eig_ref(A.t() * A);
	int k = std::min(m, n);
	DV sv(k);
	bool clear = true;
	for (int i = 0; i < k; i++) {
		sv[i] = std::sqrt(std::max(l[i], 0.0));
		double rel = sv[0] > 0 ? sv[i] / sv[0] : 0;
		if (rel > 1e-6 && rel < 0.03) {
			clear = false;
		}
	}
	if (!clear) {
		c.discard();
	}
	c.nt(m * n > 1 && sv[0] > 0);
	RM a = mkm(A);
	MLPPLinAlg alg;
	c.errors();
	auto chk = [&](const RM &U, const RM &S, const RM &Vt, const char *f) {
		c.check(U.is_valid() && S.is_valid() && Vt.is_valid(), "%s: no result", f);
		c.check(U->size() == Size2i(m, m), "%s: U is %dx%d", f, U->size().y, U->size().x);
		c.check(Vt->size() == Size2i(n, n), "%s: Vt is %dx%d", f, Vt->size().y, Vt->size().x);
		c.check(S->size() == Size2i(n, m), "%s: S is %dx%d", f, S->size().y, S->size().x);
		DM u = dm(U), v = dm(Vt), sg = dm(S);
		for (int i = 0; i < m; i++) {
			for (int j = 0; j < n; j++) {
				if (i != j) {
					c.check(sg.at(i, j) == 0, "%s: S has %g off the diagonal", f, sg.at(i, j));
				} else {
					c.near(sg.at(i, i), sv[i], 3e-3 * (sv[0] + 1e-6), "%s: singular value %d", f, i);
					c.check(sg.at(i, i) >= 0, "%s: negative singular value", f);
				}
			}
		}
		eqm(c, mkm(u.t() * u), eye(m), 0, 1e-4, "U orthogonal");
		eqm(c, mkm(v * v.t()), eye(n), 0, 2e-2, "V orthogonal");
		eqm(c, mkm(u * sg * v), A, 0, 6e-3 * (sv[0] + 1e-6), "U S Vt = A");
	};
	MLPPMatrix::SVDResult r1 = a->svd(), r2 = mkm(A)->svdb(a);
	MLPPLinAlg::SVDResult r3 = alg.svd(a);
	chk(r1.U, r1.S, r1.Vt, "svd");
	chk(r2.U, r2.S, r2.Vt, "svdb");
	chk(r3.U, r3.S, r3.Vt, "helper svd");
	if (s.one_in(4)) { // the same as arrays
		Array l1 = a->svd_bind(), l2 = mkm(A)->svdb_bind(a);
		c.check(l1.size() == 3 && l2.size() == 3, "decompositions in arrays of %d and %d", l1.size(), l2.size());
		chk(RM(l1[0]), RM(l1[1]), RM(l1[2]), "svd_bind");
		chk(RM(l2[0]), RM(l2[1]), RM(l2[2]), "svdb_bind");
	}
	same(c, a, A, "operand");
	c.no_errors("svd");
}

VT_PROP(C08, qr_gram_schmidt, 10000) {
	int n = (int)s.range(1, 4), m = n + (int)s.draw(3);
	DM A(m, n);
	DM W = well_conditioned(s, n);
	for (int i = 0; i < m; i++) {
		for (int j = 0; j < n; j++) {
			A.at(i, j) = i < n ? W.at(i, j) : s.real(1);
		}
	}
	int sw = (int)s.draw(m);
	for (int j = 0; j < n; j++) {
		std::swap(A.at(0, j), A.at(sw, j));
	}
	note(c, "A", A);
	c.nt(n > 1);
	RM a = mkm(A);
	MLPPLinAlg alg;
	c.errors();
	RM g = alg.gram_schmidt_process(a);
	MLPPLinAlg::QRDResult qr = alg.qrd(a);
	c.check(g->size() == Size2i(n, m) && qr.Q->size() == Size2i(n, m) && qr.R->size() == Size2i(n, n), "QR: shapes");
	DM G = dm(g), Q = dm(qr.Q), R = dm(qr.R);
	eqm(c, mkm(G.t() * G), eye(n), 0, 1e-4, "Gram-Schmidt columns orthonormal");
	eqm(c, mkm(Q.t() * Q), eye(n), 0, 1e-4, "Q columns orthonormal");
	eqm(c, mkm(Q * R), A, 0, 2e-4 * A.maxabs() * n, "Q R = A");
	eqm(c, mkm(G * (G.t() * A)), A, 0, 2e-4 * A.maxabs() * n, "Gram-Schmidt spans the columns");
	for (int i = 0; i < n; i++) {
		for (int j = 0; j < i; j++) {
			c.near(R.at(i, j), 0, 2e-4 * A.maxabs() * n, "R upper triangular (%d,%d)", i, j);
		}
		c.check(R.at(i, i) > 0, "R has a diagonal element %g", R.at(i, i));
	}
	same(c, a, A, "operand");
	// projection of b onto a
	DV x = gen_dv(s, m), y = gen_dv(s, m);
	double xx = 0, xy = 0;
	for (int i = 0; i < m; i++) {
		xx += x[i] * x[i];
		xy += x[i] * y[i];
	}
	if (xx > 0.1) {
		DV w(m);
		for (int i = 0; i < m; i++) {
			w[i] = x[i] * xy / xx;
		}
		note(c, "x", x);
		note(c, "y", y);
		eqv(c, alg.vector_projection(mkv(x), mkv(y)), w, 1e-4, 1e-3, "vector_projection");
	}
	c.no_errors("QR");
}

VT_PROP(C08, cholesky, 8000) {
	int n = (int)s.range(1, 5);
	DM W = well_conditioned(s, n), A = W * W.t();
	for (auto &x : A.a) {
		x = (float)x;
	}
	note(c, "A", A);
	c.nt(n > 1);
	RM a = mkm(A);
	MLPPLinAlg alg;
	c.errors();
	MLPPLinAlg::CholeskyResult r = alg.cholesky(a);
	c.check(r.L.is_valid() && r.Lt.is_valid() && r.L->size() == Size2i(n, n), "Cholesky: shape");
	DM L = dm(r.L);
	for (int i = 0; i < n; i++) {
		c.check(L.at(i, i) > 0, "Cholesky: diagonal %g", L.at(i, i));
		for (int j = i + 1; j < n; j++) {
			c.check(L.at(i, j) == 0, "Cholesky: factor not lower triangular");
		}
	}
	same(c, r.Lt, L.t(), "Cholesky transpose");
	eqm(c, mkm(L * L.t()), A, 0, 2e-5 * A.maxabs() * n, "L Lt = A");
	c.check(alg.positive_definite_checker(a), "positive_definite_checker denies a positive definite matrix");
	same(c, a, A, "operand");
	c.no_errors("Cholesky");
}

VT_PROP(C08, independence, 8000) {
	int n = (int)s.range(1, 3), m = (int)s.range(1, 5);
	DM A = ints(s, m, n, 3);
	if (n > 1 && s.one_in(3)) { // one column a small multiple of another
		int k = (int)s.range(-1, 1);
		int j = (int)s.draw(n), i = (j + 1) % n;
		for (int r = 0; r < m; r++) {
			A.at(r, i) = k * A.at(r, j);
		}
	}
	note(c, "A", A);
	DM G = A.t() * A;
	bool indep = det_ref(G) != 0;
	c.nt(n > 1);
	MLPPLinAlg alg;
	c.errors();
	c.check(alg.linear_independence_checker(mkm(A)) == indep, "linear_independence_checker says %d for columns of %s rank", !indep, indep ? "full" : "deficient");
	c.no_errors("linear independence");
}

// ---------------------------------------------------------------- C09
VT_PROP(C09, vector_reductions, 20000) {
	int n = s.grown(1, 10, 70);
	DV a = gen_dv(s, n), b = gen_dv(s, n);
	note(c, "a", a);
	note(c, "b", b);
	c.nt(n > 1);
	RV ra = mkv(a), rb = mkv(b);
	MLPPLinAlg alg;
	c.errors();
	double sum = 0, sq = 0, dot = 0, dist = 0, sa = 0, sab = 0, mx = -1e30, mn = 1e30;
	DV vmx(n);
	for (int i = 0; i < n; i++) {
		sum += a[i];
		sa += std::fabs(a[i]);
		sab += std::fabs(a[i] * b[i]);
		sq += a[i] * a[i];
		dot += a[i] * b[i];
		dist += (a[i] - b[i]) * (a[i] - b[i]);
		mx = std::max(mx, a[i]);
		mn = std::min(mn, a[i]);
		vmx[i] = std::max(a[i], b[i]);
	}
	double t = 1e-4, e = 6e-8 * n; // what adding up in single precision may lose
	c.near(ra->sum_elements(), sum, t + e * sa, "sum_elements");
	c.near(alg.sum_elementsv(ra), sum, t + e * sa, "sum_elementsv");
	c.near(ra->norm_sq(), sq, t + (1e-6 + e) * sq, "norm_sq");
	c.near(alg.norm_sqv(ra), sq, t + (1e-6 + e) * sq, "norm_sqv");
	c.near(ra->norm_2(), std::sqrt(sq), t, "norm_2");
	c.near(ra->dot(rb), dot, 5 * t + e * sab, "dot");
	c.near(alg.dotnv(ra, rb), dot, 5 * t + e * sab, "dotnv");
	c.near(ra->dot(ra), sq, 5 * t + e * sq, "dot with itself");
	c.near(ra->euclidean_distance_squared(rb), dist, (1e-5 + e) * (1 + dist), "euclidean_distance_squared");
	c.near(alg.euclidean_distance_squared(ra, rb), dist, (1e-5 + e) * (1 + dist), "helper euclidean_distance_squared");
	c.near(ra->euclidean_distance(rb), std::sqrt(dist), 1e-5 * (1 + dist), "euclidean_distance");
	c.near(alg.euclidean_distance(ra, rb), std::sqrt(dist), 1e-5 * (1 + dist), "helper euclidean_distance");
	c.near(ra->max_element(), mx, 0, "max_element");
	c.near(alg.maxvr(ra), mx, 0, "maxvr");
	c.near(ra->min_element(), mn, 0, "min_element");
	c.near(alg.minvr(ra), mn, 0, "minvr");
	int imx = ra->max_element_index(), imn = ra->min_element_index();
	c.check(imx >= 0 && imx < n && a[imx] == mx, "max_element_index %d", imx);
	c.check(imn >= 0 && imn < n && a[imn] == mn, "min_element_index %d", imn);
	eqv(c, alg.maxnvv(ra, rb), vmx, 0, 0, "maxnvv");
	same(c, ra, a, "operand");
	same(c, rb, b, "operand");
	c.no_errors("vector reductions");
}

VT_PROP(C09, covariance_matrix, 10000) {
	int m = s.grown(1, 5, 20), n = s.grown(2, 6, 20);
	DM A = gen_dm(s, m, n, 6);
	note(c, "A", A);
	c.nt(m > 1 || n > 2);
	DM W(m, m);
	for (int i = 0; i < m; i++) {
		for (int j = 0; j < m; j++) {
			double mi = 0, mj = 0, t = 0;
			for (int k = 0; k < n; k++) {
				mi += A.at(i, k) / n;
				mj += A.at(j, k) / n;
			}
			for (int k = 0; k < n; k++) {
				t += (A.at(i, k) - mi) * (A.at(j, k) - mj);
			}
			W.at(i, j) = t / (n - 1);
		}
	}
	RM a = mkm(A), o = mkm(gen_dm(s, s.size(1, 5), s.size(1, 5)));
	MLPPLinAlg alg;
	c.errors();
	eqm(c, a->cov(), W, 1e-5, 1e-4, "cov");
	a->covo(o);
	eqm(c, o, W, 1e-5, 1e-4, "covo");
	eqm(c, alg.covnm(a), W, 1e-5, 1e-4, "covnm");
	same(c, a, A, "operand");
	c.no_errors("cov");
}

template <class T, class MK>
static void approx_eq(vt::Src &s, vt::Ctx &c, const DV &a, MK mk, const char *f) {
	int i = (int)s.draw(a.size());
	float tol = s.pick({ (float)CMP_EPSILON, 0.01f, 0.5f });
	bool dflt = tol == (float)CMP_EPSILON && s.flag();
	float d = tol * s.pick({ 0.25f, 4.0f, -0.25f, -4.0f, 100.0f });
	DV b = a;
	b[i] = (float)((float)a[i] + d);
	double real_d = std::fabs((float)b[i] - (float)a[i]);
	c.note("%s index %d tolerance %g difference %g", f, i, tol, d);
	auto x = mk(a), y = mk(b), z = mk(a);
	auto eq = [&](const Ref<T> &p, const Ref<T> &q) { return dflt ? p->is_equal_approx(q) : p->is_equal_approx(q, tol); };
	c.check(eq(x, x), "%s: not equal to itself", f);
	c.check(eq(x, z), "%s: not equal to an identical object", f);
	if (real_d < 0.9 * tol) {
		c.check(eq(x, y) && eq(y, x), "%s: a difference of %g is not within %g", f, real_d, tol);
	} else if (real_d > 1.1 * tol) {
		c.nt();
		c.check(!eq(x, y) && !eq(y, x), "%s: a difference of %g counts as within %g", f, real_d, tol);
	}
}
VT_PROP(C09, approximate_equality, 20000) {
	int k = (int)s.draw(3);
	c.errors();
	if (k == 0) {
		DV a = gen_dv(s, s.size(1, 6), 4);
		approx_eq<MLPPVector>(s, c, a, [](const DV &v) { return mkv(v); }, "vector");
		c.check(!mkv(a)->is_equal_approx(mkv(DV(a.size() + 1, a[0]))), "vectors of different sizes are equal");
	} else if (k == 1) {
		int r = s.size(1, 4), q = s.size(1, 4);
		DV a = gen_dv(s, r * q, 4);
		auto mk = [=](const DV &v) { DM m(r, q); m.a = v; return mkm(m); };
		approx_eq<MLPPMatrix>(s, c, a, mk, "matrix");
		if (r != q) {
			DM o(q, r);
			o.a = a;
			c.check(!mk(a)->is_equal_approx(mkm(o)), "matrices of different shape are equal");
		}
	} else {
		int z = s.size(1, 3), y = s.size(1, 3), x = s.size(1, 3);
		DV a = gen_dv(s, x * y * z, 4);
		auto mks = [](int px, int py, int pz, const DV &v) {
			Ref<MLPPTensor3> t;
			t.instance();
			t->resize(Size3i(px, py, pz));
			for (size_t i = 0; i < v.size(); i++) {
				t->element_set_index(i, v[i]);
			}
			return t;
		};
		approx_eq<MLPPTensor3>(s, c, a, [=](const DV &v) { return mks(x, y, z, v); }, "tensor");
		if (x != z) {
			c.check(!mks(x, y, z, a)->is_equal_approx(mks(z, y, x, a)), "tensors of different shape are equal");
		}
	}
	c.no_errors("is_equal_approx");
}
