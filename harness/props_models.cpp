// C24-C29: models without gradient training
#include "ml.h"
#include "modules/bernoulli_nb/bernoulli_nb.h"
#include "modules/gaussian_nb/gaussian_nb.h"
#include "modules/kmeans/kmeans.h"
#include "modules/knn/knn.h"
#include "modules/multinomial_nb/multinomial_nb.h"
#include "modules/outlier_finder/outlier_finder.h"
#include "modules/pca/pca.h"
#include "modules/uni_lin_reg/uni_lin_reg.h"

using vt::Ctx;
using vt::Src;

static DV row(const DM &m, int i) {
	return DV(m.a.begin() + (size_t)i * m.c, m.a.begin() + (size_t)(i + 1) * m.c);
}
static double dist(const DV &a, const DV &b) {
	double t = 0;
	for (size_t i = 0; i < a.size(); i++) {
		t += (a[i] - b[i]) * (a[i] - b[i]);
	}
	return sqrt(t);
}
// rows scattered around a few places, with repeats
static DM gen_points(Src &s, int n, int d) {
	DM m(n, d);
	int centres = (int)s.range(1, 4);
	DM ce = gen_dm(s, centres, d, 10);
	for (int i = 0; i < n; i++) {
		int mode = (int)s.range(0, 5), b = (int)s.range(0, centres - 1), p = i ? (int)s.range(0, i - 1) : -1;
		for (int j = 0; j < d; j++) {
			m.at(i, j) = mode == 5 && p >= 0 ? m.at(p, j) : f32(ce.at(b, j) + s.real(2));
		}
	}
	return m;
}

// ------------------------------------------------------------------------------------ C24 nearest neighbours
// classes that may win for x: every choice among neighbours at (nearly) the same distance is allowed
static std::set<int> knn_ok(const DM &X, const std::vector<int> &y, int k, const DV &x) {
	int n = X.r;
	k = std::min(k, n);
	std::vector<double> d(n), t(n);
	for (int i = 0; i < n; i++) {
		t[i] = d[i] = dist(row(X, i), x);
	}
	std::sort(t.begin(), t.end());
	double D = t[k - 1], eps = 1e-5 * (1 + D);
	std::vector<int> ties;
	std::map<int, int> cnt;
	int sure = 0;
	for (int i = 0; i < n; i++) {
		if (d[i] < D - eps) {
			cnt[y[i]]++;
			sure++;
		} else if (d[i] <= D + eps) {
			ties.push_back(i);
		}
	}
	std::set<int> ok;
	if (ties.size() > 14) {
		throw vt::Discard();
	}
	for (int mask = 0; mask < 1 << ties.size(); mask++) {
		if (__builtin_popcount(mask) != k - sure) {
			continue;
		}
		auto cc = cnt;
		for (size_t j = 0; j < ties.size(); j++) {
			if (mask >> j & 1) {
				cc[y[ties[j]]]++;
			}
		}
		int best = 0;
		for (auto &e : cc) {
			best = std::max(best, e.second);
		}
		for (auto &e : cc) {
			if (e.second == best) {
				ok.insert(e.first);
			}
		}
	}
	return ok;
}

VT_PROP(C24, knn_majority_of_nearest, 4000) {
	int n = s.grown(1, 12, 50), d = s.grown(1, 4, 10), k = (int)s.range(1, s.one_in(5) ? n + 3 : n), q = s.grown(1, 6, 40);
	DM X = gen_points(s, n, d);
	std::vector<int> y(n);
	DV yd(n);
	int base = s.one_in(3) ? -2 : 0, nc = (int)s.range(1, 4);
	for (int i = 0; i < n; i++) {
		y[i] = base + (int)s.range(0, nc - 1);
		yd[i] = y[i];
	}
	DM Q = gen_points(s, q, d);
	if (s.flag()) {
		for (int j = 0; j < d; j++) {
			Q.at(0, j) = X.at(n - 1, j);
		}
	}
	note(c, "X", X);
	note(c, "y", yd);
	note(c, "Q", Q);
	c.note("k=%d", k);
	c.nt(n >= 3 && k >= 2 && nc >= 2);
	Ref<MLPPKNN> m;
	m.instance();
	m->set_input_set(kpm(X));
	m->set_output_set(kpv(yd));
	m->set_k(k);
	PoolIntArray all = m->model_set_test(kpm(Q));
	c.check(all.size() == q, "%d predictions for %d rows", all.size(), q);
	for (int i = 0; i < q; i++) {
		auto ok = knn_ok(X, y, k, row(Q, i));
		int got = m->model_test(kpv(row(Q, i)));
		c.check(ok.count(got), "row %d gets class %d, which is not the most frequent among its %d nearest samples", i, got, k);
		c.check(all[i] == got, "row %d: class %d alone, %d in the set", i, got, (int)all[i]);
	}
	// the same model asked again, with another number of neighbours and for its own samples
	int k2 = (int)s.range(1, n);
	m->set_k(k2);
	PoolIntArray own = m->model_set_test(kpm(X));
	int right = 0;
	for (int i = 0; i < n; i++) {
		auto ok = knn_ok(X, y, k2, row(X, i));
		c.check(ok.count(own[i]), "sample %d gets class %d with k=%d, which is not the most frequent among its nearest samples", i, (int)own[i], k2);
		right += own[i] == y[i];
	}
	c.near(m->score(), right / (double)n, 1e-6, "score");
	c.check(m->get_k() == k2, "k is %d", m->get_k());
	if (s.one_in(3)) { // and with other samples
		int n2 = s.flag() ? n : s.size(k2, k2 + 6);
		DM X2 = gen_points(s, n2, d);
		std::vector<int> y2(n2);
		DV yd2(n2);
		for (int i = 0; i < n2; i++) {
			yd2[i] = y2[i] = base + (int)s.range(0, nc - 1);
		}
		note(c, "X2", X2);
		note(c, "y2", yd2);
		m->set_input_set(kpm(X2));
		m->set_output_set(kpv(yd2));
		PoolIntArray now = m->model_set_test(kpm(Q));
		c.check(now.size() == q, "%d predictions for %d rows", now.size(), q);
		for (int i = 0; i < q; i++) {
			auto ok = knn_ok(X2, y2, k2, row(Q, i));
			c.check(ok.count(now[i]), "with other samples, row %d gets class %d, which is not the most frequent among its %d nearest samples", i, (int)now[i], k2);
		}
	}
	c.no_errors("k nearest neighbours");
}

// ------------------------------------------------------------------------------------ C25 k-means
static int nearest(const DM &mu, const DV &x, double *gap = nullptr) {
	int b = 0;
	double bd = 1e300, second = 1e300;
	for (int j = 0; j < mu.r; j++) {
		double t = dist(row(mu, j), x);
		if (t < bd) {
			second = bd;
			bd = t;
			b = j;
		} else {
			second = std::min(second, t);
		}
	}
	if (gap) {
		*gap = second - bd;
	}
	return b;
}
static bool same_row(const DM &a, int i, const DM &b, int j, double tol = 0) {
	for (int k = 0; k < a.c; k++) {
		if (!(std::fabs(a.at(i, k) - b.at(j, k)) <= tol)) {
			return false;
		}
	}
	return true;
}
// distinct rows in order of appearance
static DM distinct(const DM &m) {
	std::vector<int> keep;
	for (int i = 0; i < m.r; i++) {
		bool dup = false;
		for (int j : keep) {
			dup = dup || same_row(m, i, m, j);
		}
		if (!dup) {
			keep.push_back(i);
		}
	}
	DM o((int)keep.size(), m.c);
	for (int i = 0; i < o.r; i++) {
		for (int j = 0; j < o.c; j++) {
			o.at(i, j) = m.at(keep[i], j);
		}
	}
	return o;
}
struct Lloyd {
	DM mu;
	std::vector<int> cl;
	double cost = 0;
	bool clear = true; // no sample was close to being in another cluster
};
static void assign(const DM &X, Lloyd &l) {
	l.cl.assign(X.r, 0);
	l.cost = 0;
	// duplicates of a centroid are the same cluster as far as anyone can tell
	for (int i = 0; i < X.r; i++) {
		int b = nearest(l.mu, row(X, i));
		double bd = dist(row(l.mu, b), row(X, i));
		for (int j = 0; j < l.mu.r; j++) {
			if (j != b && !same_row(l.mu, j, l.mu, b) && dist(row(l.mu, j), row(X, i)) < bd + 1e-4 * (1 + bd)) {
				l.clear = false;
			}
		}
		l.cl[i] = b;
		l.cost += bd * bd;
	}
}
static Lloyd lloyd(const DM &X, const DM &mu0, int epochs) {
	Lloyd l;
	l.mu = mu0;
	assign(X, l);
	for (int e = 0; e < epochs; e++) {
		for (int j = 0; j < l.mu.r; j++) {
			int n = 0;
			DV t(X.c);
			for (int i = 0; i < X.r; i++) {
				if (l.cl[i] == j) {
					n++;
					for (int k = 0; k < X.c; k++) {
						t[k] += X.at(i, k);
					}
				}
			}
			for (int k = 0; k < X.c && n; k++) {
				l.mu.at(j, k) = t[k] / n;
			}
		}
		assign(X, l);
	}
	return l;
}
static Ref<MLPPKMeans> kmeans(Src &s, const DM &X, int k, bool pp) {
	vt::seed_entropy(s.draw(1 << 20));
	Ref<MLPPKMeans> m;
	m.instance();
	m->set_input_set(kpm(X));
	m->set_k(k);
	m->set_mean_type(pp ? MLPPKMeans::MEAN_TYPE_KMEANSPP : MLPPKMeans::MEAN_TYPE_CENTROID);
	m->initialize();
	return m;
}

VT_PROP(C25, kmeans_initial_centroids, 2000) {
	int n = s.size(1, 10), d = s.size(1, 4), k = (int)s.range(1, 4);
	bool pp = s.flag();
	DM X = gen_points(s, n, d);
	note(c, "X", X);
	c.note("k=%d %s", k, pp ? "k-means++" : "random");
	c.nt(n >= 3 && k >= 2);
	Ref<MLPPKMeans> m = kmeans(s, X, k, pp);
	Ref<MLPPMatrix> p = m->model_set_test(kpm(X));
	c.check(p.is_valid() && p->size() == Size2i(d, n), "no centroid for each sample");
	DM P = dm(p), C = distinct(P);
	c.check(C.r <= k, "%d centroids, k=%d", C.r, k);
	for (int j = 0; j < C.r; j++) {
		bool found = false;
		for (int i = 0; i < n; i++) {
			found = found || same_row(C, j, X, i);
		}
		c.check(found, "centroid %d is not one of the samples", j);
	}
	if (pp) {
		// a random sample first, then always the sample farthest from the centroids so far
		bool ok = false, close = false;
		for (int st = 0; st < n && !ok; st++) {
			std::vector<int> ch = { st };
			while ((int)ch.size() < k) {
				double best = -1, second = -1;
				int b = 0;
				for (int i = 0; i < n; i++) {
					double t = 0;
					for (int q : ch) {
						t += dist(row(X, i), row(X, q));
					}
					if (t > best) {
						if (b < n && !same_row(X, i, X, b)) {
							second = best;
						}
						best = t;
						b = i;
					} else if (!same_row(X, i, X, b)) {
						second = std::max(second, t);
					}
				}
				close = close || second > best - 1e-4 * (1 + best);
				ch.push_back(b);
			}
			DM E((int)ch.size(), d);
			for (int i = 0; i < E.r; i++) {
				for (int j = 0; j < d; j++) {
					E.at(i, j) = X.at(ch[i], j);
				}
			}
			E = distinct(E);
			bool all = E.r == C.r;
			for (int i = 0; i < E.r && all; i++) {
				bool f = false;
				for (int j = 0; j < C.r; j++) {
					f = f || same_row(E, i, C, j);
				}
				all = f;
			}
			ok = all;
		}
		c.check(ok || close, "the centroids are not a sample and then, one by one, the samples farthest from those before");
	}
	// other rows, more or fewer than the samples
	DM Q = gen_points(s, s.grown(1, 14, 40), d);
	p = m->model_set_test(kpm(Q));
	c.check(p.is_valid() && p->size() == Size2i(d, Q.r), "no centroid for each row of %d", Q.r);
	P = dm(p);
	for (int i = 0; i < Q.r; i++) {
		double best = dist(row(C, nearest(C, row(Q, i))), row(Q, i));
		c.near(dist(row(P, i), row(Q, i)), best, 1e-4 * (1 + best), "distance of row %d to its centroid", i);
		DV one = dv(m->model_test(kpv(row(Q, i))));
		c.near(dist(one, row(Q, i)), best, 1e-4 * (1 + best), "distance of row %d alone to its centroid", i);
	}
	c.no_errors("k-means");
}

VT_PROP(C25, kmeans_training, 2000) {
	int n = s.grown(2, 12, 40), d = s.grown(1, 4, 10), k = (int)s.range(1, 4), e1 = (int)s.range(1, 3), e2 = (int)s.range(0, 3);
	bool pp = s.flag();
	DM X = gen_points(s, n, d);
	note(c, "X", X);
	c.note("k=%d epochs=%d+%d", k, e1, e2);
	Ref<MLPPKMeans> m = kmeans(s, X, k, pp);
	DM C = distinct(dm(m->model_set_test(kpm(X))));
	c.nt(C.r >= 2 && n >= 4);
	m->train(e1);
	double cost1 = m->score();
	if (e2) {
		m->train(e2); // goes on from where it was
		c.check(m->score() <= cost1 + 1e-4 * (1 + cost1), "the cost rose from %g to %g", cost1, (double)m->score());
	}
	DM P = dm(m->model_set_test(kpm(X)));
	double score = m->score();
	// initial centroids that coincide leave one of them without samples
	std::vector<DM> starts;
	int extra = k - C.r, combos = 1;
	for (int i = 0; i < extra; i++) {
		combos *= C.r;
	}
	for (int q = 0; q < combos; q++) {
		DM mu(k, d);
		int t = q;
		for (int i = 0; i < k; i++) {
			int f = i < C.r ? i : t % C.r;
			if (i >= C.r) {
				t /= C.r;
			}
			for (int j = 0; j < d; j++) {
				mu.at(i, j) = C.at(f, j);
			}
		}
		starts.push_back(mu);
	}
	std::string why;
	bool ok = false;
	for (auto &mu : starts) {
		Lloyd l = lloyd(X, mu, e1 + e2);
		if (!l.clear) {
			c.discard();
		}
		std::string w;
		for (int i = 0; i < n; i++) {
			if (!same_row(P, i, l.mu, l.cl[i], 1e-4 * (1 + l.mu.maxabs()))) {
				w = "sample " + std::to_string(i) + " has another centroid than the mean of its cluster";
			}
		}
		if (std::fabs(score - l.cost) > 1e-3 * (1 + l.cost)) {
			w = "the score is " + std::to_string(score) + ", the squared distances add up to " + std::to_string(l.cost);
		}
		if (w.empty()) {
			ok = true;
		} else {
			why = w;
		}
	}
	c.check(ok, "after %d epochs from the initial centroids: %s", e1 + e2, why.c_str());
	c.no_errors("k-means");
}

VT_PROP(C25, kmeans_silhouette, 2000) {
	int n = s.grown(3, 12, 30), d = s.grown(1, 4, 10), k = (int)s.range(2, 4), e = (int)s.range(1, 4);
	DM X = gen_points(s, n, d);
	note(c, "X", X);
	c.note("k=%d epochs=%d", k, e);
	Ref<MLPPKMeans> m = kmeans(s, X, k, s.flag());
	m->train(e);
	DM P = dm(m->model_set_test(kpm(X))), C = distinct(P);
	if (C.r < 2) {
		c.discard(); // one cluster only
	}
	std::vector<int> cl(n), size(C.r);
	for (int i = 0; i < n; i++) {
		double gap;
		nearest(C, row(X, i), &gap);
		if (gap < 1e-4) {
			c.discard();
		}
		for (int j = 0; j < C.r; j++) {
			if (same_row(P, i, C, j)) {
				cl[i] = j;
			}
		}
		size[cl[i]]++;
	}
	for (int i = 0; i < C.r; i++) {
		for (int j = 0; j < i; j++) {
			if (same_row(C, i, C, j, 1e-3)) {
				c.discard();
			}
		}
	}
	c.nt(n >= 4);
	DV want(n);
	for (int i = 0; i < n; i++) {
		DV sum(C.r);
		for (int j = 0; j < n; j++) {
			sum[cl[j]] += dist(row(X, i), row(X, j));
		}
		if (size[cl[i]] == 1) {
			continue;
		}
		double a = sum[cl[i]] / (size[cl[i]] - 1), b = 1e300;
		for (int j = 0; j < C.r; j++) {
			if (j != cl[i]) {
				b = std::min(b, sum[j] / size[j]);
			}
		}
		want[i] = (b - a) / std::max(a, b);
	}
	eqv(c, m->silhouette_scores(), want, 1e-3, 1e-4, "silhouette scores");
	c.no_errors("silhouette scores");
}

// ------------------------------------------------------------------------------------ C26 naive Bayes
static void nb_labels(Src &s, int n, int nc, int atleast, std::vector<int> &y, DV &yd) {
	y.resize(n);
	yd.resize(n);
	for (int i = 0; i < n; i++) {
		y[i] = i < nc * atleast ? i % nc : (int)s.range(0, nc - 1);
	}
	for (int i = n - 1; i > 0; i--) {
		std::swap(y[i], y[s.range(0, i)]);
	}
	for (int i = 0; i < n; i++) {
		yd[i] = y[i];
	}
}
template <class F>
static void nb_check(Ctx &c, const DM &X, const std::vector<int> &y, const DM &Q, int nc, Ref<MLPPVector> set, std::function<int(const DV &)> one, double score, F logpost) {
	c.check(set.is_valid() && set->size() == Q.r, "no prediction for each row");
	int right = 0;
	bool sure = true;
	for (int pass = 0; pass < 2; pass++) {
		const DM &M = pass ? X : Q;
		for (int i = 0; i < M.r; i++) {
			DV x = row(M, i), lp(nc);
			double best = -INFINITY, second = -INFINITY;
			int b = 0;
			for (int k = 0; k < nc; k++) {
				lp[k] = logpost(k, x);
				if (lp[k] > best) {
					second = best;
					best = lp[k];
					b = k;
				} else {
					second = std::max(second, lp[k]);
				}
			}
			bool clear = best > -INFINITY && best - second > 1e-3 * (1 + std::fabs(best));
			int got = one(x);
			if (clear) {
				c.check(got == b, "%s %d gets class %d, the most probable one is %d", pass ? "sample" : "row", i, got, b);
			} else {
				sure = sure && !pass;
			}
			if (!pass) {
				c.check(set->element_get(i) == got, "row %d: class %d alone, %g in the set", i, got, (double)set->element_get(i));
			} else {
				right += got == y[i];
			}
		}
	}
	if (sure) {
		c.near(score, right / (double)X.r, 1e-6, "score");
	}
	c.no_errors("naive Bayes");
}

VT_PROP(C26, gaussian_nb, 2500) {
	int nc = (int)s.range(1, 3), n = nc * 2 + s.grown(0, 8, 40), d = s.grown(1, 4, 8);
	std::vector<int> y;
	DV yd;
	nb_labels(s, n, nc, 2, y, yd);
	DM X(n, d), ce = gen_dm(s, nc, d, 4);
	for (int i = 0; i < n; i++) {
		for (int j = 0; j < d; j++) {
			X.at(i, j) = f32(ce.at(y[i], j) + s.real(3));
		}
	}
	DM Q = gen_dm(s, s.grown(1, 6, 30), d, 5);
	note(c, "X", X);
	note(c, "y", yd);
	note(c, "Q", Q);
	c.nt(nc >= 2 && d >= 2);
	DM mu(nc, d), sd(nc, d);
	DV cnt(nc);
	for (int i = 0; i < n; i++) {
		cnt[y[i]]++;
		for (int j = 0; j < d; j++) {
			mu.at(y[i], j) += X.at(i, j);
		}
	}
	for (int k = 0; k < nc; k++) {
		for (int j = 0; j < d; j++) {
			mu.at(k, j) /= cnt[k];
			for (int i = 0; i < n; i++) {
				if (y[i] == k) {
					sd.at(k, j) += pow(X.at(i, j) - mu.at(k, j), 2);
				}
			}
			sd.at(k, j) = sqrt(sd.at(k, j) / (cnt[k] - 1));
			if (sd.at(k, j) < 0.05) {
				c.discard();
			}
		}
	}
	MLPPGaussianNB m(kpm(X), kpv(yd), nc);
	nb_check(c, X, y, Q, nc, m.model_set_test(kpm(Q)), [&](const DV &x) { return (int)m.model_test(kpv(x)); }, m.score(), [&](int k, const DV &x) {
		double t = log(cnt[k] / n);
		for (int j = 0; j < d; j++) {
			t += -log(sd.at(k, j)) - pow((x[j] - mu.at(k, j)) / sd.at(k, j), 2) / 2;
		}
		return t;
	});
}

static DM gen_words(Src &s, int n, int d, int vocab) {
	DM X(n, d);
	for (auto &v : X.a) {
		v = (double)s.range(0, vocab - 1) * (vocab > 3 ? 2 : 1);
	}
	return X;
}
VT_PROP(C26, multinomial_nb, 2500) {
	int nc = (int)s.range(1, 3), n = nc + s.grown(0, 9, 30), d = s.grown(1, 5, 9), vocab = s.grown(1, 5, 12);
	std::vector<int> y;
	DV yd;
	nb_labels(s, n, nc, 1, y, yd);
	DM X = gen_words(s, n, d, vocab), Q = gen_words(s, s.size(1, 5), d, vocab + 1);
	note(c, "X", X);
	note(c, "y", yd);
	note(c, "Q", Q);
	c.nt(nc >= 2 && vocab >= 2);
	DV cnt(nc);
	std::map<double, DV> th;
	for (int i = 0; i < n; i++) {
		cnt[y[i]]++;
		for (double v : row(X, i)) {
			th[v].resize(nc);
			th[v][y[i]]++;
		}
	}
	MLPPMultinomialNB m(kpm(X), kpv(yd), nc);
	nb_check(c, X, y, Q, nc, m.model_set_test(kpm(Q)), [&](const DV &x) { return (int)m.model_test(kpv(x)); }, m.score(), [&](int k, const DV &x) {
		double t = log(cnt[k] / n);
		for (double v : x) {
			if (th.count(v)) { // unknown words say nothing
				t += log(th[v][k] / cnt[k]);
			}
		}
		return t;
	});
}
VT_PROP(C26, bernoulli_nb, 2500) {
	int n = 2 + s.grown(0, 9, 30), d = s.grown(1, 5, 9), vocab = s.grown(1, 5, 12);
	std::vector<int> y;
	DV yd;
	nb_labels(s, n, 2, 1, y, yd);
	DM X = gen_words(s, n, d, vocab), Q = gen_words(s, s.size(1, 5), d, vocab + 1);
	note(c, "X", X);
	note(c, "y", yd);
	note(c, "Q", Q);
	c.nt(vocab >= 2);
	DV cnt(2);
	std::map<double, DV> th;
	for (int i = 0; i < n; i++) {
		cnt[y[i]]++;
		DV r = row(X, i);
		for (double v : std::set<double>(r.begin(), r.end())) {
			th[v].resize(2);
			th[v][y[i]]++;
		}
	}
	MLPPBernoulliNB m(kpm(X), kpv(yd));
	nb_check(c, X, y, Q, 2, m.model_set_test(kpm(Q)), [&](const DV &x) { return (int)m.model_test(kpv(x)); }, m.score(), [&](int k, const DV &x) {
		double t = log(cnt[k] / n);
		for (auto &e : th) {
			bool has = std::find(x.begin(), x.end(), e.first) != x.end();
			double p = e.second[k] / cnt[k];
			t += log(has ? p : 1 - p);
		}
		return t;
	});
}

// ------------------------------------------------------------------------------------ C27 principal components
// eigenvalues of a symmetric matrix, largest first (Jacobi)
static DV eigvals(DM a) {
	int n = a.r;
	for (int sweep = 0; sweep < 60; sweep++) {
		for (int p = 0; p < n; p++) {
			for (int q = p + 1; q < n; q++) {
				if (std::fabs(a.at(p, q)) < 1e-300) {
					continue;
				}
				double th = (a.at(q, q) - a.at(p, p)) / (2 * a.at(p, q));
				double t = (th >= 0 ? 1 : -1) / (std::fabs(th) + sqrt(th * th + 1)), co = 1 / sqrt(t * t + 1), si = t * co;
				for (int k = 0; k < n; k++) {
					double x = a.at(k, p), y = a.at(k, q);
					a.at(k, p) = co * x - si * y;
					a.at(k, q) = si * x + co * y;
				}
				for (int k = 0; k < n; k++) {
					double x = a.at(p, k), y = a.at(q, k);
					a.at(p, k) = co * x - si * y;
					a.at(q, k) = si * x + co * y;
				}
			}
		}
	}
	DV e;
	for (int i = 0; i < n; i++) {
		e.push_back(a.at(i, i));
	}
	std::sort(e.rbegin(), e.rend());
	return e;
}
static void components_of_some_samples(Src &s, Ctx &c, Ref<MLPPPCA> &m) {
	int d = s.size(1, 4), n = s.grown(3, 10, 40), k = (int)s.range(1, d);
	DM X(d, n); // a row for each feature
	DM mix = gen_dm(s, d, d, 2), z = gen_dm(s, d, n, 2);
	X = mix * z;
	for (int i = 0; i < d; i++) {
		double off = s.real(10);
		for (int j = 0; j < n; j++) {
			X.at(i, j) = f32(X.at(i, j) + off + s.real(0.25));
		}
	}
	DM Xc = X;
	for (int i = 0; i < d; i++) {
		double m = 0;
		for (int j = 0; j < n; j++) {
			m += X.at(i, j) / n;
		}
		for (int j = 0; j < n; j++) {
			Xc.at(i, j) -= m;
		}
	}
	DM S = Xc * Xc.t();
	DV ev = eigvals(S);
	double tr = 0;
	for (double v : ev) {
		tr += v;
	}
	if (ev[0] < 0.1) {
		c.discard();
	}
	for (int i = 1; i < d; i++) {
		double r = ev[i] / ev[0];
		if (r < 0.03) {
			c.discard(); // beyond what the decomposition resolves in single precision
		}
	}
	note(c, "X", X);
	c.note("k=%d", k);
	c.nt(d >= 2);
	if (m.is_valid()) { // again, with other samples
		m->set_input_set(kpm(X));
		m->set_k(k);
	} else if (s.flag()) {
		m = Ref<MLPPPCA>(memnew(MLPPPCA(kpm(X), k)));
	} else {
		m.instance();
		m->set_k(k);
		m->set_input_set(kpm(X));
	}
	Ref<MLPPMatrix> zr = m->principal_components();
	c.check(zr.is_valid() && zr->size() == Size2i(n, k), "the components are not %d rows of %d", k, n);
	DM Z = dm(zr), ZZ = Z * Z.t();
	double tol = 1e-2 * ev[0];
	double sum = 0;
	for (int i = 0; i < k; i++) {
		for (int j = 0; j < k; j++) {
			c.near(ZZ.at(i, j), i == j ? ev[i] : 0, tol, "scatter of components %d and %d", i, j);
		}
		sum += ev[i];
	}
	c.near(m->score(), sum / tr, 1e-2, "share of the variance kept");
	// the projection of the centred data: inner products never grow, and stay when nothing is left out
	DM G = Xc.t() * Xc, GZ = Z.t() * Z;
	for (int i = 0; i < n; i++) {
		c.check(GZ.at(i, i) <= G.at(i, i) + tol, "sample %d got longer", i);
		for (int j = 0; j < n && k == d; j++) {
			c.near(GZ.at(i, j), G.at(i, j), tol, "inner product of samples %d and %d", i, j);
		}
	}
	c.no_errors("principal components");
}

VT_PROP(C27, principal_components, 1500) {
	Ref<MLPPPCA> m;
	for (int times = s.one_in(3) ? 2 : 1; times > 0; times--) {
		components_of_some_samples(s, c, m);
	}
}

// ------------------------------------------------------------------------------------ C28 outliers
VT_PROP(C28, outliers, 4000) {
	int r = s.grown(1, 5, 15), n = s.grown(2, 12, 60);
	DM X(r, n);
	for (int i = 0; i < r; i++) {
		double off = s.real(10);
		for (int j = 0; j < n; j++) {
			X.at(i, j) = f32(off + s.real(2) + (s.one_in(6) ? s.real(60) : 0));
		}
	}
	float th = s.real_in(0, 3);
	note(c, "X", X);
	c.note("threshold=%g", th);
	MLPPOutlierFinder direct(th);
	Ref<MLPPOutlierFinder> m;
	m.instance();
	m->set_threshold(th);
	c.check(m->get_threshold() == th, "threshold is %g", (double)m->get_threshold());
	Vector<Vector<real_t>> got = m->model_set_test(kpm(X));
	Array arr = direct.model_set_test_bind(kpm(X));
	PoolVector2iArray idx = m->model_set_test_indices(kpm(X));
	c.check(got.size() == r && arr.size() == r, "%d and %d lists of outliers for %d rows", got.size(), arr.size(), r);
	std::vector<std::pair<int, int>> widx;
	for (int i = 0; i < r; i++) {
		double mean = 0, var = 0;
		for (double v : row(X, i)) {
			mean += v / n;
		}
		for (double v : row(X, i)) {
			var += (v - mean) * (v - mean) / (n - 1);
		}
		double sd = sqrt(var);
		if (sd < 1e-2 * (1 + std::fabs(mean))) {
			c.discard();
		}
		std::vector<double> want;
		for (int j = 0; j < n; j++) {
			double zz = std::fabs(X.at(i, j) - mean) / sd;
			if (std::fabs(zz - th) < 1e-3) {
				c.discard();
			}
			if (zz > th) {
				want.push_back(X.at(i, j));
				widx.push_back({ j, i });
			}
		}
		c.nt(!want.empty() && (int)want.size() < n);
		PoolRealArray one = m->model_test(kpv(row(X, i))), bound = arr[i];
		c.check(got[i].size() == (int)want.size() && one.size() == (int)want.size() && bound.size() == (int)want.size(), "row %d has %d outliers, reported %d in the matrix, %d alone, %d through the binding", i, (int)want.size(), got[i].size(), one.size(), bound.size());
		for (size_t j = 0; j < want.size(); j++) {
			c.check(got[i][j] == (real_t)want[j] && one[j] == (real_t)want[j] && bound[j] == (real_t)want[j], "outlier %d of row %d is another value", (int)j, i);
		}
	}
	c.check(idx.size() == (int)widx.size(), "%d positions for %d outliers", idx.size(), (int)widx.size());
	for (size_t i = 0; i < widx.size(); i++) {
		c.check(idx[i].x == widx[i].first && idx[i].y == widx[i].second, "position %d is (%d,%d), the outlier is at (%d,%d)", (int)i, idx[i].x, idx[i].y, widx[i].first, widx[i].second);
	}
	c.no_errors("outliers");
}

// ------------------------------------------------------------------------------------ C29 univariate regression
VT_PROP(C29, univariate_least_squares, 4000) {
	int n = s.grown(2, 12, 80);
	double a = s.real(5), b = s.real(5), noise = s.pick<double>({ 0, 0.5, 4 });
	DV x(n), y(n), q = gen_dv(s, s.grown(1, 6, 40), 20);
	for (int i = 0; i < n; i++) {
		x[i] = s.real(8);
		y[i] = f32(a + b * x[i] + noise * s.real(1));
	}
	note(c, "x", x);
	note(c, "y", y);
	double mx = 0, my = 0, sxx = 0, sxy = 0, my2 = 0;
	for (int i = 0; i < n; i++) {
		mx += x[i] / n;
		my += y[i] / n;
		my2 = std::max(my2, std::fabs(y[i]));
	}
	for (int i = 0; i < n; i++) {
		sxx += (x[i] - mx) * (x[i] - mx);
		sxy += (x[i] - mx) * (y[i] - my);
	}
	if (sxx < 0.5 * n) {
		c.discard();
	}
	c.nt(n >= 3 && noise > 0);
	double w1 = sxy / sxx, w0 = my - w1 * mx, tol = 1e-3 * (1 + my2);
	for (int pass = 0; pass < 2; pass++) {
		Ref<MLPPUniLinReg> m;
		if (pass) {
			m = Ref<MLPPUniLinReg>(memnew(MLPPUniLinReg(kpv(x), kpv(y))));
		} else {
			m.instance();
			if (s.one_in(3)) { // trained before, on something else
				int k = s.size(2, 6);
				m->set_input_set(kpv(gen_dv(s, k, 8)));
				m->set_output_set(kpv(gen_dv(s, k, 8)));
				m->train();
				m->model_set_test(kpv(q));
			}
			m->set_input_set(kpv(x));
			m->set_output_set(kpv(y));
			m->train();
		}
		c.near(m->get_b1(), w1, tol, "slope");
		c.near(m->get_b0(), w0, tol, "intercept");
		DV want;
		for (double v : q) {
			double p = m->get_b0() + (double)m->get_b1() * v;
			want.push_back(p);
			c.near(m->model_test(v), p, 1e-4 * (1 + std::fabs(m->get_b0()) + std::fabs(m->get_b1() * v)), "prediction for %g", v);
		}
		Ref<MLPPVector> qv = kpv(q);
		if (s.one_in(3)) {
			m->model_set_test(qv); // asked once more below
		}
		eqv(c, m->model_set_test(qv), want, 0, 1e-4 * (1 + std::fabs(m->get_b0()) + 20 * std::fabs(m->get_b1())), "predictions");
		float b0 = s.real(4), b1 = s.real(4);
		m->set_b0(b0);
		m->set_b1(b1);
		c.near(m->model_test(3), b0 + 3 * b1, 1e-4, "prediction with given parameters");
	}
	c.no_errors("univariate regression");
}
