// C02: the matrix container behaves as a grid of rows under any history of operations
#include "ml.h"

typedef std::vector<float> FV;

struct FM {
	int r = 0, c = 0;
	bool width_fixed = false; // a matrix emptied row by row keeps a width we say nothing about
	std::vector<FV> rows;
};

static FM gen_fm(vt::Src &s, int r, int c) {
	FM m;
	m.r = r;
	m.c = c;
	m.rows.assign(r, FV(c));
	for (auto &row : m.rows) {
		for (auto &x : row) {
			x = (float)s.sint(50);
		}
	}
	return m;
}

static Ref<MLPPMatrix> mk(const FM &m) {
	Ref<MLPPMatrix> r;
	r.instance();
	r->resize(Size2i(m.c, m.r));
	for (int i = 0; i < m.r; i++) {
		for (int j = 0; j < m.c; j++) {
			r->element_set(i, j, m.rows[i][j]);
		}
	}
	return r;
}

static Vector<real_t> tov(const FV &f) {
	Vector<real_t> v;
	for (float x : f) {
		v.push_back(x);
	}
	return v;
}
static PoolRealArray top(const FV &f) {
	PoolRealArray v;
	for (float x : f) {
		v.push_back(x);
	}
	return v;
}

static void same(vt::Ctx &c, const Ref<MLPPMatrix> &g, const FM &m, const char *what) {
	c.check(g.is_valid(), "%s: no matrix", what);
	c.check(g->data_size() == m.r * m.c, "%s: %d elements, model %dx%d", what, g->data_size(), m.r, m.c);
	c.check(g->empty() == (m.r * m.c == 0), "%s: empty()", what);
	if (m.r * m.c == 0) {
		return;
	}
	c.check(g->size() == Size2i(m.c, m.r), "%s: size %dx%d, model %dx%d", what, g->size().y, g->size().x, m.r, m.c);
	for (int i = 0; i < m.r; i++) {
		for (int j = 0; j < m.c; j++) {
			c.check(g->element_get(i, j) == m.rows[i][j], "%s: element (%d,%d) is %g, model %g", what, i, j, g->element_get(i, j), m.rows[i][j]);
		}
	}
}

static void every_read(vt::Ctx &c, Ref<MLPPMatrix> g, const FM &m) {
	int n = m.r * m.c;
	Vector<real_t> v = g->to_flat_vector();
	PoolRealArray p = g->to_flat_pool_vector();
	Vector<uint8_t> by = g->to_flat_byte_array();
	std::vector<real_t> sv = g->to_flat_std_vector();
	Ref<MLPPVector> fl = g->flatten();
	Ref<MLPPVector> fo;
	fo.instance();
	g->flatteno(fo);
	c.check(v.size() == n && p.size() == n && by.size() == n * (int)sizeof(real_t) && (int)sv.size() == n && fl->size() == n && fo->size() == n, "flat export sizes");
	PoolRealArray::Read pr = p.read();
	for (int i = 0; i < m.r; i++) {
		for (int j = 0; j < m.c; j++) {
			int k = i * m.c + j;
			float x = m.rows[i][j];
			float bf;
			memcpy(&bf, by.ptr() + k * sizeof(real_t), sizeof(real_t));
			c.check(g->calculate_index(i, j) == k, "calculate_index(%d,%d)", i, j);
			c.check(v[k] == x && pr[k] == x && bf == x && sv[k] == x && fl->element_get(k) == x && fo->element_get(k) == x && g->element_get_index(k) == x && (*g.ptr())[k] == x && g->ptr()[k] == x, "flat exports disagree with element (%d,%d)", i, j);
		}
	}
	if (n) {
		std::vector<std::vector<real_t>> ss = g->to_std_vector();
		c.check((int)ss.size() == m.r, "to_std_vector rows");
		for (int i = 0; i < m.r; i++) {
			Vector<real_t> rv = g->row_get_vector(i);
			PoolRealArray rp = g->row_get_pool_vector(i);
			Ref<MLPPVector> rm = g->row_get_mlpp_vector(i);
			Ref<MLPPVector> ri;
			ri.instance();
			ri->resize(i % 3);
			g->row_get_into_mlpp_vector(i, ri);
			c.check(rv.size() == m.c && rp.size() == m.c && rm->size() == m.c && ri->size() == m.c && (int)ss[i].size() == m.c, "row export sizes");
			PoolRealArray::Read r = rp.read();
			for (int j = 0; j < m.c; j++) {
				float x = m.rows[i][j];
				c.check(rv[j] == x && r[j] == x && rm->element_get(j) == x && ri->element_get(j) == x && ss[i][j] == x, "row %d exports disagree at %d", i, j);
			}
		}
		// the serialised form restores the matrix
		Array d = g->get_data();
		Ref<MLPPMatrix> back;
		back.instance();
		back->set_data(d);
		same(c, back, m, "get_data/set_data");
		// a malformed serialised form changes nothing
		Array bad;
		bad.push_back(Size2i(m.c + 1, m.r));
		bad.push_back(p);
		back->set_data(bad);
		same(c, back, m, "set_data with a wrong element count");
		std::string t = g->to_string().utf8().get_data();
		size_t at = 0;
		for (int i = 0; i < m.r; i++) {
			for (int j = 0; j < m.c; j++) {
				std::string e = String::num(m.rows[i][j]).utf8().get_data();
				at = t.find(e, at);
				c.check(at != std::string::npos, "to_string lacks (%d,%d)", i, j);
				at += e.size();
			}
		}
	}
	Ref<MLPPMatrix> dup = g->duplicate_fast();
	same(c, dup, m, "duplicate_fast");
	c.check(g->is_equal_approx(dup), "a copy does not compare equal");
	MLPPMatrix cc(*g.ptr());
	c.check(cc.data_size() == n, "copy constructor");
	if (n) {
		MLPPMatrix cp(g->ptr(), m.r, m.c);
		c.check(cp.size() == g->size() && cc.size() == g->size(), "constructor sizes");
		for (int k = 0; k < n; k++) {
			c.check(cp.element_get_index(k) == g->element_get_index(k) && cc.element_get_index(k) == g->element_get_index(k), "constructor data");
		}
		dup->element_set(m.r - 1, m.c - 1, m.rows[m.r - 1][m.c - 1] + 1);
		c.check(g->element_get(m.r - 1, m.c - 1) == m.rows[m.r - 1][m.c - 1], "changing a copy changed the original");
		c.check(!g->is_equal_approx(dup) && !dup->is_equal_approx(g), "matrices that differ by 1 compare equal");
	}
}

VT_PROP(C02, matrix_history, 50000) {
	Ref<MLPPMatrix> g;
	g.instance();
	FM m;
	int steps = s.grown(1, 30, 180);
	int kinds = 0;
	bool nt = false;
	for (int k = 0; k < steps; k++) {
		int op = (int)s.draw(19);
		c.note("%d@%dx%d", op, m.r, m.c);
		kinds |= 1 << op;
		bool none = m.r * m.c == 0;
		switch (op) {
			case 0:
			case 1:
			case 2: { // add a row
				int w = none ? (m.width_fixed ? m.c : s.grown(1, 5, 20)) : m.c;
				if (none && !m.width_fixed) {
					m.r = 0;
					m.rows.clear();
					g->clear();
				}
				m.c = w;
				FV row(w);
				for (auto &x : row) {
					x = (float)s.sint(50);
				}
				switch (s.draw(3)) {
					case 0:
						g->row_add(tov(row));
						break;
					case 1:
						g->row_add_pool_vector(top(row));
						break;
					default:
						g->row_add_mlpp_vector(mkv(row));
						break;
				}
				m.rows.push_back(row);
				m.r++;
				m.width_fixed = false;
			} break;
			case 3: {
				if (none) {
					break;
				}
				if (s.one_in(4)) {
					g->rows_add_mlpp_matrix(g);
					auto t = m.rows;
					m.rows.insert(m.rows.end(), t.begin(), t.end());
					m.r *= 2;
					if (m.r > 40) {
						g->resize(Size2i(m.c, 4));
						m.r = 4;
						m.rows.resize(4);
					}
				} else {
					FM o = gen_fm(s, (int)s.range(0, 4), m.c);
					g->rows_add_mlpp_matrix(mk(o));
					m.rows.insert(m.rows.end(), o.rows.begin(), o.rows.end());
					m.r += o.r;
				}
			} break;
			case 4:
				if (!none) {
					int i = (int)s.draw(m.r);
					g->row_remove(i);
					m.rows.erase(m.rows.begin() + i);
					m.r--;
					m.width_fixed = m.r == 0;
				}
				break;
			case 5:
				if (!none) {
					int i = (int)s.draw(m.r);
					g->row_remove_unordered(i);
					m.rows[i] = m.rows.back();
					m.rows.pop_back();
					m.r--;
					m.width_fixed = m.r == 0;
				}
				break;
			case 6:
				if (!none) {
					int i = (int)s.draw(m.r), j = (int)s.draw(m.r);
					g->row_swap(i, j);
					std::swap(m.rows[i], m.rows[j]);
				}
				break;
			case 7: {
				int r = s.grown(0, 6, 24), w = s.flag() && !none ? m.c : s.grown(0, 6, 24);
				bool keep = !none && w == m.c;
				g->resize(Size2i(w, r));
				c.check(g->size() == Size2i(w, r), "resize");
				FM o = gen_fm(s, r, w);
				for (int i = 0; i < r; i++) {
					for (int j = 0; j < w; j++) {
						if (keep && i < m.r) { // same width: the rows stay
							o.rows[i][j] = m.rows[i][j];
						} else {
							g->element_set(i, j, o.rows[i][j]);
						}
					}
				}
				m = o;
			} break;
			case 8: {
				float x = (float)s.sint(9);
				g->fill(x);
				for (auto &row : m.rows) {
					std::fill(row.begin(), row.end(), x);
				}
			} break;
			case 9:
				if (!none) {
					int i = (int)s.draw(m.r), j = (int)s.draw(m.c);
					float x = (float)s.sint(50);
					switch (s.draw(3)) {
						case 0:
							g->element_set(i, j, x);
							break;
						case 1:
							g->element_set_index(i * m.c + j, x);
							break;
						default:
							(*g.ptr())[i * m.c + j] = x;
							break;
					}
					m.rows[i][j] = x;
				}
				break;
			case 10:
				if (!none) {
					int i = (int)s.draw(m.r);
					FV row(m.c);
					for (auto &x : row) {
						x = (float)s.sint(50);
					}
					switch (s.draw(4)) {
						case 0:
							g->row_set_vector(i, tov(row));
							break;
						case 1:
							g->row_set_pool_vector(i, top(row));
							break;
						case 2:
							g->row_set_mlpp_vector(i, mkv(row));
							break;
						default:
							g->set_row_std_vector(i, row);
							break;
					}
					m.rows[i] = row;
				}
				break;
			case 11:
				if (s.flag()) {
					g->clear();
				} else {
					g->reset();
				}
				c.check(g->size() == Size2i(), "clear/reset leaves a size");
				m = FM();
				break;
			case 12:
			case 13: { // whole-content replacement
				FM o = gen_fm(s, (int)s.range(1, 5), (int)s.range(1, 5));
				switch (s.draw(9)) {
					case 0:
						g->set_from_mlpp_matrix(mk(o));
						break;
					case 1:
						g->set_from_mlpp_matrixr(*mk(o).ptr());
						break;
					case 2: {
						Vector<Ref<MLPPVector>> l;
						for (auto &row : o.rows) {
							l.push_back(mkv(row));
						}
						g->set_from_mlpp_vectors(l);
					} break;
					case 3: {
						Array l;
						for (auto &row : o.rows) {
							l.push_back(mkv(row).get_ref_ptr());
						}
						g->set_from_mlpp_vectors_array(l);
					} break;
					case 4: {
						Vector<Vector<real_t>> l;
						for (auto &row : o.rows) {
							l.push_back(tov(row));
						}
						if (s.flag()) {
							g->set_from_vectors(l);
						} else {
							Ref<MLPPMatrix> t(memnew(MLPPMatrix(l)));
							same(c, t, o, "constructor from vectors");
							g = t;
						}
					} break;
					case 5: {
						Array l;
						for (auto &row : o.rows) {
							l.push_back(top(row));
						}
						if (s.flag()) {
							g->set_from_arrays(l);
						} else {
							g = Ref<MLPPMatrix>(memnew(MLPPMatrix(l)));
						}
					} break;
					case 6: {
						FV flat;
						for (auto &row : o.rows) {
							flat.insert(flat.end(), row.begin(), row.end());
						}
						g->set_from_ptr(flat.data(), o.r, o.c);
					} break;
					case 7:
						if (s.flag()) {
							g->set_from_std_vectors(o.rows);
						} else {
							g = Ref<MLPPMatrix>(memnew(MLPPMatrix(o.rows)));
						}
						break;
					default: {
						FV flat;
						for (auto &row : o.rows) {
							flat.insert(flat.end(), row.begin(), row.end());
						}
						Array d;
						d.push_back(Size2i(o.c, o.r));
						d.push_back(top(flat));
						g->set_data(d);
					} break;
				}
				m = o;
			} break;
			case 14: { // replacement by nothing
				switch (s.draw(4)) {
					case 0:
						g->set_from_mlpp_vectors(Vector<Ref<MLPPVector>>());
						break;
					case 1:
						g->set_from_vectors(Vector<Vector<real_t>>());
						break;
					case 2:
						g->set_from_arrays(Array());
						break;
					default:
						g->set_from_std_vectors(std::vector<std::vector<real_t>>());
						break;
				}
				c.check(g->size() == Size2i(), "set from nothing leaves a size");
				m = FM();
			} break;
			case 15: { // tolerance of is_equal_approx
				if (none) {
					break;
				}
				FM o = m;
				float tol = s.pick({ 0.5f, 0.125f, 0.001f });
				int i = (int)s.draw(m.r), j = (int)s.draw(m.c);
				o.rows[i][j] += tol * s.pick({ 0.0f, 0.5f, 2.0f, -0.5f, -2.0f });
				bool want = std::fabs(o.rows[i][j] - m.rows[i][j]) < tol;
				c.check(g->is_equal_approx(mk(o), tol) == want, "is_equal_approx");
				o = m;
				std::swap(o.r, o.c);
				o.rows.assign(o.r, FV(o.c, 1.0f));
				if (o.r != m.r) {
					c.check(!g->is_equal_approx(mk(o), 1000.0f), "matrices of different shapes compare equal");
				}
			} break;
			case 16:
				every_read(c, g, m);
				break;
			case 17: {
				FM o = gen_fm(s, (int)s.range(1, 4), (int)s.range(1, 4));
				Ref<MLPPMatrix> src = mk(o);
				g->set_from_mlpp_matrix(src);
				src->element_set(0, 0, o.rows[0][0] + 3);
				m = o;
			} break;
			case 18:
				if (!none) {
					g->set_from_mlpp_matrix(g);
				}
				break;
		}
		same(c, g, m, "after the step");
		nt = nt || (m.r >= 2 && m.c >= 2);
	}
	c.no_errors("matrix history");
	every_read(c, g, m);
	c.nt(nt && __builtin_popcount(kinds) >= 4);
}
