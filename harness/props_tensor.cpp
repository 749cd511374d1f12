// C03: the tensor container, its slices and its image conversions
#include "ml.h"

typedef std::vector<float> FV;

struct FT {
	int x = 0, y = 0, z = 0;
	FV a;
	float &at(int k, int i, int j) { return a[((size_t)k * y + i) * x + j]; }
	float at(int k, int i, int j) const { return a[((size_t)k * y + i) * x + j]; }
	int n() const { return x * y * z; }
};

static FT gen_ft(vt::Src &s, int z, int y, int x) {
	FT t;
	t.x = x;
	t.y = y;
	t.z = z;
	t.a.resize(t.n());
	for (auto &v : t.a) {
		v = (float)s.sint(50);
	}
	return t;
}

static Ref<MLPPTensor3> mk(const FT &t) {
	Ref<MLPPTensor3> r;
	r.instance();
	r->resize(Size3i(t.x, t.y, t.z));
	for (int k = 0; k < t.z; k++) {
		for (int i = 0; i < t.y; i++) {
			for (int j = 0; j < t.x; j++) {
				r->element_set(k, i, j, t.at(k, i, j));
			}
		}
	}
	return r;
}

static Vector<real_t> tov(const FV &f) {
	Vector<real_t> v;
	for (float x : f) {
		v.push_back(x);
	}
	return v;
}
static PoolRealArray top(const FV &f) {
	PoolRealArray v;
	for (float x : f) {
		v.push_back(x);
	}
	return v;
}
static Ref<MLPPMatrix> mat(const FV &f, int r, int c) {
	DM m(r, c);
	m.a.assign(f.begin(), f.end());
	return mkm(m);
}

static void same(vt::Ctx &c, const Ref<MLPPTensor3> &g, const FT &m, const char *what) {
	c.check(g.is_valid(), "%s: no tensor", what);
	c.check(g->data_size() == m.n(), "%s: %d elements, model %d", what, g->data_size(), m.n());
	if (!m.n()) {
		return;
	}
	c.check(g->size() == Size3i(m.x, m.y, m.z), "%s: size (%d,%d,%d), model (%d,%d,%d)", what, g->size().x, g->size().y, g->size().z, m.x, m.y, m.z);
	c.check(!g->empty(), "%s: empty()", what);
	for (int k = 0; k < m.z; k++) {
		for (int i = 0; i < m.y; i++) {
			for (int j = 0; j < m.x; j++) {
				c.check(g->element_get(k, i, j) == m.at(k, i, j), "%s: element (z%d,y%d,x%d) is %g, model %g", what, k, i, j, g->element_get(k, i, j), m.at(k, i, j));
			}
		}
	}
}

static void chkm(vt::Ctx &c, const Ref<MLPPMatrix> &g, int rows, int cols, const FV &want, const char *what) {
	c.check(g.is_valid() && g->size() == Size2i(cols, rows), "%s: size %dx%d, expected %dx%d", what, g.is_valid() ? g->size().y : -1, g.is_valid() ? g->size().x : -1, rows, cols);
	for (int i = 0; i < rows * cols; i++) {
		c.check(g->element_get_index(i) == want[i], "%s: element %d is %g, expected %g", what, i, g->element_get_index(i), want[i]);
	}
}

static void every_read(vt::Ctx &c, Ref<MLPPTensor3> g, const FT &m) {
	if (!m.n()) {
		return;
	}
	int n = m.n();
	Vector<real_t> v = g->to_flat_vector();
	PoolRealArray p = g->to_flat_pool_vector();
	Vector<uint8_t> by = g->to_flat_byte_array();
	std::vector<real_t> sv = g->to_flat_std_vector();
	Ref<MLPPVector> fl = g->flatten(), fo;
	fo.instance();
	g->flatteno(fo);
	c.check(v.size() == n && p.size() == n && by.size() == n * (int)sizeof(real_t) && (int)sv.size() == n && fl->size() == n && fo->size() == n, "flat export sizes");
	{
		PoolRealArray::Read pr = p.read();
		for (int k = 0; k < n; k++) {
			float bf;
			memcpy(&bf, by.ptr() + k * sizeof(real_t), sizeof(real_t));
			float x = m.a[k];
			c.check(v[k] == x && pr[k] == x && bf == x && sv[k] == x && fl->element_get(k) == x && fo->element_get(k) == x && g->element_get_index(k) == x && (*g.ptr())[k] == x, "flat exports disagree at %d", k);
		}
	}
	std::vector<std::vector<std::vector<real_t>>> ss = g->to_std_vector();
	{ // the text form lists every element in order
		std::string t = g->to_string().utf8().get_data();
		size_t at = 0;
		for (int k = 0; k < n; k++) {
			std::string e = String::num((float)m.a[k]).utf8().get_data();
			at = t.find(e, at);
			c.check(at != std::string::npos, "to_string '%s' lacks element %d (%s)", t.c_str(), k, e.c_str());
			at += e.size();
		}
	}
	c.check((int)ss.size() == m.z, "to_std_vector");
	for (int k = 0; k < m.z; k++) {
		FV slice(m.a.begin() + k * m.x * m.y, m.a.begin() + (k + 1) * m.x * m.y);
		c.check(g->calculate_z_slice_index(k) == k * m.x * m.y, "calculate_z_slice_index");
		chkm(c, g->z_slice_get_mlpp_matrix(k), m.y, m.x, slice, "z_slice_get_mlpp_matrix");
		Ref<MLPPMatrix> into;
		into.instance();
		g->z_slice_get_into_mlpp_matrix(k, into);
		chkm(c, into, m.y, m.x, slice, "z_slice_get_into_mlpp_matrix");
		Vector<real_t> zv = g->z_slice_get_vector(k);
		PoolRealArray zp = g->z_slice_get_pool_vector(k);
		Ref<MLPPVector> zm = g->z_slice_get_mlpp_vector(k), zi;
		zi.instance();
		g->z_slice_get_into_mlpp_vector(k, zi);
		int sz = m.x * m.y;
		c.check(zv.size() == sz && zp.size() == sz && zm->size() == sz && zi->size() == sz, "z slice export sizes");
		PoolRealArray::Read zr = zp.read();
		for (int q = 0; q < sz; q++) {
			c.check(zv[q] == slice[q] && zr[q] == slice[q] && zm->element_get(q) == slice[q] && zi->element_get(q) == slice[q], "z slice exports at %d", q);
		}
		c.check((int)ss[k].size() == m.y, "to_std_vector rows");
		for (int i = 0; i < m.y; i++) {
			Vector<real_t> rv = g->row_get_vector(k, i);
			PoolRealArray rp = g->row_get_pool_vector(k, i);
			Ref<MLPPVector> rm = g->row_get_mlpp_vector(k, i), ri;
			ri.instance();
			g->row_get_into_mlpp_vector(k, i, ri);
			c.check(rv.size() == m.x && rp.size() == m.x && rm->size() == m.x && ri->size() == m.x && (int)ss[k][i].size() == m.x, "row export sizes");
			PoolRealArray::Read r = rp.read();
			for (int j = 0; j < m.x; j++) {
				float x = m.at(k, i, j);
				c.check(rv[j] == x && r[j] == x && rm->element_get(j) == x && ri->element_get(j) == x && ss[k][i][j] == x, "row (z%d,y%d) exports at %d", k, i, j);
				c.check(g->calculate_index(k, i, j) == (k * m.y + i) * m.x + j, "calculate_index");
			}
		}
	}
	for (int j = 0; j < m.x; j++) { // rows z, columns y
		FV w;
		for (int k = 0; k < m.z; k++) {
			for (int i = 0; i < m.y; i++) {
				w.push_back(m.at(k, i, j));
			}
		}
		chkm(c, g->x_slice_get(j), m.z, m.y, w, "x_slice_get");
		Ref<MLPPMatrix> t;
		t.instance();
		t->resize(Size2i(j % 3, 2));
		g->x_slice_get_into(j, t);
		chkm(c, t, m.z, m.y, w, "x_slice_get_into");
	}
	for (int i = 0; i < m.y; i++) { // rows z, columns x
		FV w;
		for (int k = 0; k < m.z; k++) {
			for (int j = 0; j < m.x; j++) {
				w.push_back(m.at(k, i, j));
			}
		}
		chkm(c, g->y_slice_get(i), m.z, m.x, w, "y_slice_get");
		Ref<MLPPMatrix> t;
		t.instance();
		t->resize(Size2i(m.y, m.z));
		g->y_slice_get_into(i, t);
		chkm(c, t, m.z, m.x, w, "y_slice_get_into");
	}
	Ref<MLPPTensor3> dup = g->duplicate_fast();
	same(c, dup, m, "duplicate_fast");
	c.check(g->is_equal_approx(dup), "a copy does not compare equal");
	dup->element_set(m.z - 1, m.y - 1, m.x - 1, m.at(m.z - 1, m.y - 1, m.x - 1) + 1);
	c.check(g->element_get(m.z - 1, m.y - 1, m.x - 1) == m.at(m.z - 1, m.y - 1, m.x - 1), "changing a copy changed the original");
	c.check(!g->is_equal_approx(dup), "tensors that differ by 1 compare equal");
	Array d = g->get_data();
	Ref<MLPPTensor3> back;
	back.instance();
	back->set_data(d);
	same(c, back, m, "get_data/set_data");
	// tensor times vector: one dot product per row
	std::vector<float> w(m.x);
	for (int j = 0; j < m.x; j++) {
		w[j] = (float)(j - 1);
	}
	FV tv;
	for (int k = 0; k < m.z; k++) {
		for (int i = 0; i < m.y; i++) {
			double acc = 0;
			for (int j = 0; j < m.x; j++) {
				acc += m.at(k, i, j) * w[j];
			}
			tv.push_back((float)acc);
		}
	}
	chkm(c, g->tensor_vec_mult(mkv(w)), m.z, m.y, tv, "tensor_vec_mult");
}

VT_PROP(C03, tensor_history, 40000) {
	Ref<MLPPTensor3> g;
	g.instance();
	FT m;
	int steps = s.grown(1, 20, 120);
	int kinds = 0;
	bool nt = false;
	for (int st = 0; st < steps; st++) {
		int op = (int)s.draw(16);
		kinds |= 1 << op;
		c.note("%d@%dx%dx%d", op, m.z, m.y, m.x);
		bool none = !m.n();
		int sz = m.x * m.y;
		FV sl;
		{
			for (int i = 0; i < sz; i++) {
				sl.push_back((float)s.sint(9));
			}
		}
		switch (op) {
			case 0:
			case 1: {
				FT o = gen_ft(s, (int)s.range(1, 4), (int)s.range(1, 4), (int)s.range(1, 4));
				switch (s.draw(8)) {
					case 0:
						g->set_from_mlpp_tensor3(mk(o));
						break;
					case 1:
						g->set_from_mlpp_tensor3r(*mk(o).ptr());
						break;
					case 2: {
						Vector<Ref<MLPPMatrix>> l;
						for (int k = 0; k < o.z; k++) {
							l.push_back(mat(FV(o.a.begin() + k * o.x * o.y, o.a.begin() + (k + 1) * o.x * o.y), o.y, o.x));
						}
						g->set_from_mlpp_matricess(l);
					} break;
					case 3: {
						Array l;
						for (int k = 0; k < o.z; k++) {
							l.push_back(mat(FV(o.a.begin() + k * o.x * o.y, o.a.begin() + (k + 1) * o.x * o.y), o.y, o.x).get_ref_ptr());
						}
						if (s.flag()) {
							g->set_from_mlpp_matrices_array(l);
						} else {
							g = Ref<MLPPTensor3>(memnew(MLPPTensor3(l)));
						}
					} break;
					case 4: {
						std::vector<std::vector<std::vector<real_t>>> l(o.z, std::vector<std::vector<real_t>>(o.y, std::vector<real_t>(o.x)));
						for (int k = 0; k < o.z; k++) {
							for (int i = 0; i < o.y; i++) {
								for (int j = 0; j < o.x; j++) {
									l[k][i][j] = o.at(k, i, j);
								}
							}
						}
						g->set_from_std_vectors(l);
					} break;
					case 5: {
						o = gen_ft(s, 1, o.y, o.x);
						Ref<MLPPMatrix> mm = mat(o.a, o.y, o.x);
						switch (s.draw(3)) {
							case 0:
								g->set_from_mlpp_matrix(mm);
								break;
							case 1:
								g->set_from_mlpp_matrixr(*mm.ptr());
								break;
							default:
								g = Ref<MLPPTensor3>(memnew(MLPPTensor3(*mm.ptr())));
								break;
						}
					} break;
					case 6: {
						o = gen_ft(s, 1, o.y, o.x);
						if (s.flag()) {
							Vector<Ref<MLPPVector>> l;
							for (int i = 0; i < o.y; i++) {
								l.push_back(mkv(FV(o.a.begin() + i * o.x, o.a.begin() + (i + 1) * o.x)));
							}
							g->set_from_mlpp_vectors(l);
						} else {
							Array l;
							for (int i = 0; i < o.y; i++) {
								l.push_back(mkv(FV(o.a.begin() + i * o.x, o.a.begin() + (i + 1) * o.x)).get_ref_ptr());
							}
							g->set_from_mlpp_vectors_array(l);
						}
					} break;
					default: {
						Array d;
						d.push_back(Size3i(o.x, o.y, o.z));
						d.push_back(top(o.a));
						g->set_data(d);
					} break;
				}
				m = o;
			} break;
			case 2:
			case 3:
				if (sz) { // also when the last slice has been removed
					switch (s.draw(4)) {
						case 0:
							g->z_slice_add(tov(sl));
							break;
						case 1:
							g->z_slice_add_pool_vector(top(sl));
							break;
						case 2:
							g->z_slice_add_mlpp_vector(mkv(sl));
							break;
						default:
							g->z_slice_add_mlpp_matrix(mat(sl, m.y, m.x));
							break;
					}
					m.a.insert(m.a.end(), sl.begin(), sl.end());
					m.z++;
				}
				break;
			case 4:
				if (!none) {
					int k = (int)s.draw(m.z);
					g->z_slice_remove(k);
					m.a.erase(m.a.begin() + k * sz, m.a.begin() + (k + 1) * sz);
					m.z--;
				}
				break;
			case 5:
				if (!none) {
					int k = (int)s.draw(m.z);
					g->z_slice_remove_unordered(k);
					for (int i = 0; i < sz; i++) {
						m.a[k * sz + i] = m.a[(m.z - 1) * sz + i];
					}
					m.z--;
					m.a.resize(m.n());
				}
				break;
			case 6:
				if (!none) {
					int k = (int)s.draw(m.z), q = (int)s.draw(m.z);
					g->z_slice_swap(k, q);
					for (int i = 0; i < sz; i++) {
						std::swap(m.a[k * sz + i], m.a[q * sz + i]);
					}
					if (k == q) { // swapping with itself
						for (int i = 0; i < 0; i++) {
						}
					}
				}
				break;
			case 7:
				if (!none) {
					int k = (int)s.draw(m.z);
					switch (s.draw(4)) {
						case 0:
							g->z_slice_set_vector(k, tov(sl));
							break;
						case 1:
							g->z_slice_set_pool_vector(k, top(sl));
							break;
						case 2:
							g->z_slice_set_mlpp_vector(k, mkv(sl));
							break;
						default:
							g->z_slice_set_mlpp_matrix(k, mat(sl, m.y, m.x));
							break;
					}
					std::copy(sl.begin(), sl.end(), m.a.begin() + k * sz);
				}
				break;
			case 8:
				if (!none) {
					int k = (int)s.draw(m.z), i = (int)s.draw(m.y);
					FV row(sl.begin(), sl.begin() + m.x);
					switch (s.draw(3)) {
						case 0:
							g->row_set_vector(k, i, tov(row));
							break;
						case 1:
							g->row_set_pool_vector(k, i, top(row));
							break;
						default:
							g->row_set_mlpp_vector(k, i, mkv(row));
							break;
					}
					std::copy(row.begin(), row.end(), m.a.begin() + (k * m.y + i) * m.x);
				}
				break;
			case 9:
				if (!none) { // x slice: rows z, columns y
					int j = (int)s.draw(m.x);
					FV w;
					for (int k = 0; k < m.z; k++) {
						for (int i = 0; i < m.y; i++) {
							w.push_back((float)s.sint(9));
							m.at(k, i, j) = w.back();
						}
					}
					g->x_slice_set(j, mat(w, m.z, m.y));
				}
				break;
			case 10:
				if (!none) {
					int i = (int)s.draw(m.y);
					FV w;
					for (int k = 0; k < m.z; k++) {
						for (int j = 0; j < m.x; j++) {
							w.push_back((float)s.sint(9));
							m.at(k, i, j) = w.back();
						}
					}
					g->y_slice_set(i, mat(w, m.z, m.x));
				}
				break;
			case 11:
				if (!none) {
					int k = (int)s.draw(m.z), i = (int)s.draw(m.y), j = (int)s.draw(m.x);
					float x = (float)s.sint(50);
					if (s.flag()) {
						g->element_set(k, i, j, x);
					} else {
						g->element_set_index((k * m.y + i) * m.x + j, x);
					}
					m.at(k, i, j) = x;
				}
				break;
			case 12:
				if (!none) { // the same data under another shape
					int a = m.x, b = m.y, d = m.z;
					int perm = (int)s.draw(3);
					Size3i ns = perm == 0 ? Size3i(b, a, d) : (perm == 1 ? Size3i(d, b, a) : Size3i(a * b * d, 1, 1));
					g->shape_set(ns);
					m.x = ns.x;
					m.y = ns.y;
					m.z = ns.z;
				}
				break;
			case 13: {
				float x = (float)s.sint(9);
				g->fill(x);
				std::fill(m.a.begin(), m.a.end(), x);
			} break;
			case 14:
				if (s.one_in(3)) {
					if (s.flag()) {
						g->clear();
					} else {
						g->reset();
					}
					c.check(g->empty() && g->size() == Size3i(), "clear/reset leaves a size");
					m = FT();
				} else if (!none) { // more or fewer slices, the rest stays
					int nz = (int)s.range(1, 5);
					g->resize(Size3i(m.x, m.y, nz));
					FT o = gen_ft(s, nz, m.y, m.x);
					for (int i = 0; i < o.n(); i++) {
						if (i < m.n()) {
							o.a[i] = m.a[i];
						} else {
							g->element_set_index(i, o.a[i]);
						}
					}
					m = o;
				}
				break;
			case 15:
				every_read(c, g, m);
				break;
		}
		same(c, g, m, "after the step");
		nt = nt || (m.x >= 2 && m.y >= 2 && m.z >= 2);
	}
	c.no_errors("tensor history");
	every_read(c, g, m);
	c.nt(nt && __builtin_popcount(kinds) >= 3);
}

// ------------------------------------------------------------------ images
static Ref<Image> gen_img(vt::Src &s, int w, int h, Image::Format f, std::vector<std::array<int, 4>> &px) {
	Ref<Image> im;
	im.instance();
	im->create(w, h, false, f);
	im->lock();
	px.clear();
	for (int y = 0; y < h; y++) {
		for (int x = 0; x < w; x++) {
			std::array<int, 4> p;
			for (auto &q : p) {
				q = s.flag() ? (int)s.draw(256) : (int)s.pick({ 0, 255, 128, 1, 254 });
			}
			if (f == Image::FORMAT_L8) {
				p[1] = p[2] = p[0];
			}
			if (f == Image::FORMAT_L8 || f == Image::FORMAT_RGB8) {
				p[3] = 255;
			}
			// written just above the level so that the store truncates to it
			im->set_pixel(x, y, Color((p[0] + 0.25f) / 255.0f, (p[1] + 0.25f) / 255.0f, (p[2] + 0.25f) / 255.0f, (p[3] + 0.25f) / 255.0f));
			px.push_back(p);
		}
	}
	im->unlock();
	return im;
}

static const double STEP = 1.01 / 255; // one 8-bit level

VT_PROP(C03, tensor_images, 25000) {
	int w = (int)s.range(1, 5), h = (int)s.range(1, 5);
	std::vector<std::array<int, 4>> px;
	Image::Format f = s.pick({ Image::FORMAT_RGBA8, Image::FORMAT_RGB8 });
	Ref<Image> im = gen_img(s, w, h, f, px);
	int flags = (int)s.range(1, 15);
	std::vector<int> ch;
	for (int i = 0; i < 4; i++) {
		if (flags & (1 << i)) {
			ch.push_back(i);
		}
	}
	c.note("image %dx%d channels %d", w, h, flags);
	c.nt(w * h > 1);
	Ref<MLPPTensor3> t;
	t.instance();
	auto lvl = [&](int x, int y, int chn) { return px[y * w + x][chn] / 255.0; };
	bool add = s.flag();
	if (add) {
		t->z_slices_add_image(im, flags);
	} else {
		t->set_from_image(im, flags);
	}
	c.check(t->size() == Size3i(w, h, (int)ch.size()), "image to tensor: size (%d,%d,%d)", t->size().x, t->size().y, t->size().z);
	for (size_t k = 0; k < ch.size(); k++) {
		for (int y = 0; y < h; y++) {
			for (int x = 0; x < w; x++) {
				c.near(t->element_get((int)k, y, x), lvl(x, y, ch[k]), 1e-5, "slice %d pixel (%d,%d)", (int)k, x, y);
			}
		}
	}
	if (s.flag()) { // adding appends and keeps what was there
		Ref<MLPPTensor3> before = t->duplicate_fast();
		std::vector<std::array<int, 4>> px2;
		Ref<Image> im2 = gen_img(s, w, h, f, px2);
		int fl2 = (int)s.range(1, 15);
		t->z_slices_add_image(im2, fl2);
		int n2 = __builtin_popcount(fl2);
		c.check(t->size() == Size3i(w, h, (int)ch.size() + n2), "z_slices_add_image: z is %d after adding %d to %d", t->size().z, n2, (int)ch.size());
		int k = (int)ch.size();
		for (int q = 0; q < 4; q++) {
			if (fl2 & (1 << q)) {
				for (int y = 0; y < h; y++) {
					for (int x = 0; x < w; x++) {
						c.near(t->element_get(k, y, x), px2[y * w + x][q] / 255.0, 1e-5, "added slice %d (%d,%d)", k, x, y);
					}
				}
				k++;
			}
		}
		for (int i = 0; i < before->data_size(); i++) {
			c.check(before->element_get_index(i) == t->element_get_index(i), "adding an image changed an existing element");
		}
	}
	int nz = t->size().z;
	// a slice written over from an image
	{
		int k = (int)s.draw(nz), q = (int)s.draw(4);
		t->z_slice_set_image(im, k, 1 << q);
		for (int y = 0; y < h; y++) {
			for (int x = 0; x < w; x++) {
				c.near(t->element_get(k, y, x), lvl(x, y, q), 1e-5, "z_slice_set_image (%d,%d)", x, y);
			}
		}
		int idx[4];
		for (int i = 0; i < 4; i++) {
			idx[i] = s.flag() ? (int)s.draw(nz) : -1;
		}
		t->z_slices_set_image(im, idx[0], idx[1], idx[2], idx[3]);
		for (int i = 0; i < 4; i++) {
			bool last = idx[i] >= 0;
			for (int j = i + 1; j < 4; j++) {
				last = last && idx[j] != idx[i];
			}
			if (last) {
				for (int y = 0; y < h; y++) {
					for (int x = 0; x < w; x++) {
						c.near(t->element_get(idx[i], y, x), lvl(x, y, i), 1e-5, "z_slices_set_image channel %d (%d,%d)", i, x, y);
					}
				}
			}
		}
	}
	// and back to images, to within one 8-bit level
	int k = (int)s.draw(nz);
	Ref<Image> g = t->z_slice_get_image(k);
	c.check(g.is_valid() && g->get_width() == w && g->get_height() == h, "z_slice_get_image: size");
	int a[4];
	for (int i = 0; i < 4; i++) {
		a[i] = s.flag() ? (int)s.draw(nz) : -1;
	}
	Ref<Image> g4 = t->z_slices_get_image(a[0], a[1], a[2], a[3]);
	Ref<Image> g5;
	g5.instance();
	g5->create(s.flag() ? w : w + 1, h, false, Image::FORMAT_RGBA8);
	t->z_slices_get_into_image(g5, a[0], a[1], a[2], a[3]);
	Ref<Image> g6;
	g6.instance();
	g6->create(w, s.flag() ? h : h + 2, false, Image::FORMAT_RGBA8);
	int fl3 = (int)s.range(1, 15);
	t->z_slice_get_into_image(g6, k, fl3);
	c.check(g4->get_width() == w && g4->get_height() == h && g5->get_width() == w && g5->get_height() == h && g6->get_width() == w && g6->get_height() == h, "tensor to image sizes");
	g->lock();
	g4->lock();
	g5->lock();
	g6->lock();
	for (int y = 0; y < h; y++) {
		for (int x = 0; x < w; x++) {
			c.near(g->get_pixel(x, y).r, t->element_get(k, y, x), STEP, "z_slice_get_image (%d,%d)", x, y);
			for (int i = 0; i < 4; i++) {
				if (a[i] >= 0) {
					c.near(g4->get_pixel(x, y)[i], t->element_get(a[i], y, x), STEP, "z_slices_get_image channel %d (%d,%d)", i, x, y);
					c.near(g5->get_pixel(x, y)[i], t->element_get(a[i], y, x), STEP, "z_slices_get_into_image channel %d (%d,%d)", i, x, y);
				}
				if (fl3 & (1 << i)) {
					c.near(g6->get_pixel(x, y)[i], t->element_get(k, y, x), STEP, "z_slice_get_into_image channel %d (%d,%d)", i, x, y);
				}
			}
		}
	}
	g->unlock();
	g4->unlock();
	g5->unlock();
	g6->unlock();
	c.no_errors("images");
}

VT_PROP(C03, tensor_slice_images, 25000) {
	FT m = gen_ft(s, (int)s.range(1, 4), (int)s.range(1, 4), (int)s.range(1, 4));
	for (auto &v : m.a) {
		v = (float)s.draw(256) / 255.0f;
	}
	Ref<MLPPTensor3> t = mk(m);
	c.nt(m.x != m.y && m.y != m.z);
	c.note("tensor z%d y%d x%d", m.z, m.y, m.x);
	bool xs = s.flag();
	int cols = xs ? m.y : m.x, rows = m.z;
	int idx = xs ? (int)s.draw(m.x) : (int)s.draw(m.y);
	auto el = [&](int row, int col) { return xs ? m.at(row, col, idx) : m.at(row, idx, col); };
	Ref<Image> a = xs ? t->x_slice_get_image(idx) : t->y_slice_get_image(idx);
	Ref<Image> b;
	b.instance();
	b->create(s.flag() ? cols : cols + 1, rows, false, Image::FORMAT_RGBA8);
	int fl = (int)s.range(1, 15);
	if (xs) {
		t->x_slice_get_into_image(b, idx, fl);
	} else {
		t->y_slice_get_into_image(b, idx, fl);
	}
	c.check(a->get_width() == cols && a->get_height() == rows && b->get_width() == cols && b->get_height() == rows, "slice image sizes");
	a->lock();
	b->lock();
	for (int r = 0; r < rows; r++) {
		for (int q = 0; q < cols; q++) {
			c.near(a->get_pixel(q, r).r, el(r, q), STEP, "%c_slice_get_image (%d,%d)", xs ? 'x' : 'y', q, r);
			for (int i = 0; i < 4; i++) {
				if (fl & (1 << i)) {
					c.near(b->get_pixel(q, r)[i], el(r, q), STEP, "%c_slice_get_into_image (%d,%d) channel %d", xs ? 'x' : 'y', q, r, i);
				}
			}
		}
	}
	a->unlock();
	b->unlock();
	std::vector<std::array<int, 4>> px;
	Ref<Image> im = gen_img(s, cols, rows, Image::FORMAT_RGBA8, px);
	int ch = (int)s.draw(4);
	if (xs) {
		t->x_slice_set_image(im, idx, 1 << ch);
	} else {
		t->y_slice_set_image(im, idx, 1 << ch);
	}
	for (int r = 0; r < rows; r++) {
		for (int q = 0; q < cols; q++) {
			(xs ? m.at(r, q, idx) : m.at(r, idx, q)) = px[r * cols + q][ch] / 255.0f;
		}
	}
	for (int i = 0; i < m.n(); i++) {
		c.near(t->element_get_index(i), m.a[i], 1e-5, "element %d after %c_slice_set_image", i, xs ? 'x' : 'y');
	}
	c.no_errors("slice images");
}

// the same for a single matrix
VT_PROP(C02, matrix_images, 15000) {
	int w = (int)s.range(1, 6), h = (int)s.range(1, 6);
	std::vector<std::array<int, 4>> px;
	Ref<Image> im = gen_img(s, w, h, Image::FORMAT_RGBA8, px);
	int q = (int)s.draw(4);
	Ref<MLPPMatrix> m;
	m.instance();
	m->resize(Size2i((int)s.range(0, 3), 2));
	m->set_from_image(im, q);
	c.check(m->size() == Size2i(w, h), "set_from_image size %dx%d for a %dx%d image", m->size().x, m->size().y, w, h);
	for (int y = 0; y < h; y++) {
		for (int x = 0; x < w; x++) {
			c.near(m->element_get(y, x), px[y * w + x][q] / 255.0, 1e-5, "set_from_image (%d,%d)", x, y);
		}
	}
	Ref<Image> g = m->get_as_image();
	Ref<Image> o;
	o.instance();
	o->create(s.flag() ? w : w + 1, h, false, Image::FORMAT_RGBA8);
	m->get_into_image(o);
	c.check(g->get_width() == w && g->get_height() == h && o->get_width() == w && o->get_height() == h, "image sizes");
	g->lock();
	o->lock();
	for (int y = 0; y < h; y++) {
		for (int x = 0; x < w; x++) {
			c.near(g->get_pixel(x, y).r, m->element_get(y, x), STEP, "get_as_image (%d,%d)", x, y);
			c.near(o->get_pixel(x, y).r, m->element_get(y, x), STEP, "get_into_image (%d,%d)", x, y);
		}
	}
	g->unlock();
	o->unlock();
	c.no_errors("matrix images");
	c.nt(w != h);
}
