// C01: the vector container behaves as a sequence under any history of operations
#include "ml.h"

typedef std::vector<float> FV;

static void same(vt::Ctx &c, const Ref<MLPPVector> &v, const FV &m, const char *what) {
	c.check(v.is_valid(), "%s: no vector", what);
	c.check(v->size() == (int)m.size(), "%s: size %d, model %d", what, v->size(), (int)m.size());
	c.check(v->empty() == m.empty(), "%s: empty() is %d for size %d", what, v->empty(), (int)m.size());
	for (size_t i = 0; i < m.size(); i++) {
		float g = v->element_get((int)i);
		c.check(memcmp(&g, &m[i], 4) == 0 || g == m[i], "%s: element %d is %.9g, model %.9g", what, (int)i, g, m[i]);
	}
}

static void every_read(vt::Ctx &c, Ref<MLPPVector> v, const FV &m) {
	int n = (int)m.size();
	Vector<real_t> a = v->to_vector();
	PoolRealArray p = v->to_pool_vector();
	PoolRealArray d = v->get_data();
	std::vector<real_t> sv = v->to_std_vector();
	Vector<uint8_t> by = v->to_byte_array();
	c.check(a.size() == n && p.size() == n && d.size() == n && (int)sv.size() == n && by.size() == n * (int)sizeof(real_t), "export sizes %d %d %d %d %d for %d elements", a.size(), p.size(), d.size(), (int)sv.size(), by.size(), n);
	PoolRealArray::Read pr = p.read();
	PoolRealArray::Read dr = d.read();
	for (int i = 0; i < n; i++) {
		float bf;
		memcpy(&bf, by.ptr() + i * sizeof(real_t), sizeof(real_t));
		c.check(a[i] == m[i] && pr[i] == m[i] && dr[i] == m[i] && sv[i] == m[i] && bf == m[i] && v->ptr()[i] == m[i] && (*v.ptr())[i] == m[i], "exports disagree with element %d", i);
	}
	Ref<MLPPVector> dup = v->duplicate_fast();
	same(c, dup, m, "duplicate_fast");
	c.check(v->is_equal_approx(dup), "a copy does not compare equal");
	if (n) {
		dup->element_set(0, m[0] + 1);
		c.check(v->element_get(0) == m[0], "changing a copy changed the original");
		c.check(!v->is_equal_approx(dup), "vectors that differ by 1 compare equal");
	}
	MLPPVector cc(*v.ptr());
	c.check(cc.size() == n, "copy constructor size");
	MLPPVector c2(a), c3(p), c4(sv), c5(v->ptr(), n);
	c.check(c2.size() == n && c3.size() == n && c4.size() == n && c5.size() == n, "converting constructors: sizes %d %d %d %d for %d", c2.size(), c3.size(), c4.size(), c5.size(), n);
	for (int i = 0; i < n; i++) {
		c.check(cc.element_get(i) == m[i] && c2.element_get(i) == m[i] && c3.element_get(i) == m[i] && c4.element_get(i) == m[i] && c5.element_get(i) == m[i], "a constructed copy differs at %d", i);
	}
}

static FV other(vt::Src &s) {
	FV o;
	int n = s.grown(0, 9, 70);
	for (int i = 0; i < n; i++) {
		o.push_back((float)s.sint(3));
	}
	return o;
}

VT_PROP(C01, vector_history, 60000) {
	Ref<MLPPVector> v;
	v.instance();
	FV m;
	int steps = s.grown(1, 40, 240);
	int kinds = 0;
	for (int k = 0; k < steps; k++) {
		float x = (float)s.sint(3);
		int op = (int)s.draw(25);
		c.note("%d(%g)", op, x);
		kinds |= 1 << op;
		int n = (int)m.size();
		switch (op) {
			case 0:
			case 1:
				v->push_back(x);
				m.push_back(x);
				break;
			case 2: {
				FV o = other(s);
				v->append_mlpp_vector(mkv(o));
				m.insert(m.end(), o.begin(), o.end());
			} break;
			case 3:
				if (n) {
					int i = (int)s.draw(n);
					v->remove(i);
					m.erase(m.begin() + i);
				}
				break;
			case 4:
				if (n) {
					int i = (int)s.draw(n);
					v->remove_unordered(i);
					m[i] = m.back();
					m.pop_back();
				}
				break;
			case 5: {
				v->erase(x);
				auto it = std::find(m.begin(), m.end(), x);
				if (it != m.end()) {
					m.erase(it);
				}
			} break;
			case 6: {
				int got = v->erase_multiple_unordered(x);
				int want = (int)std::count(m.begin(), m.end(), x);
				c.check(got == want, "erase_multiple_unordered returned %d of %d", got, want);
				m.erase(std::remove(m.begin(), m.end(), x), m.end());
				FV g;
				for (int i = 0; i < v->size(); i++) {
					g.push_back(v->element_get(i));
				}
				FV a = g, b = m;
				std::sort(a.begin(), a.end());
				std::sort(b.begin(), b.end());
				c.check(a == b, "erase_multiple_unordered left a different multiset");
				m = g;
			} break;
			case 7:
				v->invert();
				std::reverse(m.begin(), m.end());
				break;
			case 8: {
				int nn = s.grown(0, 12, 70);
				v->resize(nn);
				c.check(v->size() == nn, "resize(%d) gives size %d", nn, v->size());
				m.resize(nn);
				for (int i = n; i < nn; i++) { // new elements are unspecified
					m[i] = (float)s.sint(3);
					v->element_set(i, m[i]);
				}
			} break;
			case 9:
				v->fill(x);
				std::fill(m.begin(), m.end(), x);
				break;
			case 10: {
				int i = (int)s.draw(n + 1);
				v->insert(i, x);
				m.insert(m.begin() + i, x);
			} break;
			case 11: {
				int from = n ? (int)s.draw(n + 1) : 0;
				auto it = std::find(m.begin() + from, m.end(), x);
				int want = it == m.end() ? -1 : (int)(it - m.begin());
				int got = v->find(x, from);
				c.check(got == want, "find(%g, %d) is %d, model %d", x, from, got, want);
				it = std::find(m.begin(), m.end(), x);
				want = it == m.end() ? -1 : (int)(it - m.begin());
				c.check(v->find(x) == want, "find(%g) is %d, model %d", x, v->find(x), want);
			} break;
			case 12:
				v->sort();
				std::sort(m.begin(), m.end());
				break;
			case 13:
				v->sort();
				std::sort(m.begin(), m.end());
				v->ordered_insert(x);
				m.insert(std::upper_bound(m.begin(), m.end(), x), x);
				break;
			case 14:
				v->clear();
				m.clear();
				break;
			case 15:
				v->reset();
				m.clear();
				break;
			case 16: {
				FV o = other(s);
				Vector<real_t> a;
				PoolRealArray p;
				for (float f : o) {
					a.push_back(f);
					p.push_back(f);
				}
				switch (s.draw(6)) {
					case 0:
						v->set_from_vector(a);
						break;
					case 1:
						v->set_from_pool_vector(p);
						break;
					case 2:
						v->set_data(p);
						break;
					case 3:
						v->set_from_mlpp_vector(mkv(o));
						break;
					case 4:
						v->set_from_mlpp_vectorr(*mkv(o).ptr());
						break;
					default:
						v->set_from_std_vector(o);
						break;
				}
				m = o;
			} break;
			case 17:
				if (n) {
					int i = (int)s.draw(n);
					switch (s.draw(4)) {
						case 0:
							v->element_set(i, x);
							break;
						case 1:
							v->element_get_ref(i) = x;
							break;
						case 2:
							(*v.ptr())[i] = x;
							break;
						default:
							v->ptrw()[i] = x;
							break;
					}
					m[i] = x;
				}
				break;
			case 18: {
				int cnt = s.size(0, 4);
				Vector<Ref<MLPPVector>> l;
				FV all;
				for (int i = 0; i < cnt; i++) {
					FV o = other(s);
					l.push_back(mkv(o));
					all.insert(all.end(), o.begin(), o.end());
				}
				if (s.flag()) {
					same(c, v->flatten_vectorsn(l), all, "flatten_vectorsn");
				} else {
					v->flatten_vectors(l);
					m = all;
				}
			} break;
			case 19: // appending or copying a vector onto itself
				if (s.flag()) {
					v->append_mlpp_vector(v);
					FV t = m;
					m.insert(m.end(), t.begin(), t.end());
					if (m.size() > 64) {
						v->resize(8);
						m.resize(8);
					}
				} else {
					v->set_from_mlpp_vector(v);
				}
				break;
			case 20:
				every_read(c, v, m);
				break;
			case 21:
				if (n) {
					int mx = 0, mn = 0;
					for (int i = 1; i < n; i++) {
						mx = m[i] > m[mx] ? i : mx;
						mn = m[i] < m[mn] ? i : mn;
					}
					c.check(v->max_element() == m[mx] && v->min_element() == m[mn], "max/min element");
					int gi = v->max_element_index(), gj = v->min_element_index();
					c.check(gi >= 0 && gi < n && m[gi] == m[mx], "max_element_index %d is not a maximum", gi);
					c.check(gj >= 0 && gj < n && m[gj] == m[mn], "min_element_index %d is not a minimum", gj);
				}
				break;
			case 22: { // is_equal_approx against a perturbed copy
				FV o = m;
				float tol = s.pick({ 0.5f, 0.125f, 0.001f });
				bool want = true;
				if (n) {
					int i = (int)s.draw(n);
					float dlt = tol * s.pick({ 0.0f, 0.5f, 2.0f, -0.5f, -2.0f });
					o[i] += dlt;
					want = std::fabs(o[i] - m[i]) < tol;
				}
				if (s.one_in(4)) {
					o.push_back(x);
					want = false;
				}
				bool got = v->is_equal_approx(mkv(o), tol);
				c.check(got == want, "is_equal_approx with tolerance %g is %d", tol, got);
				c.check(mkv(o)->is_equal_approx(v, tol) == want, "is_equal_approx is not symmetric");
			} break;
			case 23: { // the text form lists every element in order
				std::string t = v->to_string().utf8().get_data();
				size_t at = 0;
				for (int i = 0; i < n; i++) {
					std::string e = String::num(m[i]).utf8().get_data();
					at = t.find(e, at);
					c.check(at != std::string::npos, "to_string '%s' lacks element %d (%s)", t.c_str(), i, e.c_str());
					at += e.size();
				}
			} break;
			case 24: {
				FV o = other(s);
				Ref<MLPPVector> w = mkv(o);
				v->set_from_mlpp_vector(w);
				m = o;
				if (!o.empty()) { // deep copy
					w->element_set(0, o[0] + 5);
				}
			} break;
		}
		same(c, v, m, "after the step");
	}
	c.no_errors("vector history");
	c.nt(m.size() >= 1 && __builtin_popcount(kinds) >= 4);
	every_read(c, v, m);
}
