// P14: values of any type, arrays and dictionaries
#include "str.h"
#include <algorithm>
#include <functional>
#include <memory>

namespace {
// the reference: a value with the sharing that Array and Dictionary have
struct Mv;
typedef std::vector<Mv> Ma;
typedef std::vector<std::pair<Mv, Mv>> Md;
struct Mv {
	enum K { NIL, BOOL, INT, REAL, STR, V2, ARR, DICT } k = NIL;
	int64_t i = 0;
	double d = 0;
	float x = 0, y = 0;
	U s;
	std::shared_ptr<Ma> a;
	std::shared_ptr<Md> m;
};
bool deep_eq(const Mv &p, const Mv &q) {
	if (p.k != q.k) {
		return false;
	}
	switch (p.k) {
		case Mv::NIL:
			return true;
		case Mv::BOOL:
		case Mv::INT:
			return p.i == q.i;
		case Mv::REAL:
			return p.d == q.d;
		case Mv::STR:
			return p.s == q.s;
		case Mv::V2:
			return p.x == q.x && p.y == q.y;
		case Mv::ARR:
			if (p.a->size() != q.a->size()) {
				return false;
			}
			for (size_t i = 0; i < p.a->size(); i++) {
				if (!deep_eq((*p.a)[i], (*q.a)[i])) {
					return false;
				}
			}
			return true;
		case Mv::DICT:
			if (p.m->size() != q.m->size()) {
				return false;
			}
			for (size_t i = 0; i < p.m->size(); i++) {
				if (!deep_eq((*p.m)[i].first, (*q.m)[i].first) || !deep_eq((*p.m)[i].second, (*q.m)[i].second)) {
					return false;
				}
			}
			return true;
	}
	return false;
}
// order of scalars: by type, then by value
int rank(const Mv &v) {
	switch (v.k) {
		case Mv::NIL:
			return Variant::NIL;
		case Mv::BOOL:
			return Variant::BOOL;
		case Mv::INT:
			return Variant::INT;
		case Mv::REAL:
			return Variant::REAL;
		case Mv::STR:
			return Variant::STRING;
		default:
			return Variant::VECTOR2;
	}
}
bool less(const Mv &p, const Mv &q) {
	if (p.k != q.k) {
		return rank(p) < rank(q);
	}
	switch (p.k) {
		case Mv::NIL:
			return false;
		case Mv::BOOL:
		case Mv::INT:
			return p.i < q.i;
		case Mv::REAL:
			return p.d < q.d;
		case Mv::STR:
			return p.s < q.s;
		default:
			return p.x != q.x ? p.x < q.x : p.y < q.y;
	}
}
Variant make(const Mv &v) {
	switch (v.k) {
		case Mv::NIL:
			return Variant();
		case Mv::BOOL:
			return v.i != 0;
		case Mv::INT:
			return v.i;
		case Mv::REAL:
			return v.d;
		case Mv::STR:
			return mk(v.s);
		case Mv::V2:
			return Vector2(v.x, v.y);
		case Mv::ARR: {
			Array a;
			for (auto &e : *v.a) {
				a.push_back(make(e));
			}
			return a;
		}
		case Mv::DICT: {
			Dictionary d;
			for (auto &e : *v.m) {
				d[make(e.first)] = make(e.second);
			}
			return d;
		}
	}
	return Variant();
}
// does a Variant hold this value?
bool holds(const Variant &g, const Mv &w) {
	switch (w.k) {
		case Mv::NIL:
			return g.get_type() == Variant::NIL;
		case Mv::BOOL:
			return g.get_type() == Variant::BOOL && bool(g) == (w.i != 0);
		case Mv::INT:
			return g.get_type() == Variant::INT && int64_t(g) == w.i;
		case Mv::REAL:
			return g.get_type() == Variant::REAL && double(g) == w.d;
		case Mv::STR:
			return g.get_type() == Variant::STRING && un(g) == w.s;
		case Mv::V2: {
			Vector2 v = g;
			return g.get_type() == Variant::VECTOR2 && v.x == w.x && v.y == w.y;
		}
		case Mv::ARR: {
			if (g.get_type() != Variant::ARRAY) {
				return false;
			}
			Array a = g;
			if (a.size() != (int)w.a->size()) {
				return false;
			}
			for (int i = 0; i < a.size(); i++) {
				if (!holds(a[i], (*w.a)[i])) {
					return false;
				}
			}
			return true;
		}
		case Mv::DICT: {
			if (g.get_type() != Variant::DICTIONARY) {
				return false;
			}
			Dictionary d = g;
			if (d.size() != (int)w.m->size()) {
				return false;
			}
			Array ks = d.keys(), vs = d.values();
			for (int i = 0; i < d.size(); i++) {
				if (!holds(ks[i], (*w.m)[i].first) || !holds(vs[i], (*w.m)[i].second) || !d.has(ks[i])) {
					return false;
				}
			}
			return true;
		}
	}
	return false;
}
std::string text(const Mv &v) {
	char b[64];
	switch (v.k) {
		case Mv::NIL:
			return "nil";
		case Mv::BOOL:
			return v.i ? "true" : "false";
		case Mv::INT:
			snprintf(b, sizeof b, "%lld", (long long)v.i);
			return b;
		case Mv::REAL:
			snprintf(b, sizeof b, "%.9gr", v.d);
			return b;
		case Mv::STR:
			return sh(v.s);
		case Mv::V2:
			snprintf(b, sizeof b, "<%g,%g>", v.x, v.y);
			return b;
		case Mv::ARR: {
			std::string t = "[";
			for (auto &e : *v.a) {
				t += text(e) + " ";
			}
			return t + "]";
		}
		case Mv::DICT: {
			std::string t = "{";
			for (auto &e : *v.m) {
				t += text(e.first) + ":" + text(e.second) + " ";
			}
			return t + "}";
		}
	}
	return "?";
}
Mv scalar(Src &s, int few = 5) {
	Mv v;
	v.k = (Mv::K)s.draw(6);
	switch (v.k) {
		case Mv::BOOL:
			v.i = s.draw(2);
			break;
		case Mv::INT:
			v.i = s.one_in(12) ? (int64_t)s.sint(INT64_C(1) << 61) : s.sint(few);
			break;
		case Mv::REAL:
			v.d = s.one_in(12) ? s.sint(1000000) / 1024.0 : s.sint(few) / 2.0;
			break;
		case Mv::STR: {
			int n = s.size(0, 3);
			for (int i = 0; i < n; i++) {
				v.s.push_back(s.pick({ U'a', U'b', U'1', U'\u00e9', U'\U0001f600' }));
			}
			break;
		}
		case Mv::V2:
			v.x = s.sint(2);
			v.y = s.sint(2);
			break;
		default:
			break;
	}
	return v;
}
void put(Md &m, const Mv &k, const Mv &v) {
	for (auto &e : m) {
		if (deep_eq(e.first, k)) {
			e.second = v;
			return;
		}
	}
	m.push_back({ k, v });
}
Mv value(Src &s, int depth) {
	int k = depth > 0 ? (int)s.draw(5) : 0;
	if (k < 3) {
		return scalar(s);
	}
	Mv v;
	int n = s.size(0, 4);
	if (k == 3) {
		v.k = Mv::ARR;
		v.a = std::make_shared<Ma>();
		for (int i = 0; i < n; i++) {
			v.a->push_back(value(s, depth - 1));
		}
	} else {
		v.k = Mv::DICT;
		v.m = std::make_shared<Md>();
		for (int i = 0; i < n; i++) {
			Mv key = scalar(s);
			put(*v.m, key, value(s, depth - 1));
		}
	}
	return v;
}
Mv deep_copy(const Mv &v) {
	Mv r = v;
	if (v.k == Mv::ARR) {
		r.a = std::make_shared<Ma>();
		for (auto &e : *v.a) {
			r.a->push_back(deep_copy(e));
		}
	} else if (v.k == Mv::DICT) {
		r.m = std::make_shared<Md>();
		for (auto &e : *v.m) {
			r.m->push_back({ e.first, deep_copy(e.second) });
		}
	}
	return r;
}
} // namespace

VT_PROP(P14, arrays, 30000) {
	// several names for fewer arrays: assigning shares, duplicating parts
	const int N = 4;
	Array a[N];
	std::shared_ptr<Ma> m[N];
	for (int i = 0; i < N; i++) {
		m[i] = std::make_shared<Ma>();
	}
	int ops = s.grown(4, 40, 240);
	size_t most = 0;
	int shared = 0;
	for (int op = 0; op < ops; op++) {
		int w = s.draw(N), o = s.draw(N), k = s.draw(24);
		Array &A = a[w];
		Ma &M = *m[w];
		int n = M.size();
		Mv v = scalar(s);
		Variant V = make(v);
		int ix = n ? (int)s.draw(n) : 0;
		auto eq = [&](const Mv &x) { return deep_eq(x, v); };
		switch (k) {
			case 0:
			case 1:
			case 2:
				c.note("[%d].push_back(%s);", w, text(v).c_str());
				s.flag() ? A.push_back(V) : A.append(V);
				M.push_back(v);
				break;
			case 3:
				c.note("[%d].push_front(%s);", w, text(v).c_str());
				A.push_front(V);
				M.insert(M.begin(), v);
				break;
			case 4: {
				int at = (int)s.draw(n + 1);
				c.note("[%d].insert(%d,%s);", w, at, text(v).c_str());
				A.insert(at, V);
				M.insert(M.begin() + at, v);
				break;
			}
			case 5:
				if (n) {
					c.note("[%d].remove(%d);", w, ix);
					A.remove(ix);
					M.erase(M.begin() + ix);
				}
				break;
			case 6: {
				c.note("[%d].erase(%s);", w, text(v).c_str());
				A.erase(V);
				auto it = std::find_if(M.begin(), M.end(), eq);
				if (it != M.end()) {
					M.erase(it);
				}
				break;
			}
			case 7: {
				int from = (int)s.draw(n + 2);
				auto it = from < n ? std::find_if(M.begin() + from, M.end(), eq) : M.end();
				int want = it == M.end() ? -1 : (int)(it - M.begin());
				c.note("[%d].find(%s,%d);", w, text(v).c_str(), from);
				same(c, A.find(V, from), want, "find");
				same(c, A.has(V), std::find_if(M.begin(), M.end(), eq) != M.end(), "has");
				same(c, A.count(V), std::count_if(M.begin(), M.end(), eq), "count");
				break;
			}
			case 8: {
				int from = s.flag() ? -1 : (int)s.range(-n - 1, n + 1);
				int f = from < 0 ? n + from : from;
				f = f < 0 || f >= n ? n - 1 : f;
				int want = -1, last = -1;
				for (int i = 0; i < n; i++) {
					want = i <= f && eq(M[i]) ? i : want;
					last = eq(M[i]) ? i : last;
				}
				c.note("[%d].rfind(%s,%d);", w, text(v).c_str(), from);
				same(c, A.rfind(V, from), want, "rfind");
				same(c, A.find_last(V), last, "find_last");
				break;
			}
			case 9:
				if (n) {
					bool back = s.flag();
					Mv x = back ? M.back() : M.front();
					c.note("[%d].pop_%s;", w, back ? "back" : "front");
					Variant g = back ? A.pop_back() : A.pop_front();
					c.check(holds(g, x), "pop gives another value than %s", text(x).c_str());
					M.erase(back ? M.end() - 1 : M.begin());
				} else {
					c.check(A.pop_back().is_null() && A.pop_front().is_null() && A.pop_at(0).is_null(), "pop of an empty array");
				}
				break;
			case 10:
				if (n) {
					bool neg = s.flag();
					Mv x = M[ix];
					c.note("[%d].pop_at(%d);", w, neg ? ix - n : ix);
					c.check(holds(A.pop_at(neg ? ix - n : ix), x), "pop_at gives another value than %s", text(x).c_str());
					M.erase(M.begin() + ix);
				}
				break;
			case 11:
				if (n) {
					c.note("[%d][%d]=%s;", w, ix, text(v).c_str());
					if (s.flag()) {
						A[ix] = V;
					} else {
						A.set(ix, V);
					}
					M[ix] = v;
				}
				break;
			case 12: {
				int sz = (int)s.draw(8);
				c.note("[%d].resize(%d);", w, sz);
				A.resize(sz);
				M.resize(sz);
				break;
			}
			case 13:
				c.note("[%d].fill(%s);", w, text(v).c_str());
				A.fill(V);
				std::fill(M.begin(), M.end(), v);
				break;
			case 14:
				c.note("[%d].append_array([%d]);", w, o);
				A.append_array(a[o]);
				{
					Ma copy = *m[o];
					M.insert(M.end(), copy.begin(), copy.end());
				}
				break;
			case 15:
				c.note("[%d].invert;", w);
				A.invert();
				std::reverse(M.begin(), M.end());
				break;
			case 16:
				if (!std::all_of(M.begin(), M.end(), [&](const Mv &x) { return x.k == M[0].k; })) {
					break; // values of different types have no order here
				}
				c.note("[%d].sort;", w);
				A.sort();
				std::stable_sort(M.begin(), M.end(), less);
				break;
			case 17:
				c.note("[%d]=[%d];", w, o);
				A = a[o];
				m[w] = m[o];
				shared += w != o;
				break;
			case 18:
				c.note("[%d]=[%d].duplicate;", w, o);
				A = a[o].duplicate(s.flag());
				m[w] = std::make_shared<Ma>(*m[o]);
				break;
			case 19: {
				// like Python's, but up to and with the end
				int b = (int)s.range(-n - 2, n + 1), e = (int)s.range(-n - 2, n + 1), st = s.pick({ 1, 1, 2, 3, -1, -2 });
				Ma want;
				bool none = n == 0 || (st > 0 ? b >= n || e < -n : b < -n || e >= n);
				if (!none) {
					int bb = std::max(-n, std::min(b, n - 1)), ee = std::max(-n, std::min(e, n - 1));
					bb += bb < 0 ? n : 0;
					ee += ee < 0 ? n : 0;
					for (int i = bb; st > 0 ? i <= ee : i >= ee; i += st) {
						want.push_back(M[i]);
					}
				}
				c.note("[%d].slice(%d,%d,%d);", w, b, e, st);
				Array g = A.slice(b, e, st);
				same(c, g.size(), want.size(), "slice, size");
				for (int i = 0; i < g.size(); i++) {
					c.check(holds(g[i], want[i]), "slice, element %d", i);
				}
				break;
			}
			case 20: {
				if (!std::is_sorted(M.begin(), M.end(), less) || !std::all_of(M.begin(), M.end(), [&](const Mv &x) { return x.k == v.k; })) {
					break;
				}
				c.note("[%d].bsearch(%s);", w, text(v).c_str());
				same(c, A.bsearch(V, true), std::lower_bound(M.begin(), M.end(), v, less) - M.begin(), "bsearch before");
				same(c, A.bsearch(V, false), std::upper_bound(M.begin(), M.end(), v, less) - M.begin(), "bsearch after");
				break;
			}
			case 21: {
				// the smallest and largest of numbers or of strings
				Ma nums;
				for (auto &x : M) {
					if (x.k == Mv::INT) {
						nums.push_back(x);
					}
				}
				Array b;
				for (auto &x : nums) {
					b.push_back(make(x));
				}
				if (nums.empty()) {
					c.check(b.min().is_null() && b.max().is_null(), "min or max of nothing");
				} else {
					c.check(holds(b.min(), *std::min_element(nums.begin(), nums.end(), less)), "min");
					c.check(holds(b.max(), *std::max_element(nums.begin(), nums.end(), less)), "max");
				}
				break;
			}
			case 22:
				if (s.one_in(4)) {
					c.note("[%d].clear;", w);
					A.clear();
					M.clear();
				}
				break;
			default: {
				// comparison, contents and hash
				Mv p, q;
				p.k = q.k = Mv::ARR;
				p.a = m[w];
				q.a = m[o];
				bool want = deep_eq(p, q);
				same(c, A.deep_equal(a[o]), want, "deep_equal");
				same(c, A == a[o], m[w] == m[o], "== of arrays that are the same one");
				if (want) {
					same(c, A.hash(), a[o].hash(), "hash of equal arrays");
				}
				same(c, A < a[o], std::lexicographical_compare(m[w]->begin(), m[w]->end(), m[o]->begin(), m[o]->end(), less), "order of arrays");
				same(c, A <= a[o], !std::lexicographical_compare(m[o]->begin(), m[o]->end(), m[w]->begin(), m[w]->end(), less), "<= of arrays");
				Array sh_ = A.duplicate();
				sh_.shuffle();
				std::vector<bool> used(n, false);
				same(c, sh_.size(), m[w]->size(), "shuffle, size");
				for (auto &x : *m[w]) {
					bool found = false;
					for (int i = 0; i < sh_.size() && !found; i++) {
						if (!used[i] && holds(sh_[i], x)) {
							used[i] = found = true;
						}
					}
					c.check(found, "shuffle loses %s", text(x).c_str());
				}
			}
		}
		for (int i = 0; i < N; i++) {
			same(c, a[i].size(), m[i]->size(), "size");
			same(c, a[i].empty(), m[i]->empty(), "empty");
			for (size_t j = 0; j < m[i]->size(); j++) {
				c.check(holds(a[i][j], (*m[i])[j]), "array %d, element %zu is not %s", i, j, text((*m[i])[j]).c_str());
			}
			most = std::max(most, m[i]->size());
			if (!m[i]->empty()) {
				c.check(holds(a[i].front(), m[i]->front()) && holds(a[i].back(), m[i]->back()), "front or back");
			}
		}
	}
	c.nt(most >= 3 && shared > 0);
	c.no_errors("arrays");
}

VT_PROP(P14, dictionaries, 30000) {
	const int N = 3;
	Dictionary a[N];
	std::shared_ptr<Md> m[N];
	for (int i = 0; i < N; i++) {
		m[i] = std::make_shared<Md>();
	}
	int ops = s.grown(4, 40, 240);
	size_t most = 0;
	for (int op = 0; op < ops; op++) {
		int w = s.draw(N), o = s.draw(N), k = s.draw(14);
		Dictionary &A = a[w];
		Md &M = *m[w];
		Mv key = scalar(s, 3), v = scalar(s, 3);
		Variant K = make(key), V = make(v);
		auto it = std::find_if(M.begin(), M.end(), [&](const std::pair<Mv, Mv> &e) { return deep_eq(e.first, key); });
		bool in = it != M.end();
		switch (k) {
			case 0:
			case 1:
			case 2:
			case 3:
				c.note("[%d][%s]=%s;", w, text(key).c_str(), text(v).c_str());
				A[K] = V;
				put(M, key, v);
				break;
			case 4:
			case 5:
				c.note("[%d].erase(%s);", w, text(key).c_str());
				same(c, A.erase(K), in, "erase");
				if (in) {
					M.erase(it);
				}
				break;
			case 6: {
				same(c, A.has(K), in, "has");
				const Variant *p = A.getptr(K);
				same(c, p != nullptr, in, "getptr");
				Mv nil;
				c.check(holds(A.get(K, V), in ? it->second : v), "get with a default");
				c.check(holds(A.get_valid(K), in ? it->second : nil), "get_valid");
				c.check(!p || holds(*p, it->second), "value of getptr");
				break;
			}
			case 7: {
				c.note("[%d].get_or_add(%s,%s);", w, text(key).c_str(), text(v).c_str());
				Variant g = A.get_or_add(K, V);
				c.check(holds(g, in ? it->second : v), "get_or_add");
				if (!in) {
					M.push_back({ key, v });
				}
				break;
			}
			case 8: {
				bool over = s.flag();
				c.note("[%d].merge([%d],%d);", w, o, (int)over);
				Md other = *m[o];
				A.merge(a[o], over);
				for (auto &e : other) {
					bool has = std::any_of(M.begin(), M.end(), [&](const std::pair<Mv, Mv> &x) { return deep_eq(x.first, e.first); });
					if (over || !has) {
						put(M, e.first, e.second);
					}
				}
				break;
			}
			case 9:
				c.note("[%d]=[%d];", w, o);
				A = a[o];
				m[w] = m[o];
				break;
			case 10:
				c.note("[%d]=[%d].duplicate;", w, o);
				A = a[o].duplicate(s.flag());
				m[w] = std::make_shared<Md>(*m[o]);
				break;
			case 11: {
				auto f = std::find_if(M.begin(), M.end(), [&](const std::pair<Mv, Mv> &e) { return deep_eq(e.second, v); });
				Mv nil;
				c.check(holds(A.find_key(V), f == M.end() ? nil : f->first), "find_key");
				Array ks;
				bool all = true;
				for (int i = 0; i < 2; i++) {
					Mv x = scalar(s, 3);
					ks.push_back(make(x));
					all = all && std::any_of(M.begin(), M.end(), [&](const std::pair<Mv, Mv> &e) { return deep_eq(e.first, x); });
				}
				same(c, A.has_all(ks), all, "has_all");
				break;
			}
			case 12:
				if (s.one_in(4)) {
					c.note("[%d].clear;", w);
					A.clear();
					M.clear();
				}
				break;
			default: {
				Mv p, q;
				p.k = q.k = Mv::DICT;
				p.m = m[w];
				q.m = m[o];
				bool want = deep_eq(p, q);
				same(c, A.deep_equal(a[o]), want, "deep_equal");
				same(c, A == a[o], m[w] == m[o], "== of dictionaries that are the same one");
				if (want) {
					same(c, A.hash(), a[o].hash(), "hash of equal dictionaries");
				}
			}
		}
		for (int i = 0; i < N; i++) {
			Mv w2;
			w2.k = Mv::DICT;
			w2.m = m[i];
			c.check(holds(a[i], w2), "dictionary %d is not %s", i, text(w2).c_str());
			same(c, a[i].size(), m[i]->size(), "size");
			same(c, a[i].empty(), m[i]->empty(), "empty");
			int n = 0;
			for (const Variant *e = a[i].next(nullptr); e; e = a[i].next(e)) {
				c.check(n < (int)m[i]->size() && holds(*e, (*m[i])[n].first), "key %d in order of insertion", n);
				c.check(holds(a[i].get_key_at_index(n), (*m[i])[n].first) && holds(a[i].get_value_at_index(n), (*m[i])[n].second), "entry at index %d", n);
				n++;
			}
			same(c, n, m[i]->size(), "keys visited");
			most = std::max(most, m[i]->size());
		}
	}
	c.nt(most >= 3);
	c.no_errors("dictionaries");
}

// a slice takes the elements themselves, a deep one copies of whatever they hold
VT_PROP(P14, deep_slices, 6000) {
	int n = s.size(0, 6);
	Array a;
	Ma m;
	for (int i = 0; i < n; i++) {
		Mv v = value(s, 3);
		m.push_back(v);
		a.push_back(make(v));
	}
	int b = (int)s.range(-n - 1, n), e = (int)s.range(-n - 1, n), st = s.pick({ 1, -1, 2, -2 });
	bool deep = s.one_in(3) ? false : true;
	c.note("n=%d slice(%d,%d,%d,%d)", n, b, e, st, deep);
	Array g = a.slice(b, e, st, deep);
	std::vector<int> from; // which elements it has
	bool none = n == 0 || (st > 0 ? b >= n || e < -n : b < -n || e >= n);
	if (!none) {
		int bb = std::max(-n, std::min(b, n - 1)), ee = std::max(-n, std::min(e, n - 1));
		bb += bb < 0 ? n : 0;
		ee += ee < 0 ? n : 0;
		for (int i = bb; st > 0 ? i <= ee : i >= ee; i += st) {
			from.push_back(i);
		}
	}
	same(c, g.size(), from.size(), "size of a slice");
	std::function<bool(const Variant &, const Variant &, bool)> shares = [&](const Variant &p, const Variant &q, bool within) { // do they share what they hold?
		if (p.get_type() == Variant::ARRAY) {
			Array x = p, y = q;
			if (x.id() == y.id()) {
				return true;
			}
			for (int i = 0; within && i < x.size(); i++) {
				if (shares(x[i], y[i], true)) {
					return true;
				}
			}
		} else if (p.get_type() == Variant::DICTIONARY) {
			Dictionary x = p, y = q;
			if (x.id() == y.id()) {
				return true;
			}
			for (int i = 0; within && i < x.size(); i++) {
				if (shares(x.get_value_at_index(i), y.get_value_at_index(i), true)) {
					return true;
				}
			}
		}
		return false;
	};
	int nested = 0;
	for (size_t i = 0; i < from.size(); i++) {
		const Variant &was = a[from[i]];
		c.check(g[(int)i].deep_equal(make(m[from[i]])), "element %d of the slice is not element %d", (int)i, from[i]);
		if (was.get_type() == Variant::ARRAY || was.get_type() == Variant::DICTIONARY) {
			nested++;
			if (deep) {
				c.check(!shares(was, g[(int)i], true), "element %d of a deep slice shares what element %d holds", (int)i, from[i]);
			} else {
				c.check(shares(was, g[(int)i], false), "element %d of a slice is a copy", (int)i);
			}
		}
	}
	for (int i = 0; i < n; i++) {
		c.check(a[i].deep_equal(make(m[i])), "slicing changed element %d", i);
	}
	c.nt(nested > 0);
	c.no_errors("a slice");
}

VT_PROP(P14, nested_values, 30000) {
	Mv v = value(s, 3), w = s.one_in(3) ? deep_copy(v) : value(s, 3);
	Variant a = make(v), b = make(w), a2 = make(deep_copy(v));
	c.note("a=%s b=%s", text(v).c_str(), text(w).c_str());
	c.nt(v.k >= Mv::ARR);
	c.check(holds(a, v), "a value is not what it was made of");
	same(c, a.deep_equal(b), deep_eq(v, w), "deep_equal");
	same(c, b.deep_equal(a), deep_eq(v, w), "deep_equal the other way");
	c.check(a.deep_equal(a2) && a.hash() == a2.hash(), "equal values differ or hash differently");
	// a deep copy shares nothing
	Variant d = a.duplicate(true);
	c.check(holds(d, v), "deep copy");
	std::function<void(Variant &)> spoil = [&](Variant &x) {
		if (x.get_type() == Variant::ARRAY) {
			Array y = x;
			for (int i = 0; i < y.size(); i++) {
				spoil(y[i]);
			}
			y.push_back(77);
		} else if (x.get_type() == Variant::DICTIONARY) {
			Dictionary y = x;
			Array ks = y.keys();
			for (int i = 0; i < ks.size(); i++) {
				spoil(y[ks[i]]);
			}
			y["spoiled"] = 1;
		}
	};
	spoil(d);
	c.check(holds(a, v), "changing a deep copy changes the original");
	// assignment shares arrays and dictionaries, and nothing else
	Variant sh_ = a;
	spoil(sh_);
	if (v.k == Mv::ARR) {
		c.check(Array(a).size() == (int)v.a->size() + 1, "assignment of an array copies");
	} else if (v.k == Mv::DICT) {
		c.check(Dictionary(a).has("spoiled"), "assignment of a dictionary copies");
	} else {
		c.check(holds(a, v), "assignment of a value shares");
	}
	// a shallow copy shares what lies inside
	Variant e = make(v), f = e.duplicate(false);
	if (v.k == Mv::ARR && !v.a->empty() && (*v.a)[0].k == Mv::ARR) {
		Array inner = Array(f)[0];
		inner.push_back(5);
		c.check(Array(Array(e)[0]).size() == (int)(*v.a)[0].a->size() + 1, "a shallow copy copied an inner array");
		Array(f).push_back(3);
		c.check(Array(e).size() == (int)v.a->size(), "a shallow copy shares the outer array");
	}
	c.no_errors("nested values");
}

namespace {
bool truth(const Mv &v) {
	switch (v.k) {
		case Mv::BOOL:
		case Mv::INT:
			return v.i != 0;
		case Mv::REAL:
			return v.d != 0;
		case Mv::STR:
			return !v.s.empty();
		case Mv::V2:
			return v.x != 0 || v.y != 0;
		case Mv::ARR:
			return !v.a->empty();
		case Mv::DICT:
			return !v.m->empty();
		default:
			return false;
	}
}
} // namespace

VT_PROP(P14, operators, 60000) {
	Mv p = scalar(s, 20), q = scalar(s, 20);
	if (s.flag()) {
		q.k == p.k ? (void)0 : (void)(q = scalar(s, 20));
	}
	p.i = p.k == Mv::INT && std::llabs(p.i) > (1 << 30) ? p.i >> 33 : p.i;
	q.i = q.k == Mv::INT && std::llabs(q.i) > (1 << 30) ? q.i >> 33 : q.i;
	Variant a = make(p), b = make(q), r;
	bool ok;
	c.note("a=%s b=%s", text(p).c_str(), text(q).c_str());
	auto ev = [&](Variant::Operator op) {
		ok = false;
		r = Variant();
		Variant::evaluate(op, a, b, r, ok);
		return ok;
	};
	auto is_num = [](const Mv &v) { return v.k == Mv::INT || v.k == Mv::REAL; };
	auto num = [](const Mv &v) { return v.k == Mv::INT ? (double)v.i : v.d; };
	same(c, a.booleanize(), truth(p), "booleanize");
	c.check(ev(Variant::OP_AND) && bool(r) == (truth(p) && truth(q)), "and");
	c.check(ev(Variant::OP_OR) && bool(r) == (truth(p) || truth(q)), "or");
	c.check(ev(Variant::OP_XOR) && bool(r) == (truth(p) != truth(q)), "xor");
	c.check(ev(Variant::OP_NOT) && bool(r) == !truth(p), "not");
	if (p.k == Mv::INT && q.k == Mv::INT) {
		c.nt(p.i && q.i);
		struct {
			Variant::Operator op;
			int64_t want;
			const char *name;
		} t[] = {
			{ Variant::OP_ADD, p.i + q.i, "+" },
			{ Variant::OP_SUBTRACT, p.i - q.i, "-" },
			{ Variant::OP_MULTIPLY, p.i * q.i, "*" },
			{ Variant::OP_BIT_AND, p.i & q.i, "&" },
			{ Variant::OP_BIT_OR, p.i | q.i, "|" },
			{ Variant::OP_BIT_XOR, p.i ^ q.i, "^" },
			{ Variant::OP_BIT_NEGATE, ~p.i, "~" },
			{ Variant::OP_NEGATE, -p.i, "unary -" },
			{ Variant::OP_POSITIVE, p.i, "unary +" },
		};
		for (auto &k : t) {
			c.check(ev(k.op) && r.get_type() == Variant::INT && int64_t(r) == k.want, "%s of whole numbers gives %lld", k.name, (long long)int64_t(r));
		}
		if (q.i != 0) {
			c.check(ev(Variant::OP_DIVIDE) && int64_t(r) == p.i / q.i, "/ of whole numbers");
			c.check(ev(Variant::OP_MODULE) && int64_t(r) == p.i % q.i, "%% of whole numbers");
		} else {
			c.check(!ev(Variant::OP_DIVIDE), "division by zero is valid");
			c.check(!ev(Variant::OP_MODULE), "remainder by zero is valid");
		}
		if (q.i >= 0 && q.i < 30 && p.i >= 0) {
			c.check(ev(Variant::OP_SHIFT_LEFT) && int64_t(r) == p.i << q.i, "<<");
			c.check(ev(Variant::OP_SHIFT_RIGHT) && int64_t(r) == p.i >> q.i, ">>");
		}
	} else if (is_num(p) && is_num(q)) {
		c.nt(num(p) != 0 && num(q) != 0);
		double x = num(p), y = num(q);
		c.check(ev(Variant::OP_ADD) && r.get_type() == Variant::REAL, "+ of numbers");
		c.near(double(r), x + y, 1e-9 * (1 + std::fabs(x) + std::fabs(y)), "+ of numbers");
		c.check(ev(Variant::OP_SUBTRACT), "- of numbers");
		c.near(double(r), x - y, 1e-9 * (1 + std::fabs(x) + std::fabs(y)), "- of numbers");
		c.check(ev(Variant::OP_MULTIPLY), "* of numbers");
		c.near(double(r), x * y, 1e-9 * (1 + std::fabs(x * y)), "* of numbers");
		if (y != 0) {
			c.check(ev(Variant::OP_DIVIDE), "/ of numbers");
			c.near(double(r), x / y, 1e-9 * (1 + std::fabs(x / y)), "/ of numbers");
		}
	} else if (p.k == Mv::STR && q.k == Mv::STR) {
		c.nt(!p.s.empty() && !q.s.empty());
		c.check(ev(Variant::OP_ADD), "+ of strings");
		same(c, String(r), p.s + q.s, "+ of strings");
		c.check(ev(Variant::OP_IN) && bool(r) == (!p.s.empty() && q.s.find(p.s) != NP) || p.s.empty(), "in of strings");
	} else if (p.k == Mv::V2 && q.k == Mv::V2) {
		c.nt();
		c.check(ev(Variant::OP_ADD) && Vector2(r) == Vector2(p.x + q.x, p.y + q.y), "+ of vectors");
		c.check(ev(Variant::OP_SUBTRACT) && Vector2(r) == Vector2(p.x - q.x, p.y - q.y), "- of vectors");
		c.check(ev(Variant::OP_MULTIPLY) && Vector2(r) == Vector2(p.x * q.x, p.y * q.y), "* of vectors");
		c.check(ev(Variant::OP_NEGATE) && Vector2(r) == Vector2(-p.x, -p.y), "unary - of a vector");
	} else if (p.k == Mv::V2 && is_num(q)) {
		c.nt();
		c.check(ev(Variant::OP_MULTIPLY), "vector by number");
		Vector2 g = r;
		c.near(g.x, p.x * num(q), 1e-3 * (1 + std::fabs(num(q))), "vector by number, x");
		c.near(g.y, p.y * num(q), 1e-3 * (1 + std::fabs(num(q))), "vector by number, y");
	}
	// comparisons
	bool numeric = is_num(p) && is_num(q);
	if (p.k == q.k || numeric) {
		bool eq = numeric ? num(p) == num(q) : deep_eq(p, q), lt = numeric ? num(p) < num(q) : less(p, q);
		c.check(ev(Variant::OP_EQUAL) && bool(r) == eq, "== is %d", (int)!eq);
		c.check(ev(Variant::OP_NOT_EQUAL) && bool(r) == !eq, "!= is %d", (int)eq);
		if (p.k != Mv::NIL) {
			c.check(ev(Variant::OP_LESS) && bool(r) == lt, "< is %d", (int)!lt);
			c.check(ev(Variant::OP_GREATER) && bool(r) == (!lt && !eq), "> is wrong");
			if (p.k != Mv::BOOL) {
				c.check(ev(Variant::OP_LESS_EQUAL) && bool(r) == (lt || eq), "<= is wrong");
				c.check(ev(Variant::OP_GREATER_EQUAL) && bool(r) == !lt, ">= is wrong");
			}
		}
	}
	same(c, a == b, deep_eq(p, q), "== of values of the same type");
	same(c, a != b, !deep_eq(p, q), "!=");
	same(c, a < b, less(p, q), "order of values, types first");
	same(c, a.hash_compare(b), deep_eq(p, q), "hash_compare");
	if (deep_eq(p, q)) {
		same(c, a.hash(), b.hash(), "hash of equal values");
	}
	c.no_errors("operators");
}

VT_PROP(P14, conversions, 60000) {
	Mv p = scalar(s, 300);
	Variant a = make(p);
	c.note("a=%s", text(p).c_str());
	c.nt(truth(p));
	switch (p.k) {
		case Mv::BOOL:
			same(c, int(a), p.i, "bool to int");
			same(c, double(a) == p.i, true, "bool to double");
			same(c, String(a), p.i ? U"True" : U"False", "bool to text");
			break;
		case Mv::INT: {
			same(c, int64_t(a), p.i, "int to int64_t");
			same(c, int(a), (int)p.i, "int to int");
			same(c, (uint64_t)a, (uint64_t)p.i, "int to uint64_t");
			same(c, (short)a, (short)p.i, "int to short");
			same(c, (unsigned char)a, (unsigned char)p.i, "int to unsigned char");
			c.check(double(a) == (double)p.i && float(a) == (float)p.i, "int to real");
			same(c, bool(a), p.i != 0, "int to bool");
			char b[32];
			snprintf(b, sizeof b, "%lld", (long long)p.i);
			same(c, String(a), U(b, b + strlen(b)), "int to text");
			break;
		}
		case Mv::REAL:
			c.check(double(a) == p.d && float(a) == (float)p.d, "real to real");
			same(c, int64_t(a), (int64_t)p.d, "real to int64_t");
			same(c, int(a), (int)p.d, "real to int");
			same(c, bool(a), p.d != 0, "real to bool");
			c.near(String(a).to_double(), p.d, 1e-4 * (1 + std::fabs(p.d)), "real to text and back");
			break;
		case Mv::STR: {
			same(c, String(a), p.s, "text to text");
			same(c, un(String(a.operator StringName())) == p.s, true, "text to name");
			Variant n = s.sint(100000);
			same(c, int64_t(Variant(String(n))), int64_t(n), "text of a number to int");
			Variant h = 0.25 * s.sint(1000);
			c.near(double(Variant(String(h))), double(h), 1e-6, "text of a number to real");
			break;
		}
		case Mv::V2: {
			Vector2 v = a;
			c.check(v.x == p.x && v.y == p.y, "vector");
			Vector2i i = a;
			c.check(i.x == (int)p.x && i.y == (int)p.y, "vector to whole vector");
			Vector3 v3 = a;
			c.check(v3.x == p.x && v3.y == p.y && v3.z == 0, "vector to three components");
			break;
		}
		default:
			c.check(a.is_null() && !bool(a) && int(a) == 0 && double(a) == 0, "nothing");
	}
	// every type goes in and comes out
	float f[16];
	for (auto &x : f) {
		x = s.sint(50) / 4.0f;
	}
	c.check(Vector3(Variant(Vector3(f[0], f[1], f[2]))) == Vector3(f[0], f[1], f[2]), "Vector3");
	c.check(Vector4(Variant(Vector4(f[0], f[1], f[2], f[3]))) == Vector4(f[0], f[1], f[2], f[3]), "Vector4");
	c.check(Rect2(Variant(Rect2(f[0], f[1], f[2], f[3]))) == Rect2(f[0], f[1], f[2], f[3]), "Rect2");
	c.check(Vector2i(Variant(Vector2i(3, -f[1]))) == Vector2i(3, -f[1]), "Vector2i");
	c.check(Vector3i(Variant(Vector3i(3, f[1], f[2]))) == Vector3i(3, f[1], f[2]), "Vector3i");
	c.check(Variant(Rect2i(3, f[1], f[2], 9)).operator Rect2i() == Rect2i(3, f[1], f[2], 9), "Rect2i");
	c.check(Color(Variant(Color(f[0], f[1], f[2], f[3]))) == Color(f[0], f[1], f[2], f[3]), "Color");
	Plane pl(f[0], f[1], f[2], f[3]);
	Variant vp = pl;
	c.check(Plane(vp) == pl, "Plane");
	AABB bx(Vector3(f[0], f[1], f[2]), Vector3(f[3], f[4], f[5]));
	Variant vb = bx;
	c.check(AABB(vb) == bx, "AABB");
	Quaternion q(f[0], f[1], f[2], f[3]);
	c.check(Variant(q).operator Quaternion() == q, "Quaternion");
	Basis ba(f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8]);
	Variant vba = ba, vba2;
	vba2 = vba;
	vba = 3;
	c.check(vba2.operator Basis() == ba, "Basis");
	Transform tf(ba, Vector3(f[9], f[10], f[11]));
	Variant vt = tf, vt2 = vt;
	vt = Variant();
	c.check(vt2.operator Transform() == tf, "Transform");
	Transform2D t2(f[0], f[1], f[2], f[3], f[4], f[5]);
	Variant vt3 = t2;
	c.check(Transform2D(vt3) == t2 && vt3 == Variant(t2) && !(vt3 != Variant(t2)), "Transform2D");
	c.check(vt2.hash() == Variant(tf).hash() && vt2 == Variant(tf) && vt2.hash_compare(Variant(tf)) && vt2 != Variant(Transform()) == !(tf == Transform()), "hash and equality of transforms");
	PoolVector<int> pi;
	PoolVector<real_t> pr;
	PoolVector<String> ps;
	PoolVector<Vector3> p3;
	PoolVector<uint8_t> pb;
	Array ar;
	int n = s.size(0, 6);
	for (int i = 0; i < n; i++) {
		pi.push_back(i * 3);
		pr.push_back(f[i]);
		ps.push_back(mk(p.s) + itos(i));
		p3.push_back(Vector3(f[i], i, 0));
		pb.push_back(i * 40);
		ar.push_back(i * 3);
	}
	Variant ai = pi, as = ps, a3 = p3, ab = pb, arr = pr;
	PoolVector<int> gi = ai;
	PoolVector<String> gs = as;
	PoolVector<Vector3> g3 = a3;
	PoolVector<uint8_t> gb = ab;
	PoolVector<real_t> gr = arr, ri = ai;
	Array ga = ai;
	PoolVector<int> ia = Variant(ar);
	c.check(gi.size() == n && gs.size() == n && g3.size() == n && gb.size() == n && gr.size() == n && ri.size() == n && ga.size() == n && ia.size() == n, "sizes of arrays");
	for (int i = 0; i < n; i++) {
		c.check(gi[i] == i * 3 && gs[i] == mk(p.s) + itos(i) && g3[i] == Vector3(f[i], i, 0) && gb[i] == i * 40 && gr[i] == f[i] && ri[i] == i * 3 && int(ga[i]) == i * 3 && ia[i] == i * 3, "element %d of arrays", i);
	}
	c.check(Variant::can_convert(Variant::INT, Variant::REAL) && Variant::can_convert(Variant::REAL, Variant::STRING) && Variant::can_convert(Variant::ARRAY, Variant::POOL_INT_ARRAY) && !Variant::can_convert(Variant::VECTOR2, Variant::DICTIONARY), "can_convert");
	c.no_errors("conversions");
}

VT_PROP(P14, indexing, 40000) {
	// by name, by index and step by step
	bool ok = false;
	float f[4] = { s.sint(20) / 2.0f, s.sint(20) / 2.0f, s.sint(20) / 2.0f, s.sint(20) / 2.0f };
	Variant v3 = Vector3(f[0], f[1], f[2]);
	const char *xyz[] = { "x", "y", "z" };
	c.note("%g %g %g %g", f[0], f[1], f[2], f[3]);
	c.nt(f[0] != f[1] && f[1] != f[2]);
	int k = s.draw(3);
	c.near(double(v3.get_named(xyz[k], &ok)), f[k], 0, "get_named");
	c.check(ok, "get_named of %s", xyz[k]);
	c.near(double(v3.get(xyz[k], &ok)), f[k], 0, "get by name");
	c.check(ok, "get of %s", xyz[k]);
	c.near(double(v3.get(k, &ok)), f[k], 0, "get by index");
	c.check(ok, "get of index %d", k);
	Variant w = v3;
	switch (s.draw(3)) {
		case 0:
			w.set_named(xyz[k], f[3], &ok);
			break;
		case 1:
			w.set(xyz[k], f[3], &ok);
			break;
		default:
			w.set(k, f[3], &ok);
	}
	Vector3 want(f[0], f[1], f[2]);
	want[k] = f[3];
	c.check(ok && Vector3(w) == want && Vector3(v3) == Vector3(f[0], f[1], f[2]), "set of one component");
	v3.get(3, &ok);
	c.check(!ok, "component 3 of three");
	v3.get_named("w", &ok);
	c.check(!ok, "component w of three");
	// colours, rectangles, planes, boxes
	Variant col = Color(f[0], f[1], f[2], f[3]);
	const char *rgba[] = { "r", "g", "b", "a" };
	for (int i = 0; i < 4; i++) {
		c.near(double(col.get_named(rgba[i], &ok)), f[i], 0, "colour component %d", i);
		c.near(double(col.get(i, &ok)), f[i], 0, "colour component by index %d", i);
	}
	Variant rc = Rect2(f[0], f[1], f[2], f[3]);
	c.check(Vector2(rc.get_named("position", &ok)) == Vector2(f[0], f[1]) && Vector2(rc.get_named("size", &ok)) == Vector2(f[2], f[3]) && Vector2(rc.get_named("end", &ok)) == Vector2(f[0] + f[2], f[1] + f[3]), "parts of a rectangle");
	rc.set_named("size", Vector2(1, 2), &ok);
	c.check(ok && Rect2(rc) == Rect2(f[0], f[1], 1, 2), "set the size of a rectangle");
	Variant tf = Transform(Basis(), Vector3(f[0], f[1], f[2]));
	c.check(Vector3(tf.get_named("origin", &ok)) == Vector3(f[0], f[1], f[2]) && ok, "origin of a transform");
	// arrays
	Array ar;
	PoolVector<int> pi;
	U text_;
	int n = s.size(0, 6);
	for (int i = 0; i < n; i++) {
		ar.push_back(i * 10);
		pi.push_back(i * 10);
		text_.push_back(U'a' + i);
	}
	Variant va = ar, vp = pi, vs = mk(text_);
	int ix = (int)s.range(-n - 1, n);
	bool in = ix >= -n && ix < n;
	int at = ix < 0 ? ix + n : ix;
	Variant g = va.get(ix, &ok);
	same(c, ok, in, "validity of an index of an array");
	c.check(!in || int(g) == at * 10, "element %d of an array", ix);
	g = vp.get(ix, &ok);
	same(c, ok, in, "validity of an index of an array of numbers");
	c.check(!in || int(g) == at * 10, "element %d of an array of numbers", ix);
	g = vs.get(ix, &ok);
	same(c, ok, in, "validity of an index of a string");
	c.check(!in || un(g) == text_.substr(at, 1), "character %d", ix);
	vp.set(ix, 7, &ok);
	same(c, ok, in, "validity of setting an array of numbers");
	PoolVector<int> gp = vp;
	for (int i = 0; i < n; i++) {
		c.check(gp[i] == (in && i == at ? 7 : i * 10), "array of numbers after setting %d", ix);
		c.check(pi[i] == i * 10, "setting an element of a copy changes the original");
	}
	va.set(ix, 7, &ok);
	same(c, ok, in, "validity of setting an array");
	for (int i = 0; i < n; i++) {
		c.check(int(ar[i]) == (in && i == at ? 7 : i * 10), "array after setting %d", ix);
	}
	if (in) {
		va.set(ix, at * 10, &ok);
	}
	Dictionary di;
	for (int i = 0; i < n; i++) {
		di[String("k") + itos(i)] = i;
	}
	Variant vd = di;
	int key = (int)s.draw(8);
	String ks = String("k") + itos(key);
	g = vd.get(ks, &ok);
	same(c, ok, key < n, "validity of a key");
	c.check(key >= n || int(g) == key, "value of a key");
	same(c, vd.in(ks, &ok), key < n, "in a dictionary");
	same(c, va.in(key * 10, &ok), key < n, "in an array");
	same(c, vp.in(key * 10, &ok), key < n && !(in && key == at && at * 10 != 7), "in an array of numbers");
	vd.set(ks, 99, &ok);
	c.check(ok && int(di[ks]) == 99 && di.size() == std::max(n, key < n ? n : n + 1), "set by key");
	// step by step
	auto walk = [&](const Variant &x) {
		std::vector<Variant> out;
		Variant it;
		bool good = false;
		if (x.iter_init(it, good)) {
			do {
				bool g2 = false;
				out.push_back(x.iter_get(it, g2));
				c.check(g2, "iter_get is not valid");
				if (out.size() > 100) {
					c.fail("iteration does not end");
				}
			} while (x.iter_next(it, good));
		}
		c.check(good, "iteration is not valid");
		return out;
	};
	std::vector<Variant> o = walk(va);
	same(c, o.size(), n, "steps through an array");
	for (int i = 0; i < n; i++) {
		c.check(int(o[i]) == i * 10, "step %d through an array", i);
	}
	o = walk(vs);
	same(c, o.size(), n, "steps through a string");
	for (int i = 0; i < n; i++) {
		c.check(un(o[i]) == text_.substr(i, 1), "step %d through a string", i);
	}
	o = walk(vd);
	Array keys = di.keys();
	same(c, o.size(), keys.size(), "steps through a dictionary");
	for (int i = 0; i < keys.size(); i++) {
		c.check(o[i] == keys[i], "step %d through a dictionary", i);
	}
	o = walk(Variant(n));
	same(c, o.size(), n, "steps to a number");
	for (int i = 0; i < n; i++) {
		c.check(int(o[i]) == i, "step %d to a number", i);
	}
	int lo = (int)s.sint(5), hi = (int)s.sint(5), st = s.pick({ 1, 2, 3, -1, -2 });
	o = walk(Variant(Vector3(lo, hi, st)));
	size_t cnt = 0;
	for (int i = lo; st > 0 ? i < hi : i > hi; i += st) {
		c.check(cnt < o.size() && double(o[cnt]) == i, "step %zu from %d to %d by %d", cnt, lo, hi, st);
		cnt++;
	}
	same(c, o.size(), cnt, "steps of a range");
	// between two values
	Variant r;
	float t = s.real_in(0, 1);
	Variant::interpolate(Variant(f[0]), Variant(f[1]), t, r);
	c.near(double(r), f[0] + (f[1] - f[0]) * t, 1e-5, "interpolate numbers");
	Variant::interpolate(Variant(Vector2(f[0], f[1])), Variant(Vector2(f[2], f[3])), t, r);
	c.near(Vector2(r).x, f[0] + (f[2] - f[0]) * t, 1e-4, "interpolate vectors, x");
	c.near(Vector2(r).y, f[1] + (f[3] - f[1]) * t, 1e-4, "interpolate vectors, y");
	Variant::interpolate(Variant(10), Variant(20), t, r);
	c.check(r.get_type() == Variant::INT && std::fabs(int(r) - (10 + 10 * t)) <= 1, "interpolate whole numbers");
	c.no_errors("indexing");
}

VT_PROP(P14, any_operation_is_safe, 40000) {
	// any operator and any index on any two types is answered or refused, never a crash
	auto any = [&](int depth) -> Variant {
		switch (s.draw(24)) {
			case 0:
				return Vector3(s.real(4), s.real(4), s.real(4));
			case 1:
				return Vector4(s.real(4), s.real(4), s.real(4), 1);
			case 2:
				return Rect2(s.real(4), s.real(4), 1, 2);
			case 3:
				return Color(s.real_in(0, 1), 0.5, 0.25);
			case 4:
				return Transform2D(s.real(3), Vector2(1, 2));
			case 5:
				return Transform();
			case 6:
				return Basis();
			case 7:
				return Quaternion();
			case 8:
				return AABB(Vector3(), Vector3(1, 1, 1));
			case 9:
				return Plane(0, 1, 0, 2);
			case 10:
				return Vector2i(s.sint(3), s.sint(3));
			case 11:
				return Vector3i(s.sint(3), 1, s.sint(3));
			case 12:
				return Vector4i(s.sint(3), 1, s.sint(3), 0);
			case 13:
				return Rect2i(0, 0, s.sint(3), 1);
			case 14:
				return StringName(String("n") + itos(s.draw(3)));
			case 15: {
				PoolVector<String> p;
				p.push_back("x");
				return p;
			}
			case 16: {
				PoolVector<Vector2> p;
				p.push_back(Vector2(1, 2));
				return p;
			}
			case 17: {
				PoolVector<uint8_t> p;
				p.push_back(s.draw(256));
				return p;
			}
			case 18: {
				PoolVector<Color> p;
				p.push_back(Color(1, 0, 0));
				return p;
			}
			case 19:
				return Projection();
			default:
				return make(value(s, depth));
		}
	};
	Variant a = any(2), b = any(2), d = any(1), r;
	int op = s.draw(Variant::OP_MAX);
	c.note("%s %s %s", Variant::get_operator_name((Variant::Operator)op).utf8().get_data(), Variant::get_type_name(a.get_type()).utf8().get_data(), Variant::get_type_name(b.get_type()).utf8().get_data());
	c.nt(a.get_type() != b.get_type());
	bool ok = false;
	Variant::evaluate((Variant::Operator)op, a, b, r, ok);
	float t = s.draw(5) / 4.0f;
	Variant::interpolate(a, b, t, r);
	Variant::blend(a, b, t, r);
	Variant::sub(a, b, r);
	uint32_t h = a.hash();
	c.check(a.hash_compare(a) && a.hash() == h && Variant(a).hash() == h, "a value's hash changes or it is no key like itself");
	c.check(a == a && !(a < a), "a value differs from itself or is less than itself");
	c.check(!(a < b && b < a), "two values are less than each other");
	if (a == b) {
		c.check(a.hash() == b.hash() || a.get_type() == Variant::ARRAY || a.get_type() == Variant::DICTIONARY, "equal values hash differently");
	}
	Variant e = a.duplicate(true);
	c.check(e.get_type() == a.get_type() && e.deep_equal(a), "a copy differs");
	c.check(e.hash() == h, "the hash of a copy differs");
	(void)String(a);
	a.booleanize();
	a.is_zero();
	a.is_one();
	a.get(b, &ok);
	a.in(b, &ok);
	e.set(b, d, &ok);
	Variant it;
	if (a.iter_init(it, ok) && ok) {
		a.iter_get(it, ok);
		a.iter_next(it, ok);
	}
	Dictionary k;
	k[a] = 1;
	k[b] = 2;
	c.check(k.has(a) && k.has(b), "a value is no key");
	for (int t = 0; t < Variant::VARIANT_MAX; t++) {
		Variant::can_convert(a.get_type(), (Variant::Type)t);
	}
	(void)(int64_t) a;
	(void)(double)a;
	(void)(Vector2)a;
	(void)(Vector3)a;
	(void)(Array) a;
	(void)(Dictionary) a;
	(void)(PoolVector<int>)a;
	(void)(PoolVector<String>)a;
	(void)a.operator Transform();
	(void)(Color)a;
	e.zero();
	e = Variant();
	c.check(e.is_null(), "a cleared value holds something");
	c.errors();
}

VT_PROP(P14, members, 30000) {
	// a member that is set is read back, by name and by index, and the others stay
	auto num = [&]() { return s.sint(40) / 4.0f; };
	auto vec2 = [&]() { float a = num(), b = num(); return Vector2(a, b); };
	auto vec3 = [&]() { float a = num(), b = num(), d = num(); return Vector3(a, b, d); };
	auto vec4 = [&]() { float a = num(), b = num(), d = num(), e = num(); return Vector4(a, b, d, e); };
	auto whole = [&]() { return (int)s.sint(40); };
	auto basis = [&]() { Vector3 a = vec3(), b = vec3(), d = vec3(); return Basis(a, b, d); };
	struct Kind {
		const char *what;
		Variant v;
		std::vector<const char *> names;
		std::vector<Variant> fresh;
		bool indexed;
	};
	Kind k;
	float f[8];
	int g[8];
	for (int i = 0; i < 8; i++) {
		f[i] = num();
		g[i] = whole();
	}
	std::vector<Variant> fl = { f[4], f[5], f[6], f[7] }, wl = { g[4], g[5], g[6], g[7] };
	auto first = [](std::vector<Variant> v, int n) { v.resize(n); return v; };
	int kind = (int)s.draw(17);
	switch (kind) {
		case 0:
			k = { "Vector2", Vector2(f[0], f[1]), { "x", "y" }, first(fl, 2), true };
			break;
		case 1:
			k = { "Vector2i", Vector2i(g[0], g[1]), { "x", "y" }, first(wl, 2), true };
			break;
		case 2:
			k = { "Vector3", Vector3(f[0], f[1], f[2]), { "x", "y", "z" }, first(fl, 3), true };
			break;
		case 3:
			k = { "Vector3i", Vector3i(g[0], g[1], g[2]), { "x", "y", "z" }, first(wl, 3), true };
			break;
		case 4:
			k = { "Vector4", Vector4(f[0], f[1], f[2], f[3]), { "x", "y", "z", "w" }, fl, true };
			break;
		case 5:
			k = { "Vector4i", Vector4i(g[0], g[1], g[2], g[3]), { "x", "y", "z", "w" }, wl, true };
			break;
		case 6:
			k = { "Color", Color(f[0], f[1], f[2], f[3]), { "r", "g", "b", "a" }, fl, true };
			break;
		case 7:
			k = { "Quaternion", Quaternion(f[0], f[1], f[2], f[3]), { "x", "y", "z", "w" }, fl, false };
			break;
		case 8:
			k = { "Rect2", Rect2(f[0], f[1], f[2], f[3]), { "position", "size" }, { vec2(), vec2() }, false };
			break;
		case 9:
			k = { "Rect2i", Rect2i(g[0], g[1], g[2], g[3]), { "position", "size" }, { Vector2i(g[4], g[5]), Vector2i(g[6], g[7]) }, false };
			break;
		case 10:
			k = { "Plane", Plane(f[0], f[1], f[2], f[3]), { "x", "y", "z", "d" }, fl, false };
			break;
		case 11:
			k = { "Plane", Plane(f[0], f[1], f[2], f[3]), { "normal", "d" }, { vec3(), num() }, false };
			break;
		case 12:
			k = { "AABB", AABB(vec3(), vec3()), { "position", "size" }, { vec3(), vec3() }, false };
			break;
		case 13:
			k = { "Basis", basis(), { "x", "y", "z" }, { vec3(), vec3(), vec3() }, true };
			break;
		case 14:
			k = { "Transform", Transform(basis(), vec3()), { "basis", "origin" }, { basis(), vec3() }, false };
			break;
		case 15:
			k = { "Transform2D", Transform2D(f[0], f[1], f[2], f[3], f[4], f[5]), { "x", "y", "origin" }, { vec2(), vec2(), vec2() }, true };
			break;
		default: {
			Projection p;
			for (int i = 0; i < 4; i++) {
				p.matrix[i] = vec4();
			}
			k = { "Projection", p, { "x", "y", "z", "w" }, { vec4(), vec4(), vec4(), vec4() }, true };
		}
	}
	int n = (int)k.names.size(), at = (int)s.draw(n);
	c.note("%s.%s", k.what, k.names[at]);
	Variant v = k.v, before = k.v;
	std::vector<Variant> old;
	for (int i = 0; i < n; i++) {
		bool a = false, b = false, d = false;
		Variant x = v.get_named(k.names[i], &a), y = v.get(k.names[i], &b), z = v.get(StringName(k.names[i]), &d);
		c.check(a && b && d, "member %s cannot be read", k.names[i]);
		c.check(x.get_type() == k.fresh[i].get_type() && x == y && x == z, "member %s is read differently by name, by string and by StringName", k.names[i]);
		if (k.indexed) {
			Variant w = v.get(i, &a);
			c.check(a && w == x, "member %s is not element %d", k.names[i], i);
		}
		old.push_back(x);
	}
	c.nt(old[at] != k.fresh[at]);
	bool ok = false;
	int how = (int)s.draw(k.indexed ? 4 : 3);
	switch (how) {
		case 0:
			v.set_named(k.names[at], k.fresh[at], &ok);
			break;
		case 1:
			v.set(k.names[at], k.fresh[at], &ok);
			break;
		case 2:
			v.set(StringName(k.names[at]), k.fresh[at], &ok);
			break;
		default:
			v.set(at, k.fresh[at], &ok);
	}
	c.check(ok, "member %s cannot be set", k.names[at]);
	for (int i = 0; i < n; i++) {
		Variant x = v.get_named(k.names[i], &ok);
		const Variant &w = i == at ? k.fresh[i] : old[i];
		c.check(ok && x == w, "member %s after setting %s", k.names[i], k.names[at]);
	}
	c.check(k.v == before, "setting a member of a copy changes the original");
	c.check((v == k.v) == (old[at] == k.fresh[at]), "equality after setting a member");
	c.check(v.hash_compare(v) && (v != k.v || v.hash() == k.v.hash()), "hash after setting a member");
	Variant junk = v;
	junk.set_named("no_such_member", 1, &ok);
	c.check(!ok && junk == v, "a member that does not exist was set");
	v.get("no_such_member", &ok);
	c.check(!ok, "a member that does not exist was read");
	v.zero();
	if (kind < 13) { // the others become nil
		c.check(v.get_type() == k.v.get_type(), "zero changes the type");
	}
	if (kind < 13 && kind != 6 && kind != 7) {
		c.check(v.is_zero(), "zero does not give zero");
		for (int i = 0; i < n; i++) {
			c.check(v.get_named(k.names[i], &ok).is_zero(), "member %s after zero", k.names[i]);
		}
	}
	c.no_errors("members");
}

VT_PROP(P14, between, 20000) {
	// differences, sums and steps between two values of a type
	float f[12];
	for (auto &x : f) {
		x = s.sint(40) / 4.0f;
	}
	float t = s.draw(17) / 16.0f;
	int kind = (int)s.draw(9);
	Variant a, b, r, q;
	auto col = [](float x) { return std::fabs(x) / 40; };
	switch (kind) {
		case 0:
			a = f[0], b = f[1];
			break;
		case 1:
			a = Vector2(f[0], f[1]), b = Vector2(f[2], f[3]);
			break;
		case 2:
			a = Vector3(f[0], f[1], f[2]), b = Vector3(f[3], f[4], f[5]);
			break;
		case 3:
			a = Vector4(f[0], f[1], f[2], f[3]), b = Vector4(f[4], f[5], f[6], f[7]);
			break;
		case 4:
			a = Rect2(f[0], f[1], f[2], f[3]), b = Rect2(f[4], f[5], f[6], f[7]);
			break;
		case 5:
			a = AABB(Vector3(f[0], f[1], f[2]), Vector3(f[3], f[4], f[5])), b = AABB(Vector3(f[6], f[7], f[8]), Vector3(f[9], f[10], f[11]));
			break;
		case 6:
			a = Color(col(f[0]), col(f[1]), col(f[2]), col(f[3])), b = Color(col(f[4]), col(f[5]), col(f[6]), col(f[7]));
			break;
		case 7:
			a = Rect2i(f[0] * 4, f[1] * 4, f[2] * 4, f[3] * 4), b = Rect2i(f[4] * 4, f[5] * 4, f[6] * 4, f[7] * 4);
			break;
		default:
			a = (int)(f[0] * 4), b = (int)(f[1] * 4);
	}
	// the numbers a value is made of
	auto parts = [&](const Variant &v) -> std::vector<double> {
		switch (v.get_type()) {
			case Variant::VECTOR2: {
				Vector2 x = v;
				return { x.x, x.y };
			}
			case Variant::VECTOR3: {
				Vector3 x = v;
				return { x.x, x.y, x.z };
			}
			case Variant::VECTOR4: {
				Vector4 x = v;
				return { x.x, x.y, x.z, x.w };
			}
			case Variant::RECT2: {
				Rect2 x = v;
				return { x.position.x, x.position.y, x.size.x, x.size.y };
			}
			case Variant::RECT2I: {
				Rect2i x = v.operator Rect2i();
				return { double(x.position.x), double(x.position.y), double(x.size.x), double(x.size.y) };
			}
			case Variant::AABB: {
				::AABB x = v;
				return { x.position.x, x.position.y, x.position.z, x.size.x, x.size.y, x.size.z };
			}
			case Variant::COLOR: {
				Color x = v;
				return { x.r, x.g, x.b, x.a };
			}
			default:
				return { double(v) };
		}
	};
	bool wholes = kind >= 7;
	std::vector<double> pa = parts(a), pb = parts(b);
	c.note("%s", Variant::get_type_name(a.get_type()).utf8().get_data());
	c.nt(pa != pb && t > 0 && t < 1);
	auto compare = [&](const char *what, const Variant &v, auto want, double tol) {
		c.check(v.get_type() == a.get_type(), "%s gives a value of another type", what);
		std::vector<double> p = parts(v);
		for (size_t i = 0; i < pa.size(); i++) {
			c.near(p[i], want(pa[i], pb[i]), tol, "%s, part %zu", what, i);
		}
	};
	Variant::sub(a, b, r);
	compare("sub", r, [](double x, double y) { return x - y; }, 1e-4);
	Variant::interpolate(a, b, t, r);
	compare("interpolate", r, [&](double x, double y) { return x + (y - x) * t; }, wholes ? 1.001 : 1e-4);
	Variant::interpolate(a, b, 0, r);
	compare("interpolate to 0", r, [](double x, double y) { return x; }, 1e-4);
	Variant::interpolate(a, b, 1, r);
	compare("interpolate to 1", r, [](double x, double y) { return y; }, 1e-4);
	if (kind != 7) { // whole rectangles are scaled by whole numbers only
		Variant::blend(a, b, t, r);
		compare("blend", r, [&](double x, double y) { return kind == 6 ? std::min(x + y * t, 1.0) : x + y * t; }, wholes ? 0.501 : 1e-4);
		Variant::blend(a, b, 0, r);
		compare("blend with none", r, [&](double x, double y) { return x; }, 1e-4);
	}
	c.no_errors("between");
}
