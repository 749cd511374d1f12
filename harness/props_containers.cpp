// P01-P04: the platform's containers against the standard library's under random histories
#include "sfw.h"
#include "vt.h"
#include <algorithm>
#include <deque>
#include <list>
#include <map>
#include <set>

using vt::Ctx;
using vt::Src;

namespace {
// an element that owns memory and is counted, so that lost, doubled or skipped
// constructions and destructions show
struct Tok {
	static int live;
	int *p;
	Tok(int v = 0) :
			p(new int(v)) { live++; }
	Tok(const Tok &o) :
			p(new int(*o.p)) { live++; }
	Tok &operator=(const Tok &o) {
		int v = *o.p;
		*p = v;
		return *this;
	}
	~Tok() {
		delete p;
		p = nullptr;
		live--;
	}
	int v() const { return *p; }
	bool operator<(const Tok &o) const { return *p < *o.p; }
	bool operator==(const Tok &o) const { return *p == *o.p; }
	bool operator!=(const Tok &o) const { return *p != *o.p; }
};
int Tok::live = 0;
int val(int x) { return x; }
int val(const Tok &t) { return t.v(); }
int val(const uint8_t &t) { return t; }
typedef std::vector<int> IV;
std::string show(const IV &v) {
	std::string o = "[";
	for (size_t i = 0; i < v.size() && i < 40; i++) {
		o += (i ? "," : "") + std::to_string(v[i]);
	}
	return o + "]";
}
struct Desc {
	bool operator()(const int &a, const int &b) const { return a > b; }
	bool operator()(const Tok &a, const Tok &b) const { return b < a; }
};
// generated values: few, so that equal ones meet
int gv(Src &s) { return (int)s.draw(12); }

template <class V>
IV read(const V &v) {
	IV o;
	for (int i = 0; i < (int)v.size(); i++) {
		o.push_back(val(v[i]));
	}
	return o;
}
template <class V>
void same(Ctx &c, const V &v, const IV &m, const char *what) {
	c.check((int)v.size() == (int)m.size(), "%s: %d elements, expected %d", what, (int)v.size(), (int)m.size());
	c.check(v.empty() == m.empty(), "%s: empty() is wrong for %d elements", what, (int)m.size());
	IV g = read(v);
	c.check(g == m, "%s: %s, expected %s", what, show(g).c_str(), show(m).c_str());
}
template <class V, class T>
void put(V &v, int i, T x) { v[i] = x; }
template <class T>
void put(Vector<T> &v, int i, T x) {
	if (val(x) & 1) {
		v.write[i] = x;
	} else {
		v.set(i, x);
	}
}
template <class T>
void put(PoolVector<T> &v, int i, T x) {
	if (val(x) & 1) {
		typename PoolVector<T>::Write w = v.write();
		w[i] = x;
	} else {
		v.set(i, x);
	}
}
template <class T>
struct Kind; // what a sequence type can do beyond the common operations
template <class T>
struct Kind<Vector<T>> {
	typedef T E;
	enum { cow = 1, local = 0, pool = 0 };
};
template <class T>
struct Kind<PoolVector<T>> {
	typedef T E;
	enum { cow = 1, local = 0, pool = 1 };
};
template <class T>
struct Kind<LocalVector<T>> {
	typedef T E;
	enum { cow = 0, local = 1, pool = 0 };
};
template <class T>
struct Kind<TightLocalVector<T>> {
	typedef T E;
	enum { cow = 0, local = 2, pool = 0 };
};

template <class V>
void prop_seq(Src &s, Ctx &c) {
	typedef typename Kind<V>::E T;
	typedef Kind<V> K;
	int live = Tok::live, used = (int)MemoryPool::allocs_used;
	int steps = s.grown(1, 40, 240), grown = 0;
	bool shared = false;
	c.errors();
	{
		V v[3];
		IV m[3];
		for (int st = 0; st < steps; st++) {
			int a = (int)s.draw(3), b = (int)s.draw(3), op = (int)s.draw(20), n = (int)m[a].size();
			V &x = v[a];
			IV &y = m[a];
			int e = gv(s);
			const char *what = "";
			switch (op) {
				case 0:
				case 1:
					what = "push_back";
					x.push_back(T(e));
					y.push_back(e);
					break;
				case 2: {
					what = "insert";
					int p = (int)s.draw(n + 1);
					x.insert(p, T(e));
					y.insert(y.begin() + p, e);
					break;
				}
				case 3:
					what = "remove";
					if (n) {
						int p = (int)s.draw(n);
						x.remove(p);
						y.erase(y.begin() + p);
					}
					break;
				case 4: {
					what = "resize";
					int z = (int)s.draw(s.one_in(5) ? 70 : 14);
					x.resize(z);
					y.resize(z);
					for (int i = n; i < z; i++) {
						if (std::is_same<T, Tok>::value) {
							c.check(val(x[i]) == 0, "a new element is not default constructed");
						}
						int w = gv(s);
						put(x, i, T(w));
						y[i] = w;
					}
					break;
				}
				case 5:
				case 6:
					what = "set";
					if (n) {
						int p = (int)s.draw(n);
						put(x, p, T(e));
						y[p] = e;
					}
					break;
				case 7:
					what = "fill";
					x.fill(T(e));
					std::fill(y.begin(), y.end(), e);
					break;
				case 8:
					what = "invert";
					x.invert();
					std::reverse(y.begin(), y.end());
					break;
				case 9:
					what = "sort";
					x.sort();
					std::sort(y.begin(), y.end());
					break;
				case 10: {
					what = "find";
					int f = (int)s.draw(n + 2);
					auto it = std::find(y.begin() + std::min(f, n), y.end(), e);
					int want = it == y.end() ? -1 : (int)(it - y.begin()), got = (int)x.find(T(e), f);
					c.check(got == want, "find(%d,%d) in %s gave %d, expected %d", e, f, show(y).c_str(), got, want);
					break;
				}
				case 11:
				case 12:
				case 13:
					what = "assignment";
					shared |= a != b && m[b].size() > 1;
					v[a] = v[b];
					m[a] = m[b];
					break;
				case 14: {
					what = "copy";
					V t(v[b]);
					same(c, t, m[b], "a copy");
					t.push_back(T(e));
					if (m[b].size()) {
						put(t, 0, T(e + 1));
					}
					same(c, v[b], m[b], "the original of a changed copy");
					break;
				}
				case 15:
					what = "clear";
					x.clear();
					y.clear();
					break;
				default:
					if constexpr (K::pool != 0) {
						switch (op) {
							case 16: {
								what = "append_array";
								IV t = m[b];
								x.append_array(v[b]);
								y.insert(y.end(), t.begin(), t.end());
								break;
							}
							case 17: {
								what = "rfind, count, has, contains";
								int f = (int)s.draw(n + 2), from = f < n ? f : n - 1, want = -1;
								for (int i = from; i >= 0 && want < 0; i--) {
									want = y[i] == e ? i : -1;
								}
								int got = x.rfind(T(e), f), cnt = (int)std::count(y.begin(), y.end(), e);
								c.check(got == want, "rfind(%d,%d) in %s gave %d, expected %d", e, f, show(y).c_str(), got, want);
								c.check(x.count(T(e)) == cnt, "count(%d) in %s gave %d", e, show(y).c_str(), x.count(T(e)));
								c.check(x.has(T(e)) == (cnt > 0) && x.contains(T(e)) == (cnt > 0), "has or contains are wrong for %d in %s", e, show(y).c_str());
								if (n) {
									int neg = (int)s.draw(n);
									int w2 = -1;
									for (int i = n - 1 - neg; i >= 0 && w2 < 0; i--) {
										w2 = y[i] == e ? i : -1;
									}
									c.check(x.rfind(T(e), -1 - neg) == w2, "rfind(%d,%d) in %s gave %d, expected %d", e, -1 - neg, show(y).c_str(), x.rfind(T(e), -1 - neg), w2);
								}
								break;
							}
							case 18:
								what = "subarray";
								if (n) {
									int f = (int)s.draw(n), t = f + (int)s.draw(n - f);
									bool neg = s.flag();
									PoolVector<T> sub = x.subarray(neg ? f - n : f, neg ? t - n : t);
									same(c, sub, IV(y.begin() + f, y.begin() + t + 1), "subarray");
									if (s.flag()) {
										sub.set(0, T(e));
										same(c, x, y, "the origin of a changed subarray");
									}
								}
								break;
							case 19: {
								what = "locked resize";
								{
									// from a list: as many elements as the list has, whatever was there before
									List<T> l;
									PoolVector<T> filled;
									if (s.flag()) {
										filled = x;
									}
									IV want;
									int m = (int)s.draw(12);
									for (int i = 0; i < m; i++) {
										want.push_back((int)s.draw(20));
										l.push_back(T(want.back()));
									}
									filled.fill_with(l);
									same(c, filled, want, "fill_with a list");
									same(c, x, y, "the origin of a copy filled from a list");
								}
								if (n) {
									if (s.flag()) {
										{
											x.write(); // memory of its own from here on
											typename PoolVector<T>::Read r = x.read();
											c.check(x.is_locked(), "not locked while being read");
											c.check(x.resize(n + 1) != OK, "resized while being read");
										}
										c.check(!x.is_locked(), "still locked after reading");
										c.errors();
									} else { // reading a copy is in nobody's way
										PoolVector<T> other(x);
										{
											typename PoolVector<T>::Read r = other.read();
											int m = (int)s.draw(n + 3);
											c.check(x.resize(m) == OK, "not resized while a copy is being read");
											for (int i = 0; i < n; i++) {
												c.check(r[i] == y[i], "element %d of the copy has changed", i);
											}
											for (int i = n; i < m; i++) {
												x.set(i, T());
											}
										}
										same(c, other, y, "a copy that was read meanwhile");
										y.resize(x.size());
										c.no_errors("resizing while a copy is being read");
									}
								}
								break;
							}
						}
					} else if constexpr (K::cow != 0) {
						switch (op) {
							case 16: {
								what = "append_array";
								IV t = m[b];
								x.append_array(v[b]);
								y.insert(y.end(), t.begin(), t.end());
								break;
							}
							case 17: {
								what = "slice";
								int lim = n + 2, f = (int)s.range(-lim, lim), t = s.one_in(4) ? INT32_MAX : (int)s.range(-lim, lim);
								int ff = std::max(-n, std::min(n, f)), tt = std::max(-n, std::min(n, t));
								ff += ff < 0 ? n : 0;
								tt += tt < 0 ? n : 0;
								V sl = x.slice(f, t);
								if (ff <= tt) {
									same(c, sl, IV(y.begin() + ff, y.begin() + tt), "slice");
								} else {
									c.check(sl.empty() && c.errors() > 0, "an inverted slice was not refused");
								}
								break;
							}
							case 18:
								what = "erase of a value";
								{
									auto it = std::find(y.begin(), y.end(), e);
									bool want = it != y.end();
									c.check(x.erase(T(e)) == want, "erase(%d) in %s said %d", e, show(y).c_str(), !want);
									if (want) {
										y.erase(it);
									}
								}
								break;
							case 19:
								what = "ordered_insert, sort_custom";
								x.template sort_custom<Desc>();
								std::sort(y.begin(), y.end(), std::greater<int>());
								same(c, x, y, "sort_custom");
								x.sort();
								std::sort(y.begin(), y.end());
								x.ordered_insert(T(e));
								y.insert(std::upper_bound(y.begin(), y.end(), e), e);
								break;
						}
					} else {
						switch (op) {
							case 16:
								what = "remove_unordered";
								if (n) {
									int p = (int)s.draw(n);
									x.remove_unordered(p);
									y[p] = y[n - 1];
									y.pop_back();
								}
								break;
							case 17:
								what = "erase of a value";
								{
									auto it = std::find(y.begin(), y.end(), e);
									x.erase(T(e));
									if (it != y.end()) {
										y.erase(it);
									}
								}
								break;
							case 18: {
								what = "erase_multiple_unordered";
								int cnt = (int)std::count(y.begin(), y.end(), e);
								c.check((int)x.erase_multiple_unordered(T(e)) == cnt, "erase_multiple_unordered(%d) in %s counted wrong", e, show(y).c_str());
								IV want = y, got = read(x);
								want.erase(std::remove(want.begin(), want.end(), e), want.end());
								IV sg = got;
								std::sort(want.begin(), want.end());
								std::sort(sg.begin(), sg.end());
								c.check(want == sg, "erase_multiple_unordered(%d) in %s left %s", e, show(y).c_str(), show(got).c_str());
								y = got;
								break;
							}
							case 19: {
								what = "reserve, ordered_insert, conversion";
								int z = (int)s.draw(40);
								x.reserve(z);
								c.check((int)x.get_capacity() >= z && (int)x.get_capacity() >= n, "capacity %d after reserving %d", (int)x.get_capacity(), z);
								same(c, x, y, "reserve");
								x.template sort_custom<Desc>();
								std::sort(y.begin(), y.end(), std::greater<int>());
								same(c, x, y, "sort_custom");
								Vector<T> cv = x;
								same(c, cv, y, "conversion to Vector");
								PoolVector<T> pv = x;
								same(c, pv, y, "conversion to PoolVector");
								V back(cv), back2(pv), back3;
								back3 = cv;
								same(c, back, y, "construction from Vector");
								same(c, back2, y, "construction from PoolVector");
								same(c, back3, y, "assignment of a Vector");
								back3 = pv;
								same(c, back3, y, "assignment of a PoolVector");
								x.sort();
								std::sort(y.begin(), y.end());
								x.ordered_insert(T(e));
								y.insert(std::upper_bound(y.begin(), y.end(), e), e);
								if (s.one_in(3)) {
									x.reset();
									y.clear();
								}
								break;
							}
						}
					}
			}
			c.note("%s(%d,%d,%d)", what, a, b, e);
			for (int i = 0; i < 3; i++) {
				same(c, v[i], m[i], i == a ? what : "another one");
				grown = std::max(grown, (int)m[i].size());
			}
			if (K::cow || op < 16) {
				c.no_errors(what);
			} else {
				c.errors();
			}
		}
		c.check(std::is_same<T, Tok>::value ? Tok::live - live == (int)(m[0].size() + m[1].size() + m[2].size()) || K::cow : true, "%d elements alive, %d stored", Tok::live - live, (int)(m[0].size() + m[1].size() + m[2].size()));
	}
	c.check(Tok::live == live, "%d elements were never destroyed", Tok::live - live);
	c.check((int)MemoryPool::allocs_used == used, "pool allocations leak");
	c.nt(grown >= 3 && steps >= 5 && shared);
}

// ------------------------------------------------------------------------------ ring buffer
void prop_ring(Src &s, Ctx &c) {
	int pw = (int)s.draw(5);
	RingBuffer<int> r(pw);
	std::deque<int> m;
	int steps = s.grown(1, 50, 300), next = 1;
	bool full = false;
	c.errors();
	c.note("capacity %d", (1 << pw) - 1);
	for (int st = 0; st < steps; st++) {
		int op = (int)s.draw(9), cap = (1 << pw) - 1, buf[80];
		switch (op) {
			case 0: {
				c.note("write");
				Error e = r.write(next);
				if ((int)m.size() < cap) {
					c.check(e == OK, "writing into a buffer with room failed");
					m.push_back(next++);
				} else {
					c.check(e != OK && c.errors() > 0, "writing into a full buffer did not fail");
				}
				break;
			}
			case 1:
			case 2: {
				int k = (int)s.draw(20);
				for (int i = 0; i < k; i++) {
					buf[i] = next + i;
				}
				int want = std::min(k, cap - (int)m.size()), got = r.write(buf, k);
				c.note("write %d", k);
				c.check(got == want, "writing %d with room for %d wrote %d", k, cap - (int)m.size(), got);
				for (int i = 0; i < want; i++) {
					m.push_back(next++);
				}
				break;
			}
			case 3:
				c.note("read");
				if (m.size()) {
					int g = r.read();
					c.check(g == m.front(), "read %d, expected %d", g, m.front());
					m.pop_front();
				} else {
					r.read();
					c.check(c.errors() > 0, "reading an empty buffer was not reported");
				}
				break;
			case 4: {
				int k = (int)s.draw(20), want = std::min(k, (int)m.size());
				bool adv = s.flag();
				int got = r.read(buf, k, adv);
				c.note("read %d%s", k, adv ? "" : " (peek)");
				c.check(got == want, "reading %d of %d read %d", k, (int)m.size(), got);
				for (int i = 0; i < want; i++) {
					c.check(buf[i] == m[i], "element %d read is %d, expected %d", i, buf[i], m[i]);
				}
				if (adv) {
					m.erase(m.begin(), m.begin() + want);
				}
				break;
			}
			case 5: {
				int off = (int)s.draw(m.size() + 1), k = (int)s.draw(20), want = std::min(k, (int)m.size() - off);
				int got = r.copy(buf, off, k);
				c.note("copy %d at %d", k, off);
				c.check(got == want, "copying %d at %d of %d copied %d", k, off, (int)m.size(), got);
				for (int i = 0; i < want; i++) {
					c.check(buf[i] == m[off + i], "element %d copied is %d, expected %d", off + i, buf[i], m[off + i]);
				}
				break;
			}
			case 6: {
				int off = (int)s.draw(m.size() + 1), k = (int)s.draw(20), what = s.flag() && m.size() ? m[s.draw(m.size())] : next, want = -1;
				for (int i = 0; i < k && off + i < (int)m.size() && want < 0; i++) {
					want = m[off + i] == what ? i : -1;
				}
				int got = r.find(what, off, k);
				c.note("find at %d in %d", off, k);
				c.check(got == want, "finding %d from %d among %d gave %d, expected %d", what, off, k, got, want);
				break;
			}
			case 7: {
				int k = (int)s.draw(8), want = std::min(k, (int)m.size());
				c.note("skip %d", k);
				if (s.flag()) {
					c.check(r.advance_read(k) == want, "advance_read skipped a wrong number");
					m.erase(m.begin(), m.begin() + want);
				} else {
					c.check(r.decrease_write(k) == want, "decrease_write took back a wrong number");
					m.erase(m.end() - want, m.end());
				}
				break;
			}
			case 8:
				if (s.one_in(4)) {
					c.note("clear");
					r.clear();
					m.clear();
				} else if (pw < 6) {
					int add = (int)s.draw(2);
					pw += add;
					c.note("grow by %d", add);
					r.resize(pw);
				}
				break;
		}
		cap = (1 << pw) - 1;
		c.check(r.data_left() == (int)m.size() && r.space_left() == cap - (int)m.size() && r.size() == cap + 1, "%d stored, %d free, expected %d and %d", r.data_left(), r.space_left(), (int)m.size(), cap - (int)m.size());
		full |= cap > 0 && (int)m.size() == cap;
		IV all(m.size());
		int got = r.read(all.data(), (int)all.size(), false);
		c.check(got == (int)m.size() && std::equal(all.begin(), all.end(), m.begin()), "the buffer holds %s, expected %s", show(all).c_str(), show(IV(m.begin(), m.end())).c_str());
		c.no_errors("the ring buffer");
	}
	c.nt(full && steps >= 5);
}

// ------------------------------------------------------------------------------ linked list
typedef List<Tok> TL;
void same(Ctx &c, TL &l, const std::vector<std::pair<TL::Element *, int>> &m, const char *what) {
	c.check(l.size() == (int)m.size() && l.empty() == m.empty(), "%s: %d elements, expected %d", what, l.size(), (int)m.size());
	size_t i = 0;
	for (TL::Element *e = l.front(); e; e = e->next(), i++) {
		c.check(i < m.size(), "%s: the forward chain is too long", what);
		c.check(e == m[i].first && e->get().v() == m[i].second, "%s: element %d is %d, expected %d", what, (int)i, e->get().v(), m[i].second);
		c.check(l[(int)i].v() == m[i].second, "%s: [%d] is wrong", what, (int)i);
	}
	c.check(i == m.size(), "%s: the forward chain ends after %d of %d", what, (int)i, (int)m.size());
	for (TL::Element *e = l.back(); e; e = e->prev()) {
		c.check(i > 0, "%s: the backward chain is too long", what);
		i--;
		c.check(e == m[i].first, "%s: the backward chain differs at %d", what, (int)i);
	}
	c.check(i == 0, "%s: the backward chain ends at %d", what, (int)i);
}
void prop_list(Src &s, Ctx &c) {
	int live = Tok::live, steps = s.grown(1, 50, 300), big = 0;
	c.errors();
	{
		TL l;
		std::vector<std::pair<TL::Element *, int>> m;
		auto relink = [&]() { // after operations that may move values rather than elements
			m.clear();
			for (TL::Element *e = l.front(); e && m.size() < 1000; e = e->next()) {
				m.push_back({ e, e->get().v() });
			}
		};
		for (int st = 0; st < steps; st++) {
			int op = (int)s.draw(16), n = (int)m.size(), e = gv(s), p = n ? (int)s.draw(n) : 0, q = n ? (int)s.draw(n) : 0;
			const char *what = "";
			bool quiet = true;
			switch (op) {
				case 0:
				case 1:
				case 2:
					what = "push_back";
					m.push_back({ l.push_back(Tok(e)), e });
					break;
				case 3:
					what = "push_front";
					m.insert(m.begin(), { l.push_front(Tok(e)), e });
					break;
				case 4:
					what = s.flag() ? "pop_back" : "pop_front";
					if (what[4] == 'b') {
						l.pop_back();
						if (n) {
							m.pop_back();
						}
					} else {
						l.pop_front();
						if (n) {
							m.erase(m.begin());
						}
					}
					break;
				case 5:
					what = "insert_after";
					if (n) {
						m.insert(m.begin() + p + 1, { l.insert_after(m[p].first, Tok(e)), e });
					}
					break;
				case 6:
					what = "insert_before";
					if (n) {
						m.insert(m.begin() + p, { l.insert_before(m[p].first, Tok(e)), e });
					}
					break;
				case 7: {
					what = "erase of a value";
					auto it = std::find_if(m.begin(), m.end(), [&](std::pair<TL::Element *, int> &x) { return x.second == e; });
					bool want = it != m.end();
					TL::Element *f = l.find(e);
					c.check(f == (want ? it->first : nullptr), "find(%d) found another element", e);
					c.check(l.erase(Tok(e)) == want, "erase(%d) said %d", e, !want);
					quiet = want;
					if (want) {
						m.erase(it);
					}
					break;
				}
				case 8:
					what = "erase of an element";
					if (n) {
						c.check(l.erase(m[p].first), "erasing an element failed");
						m.erase(m.begin() + p);
					}
					break;
				case 9:
					what = "swap";
					if (n) {
						l.swap(m[p].first, m[q].first);
						std::swap(m[p], m[q]);
					}
					break;
				case 10:
					what = "move_to_back or move_to_front";
					if (n) {
						auto x = m[p];
						m.erase(m.begin() + p);
						if (s.flag()) {
							l.move_to_back(x.first);
							m.push_back(x);
						} else {
							l.move_to_front(x.first);
							m.insert(m.begin(), x);
						}
					}
					break;
				case 11:
					what = "move_before";
					if (n && p != q) {
						auto x = m[p], w = m[q];
						bool end = s.one_in(4);
						l.move_before(x.first, end ? nullptr : w.first);
						m.erase(m.begin() + p);
						m.insert(end ? m.end() : std::find(m.begin(), m.end(), w), x);
					}
					break;
				case 12: {
					what = "invert";
					IV want;
					for (auto &x : m) {
						want.insert(want.begin(), x.second);
					}
					l.invert();
					relink();
					for (int i = 0; i < (int)want.size(); i++) {
						c.check(i < (int)m.size() && m[i].second == want[i], "invert: element %d is wrong", i);
					}
					break;
				}
				case 13: {
					int how = (int)s.draw(4);
					what = how == 0 ? "sort" : how == 1 ? "sort_custom" : how == 2 ? "sort_custom_inplace" : "sort_custom_inplace of descending";
					IV want;
					for (auto &x : m) {
						want.push_back(x.second);
					}
					std::sort(want.begin(), want.end());
					if (how == 0) {
						l.sort();
					} else if (how == 1) {
						l.sort_custom<Comparator<Tok>>();
					} else if (how == 2) {
						l.sort_custom_inplace<Comparator<Tok>>();
					} else {
						l.sort_custom_inplace<Desc>();
						std::reverse(want.begin(), want.end());
					}
					relink();
					c.check(m.size() == want.size(), "%s: %d elements remain of %d", what, (int)m.size(), (int)want.size());
					for (int i = 0; i < (int)want.size(); i++) {
						c.check(m[i].second == want[i], "%s: element %d is %d, expected %d", what, i, m[i].second, want[i]);
					}
					break;
				}
				case 14: {
					what = "copy";
					TL t(l), u;
					u.push_back(Tok(1));
					u = l;
					for (TL *k : { &t, &u }) {
						c.check(k->size() == n, "a copy has %d elements, expected %d", k->size(), n);
						for (int i = 0; i < n; i++) {
							c.check((*k)[i].v() == m[i].second, "a copy differs at %d", i);
						}
					}
					t.clear();
					u.push_back(Tok(e));
					break;
				}
				case 15:
					what = "clear";
					if (s.one_in(3)) {
						l.clear();
						m.clear();
					} else {
						what = "assignment to itself";
						l = l;
						c.check(l.size() == n, "assigned to itself, the list has %d elements of %d", l.size(), n);
					}
					break;
			}
			c.note("%s(%d,%d,%d)", what, p, q, e);
			same(c, l, m, what);
			big = std::max(big, (int)m.size());
			if (quiet) {
				c.no_errors(what);
			} else {
				c.errors();
			}
			c.check(Tok::live - live == (int)m.size(), "%s: %d elements alive, %d in the list", what, Tok::live - live, (int)m.size());
		}
	}
	c.check(Tok::live == live, "%d elements were never destroyed", Tok::live - live);
	c.nt(big >= 4 && steps >= 8);
}

// ------------------------------------------------------------------------------ ordered maps and sets
int span(Src &s) { return s.pick({ 6, 20, 200 }); }

void prop_rbmap(Src &s, Ctx &c) {
	int live = Tok::live, steps = s.grown(1, 70, 420), ks = span(s), big = 0;
	c.errors();
	{
		typedef RBMap<Tok, Tok> M;
		M t;
		std::map<int, int> m;
		for (int st = 0; st < steps; st++) {
			int op = (int)s.draw(12), k = (int)s.draw(ks), e = gv(s);
			switch (op) {
				case 0:
				case 1:
				case 2:
				case 3: {
					c.note("insert %d", k);
					M::Element *x = t.insert(Tok(k), Tok(e));
					c.check(x && x->key().v() == k && x->get().v() == e, "insert returned another element");
					m[k] = e;
					break;
				}
				case 4:
				case 5:
					c.note("erase %d", k);
					c.check(t.erase(Tok(k)) == (m.erase(k) == 1), "erase(%d) answered wrong", k);
					break;
				case 6:
					c.note("erase element %d", k);
					if (M::Element *x = t.find(Tok(k))) {
						t.erase(x);
						c.check(m.erase(k) == 1, "found a key that is not there");
					}
					break;
				case 7:
					c.note("[%d]=", k);
					t[Tok(k)] = Tok(e);
					m[k] = e;
					break;
				case 8: {
					M::Element *x = t.find(Tok(k));
					c.check((x != nullptr) == (m.count(k) == 1) && t.has(Tok(k)) == (x != nullptr), "find(%d) is wrong", k);
					if (x) {
						c.check(x->get().v() == m[k], "find(%d) gave the value %d, expected %d", k, x->get().v(), m[k]);
					}
					x = t.find_closest(Tok(k));
					auto it = m.upper_bound(k);
					if (it == m.begin()) {
						c.check(!x, "find_closest(%d) found %d", k, x ? x->key().v() : 0);
					} else {
						--it;
						c.check(x && x->key().v() == it->first, "find_closest(%d) did not find %d", k, it->first);
					}
					break;
				}
				case 9: {
					M u(t), w;
					w[Tok(1)] = Tok(2);
					w = t;
					c.check(u.size() == t.size() && w.size() == t.size(), "copies have other sizes");
					M::Element *a = u.front(), *b = w.front();
					for (auto &x : m) {
						c.check(a && b && a->key().v() == x.first && a->get().v() == x.second && b->key().v() == x.first && b->get().v() == x.second, "a copy differs at key %d", x.first);
						a = a->next();
						b = b->next();
					}
					u[Tok(k)] = Tok(-1);
					w.clear();
					break;
				}
				case 10:
					if (s.one_in(6)) {
						c.note("clear");
						t.clear();
						m.clear();
					}
					break;
				case 11:
					t = t;
					break;
			}
			c.check(t.size() == (int)m.size() && t.empty() == m.empty(), "%d entries, expected %d", t.size(), (int)m.size());
			M::Element *x = t.front();
			for (auto &y : m) {
				c.check(x && x->key().v() == y.first && x->get().v() == y.second, "the order differs at key %d", y.first);
				x = x->next();
			}
			c.check(!x, "there are more entries than expected");
			x = t.back();
			for (auto y = m.rbegin(); y != m.rend(); ++y) {
				c.check(x && x->key().v() == y->first, "the reverse order differs at key %d", y->first);
				x = x->prev();
			}
			c.check(!x, "there are more entries backwards");
			big = std::max(big, (int)m.size());
			double lim = 2 * log2(m.size() + 1.0) + 1;
			c.check(t.calculate_depth() <= lim + 1, "depth %d for %d entries", t.calculate_depth(), (int)m.size());
			c.no_errors("the map");
		}
	}
	c.check(Tok::live == live, "%d keys or values were never destroyed", Tok::live - live);
	c.nt(big >= 5);
}
void prop_rbset(Src &s, Ctx &c) {
	int live = Tok::live, steps = s.grown(1, 70, 420), ks = span(s), big = 0;
	c.errors();
	{
		typedef RBSet<Tok> M;
		M t;
		std::set<int> m;
		for (int st = 0; st < steps; st++) {
			int op = (int)s.draw(11), k = (int)s.draw(ks);
			switch (op) {
				case 0:
				case 1:
				case 2:
				case 3: {
					c.note("insert %d", k);
					M::Element *x = t.insert(Tok(k));
					c.check(x && x->get().v() == k, "insert returned another element");
					m.insert(k);
					break;
				}
				case 4:
				case 5:
					c.note("erase %d", k);
					c.check(t.erase(Tok(k)) == (m.erase(k) == 1), "erase(%d) answered wrong", k);
					break;
				case 6:
					c.note("erase element %d", k);
					if (M::Element *x = t.find(Tok(k))) {
						t.erase(x);
						c.check(m.erase(k) == 1, "found a value that is not there");
					}
					break;
				case 7: {
					M::Element *x = t.find(Tok(k));
					c.check((x != nullptr) == (m.count(k) == 1) && t.has(Tok(k)) == (x != nullptr), "find(%d) is wrong", k);
					x = t.lower_bound(Tok(k));
					auto it = m.lower_bound(k);
					c.check(it == m.end() ? !x : x && x->get().v() == *it, "lower_bound(%d) gave %d, expected %d", k, x ? x->get().v() : -1, it == m.end() ? -1 : *it);
					break;
				}
				case 8: {
					M u(t), w;
					w.insert(Tok(1));
					w = t;
					c.check(u.size() == t.size() && w.size() == t.size(), "copies have other sizes");
					M::Element *a = u.front(), *b = w.front();
					for (int x : m) {
						c.check(a && b && a->get().v() == x && b->get().v() == x, "a copy differs at %d", x);
						a = a->next();
						b = b->next();
					}
					u.insert(Tok(k));
					w.clear();
					break;
				}
				case 9:
					if (s.one_in(6)) {
						c.note("clear");
						t.clear();
						m.clear();
					}
					break;
				case 10:
					t = t;
					break;
			}
			c.check(t.size() == (int)m.size() && t.empty() == m.empty(), "%d entries, expected %d", t.size(), (int)m.size());
			M::Element *x = t.front();
			for (int y : m) {
				c.check(x && x->get().v() == y, "the order differs at %d", y);
				x = x->next();
			}
			c.check(!x, "there are more entries than expected");
			x = t.back();
			for (auto y = m.rbegin(); y != m.rend(); ++y) {
				c.check(x && x->get().v() == *y, "the reverse order differs at %d", *y);
				x = x->prev();
			}
			c.check(!x, "there are more entries backwards");
			big = std::max(big, (int)m.size());
			c.check(t.calculate_depth() <= 2 * log2(m.size() + 1.0) + 2, "depth %d for %d entries", t.calculate_depth(), (int)m.size());
			c.no_errors("the set");
		}
	}
	c.check(Tok::live == live, "%d values were never destroyed", Tok::live - live);
	c.nt(big >= 5);
}
void prop_vmap(Src &s, Ctx &c) {
	int live = Tok::live, steps = s.grown(1, 50, 300), ks = span(s), big = 0;
	c.errors();
	{
		VMap<Tok, Tok> t, old;
		VSet<Tok> u;
		std::map<int, int> m, om;
		for (int st = 0; st < steps; st++) {
			int op = (int)s.draw(9), k = (int)s.draw(ks), e = gv(s);
			switch (op) {
				case 0:
				case 1:
				case 2:
				case 3: {
					c.note("insert %d", k);
					int at = t.insert(Tok(k), Tok(e));
					u.insert(Tok(k));
					m[k] = e;
					c.check(at == (int)std::distance(m.begin(), m.find(k)), "insert(%d) answered position %d", k, at);
					break;
				}
				case 4:
				case 5:
					c.note("erase %d", k);
					t.erase(Tok(k));
					u.erase(Tok(k));
					m.erase(k);
					break;
				case 6:
					c.note("[%d]=", k);
					t[Tok(k)] = Tok(e);
					u.insert(Tok(k));
					m[k] = e;
					break;
				case 7: {
					int want = m.count(k) ? (int)std::distance(m.begin(), m.find(k)) : -1;
					c.check(t.find(Tok(k)) == want && u.find(Tok(k)) == want, "find(%d) gave %d and %d, expected %d", k, t.find(Tok(k)), u.find(Tok(k)), want);
					c.check(t.has(Tok(k)) == (want >= 0) && u.has(Tok(k)) == (want >= 0), "has(%d) is wrong", k);
					if (m.size()) {
						int near = t.find_nearest(Tok(k)), lb = (int)std::distance(m.begin(), m.lower_bound(k));
						c.check(want >= 0 ? near == want : near == lb, "find_nearest(%d) gave %d, expected %d", k, near, want >= 0 ? want : lb);
					}
					break;
				}
				case 8:
					c.note("copy");
					if (s.flag()) {
						old = t;
						om = m;
					} else {
						t = old;
						m = om;
						u = VSet<Tok>();
						for (auto &x : m) {
							u.insert(Tok(x.first));
						}
					}
					break;
			}
			for (int w = 0; w < 2; w++) {
				VMap<Tok, Tok> &x = w ? old : t;
				std::map<int, int> &y = w ? om : m;
				c.check(x.size() == (int)y.size() && x.empty() == y.empty(), "%d entries, expected %d", x.size(), (int)y.size());
				int i = 0;
				for (auto &z : y) {
					const VMap<Tok, Tok> &cx = x;
					c.check(cx.getk(i).v() == z.first && cx.getv(i).v() == z.second && cx.get_array()[i].key.v() == z.first, "entry %d is %d=%d, expected %d=%d", i, cx.getk(i).v(), cx.getv(i).v(), z.first, z.second);
					c.check(cx[Tok(z.first)].v() == z.second, "[%d] is wrong", z.first);
					i++;
				}
			}
			c.check(u.size() == (int)m.size() && u.empty() == m.empty(), "the set has %d entries, expected %d", u.size(), (int)m.size());
			int i = 0;
			for (auto &z : m) {
				c.check(u[i++].v() == z.first, "set entry %d is not %d", i - 1, z.first);
			}
			big = std::max(big, (int)m.size());
			c.no_errors("the map");
		}
	}
	c.check(Tok::live == live, "%d keys or values were never destroyed", Tok::live - live);
	c.nt(big >= 5);
}

// ------------------------------------------------------------------------------ hash maps and sets
struct Poor { // many collisions
	static uint32_t hash(const Tok &t) { return (uint32_t)(t.v() % 3); }
	static uint32_t hash(int t) { return (uint32_t)(t % 3); }
};
struct Fair {
	static uint32_t hash(const Tok &t) { return HashMapHasherDefault::hash((int32_t)t.v()); }
	static uint32_t hash(int t) { return HashMapHasherDefault::hash((int32_t)t); }
};
struct Zero { // the reserved value
	static uint32_t hash(const Tok &) { return 0; }
};

template <class H>
void prop_hashmap(Src &s, Ctx &c) {
	int live = Tok::live, steps = s.grown(1, 70, 420), ks = span(s), big = 0;
	bool coll = false;
	c.errors();
	{
		typedef HashMap<Tok, Tok, H> M;
		M t(s.pick({ 1u, 2u, 50u, 1000u }));
		M other;
		std::list<std::pair<int, int>> m, om; // in order of insertion
		auto find = [&](int k) { return std::find_if(m.begin(), m.end(), [&](std::pair<int, int> &x) { return x.first == k; }); };
		for (int st = 0; st < steps; st++) {
			int op = (int)s.draw(14), k = (int)s.draw(ks), e = gv(s);
			auto it = find(k);
			bool has = it != m.end();
			switch (op) {
				case 0:
				case 1:
				case 2:
				case 3:
				case 4: {
					bool front = s.one_in(4);
					c.note("insert %d%s", k, front ? " in front" : "");
					typename M::Element *x = s.flag() ? t.insert(Tok(k), Tok(e), front) : t.set(Tok(k), Tok(e), front);
					c.check(x && x->key().v() == k && x->value().v() == e, "insert(%d) returned another element", k);
					if (has) {
						it->second = e;
					} else if (front) {
						m.push_front({ k, e });
					} else {
						m.push_back({ k, e });
					}
					break;
				}
				case 5:
				case 6:
				case 7:
					c.note("erase %d", k);
					c.check(t.erase(Tok(k)) == has, "erase(%d) answered %d", k, !has);
					if (has) {
						m.erase(it);
					}
					break;
				case 8:
					c.note("[%d]=", k);
					t[Tok(k)] = Tok(e);
					if (has) {
						it->second = e;
					} else {
						m.push_back({ k, e });
					}
					break;
				case 9: {
					const M &ct = t;
					c.check(t.has(Tok(k)) == has && (t.getptr(Tok(k)) != nullptr) == has && (ct.getptr(Tok(k)) != nullptr) == has && (t.get_element(Tok(k)) != nullptr) == has, "looking up %d answered wrong", k);
					if (has) {
						c.check(t.get(Tok(k)).v() == it->second && ct.get(Tok(k)).v() == it->second && t.getptr(Tok(k))->v() == it->second && ct[Tok(k)].v() == it->second && t.get_element(Tok(k))->value().v() == it->second, "the value of %d is wrong", k);
					}
					break;
				}
				case 10: {
					uint32_t z = (uint32_t)s.draw(300);
					c.note("reserve %d", (int)z);
					t.reserve(z);
					c.check(t.get_capacity() >= z, "capacity %u after reserving %u", t.get_capacity(), z);
					break;
				}
				case 11:
					c.note("copy");
					if (s.one_in(4)) {
						t = t;
					} else if (s.flag()) {
						other = t;
						om = m;
					} else {
						t = other;
						m = om;
					}
					{
						M u(t);
						c.check(u.size() == m.size(), "a copy has %d entries, expected %d", (int)u.size(), (int)m.size());
						u.clear();
					}
					break;
				case 12:
					if (s.one_in(5)) {
						c.note("clear");
						t.clear();
						m.clear();
					}
					break;
				case 13: {
					List<Tok> keys;
					t.get_key_list(&keys);
					auto x = m.begin();
					c.check(keys.size() == (int)m.size(), "%d keys listed of %d", keys.size(), (int)m.size());
					for (auto *q = keys.front(); q; q = q->next(), ++x) {
						c.check(q->get().v() == x->first, "key list differs at %d", x->first);
					}
					x = m.begin();
					for (const Tok *q = t.next(nullptr); q; q = t.next(q), ++x) {
						c.check(x != m.end() && q->v() == x->first, "next() differs");
					}
					c.check(x == m.end(), "next() ends early");
					break;
				}
			}
			c.check(t.size() == m.size() && t.empty() == m.empty(), "%d entries, expected %d", (int)t.size(), (int)m.size());
			typename M::Element *x = t.front();
			for (auto &y : m) {
				c.check(x && x->key().v() == y.first && x->value().v() == y.second, "order or value differ at key %d", y.first);
				x = x->next;
			}
			c.check(!x, "there are more entries than expected");
			x = t.back();
			for (auto y = m.rbegin(); y != m.rend(); ++y) {
				c.check(x && x->key().v() == y->first, "the reverse order differs at key %d", y->first);
				x = x->prev;
			}
			c.check(!x, "there are more entries backwards");
			for (auto &y : m) {
				const Tok *p = t.getptr(Tok(y.first));
				c.check(p && p->v() == y.second, "key %d got lost", y.first);
			}
			x = other.front();
			for (auto &y : om) {
				c.check(x && x->key().v() == y.first && x->value().v() == y.second, "the copy changed");
				x = x->next;
			}
			big = std::max(big, (int)m.size());
			coll |= m.size() > 4;
			c.no_errors("the map");
		}
	}
	c.check(Tok::live == live, "%d keys or values were never destroyed", Tok::live - live);
	c.nt(big >= 5);
}
template <class H>
void prop_hashset(Src &s, Ctx &c) {
	int live = Tok::live, steps = s.grown(1, 70, 420), ks = span(s), big = 0;
	c.errors();
	{
		typedef HashSet<Tok, H> M;
		M t(s.pick({ 1u, 2u, 50u, 1000u })), other;
		std::set<int> m, om;
		auto check = [&](M &x, const std::set<int> &y, const char *what) {
			c.check(x.size() == y.size() && x.is_empty() == y.empty(), "%s: %d values, expected %d", what, (int)x.size(), (int)y.size());
			std::set<int> seen;
			for (typename M::Iterator it = x.begin(); it != x.end(); ++it) {
				c.check(y.count((*it).v()) && seen.insert((*it).v()).second, "%s: value %d is not there, or twice", what, (*it).v());
			}
			c.check(seen.size() == y.size(), "%s: visiting found %d of %d values", what, (int)seen.size(), (int)y.size());
			for (int v : y) {
				c.check(x.has(Tok(v)), "%s: value %d got lost", what, v);
			}
		};
		for (int st = 0; st < steps; st++) {
			int op = (int)s.draw(13), k = (int)s.draw(ks);
			switch (op) {
				case 0:
				case 1:
				case 2:
				case 3:
				case 4: {
					c.note("insert %d", k);
					typename M::Iterator it = t.insert(Tok(k));
					c.check(it && (*it).v() == k, "insert(%d) returned another value", k);
					m.insert(k);
					break;
				}
				case 5:
				case 6:
				case 7:
					c.note("erase %d", k);
					c.check(t.erase(Tok(k)) == (m.erase(k) == 1), "erase(%d) answered wrong", k);
					break;
				case 8: {
					typename M::Iterator it = t.find(Tok(k));
					c.check(t.has(Tok(k)) == (m.count(k) == 1) && (bool)it == (m.count(k) == 1), "looking up %d answered wrong", k);
					if (it) {
						c.check((*it).v() == k, "find(%d) found %d", k, (*it).v());
					}
					break;
				}
				case 9: {
					uint32_t z = (uint32_t)s.draw(300);
					c.note("reserve %d", (int)z);
					t.reserve(z);
					c.check(t.get_capacity() >= z, "capacity %u after reserving %u", t.get_capacity(), z);
					break;
				}
				case 10:
					c.note("copy");
					if (s.one_in(4)) {
						t = t;
					} else if (s.flag()) {
						other = t;
						om = m;
					} else {
						t = other;
						m = om;
					}
					{
						M u(t);
						check(u, m, "a copy");
						u.insert(Tok(k));
					}
					break;
				case 11:
					if (s.one_in(5)) {
						c.note("clear");
						t.clear();
						m.clear();
					}
					break;
				case 12:
					if (s.one_in(5)) {
						c.note("reset");
						t.reset();
						m.clear();
					}
					break;
			}
			check(t, m, "the set");
			check(other, om, "the copy");
			big = std::max(big, (int)m.size());
			c.no_errors("the set");
		}
	}
	c.check(Tok::live == live, "%d values were never destroyed", Tok::live - live);
	c.nt(big >= 5);
}
template <class H>
void prop_oghash(Src &s, Ctx &c) {
	int live = Tok::live, steps = s.grown(1, 70, 420), ks = span(s), big = 0;
	c.errors();
	{
		typedef OGHashMap<Tok, Tok, H> M;
		M t, other;
		std::map<int, int> m, om;
		auto check = [&](M &x, const std::map<int, int> &y, const char *what) {
			c.check(x.size() == y.size() && x.empty() == y.empty(), "%s: %d entries, expected %d", what, (int)x.size(), (int)y.size());
			std::set<int> seen;
			for (const Tok *k = x.next(nullptr); k; k = x.next(k)) {
				c.check(y.count(k->v()) && seen.insert(k->v()).second, "%s: key %d is not there, or twice", what, k->v());
			}
			c.check(seen.size() == y.size(), "%s: next() found %d of %d keys", what, (int)seen.size(), (int)y.size());
			for (auto &z : y) {
				Tok *p = x.getptr(Tok(z.first));
				c.check(p && p->v() == z.second, "%s: key %d got lost", what, z.first);
			}
		};
		for (int st = 0; st < steps; st++) {
			int op = (int)s.draw(12), k = (int)s.draw(ks), e = gv(s);
			bool has = m.count(k);
			switch (op) {
				case 0:
				case 1:
				case 2:
				case 3: {
					c.note("set %d", k);
					typename M::Element *x = t.set(Tok(k), Tok(e));
					c.check(x && x->key().v() == k && x->value().v() == e, "set(%d) returned another element", k);
					m[k] = e;
					break;
				}
				case 4:
				case 5:
				case 6:
					c.note("erase %d", k);
					c.check(t.erase(Tok(k)) == (m.erase(k) == 1), "erase(%d) answered wrong", k);
					break;
				case 7:
					c.note("[%d]=", k);
					t[Tok(k)] = Tok(e);
					m[k] = e;
					break;
				case 8: {
					const M &ct = t;
					c.check(t.has(Tok(k)) == has && (t.getptr(Tok(k)) != nullptr) == has && (t.find(Tok(k)) != nullptr) == has, "looking up %d answered wrong", k);
					if (has) {
						c.check(t.get(Tok(k)).v() == m[k] && ct.get(Tok(k)).v() == m[k] && ct[Tok(k)].v() == m[k] && t.find(Tok(k))->value().v() == m[k], "the value of %d is wrong", k);
					}
					break;
				}
				case 9:
					c.note("copy");
					if (s.one_in(4)) {
						t = t;
					} else if (s.flag()) {
						other = t;
						om = m;
					} else {
						t = other;
						m = om;
					}
					{
						M u(t);
						check(u, m, "a copy");
						u.clear();
					}
					break;
				case 10:
					if (s.one_in(5)) {
						c.note("clear");
						t.clear();
						m.clear();
					}
					break;
				case 11: {
					List<Tok> keys;
					t.get_key_list(&keys);
					std::set<int> seen;
					for (auto *q = keys.front(); q; q = q->next()) {
						c.check(m.count(q->get().v()) && seen.insert(q->get().v()).second, "the key list has %d", q->get().v());
					}
					c.check(seen.size() == m.size(), "the key list has %d of %d", (int)seen.size(), (int)m.size());
					break;
				}
			}
			check(t, m, "the map");
			check(other, om, "the copy");
			big = std::max(big, (int)m.size());
			c.no_errors("the map");
		}
	}
	c.check(Tok::live == live, "%d keys or values were never destroyed", Tok::live - live);
	c.nt(big >= 5);
}
template <class H>
void prop_ordered_hash(Src &s, Ctx &c) {
	int live = Tok::live, steps = s.grown(1, 60, 360), ks = span(s), big = 0;
	c.errors();
	{
		typedef OrderedHashMap<Tok, Tok, H> M;
		M t, other;
		std::vector<std::pair<int, int>> m, om;
		auto find = [&](int k) { return std::find_if(m.begin(), m.end(), [&](std::pair<int, int> &x) { return x.first == k; }); };
		auto check = [&](M &x, std::vector<std::pair<int, int>> &y, const char *what) {
			c.check(x.size() == (int)y.size() && x.empty() == y.empty(), "%s: %d entries, expected %d", what, x.size(), (int)y.size());
			size_t i = 0;
			for (typename M::Element e = x.front(); e; e = e.next(), i++) {
				c.check(i < y.size() && e.key().v() == y[i].first && e.value().v() == y[i].second, "%s: order or value differ at %d", what, (int)i);
			}
			c.check(i == y.size(), "%s: visiting found %d of %d entries", what, (int)i, (int)y.size());
			for (typename M::Element e = x.back(); e; e = e.prev()) {
				c.check(i > 0 && e.key().v() == y[i - 1].first, "%s: the reverse order differs", what);
				i--;
			}
			c.check(i == 0, "%s: visiting backwards ends early", what);
			for (auto &z : y) {
				c.check(x.has(Tok(z.first)) && x[Tok(z.first)].v() == z.second && x.find(Tok(z.first)).value().v() == z.second, "%s: key %d got lost", what, z.first);
			}
		};
		for (int st = 0; st < steps; st++) {
			int op = (int)s.draw(11), k = (int)s.draw(ks), e = gv(s);
			auto it = find(k);
			bool has = it != m.end();
			switch (op) {
				case 0:
				case 1:
				case 2:
				case 3: {
					c.note("insert %d", k);
					typename M::Element x = t.insert(Tok(k), Tok(e));
					c.check(x && x.key().v() == k && x.value().v() == e, "insert(%d) returned another element", k);
					if (has) {
						it->second = e;
					} else {
						m.push_back({ k, e });
					}
					break;
				}
				case 4:
				case 5:
					c.note("erase %d", k);
					c.check(t.erase(Tok(k)) == has, "erase(%d) answered %d", k, !has);
					if (has) {
						m.erase(it);
					}
					break;
				case 6:
					c.note("[%d]=", k);
					t[Tok(k)] = Tok(e);
					if (has) {
						it->second = e;
					} else {
						m.push_back({ k, e });
					}
					break;
				case 7: {
					typename M::Element x = t.find(Tok(k));
					const M &ct = t;
					c.check((bool)x == has && t.has(Tok(k)) == has && (bool)ct.find(Tok(k)) == has, "looking up %d answered wrong", k);
					break;
				}
				case 8:
					c.note("copy");
					if (s.one_in(4)) {
						t = t;
					} else if (s.flag()) {
						other = t;
						om = m;
					} else {
						t = other;
						m = om;
					}
					{
						M u(t);
						check(u, m, "a copy");
					}
					break;
				case 9:
					if (has) {
						c.note("erase element %d", k);
						typename M::Element x = t.find(Tok(k));
						t.erase(x);
						m.erase(it);
					}
					break;
				case 10:
					if (s.one_in(5)) {
						c.note("clear");
						t.clear();
						m.clear();
					}
					break;
			}
			check(t, m, "the map");
			check(other, om, "the copy");
			big = std::max(big, (int)m.size());
			c.no_errors("the map");
		}
	}
	c.check(Tok::live == live, "%d keys or values were never destroyed", Tok::live - live);
	c.nt(big >= 5);
}

// ------------------------------------------------------------------------------ sorting
struct Rec {
	int key, id;
	bool operator<(const Rec &o) const { return key < o.key; }
	bool operator==(const Rec &o) const { return key == o.key && id == o.id; }
};
struct ById {
	bool operator()(const Rec &a, const Rec &b) const { return a.id < b.id; }
};
std::vector<Rec> gen_recs(Src &s, int lo, int hi) {
	int n = (int)s.range(lo, hi), shape = (int)s.draw(6), range = s.pick({ 2, 10, 1000000 });
	std::vector<Rec> v(n);
	for (int i = 0; i < n; i++) {
		int k = 0;
		switch (shape) {
			case 0:
			case 1:
			case 2:
				k = (int)s.draw(range);
				break;
			case 3:
				k = i;
				break;
			case 4:
				k = -i;
				break;
			case 5: // organ pipe with noise
				k = std::min(i, n - i) + (int)s.draw(3);
				break;
		}
		v[i] = { k, i };
	}
	return v;
}
void prop_sort(Src &s, Ctx &c) {
	std::vector<Rec> v = gen_recs(s, 0, s.pick({ 6, 40, 400 })), w = v;
	int n = (int)v.size(), how = (int)s.draw(5);
	std::vector<int> sorted;
	for (Rec &r : v) {
		sorted.push_back(r.key);
	}
	IV keys = sorted;
	c.note("n=%d form=%d %s", n, how, show(keys).c_str());
	std::sort(sorted.begin(), sorted.end());
	SortArray<Rec> sa;
	int from = 0, to = n;
	switch (how) {
		case 0:
			sa.sort(v.data(), n);
			break;
		case 1: // part of the array only
			if (n) {
				from = (int)s.draw(n);
				to = from + (int)s.draw(n - from + 1);
			}
			sa.sort_range(from, to, v.data());
			break;
		case 2: { // the smallest ones in front
			int mid = n ? (int)s.range(1, n) : 0;
			if (n) {
				sa.partial_sort(0, n, mid, v.data());
			}
			for (int i = 0; i < mid; i++) {
				c.check(v[i].key == sorted[i], "partial sort of %d: position %d has %d, expected %d", mid, i, v[i].key, sorted[i]);
			}
			to = 0;
			break;
		}
		case 3: { // one position only
			int nth = n ? (int)s.draw(n) : 0;
			if (n) {
				sa.nth_element(0, n, nth, v.data());
				c.check(v[nth].key == sorted[nth], "element %d of the order is %d, expected %d", nth, v[nth].key, sorted[nth]);
				for (int i = 0; i < n; i++) {
					c.check(i < nth ? v[i].key <= sorted[nth] : v[i].key >= sorted[nth], "position %d is on the wrong side of element %d", i, nth);
				}
			}
			to = 0;
			break;
		}
		case 4: {
			sa.sort(v.data(), n);
			break;
		}
	}
	for (int i = from + 1; i < to; i++) {
		c.check(v[i - 1].key <= v[i].key, "position %d has %d after %d", i, v[i].key, v[i - 1].key);
	}
	for (int i = 0; i < n; i++) {
		if (how == 1 && (i < from || i >= to)) {
			c.check(v[i] == w[i], "sorting %d..%d changed position %d", from, to, i);
		}
	}
	std::vector<bool> seen(n);
	for (Rec &r : v) {
		c.check(r.id >= 0 && r.id < n && !seen[r.id] && r.key == w[r.id].key, "an element was lost or doubled");
		seen[r.id] = true;
	}
	c.no_errors("sorting");
	c.nt(n >= 17);
}
// every comparison function that is wrong must not make it leave the array
void prop_sort_list(Src &s, Ctx &c) {
	std::vector<Rec> v = gen_recs(s, 0, s.pick({ 6, 40, 200 }));
	int n = (int)v.size();
	List<Rec> l, l2;
	Vector<Rec> a;
	PoolVector<Rec> p;
	LocalVector<Rec> b;
	for (Rec &r : v) {
		l.push_back(r);
		l2.push_back(r);
		a.push_back(r);
		p.push_back(r);
		b.push_back(r);
	}
	Vector<Rec> keep = a;
	l.sort();
	l2.sort_custom_inplace<Comparator<Rec>>();
	a.sort();
	p.sort();
	b.sort();
	std::stable_sort(v.begin(), v.end());
	auto *e = l.front();
	auto *e2 = l2.front();
	std::set<int> ids[5];
	for (int i = 0; i < n; i++) {
		c.check(e && e2 && e->get().key == v[i].key && e2->get().key == v[i].key && a[i].key == v[i].key && p[i].key == v[i].key && b[i].key == v[i].key, "position %d is not %d", i, v[i].key);
		ids[0].insert(e->get().id);
		ids[1].insert(e2->get().id);
		ids[2].insert(a[i].id);
		ids[3].insert(p[i].id);
		ids[4].insert(b[i].id);
		e = e->next();
		e2 = e2->next();
	}
	for (auto &i : ids) {
		c.check((int)i.size() == n, "an element was lost or doubled");
	}
	for (int i = 0; i < n; i++) {
		c.check(keep[i].id == i, "sorting changed a copy");
	}
	a.sort_custom<ById>();
	b.sort_custom<ById>();
	for (int i = 0; i < n; i++) {
		c.check(a[i].id == i && b[i].id == i, "sorting by another comparison put %d at %d", a[i].id, i);
	}
	c.no_errors("sorting");
	c.nt(n >= 17);
}

// long histories of one kind of step at a time: the trees must not lose their balance
int compared = 0;
struct CountLess {
	bool operator()(int a, int b) const {
		compared++;
		return a < b;
	}
};
void tree_add(RBMap<int, int, CountLess> &t, int k) { t.insert(k, -k); }
void tree_add(RBSet<int, CountLess> &t, int k) { t.insert(k); }
int tree_key(RBMap<int, int, CountLess>::Element *e) { return e->value() == -e->key() ? e->key() : -1; }
int tree_key(RBSet<int, CountLess>::Element *e) { return e->get(); }

template <class M>
void prop_long_tree(Src &s, Ctx &c) {
	M t;
	std::set<int> m;
	int phases = s.size(1, 9), next = 100000, low = 100000, most = 0;
	for (int ph = 0; ph < phases; ph++) {
		int kind = (int)s.draw(9), n = s.size(1, 120), step = 1 + (int)s.draw(7);
		uint64_t r = s.draw(1u << 30) * 2 + 1;
		c.note("%d*%d ", kind, n);
		for (int i = 0; i < n; i++) {
			r = r * 6364136223846793005ull + 1442695040888963407ull;
			int k = (int)(r >> 40) % 997;
			bool add = kind <= 2 || (kind == 6 && i % 2 == 0) || (kind == 7 && i % 2 == 0);
			if (kind == 8) {
				add = (r >> 33) % 2;
			}
			if (add) {
				k = kind == 0 || kind == 6 ? (next += step) : (kind == 1 || kind == 7 ? (low -= step) : 99500 + k);
				tree_add(t, k);
				m.insert(k);
			} else if (!m.empty()) {
				auto it = m.begin(); // smallest, largest, any
				if (kind == 4 || kind == 7) {
					it = std::prev(m.end());
				} else if (kind == 5 || kind == 8) {
					it = m.lower_bound(*m.begin() + (int)((r >> 30) % (uint64_t)(*std::prev(m.end()) - *m.begin() + 1)));
				}
				c.check(t.erase(*it), "%d was not there to be erased", *it);
				m.erase(it);
			}
		}
		most = std::max(most, (int)m.size());
		c.check((int)t.size() == (int)m.size(), "%d entries, expected %d", (int)t.size(), (int)m.size());
		auto *e = t.front();
		for (int k : m) {
			c.check(e && tree_key(e) == k, "the entries are not those inserted, in order");
			e = e->next();
		}
		c.check(!e, "entries after the last one");
		double lim = 2 * std::log2(m.size() + 1.0);
		c.check(t.calculate_depth() <= lim + 1, "depth %d for %d entries", t.calculate_depth(), (int)m.size());
		for (int k : m) {
			compared = 0;
			bool found = t.find(k) != nullptr;
			c.check(found, "%d is not found", k);
			c.check(compared <= 2 * lim + 4, "%d comparisons to find one of %d entries", compared, (int)m.size());
		}
	}
	c.nt(most >= 20 && phases >= 2);
}
} // namespace

VT_PROP(P01, vector, 24000) { prop_seq<Vector<int>>(s, c); }
VT_PROP(P01, vector_of_objects, 24000) { prop_seq<Vector<Tok>>(s, c); }
VT_PROP(P01, pool_vector, 24000) { prop_seq<PoolVector<int>>(s, c); }
VT_PROP(P01, pool_vector_of_bytes, 12000) { prop_seq<PoolVector<uint8_t>>(s, c); }
VT_PROP(P01, pool_vector_of_objects, 24000) { prop_seq<PoolVector<Tok>>(s, c); }
VT_PROP(P01, local_vector, 16000) { prop_seq<LocalVector<int>>(s, c); }
VT_PROP(P01, local_vector_of_objects, 24000) { prop_seq<LocalVector<Tok>>(s, c); }
VT_PROP(P01, tight_local_vector, 16000) { prop_seq<TightLocalVector<int>>(s, c); }
VT_PROP(P01, tight_local_vector_of_objects, 24000) { prop_seq<TightLocalVector<Tok>>(s, c); }
VT_PROP(P01, ring_buffer, 24000) { prop_ring(s, c); }

VT_PROP(P02, map, 24000) { prop_rbmap(s, c); }
VT_PROP(P02, set, 24000) { prop_rbset(s, c); }
VT_PROP(P02, long_map, 1200) { prop_long_tree<RBMap<int, int, CountLess>>(s, c); }
VT_PROP(P02, long_set, 1200) { prop_long_tree<RBSet<int, CountLess>>(s, c); }
VT_PROP(P02, sorted_vector_map, 20000) { prop_vmap(s, c); }
VT_PROP(P02, list, 24000) { prop_list(s, c); }

VT_PROP(P03, hash_map, 16000) { prop_hashmap<Fair>(s, c); }
VT_PROP(P03, hash_map_collisions, 16000) { prop_hashmap<Poor>(s, c); }
VT_PROP(P03, hash_map_zero_hash, 8000) { prop_hashmap<Zero>(s, c); }
VT_PROP(P03, hash_set, 16000) { prop_hashset<Fair>(s, c); }
VT_PROP(P03, hash_set_collisions, 16000) { prop_hashset<Poor>(s, c); }
VT_PROP(P03, chained_hash_map, 16000) { prop_oghash<Fair>(s, c); }
VT_PROP(P03, chained_hash_map_collisions, 12000) { prop_oghash<Poor>(s, c); }
VT_PROP(P03, ordered_hash_map, 16000) { prop_ordered_hash<Fair>(s, c); }
VT_PROP(P03, ordered_hash_map_collisions, 12000) { prop_ordered_hash<Poor>(s, c); }

VT_PROP(P04, sort_array, 32000) { prop_sort(s, c); }
VT_PROP(P04, containers, 20000) { prop_sort_list(s, c); }
