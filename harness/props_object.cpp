// P17: objects, references to them, their signals and interned names
#include "vt.h"
#include "platform/sfw.h"
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

using vt::Ctx;
using vt::Src;

namespace {
std::map<void *, int> made; // every object of the classes below, by its tag
std::vector<std::string> said; // what they were notified of
int next_tag = 0;
bool refuse = false; // deletion

#define SAYS(m_name, m_class)                                     \
	void _notification(int p_what) {                              \
		char t[64];                                               \
		snprintf(t, sizeof t, "%s%d %d", m_name, tag, p_what);    \
		said.push_back(t);                                        \
		if (refuse && p_what == Object::NOTIFICATION_PREDELETE) { \
			cancel_free();                                        \
		}                                                         \
	}

class Thing : public Object {
	SFW_OBJECT(Thing, Object);

public:
	int tag;
	std::map<std::string, int> mine; // properties that start with t
	SAYS("Thing", Thing)
	bool _set(const StringName &p_name, const Variant &p_value) {
		String n = p_name;
		if (n.begins_with("t")) {
			mine[n.utf8().get_data()] = p_value;
			return true;
		}
		return false;
	}
	bool _get(const StringName &p_name, Variant &r_value) const {
		auto it = mine.find(String(p_name).utf8().get_data());
		if (it == mine.end()) {
			return false;
		}
		r_value = it->second;
		return true;
	}
	Thing() {
		tag = next_tag++;
		made[this] = tag;
	}
	~Thing() { made.erase(this); }
};
class Gadget : public Thing { // has nothing of its own to say
	SFW_OBJECT(Gadget, Thing);
};
class Widget : public Gadget {
	SFW_OBJECT(Widget, Gadget);

public:
	int width = 0;
	SAYS("Widget", Widget)
	bool _set(const StringName &p_name, const Variant &p_value) {
		if (p_name == StringName("width") || p_name == StringName("text")) { // the second is Thing's
			width = p_value;
			return true;
		}
		return false;
	}
	bool _get(const StringName &p_name, Variant &r_value) const {
		if (p_name == StringName("width")) {
			r_value = width;
			return true;
		}
		return false;
	}
};
class Box : public Reference {
	SFW_OBJECT(Box, Reference);

public:
	int tag;
	Ref<Box> next;
	Variant held;
	SAYS("Box", Box)
	Box() {
		tag = next_tag++;
		made[this] = tag;
	}
	~Box() { made.erase(this); }
};
class Crate : public Box {
	SFW_OBJECT(Crate, Box);

public:
	SAYS("Crate", Crate)
};
class Bag : public Resource {
	SFW_OBJECT(Bag, Resource);

public:
	int tag;
	Bag() {
		tag = next_tag++;
		made[this] = tag;
	}
	~Bag() { made.erase(this); }
};

int said_of(const char *what, int tag, int notification) {
	char t[64];
	snprintf(t, sizeof t, "%s%d %d", what, tag, notification);
	return (int)std::count(said.begin(), said.end(), std::string(t));
}
void begin() {
	made.clear();
	said.clear();
	next_tag = 0;
	refuse = false;
}
} // namespace

// References of every kind to the same few objects, held by variables, each other, arrays and dictionaries:
// the objects live exactly as long as something refers to them.
VT_PROP(P17, references, 6000) {
	begin();
	int base = ObjectDB::get_object_count();
	std::vector<void *> ptr; // by tag
	std::vector<ObjectID> ids;
	std::vector<bool> crate, alive;
	{
		const int NB = 3, NC = 2, NR = 2, NP = 2, NV = 3, N = NB + NC + NR + NP + NV;
		Ref<Box> b[NB];
		Ref<Crate> k[NC];
		Ref<Reference> r[NR];
		RefPtr p[NP];
		Variant v[NV];
		Array arr;
		Dictionary dict;
		// the reference: what each holder refers to, -1 for nothing
		std::vector<int> slot(N, -1), in_arr;
		std::map<int, int> in_dict;
		std::vector<int> next, held;
		auto where = [&](int i) -> void * { return i < 0 ? nullptr : ptr[i]; };
		auto get = [&](int i) -> Ref<Box> { // a reference to what holder i refers to
			if (i < NB) {
				return b[i];
			}
			i -= NB;
			if (i < NC) {
				return k[i];
			}
			i -= NC;
			if (i < NR) {
				return r[i];
			}
			i -= NR;
			if (i < NP) {
				return p[i];
			}
			return v[i - NP];
		};
		auto settle = [&]() { // who lives
			std::vector<bool> reach(ptr.size(), false);
			std::vector<int> todo = slot;
			todo.insert(todo.end(), in_arr.begin(), in_arr.end());
			for (auto &e : in_dict) {
				todo.push_back(e.second);
			}
			while (!todo.empty()) {
				int i = todo.back();
				todo.pop_back();
				if (i >= 0 && !reach[i]) {
					reach[i] = true;
					todo.push_back(next[i]);
					todo.push_back(held[i]);
				}
			}
			for (size_t i = 0; i < ptr.size(); i++) {
				if (!reach[i]) {
					alive[i] = false;
					next[i] = held[i] = -1;
				}
			}
		};
		auto count = [&](int t) {
			int n = (int)std::count(slot.begin(), slot.end(), t) + (int)std::count(in_arr.begin(), in_arr.end(), t);
			for (auto &e : in_dict) {
				n += e.second == t;
			}
			return n + (int)std::count(next.begin(), next.end(), t) + (int)std::count(held.begin(), held.end(), t);
		};
		auto know = [&](Box *x, bool cr) {
			c.check(x->tag == (int)ptr.size(), "object %d is new, not %d", (int)ptr.size(), x->tag);
			ptr.push_back(x);
			ids.push_back(x->get_instance_id());
			crate.push_back(cr);
			alive.push_back(true);
			next.push_back(-1);
			held.push_back(-1);
			return x->tag;
		};
		auto fits = [&](int h, int t) { // a holder of crates takes nothing else
			return (h >= NB && h < NB + NC && t >= 0 && !crate[t]) ? -1 : t;
		};
		int steps = s.grown(1, 30, 180), did = 0;
		for (int step = 0; step < steps; step++) {
			int op = (int)s.draw(16), h = (int)s.draw(N), g = (int)s.draw(N);
			int ht = slot[h], gt = slot[g];
			switch (op) {
				case 0: { // a new object
					c.note("new %d;", h);
					if (h < NB) {
						b[h].instance();
						slot[h] = know(b[h].ptr(), false);
					} else if (h < NB + NC) {
						k[h - NB].instance();
						slot[h] = know(k[h - NB].ptr(), true);
					} else if (h < NB + NC + NR) {
						Box *x = memnew(Box);
						r[h - NB - NC] = Ref<Reference>(x);
						slot[h] = know(x, false);
					} else if (h < N - NV) {
						Ref<Crate> x(memnew(Crate));
						p[h - NB - NC - NR] = x.get_ref_ptr();
						slot[h] = know(x.ptr(), true);
					} else {
						Box *x = memnew(Box);
						v[h - (N - NV)] = s.flag() ? Variant(x) : Variant(Ref<Box>(x));
						slot[h] = know(x, false);
					}
				} break;
				case 1: // let go
					c.note("unref %d;", h);
					if (h < NB) {
						b[h].unref();
					} else if (h < NB + NC) {
						k[h - NB].unref();
					} else if (h < NB + NC + NR) {
						r[h - NB - NC] = Ref<Reference>();
					} else if (h < N - NV) {
						p[h - NB - NC - NR].unref();
					} else {
						v[h - (N - NV)] = s.flag() ? Variant() : Variant(7);
					}
					slot[h] = -1;
					break;
				case 2:
				case 3:
				case 4: { // assign one holder to another, of whatever kinds they are
					c.note("%d = %d;", h, g);
					int G = g;
#define TO(m_lhs)                                                         \
	if (G < NB) {                                                         \
		m_lhs = b[G];                                                     \
	} else if (G < NB + NC) {                                             \
		m_lhs = k[G - NB];                                                \
	} else if (G < NB + NC + NR) {                                        \
		m_lhs = r[G - NB - NC];                                           \
	} else if (G < N - NV) {                                              \
		m_lhs = p[G - NB - NC - NR];                                      \
	} else {                                                              \
		m_lhs = v[G - (N - NV)];                                          \
	}
#define TOV(m_lhs)                                                        \
	if (G < NB) {                                                         \
		m_lhs = b[G];                                                     \
	} else if (G < NB + NC) {                                             \
		m_lhs = k[G - NB];                                                \
	} else if (G < NB + NC + NR) {                                        \
		m_lhs = r[G - NB - NC];                                           \
	} else if (G < N - NV) {                                              \
		m_lhs = Variant(p[G - NB - NC - NR]);                             \
	} else {                                                              \
		m_lhs = v[G - (N - NV)];                                          \
	}
#define TOP(m_lhs)                                                        \
	if (G < NB) {                                                         \
		m_lhs = b[G].get_ref_ptr();                                       \
	} else if (G < NB + NC) {                                             \
		m_lhs = k[G - NB].get_ref_ptr();                                  \
	} else if (G < NB + NC + NR) {                                        \
		m_lhs = r[G - NB - NC].get_ref_ptr();                             \
	} else if (G < N - NV) {                                              \
		m_lhs = p[G - NB - NC - NR];                                      \
	} else {                                                              \
		m_lhs = v[G - (N - NV)].operator RefPtr();                        \
	}
					if (h < NB) {
						TO(b[h])
					} else if (h < NB + NC) {
						TO(k[h - NB])
					} else if (h < NB + NC + NR) {
						TO(r[h - NB - NC])
					} else if (h < N - NV) {
						TOP(p[h - NB - NC - NR])
					} else {
						TOV(v[h - (N - NV)])
					}
					slot[h] = fits(h, gt);
					did += gt >= 0 && ht != gt;
				} break;
				case 5: { // link objects, always to newer ones, so that there are no cycles
					if (ht < 0 || (gt >= 0 && gt <= ht)) {
						break;
					}
					c.note("%d.next = %d;", h, g);
					Ref<Box> x = get(h);
					x->next = get(g);
					next[ht] = gt;
					did++;
				} break;
				case 6: // walk along
					if (h >= NB || ht < 0) {
						break;
					}
					c.note("%d = %d.next;", h, h);
					b[h] = b[h]->next;
					slot[h] = next[ht];
					did += 2;
					break;
				case 7:
					if (h >= NB || ht < 0) {
						break;
					}
					c.note("%d takes %d.next;", h, h);
					if (s.flag()) {
						Box *x = b[h]->next.ptr();
						Ref<Box> keep(x);
						b[h].reference_ptr(x);
					} else {
						b[h] = Variant(b[h]->next);
					}
					slot[h] = next[ht];
					did += 2;
					break;
				case 8: { // a raw pointer to what lives already
					if (h >= NB + NC || gt < 0) {
						break;
					}
					c.note("%d points to %d;", h, g);
					Reference *x = get(g).ptr();
					if (h < NB) {
						s.flag() ? b[h].reference_ptr(x) : (void)(b[h] = Ref<Box>((Box *)x));
					} else {
						k[h - NB].reference_ptr(x);
					}
					slot[h] = fits(h, gt);
					did++;
				} break;
				case 9: { // copies that come and go
					c.note("copies of %d;", h);
					Ref<Box> x = get(h), y(x);
					std::vector<Ref<Box>> many(3, y);
					Ref<Crate> z(x);
					Ref<Reference> w(z);
					Variant u(y), u2(u), u3(x.ptr());
					Vector<Ref<Box>> vec;
					vec.push_back(u);
					vec.push_back(u3);
					vec.push_back(z);
					Vector<Ref<Box>> vec2 = vec;
					vec2.set(0, x);
					RefPtr q = y.get_ref_ptr(), q2(q);
					int cr = ht >= 0 && crate[ht];
					c.check(x.is_valid() == (ht >= 0) && z.is_valid() == cr && w.is_valid() == cr, "casts of object %d", ht);
					if (ht >= 0) {
						// x, y, many (3), u, u2, u3, q, q2; z, w; vec has 3 entries, vec2 the same with its own references
						int local = 10 + (cr ? 2 : 0) + 2 * (cr ? 3 : 2);
						c.check(x->reference_get_count() == count(ht) + local, "object %d has %d references with %d more, expected %d", ht, x->reference_get_count(), local, count(ht) + local);
					}
					did += ht >= 0;
				} break;
				case 10:
					c.note("append %d;", h);
					arr.push_back(get(h));
					in_arr.push_back(ht);
					break;
				case 11:
					if (!in_arr.empty()) {
						int i = (int)s.draw(in_arr.size());
						c.note("remove [%d];", i);
						arr.remove(i);
						in_arr.erase(in_arr.begin() + i);
					}
					break;
				case 12: {
					int key = (int)s.draw(3);
					c.note("{%d} = %d;", key, h);
					dict[key] = get(h);
					in_dict[key] = ht;
				} break;
				case 13: {
					int key = (int)s.draw(3);
					c.note("erase {%d};", key);
					dict.erase(key);
					in_dict.erase(key);
				} break;
				case 14: { // held by an object's variant
					if (ht < 0 || (gt >= 0 && gt <= ht)) {
						break;
					}
					c.note("%d.held = %d;", h, g);
					Ref<Box> x = get(h);
					switch (s.draw(3)) {
						case 0:
							x->held = get(g);
							break;
						case 1: {
							Array a;
							a.push_back(get(g));
							x->held = a;
						} break;
						default: {
							Dictionary d;
							d["x"] = get(g);
							x->held = d;
						}
					}
					held[ht] = gt;
					did++;
				} break;
				default: // self assignment
					c.note("%d = %d;", h, h);
					if (h < NB) {
						b[h] = *&b[h];
					} else if (h < NB + NC) {
						k[h - NB] = *&k[h - NB];
					} else if (h >= N - NV) {
						v[h - (N - NV)] = *&v[h - (N - NV)];
					} else if (h >= NB + NC + NR) {
						p[h - NB - NC - NR] = *&p[h - NB - NC - NR];
					}
			}
			settle();
			int living = 0;
			for (size_t i = 0; i < ptr.size(); i++) {
				living += alive[i];
				Object *o = ObjectDB::get_instance(ids[i]);
				if (alive[i]) {
					c.check(made.count(ptr[i]) && made[ptr[i]] == (int)i, "object %d is gone", (int)i);
					c.check(o == (Object *)(Box *)ptr[i] && ObjectDB::instance_validate(o), "object %d isn't found by its id", (int)i);
					Box *x = (Box *)o;
					c.check(x->reference_get_count() == count((int)i), "object %d has %d references, expected %d", (int)i, x->reference_get_count(), count((int)i));
					c.check(said_of("Box", (int)i, 1) == 0, "object %d was told it is deleted", (int)i);
				} else {
					c.check(o == nullptr, "deleted object %d is found by its id", (int)i);
					c.check(said_of("Box", (int)i, 1) == 1, "object %d was told %d times that it is deleted", (int)i, said_of("Box", (int)i, 1));
				}
				c.check(said_of("Box", (int)i, 0) == 1, "object %d was told %d times that it is ready", (int)i, said_of("Box", (int)i, 0));
			}
			c.check((int)made.size() == living, "%d objects live, expected %d", (int)made.size(), living);
			c.check(ObjectDB::get_object_count() - base == living, "%d objects registered, expected %d", ObjectDB::get_object_count() - base, living);
			for (int i = 0; i < NB; i++) {
				c.check(b[i].ptr() == where(slot[i]) && b[i].is_null() == (slot[i] < 0) && b[i].is_valid() == (slot[i] >= 0), "holder %d", i);
				c.check((b[i] == b[0]) == (slot[i] == slot[0]) && (b[i] != b[0]) == (slot[i] != slot[0]), "comparing holders");
			}
			for (int i = 0; i < NC; i++) {
				c.check(k[i].ptr() == where(slot[NB + i]), "holder %d", NB + i);
			}
			for (int i = 0; i < NR; i++) {
				c.check(Object::cast_to<Box>(r[i].ptr()) == where(slot[NB + NC + i]), "holder %d", NB + NC + i);
			}
			for (int i = 0; i < NP; i++) {
				c.check(p[i].is_null() == (slot[NB + NC + NR + i] < 0) && (p[i] == p[0]) == (slot[NB + NC + NR + i] == slot[NB + NC + NR]) && (p[i] != p[0]) == (slot[NB + NC + NR + i] != slot[NB + NC + NR]), "holder %d", NB + NC + NR + i);
			}
			for (int i = 0; i < NV; i++) {
				int t = slot[N - NV + i];
				Object *o = v[i];
				c.check(o == (Object *)(Box *)where(t) && v[i].get_object_instance_id() == (t < 0 ? 0 : ids[t]) && v[i].is_ref() == (t >= 0) && !v[i].is_invalid_object(), "holder %d", N - NV + i);
			}
			for (size_t i = 0; i < in_arr.size(); i++) {
				c.check((Object *)arr[i] == (Object *)(Box *)where(in_arr[i]), "element %d", (int)i);
			}
		}
		c.nt(did >= 3 && ptr.size() > 1);
	}
	c.check(made.empty(), "%d objects survive everything that referred to them", (int)made.size());
	c.check(ObjectDB::get_object_count() == base, "%d objects stay registered", ObjectDB::get_object_count() - base);
	c.no_errors("the history");
}

// Plain objects are deleted by hand; variants that hold them notice.
VT_PROP(P17, lifetimes, 6000) {
	begin();
	int base = ObjectDB::get_object_count();
	uint64_t mem = 0;
	struct O {
		Thing *p;
		ObjectID id;
		bool widget, alive;
	};
	std::vector<O> all;
	{
		const int NV = 5;
		Variant v[NV];
		std::vector<int> slot(NV, -1);
		int steps = s.grown(1, 30, 180), dead_held = 0;
		for (int step = 0; step < steps; step++) {
			int op = (int)s.draw(8), h = (int)s.draw(NV), g = (int)s.draw(NV);
			int o = all.empty() ? -1 : (int)s.draw(all.size());
			switch (op) {
				case 0:
				case 1: {
					bool w = s.flag();
					c.note("new;");
					Thing *x = w ? memnew(Widget) : memnew(Thing);
					std::vector<std::string> want = { "Thing" + std::to_string(x->tag) + " 0" };
					if (w) {
						want.push_back("Widget" + std::to_string(x->tag) + " 0");
					}
					std::vector<std::string> got(said.end() - std::min(said.size(), want.size()), said.end());
					c.check(got == want, "a new object wasn't told so, the base first");
					for (O &y : all) {
						c.check(y.id != x->get_instance_id(), "an id is used again");
					}
					c.check(x->get_instance_id() != 0, "an object without id");
					all.push_back({ x, x->get_instance_id(), w, true });
				} break;
				case 2: { // delete
					if (o < 0 || !all[o].alive) {
						break;
					}
					bool no = s.one_in(4);
					c.note("%s %d;", no ? "refused" : "delete", o);
					size_t before = said.size();
					refuse = no;
					memdelete(all[o].p);
					refuse = false;
					std::vector<std::string> want = { "Thing" + std::to_string(o) + " 1" };
					if (all[o].widget) {
						want.insert(want.begin(), "Widget" + std::to_string(o) + " 1");
					}
					std::vector<std::string> got(said.begin() + before, said.end());
					c.check(got == want, "deletion wasn't announced, the derived class first");
					all[o].alive = no;
				} break;
				case 3:
				case 4: { // hold
					if (o >= 0 && all[o].alive) {
						c.note("%d = object %d;", h, o);
						v[h] = Variant(all[o].p);
						slot[h] = o;
					} else {
						c.note("%d = null;", h);
						v[h] = s.flag() ? Variant((Object *)nullptr) : Variant();
						slot[h] = -1;
					}
				} break;
				case 5:
					c.note("%d = %d;", h, g);
					v[h] = v[g];
					slot[h] = slot[g];
					break;
				case 6: { // copies come and go
					Array a;
					a.push_back(v[h]);
					Array a2 = a.duplicate();
					Variant u(v[h]), w = a2;
					Dictionary d;
					d["a"] = u;
					v[g] = d["a"];
					slot[g] = slot[h];
				} break;
				default:
					c.note("%d = 3;", h);
					v[h] = 3;
					slot[h] = -1;
			}
			int living = 0;
			for (size_t i = 0; i < all.size(); i++) {
				O &y = all[i];
				living += y.alive;
				c.check(ObjectDB::get_instance(y.id) == (y.alive ? y.p : nullptr), "object %d by its id", (int)i);
				if (y.alive) {
					c.check(ObjectDB::instance_validate(y.p) && made.count(y.p) && made[y.p] == (int)i && y.p->get_instance_id() == y.id, "object %d is gone", (int)i);
				} else if (!made.count(y.p)) {
					c.check(!ObjectDB::instance_validate(y.p), "deleted object %d is valid", (int)i);
				}
			}
			c.check((int)made.size() == living && ObjectDB::get_object_count() - base == living, "%d objects, %d registered, expected %d", (int)made.size(), ObjectDB::get_object_count() - base, living);
			for (int i = 0; i < NV; i++) {
				int t = slot[i];
				bool dead = t >= 0 && !all[t].alive;
				dead_held += dead;
				c.check((Object *)v[i] == (t < 0 || dead ? nullptr : (Object *)all[t].p), "variant %d holds another object", i);
				c.check(v[i].is_invalid_object() == dead, "variant %d: is_invalid_object is %d", i, v[i].is_invalid_object());
				c.check(!v[i].is_ref(), "variant %d is a reference", i);
				if (t >= 0) {
					c.check(v[i].get_type() == Variant::OBJECT && v[i].get_object_instance_id() == all[t].id, "variant %d lost the id", i);
					String want = dead ? String("[Deleted Object]") : String("[") + (all[t].widget ? "Widget" : "Thing") + ":" + String::num(all[t].id) + "]";
					c.check(String(v[i]) == want, "variant %d reads %s", i, String(v[i]).utf8().get_data());
				}
				for (int j = 0; j < NV; j++) {
					if (t >= 0 && slot[j] >= 0) {
						c.check((v[i] == v[j]) == (t == slot[j]) && (v[i] != v[j]) == (t != slot[j]), "comparing variants %d and %d", i, j);
						c.check(t != slot[j] || v[i].hash() == v[j].hash(), "hashes of variants %d and %d", i, j);
					}
				}
			}
		}
		for (O &y : all) {
			if (y.alive) {
				memdelete(y.p);
			}
		}
		if (s.flag()) {
			for (int i = 0; i < NV; i++) {
				if (slot[i] >= 0) {
					c.check(v[i].is_invalid_object() && (Object *)v[i] == nullptr, "variant %d holds a deleted object", i);
				}
			}
		}
		c.nt(all.size() > 1 && dead_held > 0);
	}
	c.check(made.empty() && ObjectDB::get_object_count() == base, "objects stay registered");
	(void)mem;
	c.no_errors("the history");
}

// Classes know their names and ancestors, and casts follow them.
namespace {
std::vector<Object *> listed;
void list_object(Object *o) { listed.push_back(o); }
} // namespace

VT_PROP(P17, classes, 1500) {
	begin();
	const char *name[] = { "Object", "Thing", "Gadget", "Widget", "Reference", "Box", "Crate", "Resource", "Bag" };
	int parent[] = { -1, 0, 1, 2, 0, 4, 5, 4, 7 };
	int which = (int)s.draw(9), other = (int)s.draw(9);
	Object *o = nullptr;
	Vector<String> lin;
	String st, pst, inh;
	Vector<String> valid;
	switch (which) {
#define KIND(m_i, m_class)                              \
	case m_i:                                           \
		o = memnew(m_class);                            \
		m_class::get_inheritance_list_static(&lin);     \
		st = m_class::get_class_static();               \
		pst = m_class::get_parent_class_static();       \
		inh = m_class::inherits_static();               \
		m_class::get_valid_parents_static(&valid);      \
		break;
		case 0:
			o = memnew(Object);
			Object::get_inheritance_list_static(&lin);
			Object::get_valid_parents_static(&valid);
			st = Object::get_class_static();
			pst = Object::get_parent_class_static();
			break;
		KIND(1, Thing)
		KIND(2, Gadget)
		KIND(3, Widget)
		KIND(4, Reference)
		KIND(5, Box)
		KIND(6, Crate)
		KIND(7, Resource)
		KIND(8, Bag)
	}
	c.note("%s as %s", name[which], name[other]);
	std::vector<int> up;
	for (int i = which; i >= 0; i = parent[i]) {
		up.push_back(i);
	}
	bool is = std::count(up.begin(), up.end(), other) > 0;
	c.check(o->get_class() == name[which] && o->get_class_name() == StringName(name[which]) && st == name[which], "the class is called %s", o->get_class().utf8().get_data());
	c.check(pst == (which ? name[parent[which]] : ""), "the parent class is %s", pst.utf8().get_data());
	c.check(o->is_class(name[other]) == is, "is_class(%s)", name[other]);
	c.check(!o->is_class("") && !o->is_class("object") && !o->is_class(String(name[which]) + "s"), "is_class of other names");
	c.check(lin.size() == (int)up.size(), "%d ancestors", lin.size());
	c.check(inh == pst, "it inherits %s", inh.utf8().get_data());
	c.check(valid.empty(), "%d valid parents are named", valid.size());
	// the registry hands out every object once
	listed.clear();
	ObjectDB::debug_objects(list_object);
	c.check(std::count(listed.begin(), listed.end(), o) == 1 && (int)listed.size() == ObjectDB::get_object_count(), "%d objects are listed of %d", (int)listed.size(), ObjectDB::get_object_count());
	for (int i = 0; i < lin.size(); i++) {
		c.check(lin[i] == name[up[up.size() - 1 - i]], "ancestor %d is %s", i, lin[i].utf8().get_data());
	}
	const Object *co = o;
	void *cast = nullptr;
	const void *ccast = nullptr;
	bool by_ptr = false;
	switch (other) {
#define CAST(m_i, m_class)                                              \
	case m_i: {                                                         \
		m_class *x = Object::cast_to<m_class>(o);                       \
		const m_class *y = Object::cast_to<m_class>(co);                \
		cast = static_cast<Object *>(x);                                \
		ccast = static_cast<const Object *>(y);                         \
		by_ptr = o->is_class_ptr(m_class::get_class_ptr_static());      \
		c.check(!Object::cast_to<m_class>((Object *)nullptr), "a cast of nothing"); \
	} break;
		CAST(0, Object)
		CAST(1, Thing)
		CAST(2, Gadget)
		CAST(3, Widget)
		CAST(4, Reference)
		CAST(5, Box)
		CAST(6, Crate)
		CAST(7, Resource)
		CAST(8, Bag)
	}
	c.check(cast == (is ? o : nullptr) && ccast == cast && by_ptr == is, "cast of %s to %s", name[which], name[other]);
	c.check(o->to_string() == String("[") + name[which] + ":" + String::num(o->get_instance_id()) + "]", "to_string gives %s", o->to_string().utf8().get_data());
	c.check(!o->is_queued_for_deletion(), "queued");
	c.nt(which != other);
	if (which >= 4) {
		Ref<Reference> r((Reference *)o);
		c.check(r->reference_get_count() == 1, "%d references", r->reference_get_count());
	} else {
		memdelete(o);
	}
	c.check(made.empty(), "an object isn't deleted");
	c.no_errors("the history");
}

// Properties and metadata.
VT_PROP(P17, properties, 4000) {
	begin();
	Widget *w = memnew(Widget);
	Object *o = w;
	const char *names[] = { "width", "text", "tone", "t", "depth", "", "__meta__" };
	const char *keys[] = { "a", "b", "", "width" };
	std::map<std::string, int> thing, meta;
	int width = 0, steps = s.grown(1, 20, 120), did = 0;
	for (int step = 0; step < steps; step++) {
		int n = (int)s.draw(6), val = (int)s.sint(50);
		const char *key = keys[s.draw(4)];
		std::string name = names[n];
		bool valid = !s.flag(), known = true;
		switch (s.draw(8)) {
			case 0:
			case 1:
				c.note("set %s;", names[n]);
				if (s.one_in(4)) {
					o->set(names[n], val);
				} else {
					o->set(names[n], val, &valid);
					c.check(valid == (n < 4), "set %s: %d", names[n], valid);
				}
				if (n >= 1 && n < 4) {
					thing[name] = val; // the base class is asked first
					did++;
				} else if (n == 0) {
					width = val;
					did++;
				}
				break;
			case 2: {
				Dictionary d;
				std::map<std::string, int> m;
				for (int i = (int)s.draw(3); i > 0; i--) {
					const char *kk = keys[s.draw(4)];
					d[String(kk)] = i;
					m[kk] = i;
				}
				c.note("set meta;");
				o->set("__meta__", d, &valid);
				c.check(valid, "set __meta__");
				d["later"] = 5;
				meta = m;
				did++;
			} break;
			case 3:
				c.note("set_meta %s;", key);
				o->set_meta(key, val);
				meta[key] = val;
				did++;
				break;
			case 4:
				c.note("set_meta %s nil;", key);
				o->set_meta(key, Variant());
				meta.erase(key);
				break;
			case 5:
				c.note("remove_meta %s;", key);
				o->remove_meta(key);
				meta.erase(key);
				break;
			case 6: { // another object has its own
				Widget *x = memnew(Widget);
				x->set("width", 1000);
				x->set_meta(key, 1000);
				memdelete(x);
			} break;
			default:
				break;
		}
		Variant g = s.flag() ? o->get(names[n], &known) : o->get(names[n]);
		bool has = n == 0 || thing.count(name);
		if (n >= 1 && n < 4) {
			c.check(has ? (int)g == thing[name] && g.get_type() == Variant::INT : g.get_type() == Variant::NIL, "get %s", names[n]);
		} else if (n == 0) {
			c.check((int)g == width, "get width: %d, expected %d", (int)g, width);
		} else {
			c.check(g.get_type() == Variant::NIL, "get %s", names[n]);
		}
		o->get(names[n], &known);
		c.check(known == has, "get %s: %d", names[n], known);
		bool m = meta.count(key);
		c.check(o->has_meta(key) == m, "has_meta(%s)", key);
		c.check((int)o->get_meta(key, 77) == (m ? meta[key] : 77) && (o->get_meta(key).get_type() == Variant::NIL) == !m, "get_meta(%s)", key);
		c.check(!o->has_meta("later"), "metadata shares a dictionary");
		Dictionary all = o->get("__meta__", &known);
		c.check(known && all.size() == (int)meta.size(), "%d metadata, expected %d", all.size(), (int)meta.size());
		for (auto &e : meta) {
			c.check((int)all[String(e.first.c_str())] == e.second, "metadata %s", e.first.c_str());
		}
	}
	memdelete(o);
	c.nt(did >= 2);
	c.no_errors("the history");
}

namespace {
// what the callbacks below see, and what they do
struct Call {
	int who, func;
	Object *emitter;
	std::vector<int> args;
	bool operator==(const Call &o) const { return who == o.who && func == o.func && emitter == o.emitter && args == o.args; }
};
std::vector<Call> calls;
struct Plan { // the n-th call emits another signal
	int at, sig, argc, base;
	bool forward; // the first parameter it was given
};
std::vector<Plan> plans;
Signal *sigs[3];
Object *emitters[3];
int ncalls = 0, depth = 0;
void emit(Signal *sg, Object *e, int argc, int base) {
	switch (argc) {
		case 0:
			sg->emit(e);
			break;
		case 1:
			sg->emit(e, base);
			break;
		case 2:
			sg->emit(e, base, base + 1);
			break;
		case 3:
			sg->emit(e, base, base + 1, base + 2);
			break;
		case 4:
			sg->emit(e, base, base + 1, base + 2, base + 3);
			break;
		default:
			sg->emit(e, base, base + 1, base + 2, base + 3, base + 4);
	}
}
void called(int who, int func, Signal *sg) {
	auto look = [&]() {
		Call x = { who, func, sg->emitter, {} };
		for (int i = 0; i < sg->params.size(); i++) {
			x.args.push_back(sg->params[i]);
		}
		calls.push_back(x);
	};
	look();
	int n = ncalls++;
	for (Plan &p : plans) {
		if (p.at == n && depth < 3) {
			depth++;
			if (p.forward && sg->params.size() > 0) {
				sigs[p.sig]->emit(emitters[p.sig], sg->params[0]);
			} else {
				emit(sigs[p.sig], emitters[p.sig], p.argc, p.base);
			}
			depth--;
			look(); // the emission goes on as before
		}
	}
}
struct Listener {
	int who;
};
void on_a(Listener *l, Signal *sg) { called(l->who, 0, sg); }
void on_b(Listener *l, Signal *sg) { called(l->who, 1, sg); }
void on_s(Signal *sg) { called(-1, 2, sg); }
void on_t(Signal *sg) { called(-1, 3, sg); }
} // namespace

// Signals call what is connected, in order, with the emitter and the parameters of that emission.
VT_PROP(P17, signals, 6000) {
	begin();
	uint64_t mem = Memory::get_mem_usage();
	int nested = 0, did = 0;
	{
		Thing *e[3] = { memnew(Thing), memnew(Thing), memnew(Thing) };
		Signal *sg[3] = { memnew(Signal), memnew(Signal), memnew(Signal) };
		Listener l[3] = { { 0 }, { 1 }, { 2 } };
		std::vector<std::pair<int, int>> con[3]; // who, func
		int steps = s.grown(1, 25, 150);
		for (int step = 0; step < steps; step++) {
			int i = (int)s.draw(3), who = (int)s.draw(3), f = (int)s.draw(4);
			if (f >= 2) {
				who = -1;
			}
			auto it = std::find(con[i].begin(), con[i].end(), std::make_pair(who, f));
			switch (s.draw(8)) {
				case 0:
				case 1:
				case 2:
					c.note("%d connect %d.%d;", i, who, f);
					f == 2 ? sg[i]->connect_static(on_s) : f == 3 ? sg[i]->connect_static(on_t) : sg[i]->connect(&l[who], f ? on_b : on_a);
					con[i].push_back({ who, f });
					break;
				case 3:
					c.note("%d disconnect %d.%d;", i, who, f);
					f == 2 ? sg[i]->disconnect_static(on_s) : f == 3 ? sg[i]->disconnect_static(on_t) : sg[i]->disconnect(&l[who], f ? on_b : on_a);
					if (it != con[i].end()) {
						con[i].erase(it);
						did++;
					}
					break;
				case 4: { // a copy has the same connections, and its own
					c.note("copy of %d;", i);
					Signal *x = memnew(Signal(*sg[i]));
					x->connect_static(on_t);
					int j = (int)s.draw(3);
					memdelete(sg[j]);
					sg[j] = x;
					con[j] = con[i];
					con[j].push_back({ -1, 3 });
				} break;
				case 5: {
					int j = (int)s.draw(3);
					c.note("%d = %d;", j, i);
					*sg[j] = *sg[i];
					con[j] = con[i];
				} break;
				default: { // emit
					plans.clear();
					for (int k = (int)s.draw(4); k > 0; k--) {
						plans.push_back({ (int)s.draw(6), (int)s.draw(3), (int)s.draw(6), (int)s.draw(20) * 10, s.one_in(3) });
					}
					int argc = (int)s.draw(6), first = (int)s.draw(20) * 10;
					c.note("%d emit %d from %d%s;", i, argc, first, plans.empty() ? "" : " nested");
					for (int k = 0; k < 3; k++) {
						sigs[k] = sg[k];
						emitters[k] = e[k];
					}
					calls.clear();
					ncalls = depth = 0;
					emit(sg[i], e[i], argc, first);
					// the reference
					std::vector<Call> want;
					int n = 0, dp = 0;
					std::function<void(int, std::vector<int>)> run = [&](int k, std::vector<int> args) {
						for (auto &x : con[k]) {
							Call y = { x.first, x.second, e[k], args };
							want.push_back(y);
							int m = n++;
							for (Plan &p : plans) {
								if (p.at == m && dp < 3) {
									dp++;
									nested++;
									std::vector<int> a;
									if (p.forward && !args.empty()) {
										a.push_back(args[0]);
									} else {
										for (int q = 0; q < p.argc; q++) {
											a.push_back(p.base + q);
										}
									}
									run(p.sig, a);
									dp--;
									want.push_back(y);
								}
							}
						}
					};
					std::vector<int> args;
					for (int q = 0; q < argc; q++) {
						args.push_back(first + q);
					}
					run(i, args);
					c.check(calls.size() == want.size(), "%d calls, expected %d", (int)calls.size(), (int)want.size());
					for (size_t q = 0; q < want.size(); q++) {
						c.check(calls[q].who == want[q].who && calls[q].func == want[q].func, "call %d went to %d.%d, expected %d.%d", (int)q, calls[q].who, calls[q].func, want[q].who, want[q].func);
						c.check(calls[q].emitter == want[q].emitter, "call %d: the emitter is another", (int)q);
						c.check(calls[q].args == want[q].args, "call %d: %d parameters, expected %d, or others", (int)q, (int)calls[q].args.size(), (int)want[q].args.size());
					}
					c.check(sg[i]->params.size() == 0, "%d parameters left", sg[i]->params.size());
					did += con[i].size() > 1;
				}
			}
			for (int k = 0; k < 3; k++) {
				for (int w = 0; w < 3; w++) {
					c.check(sg[k]->is_connected(&l[w], on_a) == (std::count(con[k].begin(), con[k].end(), std::make_pair(w, 0)) > 0), "signal %d: is_connected %d.0", k, w);
					c.check(sg[k]->is_connected(&l[w], on_b) == (std::count(con[k].begin(), con[k].end(), std::make_pair(w, 1)) > 0), "signal %d: is_connected %d.1", k, w);
				}
				c.check(sg[k]->is_connected_static(on_s) == (std::count(con[k].begin(), con[k].end(), std::make_pair(-1, 2)) > 0), "signal %d: is_connected_static", k);
				c.check(sg[k]->is_connected_static(on_t) == (std::count(con[k].begin(), con[k].end(), std::make_pair(-1, 3)) > 0), "signal %d: is_connected_static", k);
			}
		}
		for (int k = 0; k < 3; k++) {
			memdelete(sg[k]);
			memdelete(e[k]);
		}
	}
	{ // resources have one
		Ref<Bag> bag(memnew(Bag));
		Listener l = { 5 };
		plans.clear();
		calls.clear();
		bag->changed.connect(&l, on_a);
		bag->emit_changed();
		c.check(calls.size() == 1 && calls[0].who == 5 && calls[0].emitter == bag.ptr() && calls[0].args.empty(), "emit_changed");
	}
	calls.clear();
	uint64_t mem2 = Memory::get_mem_usage();
	c.check(mem2 <= mem, "%d bytes are never freed", (int)(mem2 - mem));
	c.nt(did >= 2 || nested > 0);
	c.no_errors("the history");
}

// Interned names: one entry per text as long as a name has it, whatever collides.
VT_PROP(P17, names, 4000) {
	// texts of two or four letters, most of them with equal hashes
	auto text = [&]() {
		std::string t;
		for (int i = (int)s.draw(3); i >= 0; i--) {
			t += s.pick({ "b!", "aB", "`c", "\xe9!", "\xe8" "B", "q" });
		}
		return t;
	};
	uint64_t mem = Memory::get_mem_usage();
	int equal = 0;
	{
		const int N = 8;
		StringName n[N];
		std::vector<std::string> m(N);
		std::vector<std::string> used;
		int steps = s.grown(1, 40, 240);
		for (int step = 0; step < steps; step++) {
			int i = (int)s.draw(N), j = (int)s.draw(N);
			switch (s.draw(7)) {
				case 0: {
					std::string t = text();
					c.note("%d = \"%s\";", i, t.c_str());
					n[i] = StringName(t.c_str());
					m[i] = t;
				} break;
				case 1: {
					std::string t = text();
					c.note("%d = String %s;", i, t.c_str());
					n[i] = String(t.c_str());
					m[i] = t;
				} break;
				case 2:
					c.note("%d = %d;", i, j);
					n[i] = n[j];
					m[i] = m[j];
					break;
				case 3:
					c.note("%d = nothing;", i);
					n[i] = s.flag() ? StringName() : StringName("");
					m[i] = "";
					break;
				case 4: {
					static const char *fixed[] = { "b!", "aBq", "%q" };
					int f = (int)s.draw(3);
					c.note("%d = static %d;", i, f);
					n[i] = StringName(StaticCString::create(fixed[f]));
					m[i] = fixed[f];
				} break;
				case 5: { // search finds what is there and makes nothing
					std::string t = text();
					String u(t.c_str());
					bool there = std::count(m.begin(), m.end(), t) > 0;
					StringName x = s.flag() ? StringName::search(t.c_str()) : s.flag() ? StringName::search(u) : StringName::search(u.ptr());
					c.note("search %s;", t.c_str());
					c.check(there ? x == u : x.data_unique_pointer() == nullptr, "search for %s", t.c_str());
				} break;
				default: {
					std::vector<StringName> v(3, n[i]);
					v[1] = n[j];
					v[0] = v[2];
					Variant x(v[0]);
					Vector<StringName> w;
					w.push_back(x);
					w.push_back(v[1]);
					w.sort_custom<StringName::AlphCompare>();
				}
			}
			for (int a = 0; a < N; a++) {
				c.check(n[a] == m[a].c_str() && String(n[a]) == String(m[a].c_str()), "name %d reads %s, expected %s", a, String(n[a]).utf8().get_data(), m[a].c_str());
				c.check((n[a] ? true : false) == !m[a].empty(), "name %d is empty", a);
				c.check(n[a].is_node_unique_name() == (!m[a].empty() && m[a][0] == '%'), "name %d: is_node_unique_name", a);
				for (int b = 0; b < N; b++) {
					bool eq = m[a] == m[b];
					equal += eq && a != b && !m[a].empty();
					c.check((n[a] == n[b]) == eq && (n[a] != n[b]) == !eq && (n[a].data_unique_pointer() == n[b].data_unique_pointer()) == eq, "names %s and %s", m[a].c_str(), m[b].c_str());
					c.check(!eq || n[a].hash() == n[b].hash(), "hashes of %s", m[a].c_str());
					c.check(StringName::AlphCompare()(n[a], n[b]) == (m[a] < m[b]), "order of %s and %s", m[a].c_str(), m[b].c_str());
					c.check((n[a] < n[b]) + (n[b] < n[a]) == !eq, "an order of %s and %s", m[a].c_str(), m[b].c_str());
				}
			}
		}
	}
	uint64_t mem2 = Memory::get_mem_usage();
	c.check(mem2 <= mem, "%d bytes are never freed", (int)(mem2 - mem));
	c.nt(equal > 3);
	c.no_errors("the history");
}
