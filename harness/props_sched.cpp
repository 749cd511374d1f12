// P18: locks, counters, threads and shared values under generated schedules (see vtsched.h)
#include "sfw.h"
#include "schedrun.h"

using namespace vt;

namespace {
struct Event {
	int op;
	int64_t arg, res;
	unsigned long from, to;
};
typedef std::vector<std::vector<Event>> History;
// is there an order of the operations, one after the other, that explains every result and respects what came before what?
bool explain(const History &h, std::vector<size_t> &at, int64_t state, const std::function<bool(int64_t &, const Event &)> &model, std::set<std::pair<std::vector<size_t>, int64_t>> &seen, const std::function<bool(int64_t)> &end) {
	bool all = true;
	unsigned long first_end = ~0UL;
	for (size_t t = 0; t < h.size(); t++) {
		if (at[t] < h[t].size()) {
			all = false;
			first_end = std::min(first_end, h[t][at[t]].to);
		}
	}
	if (all) {
		return end(state);
	}
	if (!seen.insert({ at, state }).second) {
		return false;
	}
	for (size_t t = 0; t < h.size(); t++) {
		if (at[t] >= h[t].size() || h[t][at[t]].from >= first_end) {
			continue;
		}
		int64_t st = state;
		if (model(st, h[t][at[t]])) {
			at[t]++;
			if (explain(h, at, st, model, seen, end)) {
				return true;
			}
			at[t]--;
		}
	}
	return false;
}
bool linear(const History &h, int64_t start, const std::function<bool(int64_t &, const Event &)> &model, const std::function<bool(int64_t)> &end) {
	std::vector<size_t> at(h.size());
	std::set<std::pair<std::vector<size_t>, int64_t>> seen;
	return explain(h, at, start, model, seen, end);
}
std::string show(const History &h, const char *const *names) {
	std::string r;
	for (size_t t = 0; t < h.size(); t++) {
		r += "| thread " + std::to_string(t) + ":";
		for (auto &e : h[t]) {
			r += std::string(" ") + names[e.op] + "(" + std::to_string(e.arg) + ")=" + std::to_string(e.res) + "@" + std::to_string(e.from) + "-" + std::to_string(e.to);
		}
	}
	return r;
}
uint64_t memory() { return Memory::get_mem_usage(); }

const char *const number_ops[] = { "set", "get", "increment", "postincrement", "decrement", "postdecrement", "add", "postadd", "sub", "postsub", "exchange_if_greater", "conditional_increment" };

template <class T>
void numbers(Src &s, Ctx &c) {
	int n = 2 + (int)s.draw(2);
	std::vector<std::vector<std::pair<int, int64_t>>> todo(n);
	int64_t start = s.one_in(3) ? 0 : (int64_t)s.draw(6);
	bool sets = s.one_in(3);
	for (auto &t : todo) {
		int k = 1 + (int)s.draw(4);
		for (int i = 0; i < k; i++) {
			int op = (int)s.range(sets ? 0 : 1, 11);
			t.push_back({ op, (int64_t)s.draw(6) });
		}
	}
	auto p = sched::plan(s);
	c.note("start=%d %s", (int)start, sched::show(p).c_str());
	SafeNumeric<T> x((T)start);
	History h(n);
	std::vector<std::function<void()>> fs;
	for (int t = 0; t < n; t++) {
		fs.push_back([&, t] {
			for (auto &o : todo[t]) {
				Event e{ o.first, o.second, 0, sched::now(), 0 };
				T a = (T)o.second, r = 0;
				switch (o.first) {
					case 0: x.set(a); break;
					case 1: r = x.get(); break;
					case 2: r = x.increment(); break;
					case 3: r = x.postincrement(); break;
					case 4: r = x.decrement(); break;
					case 5: r = x.postdecrement(); break;
					case 6: r = x.add(a); break;
					case 7: r = x.postadd(a); break;
					case 8: r = x.sub(a); break;
					case 9: r = x.postsub(a); break;
					case 10: r = x.exchange_if_greater(a); break;
					case 11: r = x.conditional_increment(); break;
				}
				e.res = (int64_t)r;
				e.to = sched::now();
				h[t].push_back(e);
			}
		});
	}
	sched::run(c, p, fs);
	auto model = [](int64_t &st, const Event &e) {
		T v = (T)st, a = (T)e.arg, r = 0;
		switch (e.op) {
			case 0: v = a; break;
			case 1: r = v; break;
			case 2: r = ++v; break;
			case 3: r = v++; break;
			case 4: r = --v; break;
			case 5: r = v--; break;
			case 6: r = v += a; break;
			case 7: r = v, v += a; break;
			case 8: r = v -= a; break;
			case 9: r = v, v -= a; break;
			case 10: v = std::max(v, a), r = v; break;
			case 11: r = v == 0 ? 0 : ++v; break;
		}
		st = (int64_t)v;
		return (int64_t)r == e.res;
	};
	T end = x.get();
	bool ok = linear(h, (int64_t)(T)start, model, [&](int64_t v) { return (T)v == end; });
	c.check(ok, "no order of the operations explains this: start %d end %lld %s", (int)start, (long long)end, show(h, number_ops).c_str());
	bool mixed = false;
	for (int t = 1; t < n; t++) {
		mixed = mixed || (h[t][0].from < h[0].back().to && h[0][0].from < h[t].back().to);
	}
	c.nt(mixed);
}
} // namespace

VT_PROP(P18, shared_numbers, 6000) {
	switch (s.draw(3)) {
		case 0: numbers<uint32_t>(s, c); break;
		case 1: numbers<int64_t>(s, c); break;
		default: numbers<uint64_t>(s, c); break;
	}
}

VT_PROP(P18, reference_counts, 6000) {
	// everybody starts with one use; the last one to give theirs back is told to dispose of the thing, and nobody gets in after that
	int n = 2 + (int)s.draw(2);
	std::vector<std::vector<int>> todo(n);
	for (auto &t : todo) {
		int k = (int)s.draw(5);
		for (int i = 0; i < k; i++) {
			t.push_back((int)s.draw(5));
		}
	}
	auto p = sched::plan(s);
	c.note("%s", sched::show(p).c_str());
	SafeRefCount rc;
	rc.init(n);
	c.check(rc.get() == (uint32_t)n, "init");
	int disposals = 0;
	bool open = true;
	History h(n);
	static const char *const names[] = { "ref", "refval", "unref", "unrefval", "get" };
	std::vector<std::function<void()>> fs;
	for (int t = 0; t < n; t++) {
		fs.push_back([&, t] {
			int mine = 1;
			auto one = [&](int op) {
				Event e{ op, 0, 0, sched::now(), 0 };
				switch (op) {
					case 0: e.res = rc.ref(); break;
					case 1: e.res = rc.refval(); break;
					case 2: e.res = rc.unref(); break;
					case 3: e.res = rc.unrefval(); break;
					default: e.res = rc.get(); break;
				}
				e.to = sched::now();
				h[t].push_back(e);
				return e.res;
			};
			for (int op : todo[t]) {
				if (op >= 2 && op <= 3 && mine == 0) {
					op = 0;
				}
				int64_t r = one(op);
				if (op <= 1) {
					mine += r != 0;
				} else if (op == 2) {
					mine--;
					disposals += r;
				} else if (op == 3) {
					mine--;
					disposals += r == 0;
				}
			}
			while (mine > 0) {
				mine--;
				disposals += one(2);
			}
			(void)open;
		});
	}
	sched::run(c, p, fs);
	c.check(disposals == 1, "%d disposals", disposals);
	c.check(rc.get() == 0 && !rc.ref() && rc.refval() == 0, "uses after the last one is gone");
	bool ok = linear(h, n, [](int64_t &v, const Event &e) {
		int64_t r = 0;
		switch (e.op) {
			case 0: r = v > 0, v += v > 0; break;
			case 1: r = v > 0 ? ++v : 0; break;
			case 2: r = --v == 0; break;
			case 3: r = --v; break;
			default: r = v; break;
		}
		return r == e.res; }, [](int64_t v) { return v == 0; });
	c.check(ok, "no order of the operations explains this: %s", show(h, names).c_str());
	SafeFlag f(s.flag());
	bool want = f.is_set();
	for (int i = 0; i < 4; i++) {
		int k = (int)s.draw(4);
		k == 0 ? f.set() : k == 1 ? f.clear() : f.set_to(k == 2);
		want = k == 0 || k == 2;
		c.check(f.is_set() == want, "SafeFlag");
	}
	c.nt(h[0].size() > 1 && h[1].size() > 1 && h[1][0].from < h[0].back().to);
}

namespace {
struct Holds {
	int *n;
	Holds(int &x) :
			n(&x) { ++*n; }
	void end() {
		if (n) {
			--*n;
		}
		n = nullptr;
	}
	~Holds() { end(); }
};
void warm() { // brings the table of objects to the size it has after many have come and gone
	std::vector<Object *> v;
	for (int i = 0; i < 40; i++) {
		v.push_back(memnew(Object));
	}
	for (Object *o : v) {
		memdelete(o);
	}
}
} // namespace

VT_PROP(P18, mutual_exclusion, 8000) {
	int kind = (int)s.draw(4); // Mutex, BinaryMutex, SpinLock, RWLock
	int n = 2 + (int)s.draw(2);
	struct Turn {
		bool write, guard, attempt, nest;
		int inside;
	};
	std::vector<std::vector<Turn>> todo(n);
	for (auto &t : todo) {
		int k = 1 + (int)s.draw(3);
		for (int i = 0; i < k; i++) {
			t.push_back({ kind != 3 || s.flag(), s.flag(), kind != 2 && s.one_in(3), s.flag(), (int)s.draw(3) });
		}
	}
	auto p = sched::plan(s);
	c.note("kind=%d threads=%d %s", kind, n, sched::show(p).c_str());
	Mutex m;
	BinaryMutex bm;
	SpinLock sl;
	RWLock rw;
	int writers = 0, readers = 0, writes = 0, a = 0, b = 0;
	int holders = 0, hold_readers = 0; // as soon as a lock is taken until just before it is given back
	bool waited = false;
	std::vector<std::function<void()>> fs;
	for (int t = 0; t < n; t++) {
		fs.push_back([&, t] {
			auto body = [&](const Turn &u) {
				if (writers || (u.write && readers)) {
					c.fail("%d writers and %d readers are inside when a %s comes in", writers, readers, u.write ? "writer" : "reader");
				}
				(u.write ? writers : readers)++;
				if (u.write) {
					int v = a;
					for (int i = 0; i < u.inside; i++) {
						sched::point();
					}
					a = v + 1;
					sched::point();
					b = a;
					writes++;
				} else {
					int x = a;
					for (int i = 0; i < u.inside; i++) {
						sched::point();
					}
					c.check(x == a && x == b, "a reader sees a half done write");
				}
				(u.write ? writers : readers)--;
			};
			for (const Turn &u : todo[t]) {
				if (u.attempt) {
					Error e = kind == 0 ? m.try_lock() : kind == 1 ? bm.try_lock() : u.write ? rw.write_try_lock() : rw.read_try_lock();
					bool was_free = !holders && !(u.write && hold_readers);
					c.check((e == OK) == was_free, "an attempt gives %d with %d writers and %d readers inside", e, holders, hold_readers);
					if (e != OK) {
						c.check(e == ERR_BUSY, "a failed attempt gives %d", e);
						waited = true;
						continue;
					}
					Holds hold(u.write ? holders : hold_readers);
					if (kind == 0 && u.nest) {
						c.check(m.try_lock() == OK, "the holder of a Mutex cannot lock it again");
						body(u);
						m.unlock();
					} else {
						body(u);
					}
					hold.end();
					kind == 0 ? m.unlock() : kind == 1 ? bm.unlock() : u.write ? rw.write_unlock() : rw.read_unlock();
				} else if (u.guard && kind != 2) {
					waited = waited || writers || readers;
					if (kind == 0) {
						MutexLock l(m);
						Holds hold(holders);
						if (u.nest) {
							MutexLock again(m);
							body(u);
						} else {
							body(u);
						}
					} else if (kind == 1) {
						MutexLock l(bm);
						Holds hold(holders);
						body(u);
					} else if (u.write) {
						RWLockWrite l(rw);
						Holds hold(holders);
						body(u);
					} else {
						RWLockRead l(rw);
						Holds hold(hold_readers);
						body(u);
					}
				} else {
					waited = waited || writers || readers;
					kind == 0 ? m.lock() : kind == 1 ? bm.lock() : kind == 2 ? sl.lock() : u.write ? rw.write_lock() : rw.read_lock();
					Holds hold(u.write ? holders : hold_readers);
					if (kind == 0 && u.nest) {
						m.lock();
						body(u);
						m.unlock();
						c.check(writers == 0 && readers == 0, "somebody came in before the outer unlock");
					} else {
						body(u);
					}
					hold.end();
					kind == 0 ? m.unlock() : kind == 1 ? bm.unlock() : kind == 2 ? sl.unlock() : u.write ? rw.write_unlock() : rw.read_unlock();
				}
			}
		});
	}
	sched::run(c, p, fs);
	c.check(a == writes && b == writes, "%d of %d writes are left", a, writes);
	c.nt(waited);
}

VT_PROP(P18, readers_together, 1500) {
	// readers do not keep each other out: all of them are inside at once
	int n = 2 + (int)s.draw(2), inside = 0;
	bool guard = s.flag(), attempt = s.one_in(3), nested = s.flag();
	auto p = sched::plan(s);
	c.note("%d readers %s", n, sched::show(p).c_str());
	RWLock rw;
	std::vector<std::function<void()>> fs;
	for (int t = 0; t < n; t++) {
		fs.push_back([&] {
			auto meet = [&] {
				inside++;
				sched::block([&] { return inside == n; });
			};
			if (guard) {
				RWLockRead l(rw);
				meet();
			} else {
				if (attempt) {
					c.check(rw.read_try_lock() == OK, "a reader keeps another out");
				} else {
					rw.read_lock();
				}
				meet();
				rw.read_unlock();
			}
		});
	}
	(void)nested;
	sched::run(c, p, fs);
	c.check(rw.write_try_lock() == OK, "a writer cannot come in after the readers left");
	c.check(rw.read_try_lock() == ERR_BUSY && rw.write_try_lock() == ERR_BUSY, "somebody comes in while a writer is inside");
	rw.write_unlock();
	c.check(rw.read_try_lock() == OK && rw.write_try_lock() == ERR_BUSY, "a writer comes in while a reader is inside");
	rw.read_unlock();
	c.nt();
}

namespace {
struct Job {
	Thread::ID id = 0;
	bool done = false, main = true, steady = true;
	int points = 0;
	std::vector<std::string> log;
};
thread_local Job *current_job = nullptr;
std::vector<std::pair<Thread::ID, std::string>> happened;
void job(void *p) {
	Job *j = (Job *)p;
	happened.push_back({ Thread::get_caller_id(), "work" });
	j->id = Thread::get_caller_id();
	j->main = Thread::is_main_thread();
	for (int i = 0; i < j->points; i++) {
		sched::point();
	}
	j->steady = j->id == Thread::get_caller_id();
	j->done = true;
}
void on_priority(Thread::Priority p) { happened.push_back({ Thread::get_caller_id(), "priority" + std::to_string((int)p) }); }
void on_init() { happened.push_back({ Thread::get_caller_id(), "init" }); }
void on_term() { happened.push_back({ Thread::get_caller_id(), "term" }); }
} // namespace

VT_PROP(P18, threads, 3000) {
	int n = 1 + (int)s.draw(2);
	struct Step {
		int points, between, priority;
		int how; // 0 wait, 1 start again without waiting, 2 destroy without waiting, 3 wait from another started thread's place
	};
	std::vector<std::vector<Step>> todo(n);
	int total = 0;
	for (auto &t : todo) {
		int k = 1 + (int)s.draw(3);
		for (int i = 0; i < k; i++) {
			t.push_back({ (int)s.draw(4), (int)s.draw(4), (int)s.draw(3), s.one_in(3) ? 1 + (int)s.draw(2) : 0 });
			total++;
		}
	}
	bool funcs = s.flag();
	auto p = sched::plan(s);
	c.note("%d starters, %d starts %s", n, total, sched::show(p).c_str());
	if (funcs) {
		Thread::_set_platform_funcs(nullptr, on_priority, on_init, on_term);
	} else {
		Thread::_set_platform_funcs(nullptr, nullptr, nullptr, nullptr);
	}
	happened.clear();
	std::deque<Job> jobs;
	std::map<int, int> priority_of;
	const Thread::ID main_id = Thread::get_main_id();
	c.check(Thread::is_main_thread() && Thread::get_caller_id() == main_id, "the main thread");
	std::vector<std::function<void()>> fs;
	for (int t = 0; t < n; t++) {
		fs.push_back([&, t] {
			Thread::ID own = Thread::get_caller_id();
			c.check(!Thread::is_main_thread(), "a thread is the main thread");
			std::unique_ptr<Thread> th(new Thread);
			c.check(!th->is_started(), "a new thread is started");
			th->wait_to_finish(); // nothing to wait for
			const Thread::ID none = th->get_id();
			for (const Step &st : todo[t]) {
				jobs.emplace_back();
				Job &j = jobs.back();
				j.points = st.points;
				Thread::Settings set;
				set.priority = (Thread::Priority)st.priority;
				th->start(job, &j, set);
				c.check(th->is_started(), "a thread is not started after start");
				Thread::ID id = th->get_id();
				c.check(id != own && id != none && id != main_id, "the new thread's id is not its own");
				for (int i = 0; i < st.between; i++) {
					sched::point();
				}
				c.check(Thread::get_caller_id() == own, "the caller's id changed");
				if (st.how == 0) {
					th->wait_to_finish();
					c.check(j.done, "the work is not done after wait_to_finish");
					c.check(j.id == id, "the thread's own id differs from what its starter sees");
					c.check(!th->is_started(), "a finished thread is started");
					c.check(th->get_id() == none, "a finished thread keeps its id");
				} else if (st.how == 2) {
					th.reset(new Thread);
				}
				Job *pj = &j;
				if (st.how == 0) {
					continue;
				}
				if (st.points % 2) {
					sched::block([pj] { return pj->done; });
					c.check(pj->id == id, "the thread's own id differs from what its starter saw");
				}
			}
			th->wait_to_finish();
			th->wait_to_finish();
		});
	}
	sched::run(c, p, fs);
	Thread::_set_platform_funcs(nullptr, nullptr, nullptr, nullptr);
	c.check(Thread::set_name("x") == ERR_UNAVAILABLE, "set_name without a platform function");
	size_t k = 0;
	std::set<Thread::ID> ids;
	for (auto &t : todo) {
		(void)t;
	}
	c.check((int)jobs.size() == total, "%d jobs", (int)jobs.size());
	for (auto &j : jobs) {
		c.check(j.done && !j.main && j.steady, "job %d: done %d, on the main thread %d, steady id %d", (int)k, j.done, j.main, j.steady);
		c.check(ids.insert(j.id).second, "two threads have the same id");
		std::vector<std::string> saw;
		for (auto &e : happened) {
			if (e.first == j.id) {
				saw.push_back(e.second);
			}
		}
		if (funcs) {
			c.check(saw.size() == 4 && saw[0].substr(0, 8) == "priority" && saw[1] == "init" && saw[2] == "work" && saw[3] == "term", "a thread saw %d calls", (int)saw.size());
		} else {
			c.check(saw.size() == 1, "a thread saw %d calls", (int)saw.size());
		}
		k++;
	}
	if (funcs) {
		int want[3] = {}, got[3] = {};
		for (auto &t : todo) {
			for (auto &st : t) {
				want[st.priority]++;
			}
		}
		for (auto &e : happened) {
			if (e.second.substr(0, 8) == "priority") {
				got[e.second[8] - '0']++;
			}
		}
		c.check(want[0] == got[0] && want[1] == got[1] && want[2] == got[2], "the priorities asked for and set differ");
	}
	c.nt(total > 1);
	c.no_errors("threads");
}

namespace {
int live_things = 0;
struct Thing {
	uint64_t mark = 0x1122334455667788ULL;
	uint64_t owner = 0;
	Thing() { live_things++; }
	~Thing() {
		live_things--;
		mark = 0;
	}
};
} // namespace

VT_PROP(P18, page_allocator, 4000) {
	int n = 2 + (int)s.draw(2), page = (int)s.pick({ 1, 2, 4, 8, 3 });
	std::vector<std::vector<int>> todo(n);
	for (auto &t : todo) {
		int k = 1 + (int)s.draw(8);
		for (int i = 0; i < k; i++) {
			t.push_back((int)s.draw(6));
		}
	}
	auto p = sched::plan(s);
	c.note("page=%d %s", page, sched::show(p).c_str());
	uint64_t before = memory();
	{
		PagedAllocator<Thing, true> pool(page);
		c.check(pool.is_configured(), "is_configured");
		for (int round = 0; round < 2; round++) {
			live_things = 0;
			std::set<Thing *> out;
			std::vector<std::function<void()>> fs;
			for (int t = 0; t < n; t++) {
				fs.push_back([&, t] {
					std::vector<Thing *> mine;
					auto give = [&](size_t i) {
						Thing *x = mine[i];
						c.check(x->mark == 0x1122334455667788ULL && x->owner == (uint64_t)t + 1, "somebody else has changed a thing of this thread");
						mine.erase(mine.begin() + i);
						out.erase(x);
						pool.free(x);
					};
					for (int op : todo[t]) {
						if (op < 4 || mine.empty()) {
							Thing *x = pool.alloc();
							c.check(out.insert(x).second, "a thing is handed out twice");
							x->owner = t + 1;
							mine.push_back(x);
						} else {
							give(op % mine.size());
						}
					}
					while (!mine.empty()) {
						give(mine.size() - 1);
					}
				});
			}
			sched::run(c, p, fs);
			c.check(live_things == 0, "%d things are alive", live_things);
			pool.reset();
			c.no_errors("resetting an allocator that got everything back");
		}
		// every slot can be had again
		std::vector<Thing *> v;
		for (int i = 0; i < 3 * page; i++) {
			v.push_back(pool.alloc());
		}
		std::set<Thing *> u(v.begin(), v.end());
		c.check(u.size() == v.size(), "a thing is handed out twice");
		for (Thing *x : v) {
			pool.free(x);
		}
	}
	c.check(memory() == before, "%lld bytes of memory are left over", (long long)(memory() - before));
	c.nt();
	c.no_errors("the page allocator");
}

namespace {
// names that share a place in the table of names
const std::vector<std::string> &name_pool() {
	static std::vector<std::string> v;
	if (v.empty()) {
		std::map<uint32_t, std::string> seen;
		for (int i = 0; v.size() < 6 && i < 100000; i++) {
			std::string x = "vt_name_" + std::to_string(i);
			uint32_t k = String(x.c_str()).hash() & 16383;
			if (seen.count(k)) {
				if (v.size() < 3 && (v.empty() || k == (String(v[0].c_str()).hash() & 16383))) {
					if (v.empty()) {
						v.push_back(seen[k]);
					}
					v.push_back(x);
				} else if (v.size() >= 3) {
					v.push_back(seen[k]);
					v.push_back(x);
					seen.clear();
				}
			} else {
				seen[k] = x;
			}
		}
	}
	return v;
}
} // namespace

VT_PROP(P18, interned_names, 6000) {
	const auto &pool = name_pool();
	int n = 2 + (int)s.draw(2), m = 1 + (int)s.draw(pool.size());
	struct Op {
		int what, name, slot;
	};
	std::vector<std::vector<Op>> todo(n);
	for (auto &t : todo) {
		int k = 1 + (int)s.draw(7);
		for (int i = 0; i < k; i++) {
			t.push_back({ (int)s.draw(9), (int)s.draw(m), (int)s.draw(3) });
		}
	}
	bool shared = s.flag();
	auto p = sched::plan(s);
	c.note("%d names %s", m, sched::show(p).c_str());
	uint64_t before = memory();
	{
		StringName common;
		if (shared) {
			common = StringName(pool[0].c_str());
		}
		struct Held {
			StringName n[3];
			int is[3] = { -1, -1, -1 };
		};
		std::vector<Held> held(n);
		std::vector<std::function<void()>> fs;
		for (int t = 0; t < n; t++) {
			fs.push_back([&, t] {
				Held &h = held[t];
				for (const Op &o : todo[t]) {
					const std::string &text = pool[o.name];
					StringName &x = h.n[o.slot];
					int &is = h.is[o.slot];
					switch (o.what) {
						case 0: x = StringName(text.c_str()), is = o.name; break;
						case 1: x = StringName(String(text.c_str())), is = o.name; break;
						case 2: x = StringName(StaticCString::create(text.c_str())), is = o.name; break;
						case 3: x = h.n[(o.slot + 1) % 3], is = h.is[(o.slot + 1) % 3]; break;
						case 4: x = StringName(), is = -1; break;
						case 5: // found while somebody uses it
						case 6: {
							bool used = false;
							for (int i = 0; i < 3; i++) {
								used = used || h.is[i] == o.name;
							}
							StringName f = o.what == 5 ? StringName::search(text.c_str()) : StringName::search(String(text.c_str()));
							c.check(!used || f == String(text.c_str()), "a name in use is not found");
							c.check(f == StringName() || f == String(text.c_str()), "another name is found");
							break;
						}
						case 7:
							if (shared) {
								x = common, is = 0;
							}
							break;
						default: {
							StringName other(text.c_str());
							c.check((other == x) == (is == o.name), "equality of names");
							c.check((x != other) == (is != o.name), "inequality of names");
						}
					}
					c.check(is < 0 ? x == StringName() : x == pool[is].c_str(), "a name has changed");
					for (int i = 0; i < 3; i++) {
						for (int j = 0; j < i; j++) {
							c.check((h.n[i] == h.n[j]) == (h.is[i] == h.is[j]), "equality of names of a thread");
						}
					}
				}
			});
		}
		sched::run(c, p, fs);
		for (auto &x : held) {
			for (auto &y : held) {
				for (int i = 0; i < 9; i++) {
					c.check((x.n[i / 3] == y.n[i % 3]) == (x.is[i / 3] == y.is[i % 3]), "equality of names of two threads");
				}
			}
		}
	}
	for (auto &t : pool) {
		c.check(StringName::search(t.c_str()) == StringName(), "a name that nobody uses is found");
	}
	c.check(memory() == before, "%lld bytes of memory are left over", (long long)(memory() - before));
	c.nt(m < 4);
	c.no_errors("names in several threads");
}

namespace {
int live_refs = 0;
class Counted : public Reference {
public:
	int value = 7;
	Counted() { live_refs++; }
	~Counted() {
		live_refs--;
		value = 0;
	}
};
} // namespace

VT_PROP(P18, shared_references, 5000) {
	int n = 2 + (int)s.draw(2), m = 1 + (int)s.draw(2);
	struct Op {
		int what, slot, from;
	};
	std::vector<std::vector<Op>> todo(n);
	for (auto &t : todo) {
		int k = 1 + (int)s.draw(7);
		for (int i = 0; i < k; i++) {
			t.push_back({ (int)s.draw(6), (int)s.draw(2), (int)s.draw(2) });
		}
	}
	auto p = sched::plan(s);
	c.note("%d objects %s", m, sched::show(p).c_str());
	warm();
	uint64_t before = memory();
	live_refs = 0;
	{
		std::vector<Ref<Counted>> start(m);
		for (auto &r : start) {
			r = Ref<Counted>(memnew(Counted));
		}
		struct Held {
			Ref<Counted> r[2];
			Variant v[2];
		};
		std::vector<std::unique_ptr<Held>> held;
		for (int t = 0; t < n; t++) {
			held.emplace_back(new Held);
			for (int i = 0; i < 2; i++) {
				held[t]->r[i] = start[i % m];
			}
		}
		start.clear();
		std::vector<std::function<void()>> fs;
		for (int t = 0; t < n; t++) {
			fs.push_back([&, t] {
				Held &h = *held[t];
				for (const Op &o : todo[t]) {
					switch (o.what) {
						case 0: h.r[o.slot] = h.r[o.from]; break;
						case 1: h.r[o.slot].unref(); break;
						case 2: h.v[o.slot] = h.r[o.from]; break;
						case 3: h.r[o.slot] = Ref<Counted>(Object::cast_to<Counted>((Object *)h.v[o.from])); break;
						case 4: h.v[o.slot] = h.v[o.from]; break;
						default: h.v[o.slot] = Variant();
					}
					for (int i = 0; i < 2; i++) {
						c.check(h.r[i].is_null() || (h.r[i]->value == 7 && h.r[i]->reference_get_count() >= 1), "an object in use is gone");
						Counted *x = Object::cast_to<Counted>((Object *)h.v[i]);
						c.check(!x || x->value == 7, "an object that a Variant holds is gone");
					}
				}
				held[t].reset();
			});
		}
		sched::run(c, p, fs);
	}
	c.check(live_refs == 0, "%d objects are left over", live_refs);
	warm();
	c.check(memory() == before, "%lld bytes of memory are left over", (long long)(memory() - before));
	c.nt();
	c.no_errors("references in several threads");
}

VT_PROP(P18, object_registry, 5000) {
	int n = 2 + (int)s.draw(2);
	std::vector<std::vector<int>> todo(n);
	for (auto &t : todo) {
		int k = 1 + (int)s.draw(7);
		for (int i = 0; i < k; i++) {
			t.push_back((int)s.draw(8));
		}
	}
	auto p = sched::plan(s);
	c.note("%s", sched::show(p).c_str());
	warm();
	uint64_t before = memory();
	int count = ObjectDB::get_object_count();
	struct Life {
		Object *o;
		ObjectID id;
		unsigned long born, dying, dead; // later than any time until it happens
	};
	std::deque<Life> all;
	std::vector<std::function<void()>> fs;
	for (int t = 0; t < n; t++) {
		fs.push_back([&, t] {
			std::vector<Life *> mine;
			auto kill = [&](size_t i) {
				Life *l = mine[i];
				mine.erase(mine.begin() + i);
				l->dying = sched::now();
				memdelete(l->o);
				l->dead = sched::now();
			};
			for (int op : todo[t]) {
				if (op < 2) {
					Object *o = memnew(Object);
					all.push_back({ o, o->get_instance_id(), sched::now(), ~0UL, ~0UL });
					mine.push_back(&all.back());
				} else if (op < 4 && !mine.empty()) {
					kill(op % mine.size());
				} else if (!all.empty()) {
					Life &l = all[(op * 7 + t) % all.size()];
					unsigned long from = sched::now();
					if (op < 7) {
						bool gone = l.dead <= from;
						Object *r = ObjectDB::get_instance(l.id);
						c.check(r == l.o || r == nullptr, "get_instance gives another object");
						if (gone) {
							c.check(r == nullptr, "get_instance gives an object that is gone");
						} else if (l.dying == ~0UL) {
							c.check(r == l.o, "get_instance does not find a living object");
						}
					} else {
						bool r = ObjectDB::instance_validate(l.o);
						c.check(r || l.dying != ~0UL, "a living object is not valid");
					}
				}
			}
			while (!mine.empty()) {
				kill(mine.size() - 1);
			}
		});
	}
	sched::run(c, p, fs);
	std::set<ObjectID> ids;
	for (auto &l : all) {
		c.check(l.id != 0 && ids.insert(l.id).second, "two objects have the same id");
		c.check(ObjectDB::get_instance(l.id) == nullptr, "get_instance gives an object that is gone");
	}
	c.check(ObjectDB::get_object_count() == count, "%d objects are registered too many", ObjectDB::get_object_count() - count);
	c.check(ObjectDB::get_instance(0) == nullptr, "get_instance(0)");
	warm();
	c.check(memory() == before, "%lld bytes of memory are left over", (long long)(memory() - before));
	c.nt(all.size() > 1);
	c.no_errors("objects in several threads");
}

VT_PROP(P18, variants_of_objects, 4000) {
	// Variants of one object in several threads, one of which deletes it
	int n = 2 + (int)s.draw(2), killer = (int)s.draw(4);
	std::vector<std::vector<int>> todo(n);
	for (auto &t : todo) {
		int k = 1 + (int)s.draw(7);
		for (int i = 0; i < k; i++) {
			t.push_back((int)s.draw(8));
		}
	}
	auto p = sched::plan(s);
	c.note("killer=%d %s", killer, sched::show(p).c_str());
	warm();
	uint64_t before = memory();
	{
		Object *o = memnew(Object);
		ObjectID id = o->get_instance_id();
		int ready = 0;
		unsigned long dying = ~0UL, dead = ~0UL;
		std::vector<std::function<void()>> fs;
		for (int t = 0; t < n; t++) {
			fs.push_back([&, t] {
				Variant v[3];
				v[0] = Variant(o); // the first uses of the object come together
				c.check((Object *)v[0] == o, "a Variant does not give its object");
				ready++;
				if (t == killer) {
					sched::block([&] { return ready == n; });
					dying = sched::now();
					memdelete(o);
					dead = sched::now();
				}
				for (int op : todo[t]) {
					bool gone = dead <= sched::now();
					int a = op % 3, b = (op / 3) % 3;
					bool set = v[b].get_type() == Variant::OBJECT;
					switch (op) {
						case 6: v[a] = Variant(); break;
						case 7: {
							Variant w(v[b]);
							c.check(w.get_type() == v[b].get_type(), "a copy has another type");
							break;
						}
						default:
							if (a != b) {
								v[a] = v[b];
							}
							Object *x = v[a];
							c.check(x == o || x == nullptr, "a Variant gives another object");
							if (set && gone) {
								c.check(x == nullptr, "a Variant gives an object that is gone");
							} else if (set && dying == ~0UL) {
								c.check(x == o, "a Variant does not give its living object");
							}
							if (set) {
								c.check(v[a].get_object_instance_id() == id || dying != ~0UL, "the id of a Variant's object");
							}
					}
				}
			});
		}
		sched::run(c, p, fs);
		if (killer >= n) {
			memdelete(o);
		}
	}
	warm();
	c.check(memory() == before, "%lld bytes of memory are left over", (long long)(memory() - before));
	c.nt(killer < n);
	c.errors();
}

namespace {
struct Plain {
	typedef Vector<int> V;
	static int size(const V &v) { return v.size(); }
	static int get(const V &v, int i) { return v[i]; }
	static void set(V &v, int i, int x) { v.write[i] = x; }
	static void push(V &v, int x) { v.push_back(x); }
	static void resize(V &v, int n) {
		int o = v.size();
		v.resize(n);
		for (int i = o; i < n; i++) {
			v.write[i] = 0;
		}
	}
};
struct Pool {
	typedef PoolVector<int> V;
	static int size(const V &v) { return v.size(); }
	static int get(const V &v, int i) {
		PoolVector<int>::Read r = v.read();
		sched::point();
		return r[i];
	}
	static void set(V &v, int i, int x) {
		PoolVector<int>::Write w = v.write();
		sched::point();
		w[i] = x;
	}
	static void push(V &v, int x) { v.push_back(x); }
	static void resize(V &v, int n) {
		int o = v.size();
		v.resize(n);
		for (int i = o; i < n; i++) {
			v.set(i, 0);
		}
	}
};
struct Text {
	typedef String V;
	static int size(const V &v) { return v.length(); }
	static int get(const V &v, int i) { return v[i] - 1; }
	static void set(V &v, int i, int x) { v.set(i, x + 1); }
	static void push(V &v, int x) { v += (CharType)(x + 1); }
	static void resize(V &v, int n) {
		while (v.length() < n) {
			v += (CharType)1;
		}
		v = v.substr(0, n);
	}
};

template <class K>
void cow(Src &s, Ctx &c) {
	typedef typename K::V V;
	int n = 2 + (int)s.draw(2), m = (int)s.draw(4);
	struct Op {
		int what, slot, x;
	};
	std::vector<std::vector<Op>> todo(n);
	for (auto &t : todo) {
		int k = 1 + (int)s.draw(6);
		for (int i = 0; i < k; i++) {
			t.push_back({ (int)s.draw(6), (int)s.draw(2), (int)s.draw(5) });
		}
	}
	bool drop = s.flag();
	auto p = sched::plan(s);
	c.note("size %d drop=%d %s", m, drop, sched::show(p).c_str());
	uint64_t before = memory();
	{
		V base;
		std::vector<int> base_is;
		for (int i = 0; i < m; i++) {
			K::push(base, i + 3);
			base_is.push_back(i + 3);
		}
		// each thread has a copy to begin with; the original may go away before they are done
		std::vector<V> first(n, base);
		if (drop) {
			base = V();
		}
		std::vector<std::function<void()>> fs;
		for (int t = 0; t < n; t++) {
			fs.push_back([&, t] {
				V v[2];
				std::vector<int> is[2];
				v[0] = first[t], is[0] = base_is;
				first[t] = V();
				for (const Op &o : todo[t]) {
					V &a = v[o.slot];
					auto &b = is[o.slot];
					switch (o.what) {
						case 0:
							if (!b.empty()) {
								K::set(a, o.x % b.size(), o.x + 10);
								b[o.x % b.size()] = o.x + 10;
							}
							break;
						case 1: K::push(a, o.x), b.push_back(o.x); break;
						case 2: K::resize(a, o.x), b.resize(o.x); break;
						case 3: a = v[1 - o.slot], b = is[1 - o.slot]; break;
						case 4:
							if (!drop) {
								a = base, b = base_is;
							}
							break;
						default: a = V(), b.clear();
					}
					for (int q = 0; q < 2; q++) {
						c.check(K::size(v[q]) == (int)is[q].size(), "a copy has %d elements instead of %d", K::size(v[q]), (int)is[q].size());
						for (size_t i = 0; i < is[q].size(); i++) {
							c.check(K::get(v[q], i) == is[q][i], "element %d of a copy is %d instead of %d", (int)i, K::get(v[q], i), is[q][i]);
						}
					}
				}
			});
		}
		sched::run(c, p, fs);
		for (int i = 0; i < m && !drop; i++) {
			c.check(K::get(base, i) == base_is[i], "the original has changed");
		}
	}
	c.check(memory() == before, "%lld bytes of memory are left over", (long long)(memory() - before));
	c.nt(m > 0);
	c.no_errors("copies in several threads");
}
} // namespace

VT_PROP(P18, copies_of_vectors, 3000) { cow<Plain>(s, c); }
VT_PROP(P18, copies_of_strings, 3000) { cow<Text>(s, c); }
VT_PROP(P18, copies_of_pool_vectors, 4000) {
	uint32_t used = MemoryPool::allocs_used;
	size_t total = MemoryPool::total_memory;
	cow<Pool>(s, c);
	c.check(MemoryPool::allocs_used == used, "%d allocations of the pool are left over", (int)(MemoryPool::allocs_used - used));
	c.check(MemoryPool::total_memory == total, "%lld bytes of the pool are left over", (long long)(MemoryPool::total_memory - total));
}
