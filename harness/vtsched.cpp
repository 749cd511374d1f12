#include "vtsched.h"
#undef atomic
#undef atomic_bool
#undef atomic_flag
#undef mutex
#undef recursive_mutex
#undef shared_timed_mutex
#undef thread
#include "schedrun.h"

namespace {
struct Th {
	std::thread real;
	sem_t go;
	std::function<void()> f;
	bool done = false;
};
struct State {
	std::vector<std::unique_ptr<Th>> ths;
	std::vector<sched::Plan::Switch> cuts;
	size_t next_cut = 0;
	unsigned long gap = 0; // points until the next cut
	unsigned long long rng = 0;
	int chance = 0; // one in this many points is a switch
	unsigned long steps = 0;
	int idle = 0; // waiting threads in a row
	int straight = 0; // points since the last switch
	bool dead = false;
	std::string why;
	std::string failed;
	bool discarded = false;
	sem_t over;
	std::vector<int> trace;
};
State *S = nullptr;
thread_local int me = -1;

unsigned long long rnd() {
	S->rng ^= S->rng << 13;
	S->rng ^= S->rng >> 7;
	S->rng ^= S->rng << 17;
	return (S->rng * 0x2545F4914F6CDD1DULL) >> 33;
}
unsigned long long dice(unsigned long long n) { return n < 2 ? 0 : rnd() % n; }

void wait_go(Th *t) {
	while (sem_wait(&t->go)) {
	}
}
[[noreturn]] void stop(const char *why) {
	S->dead = true;
	S->why = why;
	sem_post(&S->over);
	for (;;) { // this run is given up; its threads never go on
		pause();
	}
}
// hands control to another thread and comes back when it is our turn again
void hand(int to) {
	if (to == me) {
		return;
	}
	Th *mine = S->ths[me].get();
	S->straight = 0;
	if (S->trace.size() < 400) {
		S->trace.push_back(to);
	}
	sem_post(&S->ths[to]->go);
	wait_go(mine);
}
int other(int k) { // the k-th live thread after this one
	int n = (int)S->ths.size();
	std::vector<int> live;
	for (int i = 1; i < n; i++) {
		int t = (me + i) % n;
		if (!S->ths[t]->done) {
			live.push_back(t);
		}
	}
	return live.empty() ? me : live[k % live.size()];
}
void next_gap() { S->gap = S->next_cut < S->cuts.size() ? S->cuts[S->next_cut].gap : ~0UL; }
void body(int id, Th *t) {
	me = id;
	wait_go(t);
	try {
		t->f();
	} catch (vt::Fail &f) {
		if (S->failed.empty()) {
			S->failed = f.msg;
		}
	} catch (vt::Discard &) {
		S->discarded = true;
	}
	t->f = nullptr;
	t->done = true;
	S->idle = 0;
	int to = other(0);
	if (to == id) {
		sem_post(&S->over);
	} else {
		if (S->trace.size() < 400) {
			S->trace.push_back(to);
		}
		sem_post(&S->ths[to]->go);
	}
}
} // namespace

namespace std {
std::thread::id vt_id_of(int n) { return S->ths[n]->real.get_id(); }
} // namespace std

namespace sched {
bool active() { return me >= 0; }
int self() { return me; }
unsigned long now() { return S ? S->steps : 0; }
void point() {
	if (me < 0) {
		return;
	}
	S->idle = 0;
	if (++S->steps > 200000) {
		stop("the threads never come to an end");
	}
	if (++S->straight > 400) { // somebody may be waiting for another in a loop
		S->straight = 0;
		hand(other(0));
		return;
	}
	if (S->chance) {
		if (dice(S->chance) == 0) {
			hand(other((int)dice(S->ths.size())));
		}
	} else if (S->gap-- == 0) {
		int k = S->cuts[S->next_cut++].to;
		next_gap();
		hand(other(k));
	}
}
void yield() {
	if (me < 0) {
		std::fprintf(stderr, "waiting for a lock that nobody will release\n");
		std::abort();
	}
	if (++S->steps > 200000) {
		stop("the threads never come to an end");
	}
	if (++S->idle > 2 * (int)S->ths.size() + 4) {
		stop("the threads wait for each other forever");
	}
	hand(other(0));
}
bool spurious() { return me >= 0 && S->chance && dice(6) == 0; }
int spawn(std::function<void()> f) {
	int id = (int)S->ths.size();
	S->ths.emplace_back(new Th);
	Th *t = S->ths.back().get();
	sem_init(&t->go, 0, 0);
	t->f = std::move(f);
	t->real = std::thread(body, id, t);
	return id;
}
bool finished(int id) { return S->ths[id]->done; }
void forget(int) {}

Plan plan(vt::Src &s) {
	Plan p;
	if (s.one_in(3)) {
		p.seed = s.range(1, 1 << 30);
		p.chance = 2 + (int)s.draw(6);
		return p;
	}
	int n = s.size(0, 10);
	for (int i = 0; i < n; i++) {
		int m = s.pick({ 4, 12, 40, 150 });
		int gap = (int)s.draw(m);
		p.cuts.push_back({ (unsigned long)gap, (int)s.draw(4) });
	}
	return p;
}
std::string show(const Plan &p) {
	if (p.chance) {
		return "random switches, seed " + std::to_string(p.seed) + ", one in " + std::to_string(p.chance);
	}
	std::string r = "switches";
	for (auto &k : p.cuts) {
		r += " +" + std::to_string(k.gap) + ":" + std::to_string(k.to);
	}
	return r;
}
void run(vt::Ctx &c, const Plan &p, std::vector<std::function<void()>> fs) {
	State *st = new State; // not given back when the run is given up
	S = st;
	st->cuts = p.cuts;
	st->chance = p.chance;
	st->rng = p.seed * 0x9E3779B97F4A7C15ULL + 1;
	sem_init(&st->over, 0, 0);
	next_gap();
	for (auto &f : fs) {
		spawn(std::move(f));
	}
	sem_post(&st->ths[0]->go);
	while (sem_wait(&st->over)) {
	}
	if (st->dead) {
		S = nullptr;
		throw vt::Fail{ st->why };
	}
	for (auto &t : st->ths) {
		t->real.join();
		sem_destroy(&t->go);
	}
	std::string failed = st->failed;
	bool disc = st->discarded;
	sem_destroy(&st->over);
	delete st;
	S = nullptr;
	if (!failed.empty()) {
		throw vt::Fail{ failed };
	}
	if (disc) {
		throw vt::Discard();
	}
	(void)c;
}
} // namespace sched
