#include "vt.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <random>

// ---------------------------------------------------------------- entropy
static uint64_t g_entropy = 1;
static bool g_frozen = false;
namespace std {
random_device::result_type random_device::_M_getval() {
	uint64_t z = (g_frozen ? g_entropy : (g_entropy += 0x9E3779B97F4A7C15ULL));
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
	return (result_type)(z ^ (z >> 31));
}
} // namespace std

// the clock, while a case runs, advances from a point given by the entropy seed, so
// that generators the library seeds from the time replay the same way
static bool g_virtual_clock = false, g_clock_stopped = false;
static uint64_t g_clock_us = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) {
	if (!g_virtual_clock) {
		return (int)syscall(SYS_clock_gettime, id, ts);
	}
	if (!g_clock_stopped) {
		g_clock_us += 1 + g_clock_us % 7;
	}
	uint64_t us = 2000000000ULL + g_clock_us;
	ts->tv_sec = (time_t)(us / 1000000);
	ts->tv_nsec = (long)(us % 1000000) * 1000;
	return 0;
}

namespace vt {

void seed_entropy(uint64_t v) {
	g_entropy = v;
	g_frozen = g_clock_stopped = false;
	g_clock_us = 1000000 + (v * 0x9E3779B97F4A7C15ULL >> 20) % 1000000007ULL;
}
void freeze_entropy(bool on) { g_frozen = on; }
void virtual_clock(bool on) { g_virtual_clock = on; }
void stop_clock(bool on) { g_clock_stopped = on; }

std::vector<Prop> &props() {
	static std::vector<Prop> p;
	return p;
}

// ---------------------------------------------------------------- stdout capture
static int g_capfd = -1;

static void capture_stdout() {
	fflush(stdout);
	g_capfd = memfd_create("vt-stdout", 0);
	if (g_capfd >= 0) {
		dup2(g_capfd, 1);
		lseek(1, 0, SEEK_SET);
	}
}

static off_t cap_pos() {
	fflush(stdout);
	return lseek(1, 0, SEEK_CUR);
}

static void cap_reset() {
	fflush(stdout);
	if (g_capfd >= 0) {
		lseek(1, 0, SEEK_SET);
		if (ftruncate(1, 0) != 0) {
		}
	}
}

int Ctx::errors() {
	last_errors.clear();
	off_t n = cap_pos();
	if (n <= 0) {
		return 0;
	}
	std::string buf;
	buf.resize(n > 65536 ? 65536 : n);
	ssize_t r = pread(1, &buf[0], buf.size(), 0);
	if (r < 0) {
		r = 0;
	}
	buf.resize(r);
	cap_reset();
	int cnt = 0;
	size_t i = 0;
	while (i < buf.size()) {
		size_t e = buf.find('\n', i);
		if (e == std::string::npos) {
			e = buf.size();
		}
		if (e - i >= 3 && buf[i] == 'E' && buf[i + 1] == ' ' && (buf[i + 2] == '|' || buf.compare(i, 9, "E (INDEX)") == 0)) {
			cnt++;
			if (last_errors.size() < 400) {
				last_errors += buf.substr(i, e - i) + "; ";
			}
		}
		i = e + 1;
	}
	return cnt;
}

void Ctx::no_errors(const char *what) {
	if (errors()) {
		fail("%s: a valid call printed an error: %s", what, last_errors.c_str());
	}
}

// ---------------------------------------------------------------- shared state
struct Slot {
	volatile int active; // 1 while running a case
	volatile int sub;
	volatile int idx;
	volatile int nrec;
	volatile int failed; // set by child on assertion failure
	char msg[2400];
	uint64_t rec[MAX_CHOICES];
};

struct SubStat {
	volatile int failed; // index of failing case + 1
	volatile int next; // next chunk
	volatile long evals, nontriv, discards;
	volatile int samples;
	int fail_n;
	char kind[16];
	char msg[2400];
	uint64_t fail_rec[MAX_CHOICES];
};

static const long HASH_CAP = 6000000;
struct Shared {
	volatile long nhash;
	volatile int sample_len;
	char samples[1 << 20];
	uint64_t hashes[HASH_CAP];
};

template <class T>
static T *shm(size_t n) {
	void *p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) {
		perror("mmap");
		exit(2);
	}
	return (T *)p;
}

static uint64_t hash_mix(uint64_t h, uint64_t v) {
	h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
	h *= 0xBF58476D1CE4E5B9ULL;
	return h ^ (h >> 29);
}
static uint64_t hash_str(const char *p) {
	uint64_t h = 1469598103934665603ULL;
	for (; *p; p++) {
		h = (h ^ (unsigned char)*p) * 1099511628211ULL;
	}
	return h;
}

// A case that never stops printing or allocating must not take the machine down before its CPU limit is reached.
static const int EXIT_MEMORY = 82;
static const char *const MSG_OUTPUT = "the call did not stop writing (more than 256 MB in one file)";
static const char *const MSG_MEMORY = "the call took more than 3 GB of memory";

static void check_memory(int) {
	int e = errno, fd = open("/proc/self/statm", O_RDONLY);
	char b[128];
	ssize_t n = fd < 0 ? -1 : read(fd, b, sizeof b - 1);
	if (fd >= 0) {
		close(fd);
	}
	if (n > 0) {
		long pages = 0;
		ssize_t i = 0;
		while (i < n && b[i] != ' ') {
			i++;
		}
		for (i++; i < n && b[i] >= '0' && b[i] <= '9'; i++) {
			pages = pages * 10 + (b[i] - '0');
		}
		if (pages > (3l << 30) / 4096) {
			_exit(EXIT_MEMORY);
		}
	}
	errno = e;
}

static void limit_use() {
	struct rlimit l;
	l.rlim_cur = l.rlim_max = 256l << 20;
	setrlimit(RLIMIT_FSIZE, &l);
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_handler = check_memory;
	sa.sa_flags = SA_RESTART;
	sigaction(SIGVTALRM, &sa, nullptr);
	struct itimerval v;
	memset(&v, 0, sizeof v);
	v.it_value.tv_usec = v.it_interval.tv_usec = 250000;
	setitimer(ITIMER_VIRTUAL, &v, nullptr);
}

static void set_cpu_timer(int ms) {
	struct itimerval t;
	memset(&t, 0, sizeof t);
	t.it_value.tv_sec = ms / 1000;
	t.it_value.tv_usec = (ms % 1000) * 1000;
	setitimer(ITIMER_PROF, &t, nullptr);
}

static double now() {
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

enum Outcome { PASS, FAIL, DISCARD };

std::vector<std::function<std::string()>> at_case_end;

static Outcome run_case(const Prop &p, Src &s, Ctx &c, std::string &msg) {
	cap_reset();
	seed_entropy(hash_mix(hash_str(p.name), 77));
	virtual_clock(true);
	Outcome o = PASS;
	at_case_end.clear();
	try {
		p.fn(s, c);
		for (auto &f : at_case_end) {
			std::string m = f();
			if (!m.empty()) {
				throw Fail{ m };
			}
		}
	} catch (const Fail &f) {
		msg = f.msg;
		o = FAIL;
	} catch (const Discard &) {
		o = DISCARD;
	}
	at_case_end.clear();
	virtual_clock(false);
	return o;
}

static const int CASE_CPU_MS = 30000;

// ---------------------------------------------------------------- memory given back
// With --memory a case is judged by one thing only: running it over and over must not use up memory. What a first
// run leaves behind (tables filled once) counts only if every further run of the same case leaves more.
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
static bool g_memory = false;

struct Use {
	long bytes, counted, objects;
};
static Use use_now() {
	Use u;
	u.bytes = __sanitizer_get_current_allocated_bytes ? (long)__sanitizer_get_current_allocated_bytes() : 0;
	lib_use(u.counted, u.objects);
	return u;
}

static Outcome memory_case(const Prop &p, Src &s, Ctx &c, std::string &msg) {
	static uint64_t *again = nullptr, *rec = nullptr;
	if (!again) {
		again = new uint64_t[MAX_CHOICES];
		rec = new uint64_t[MAX_CHOICES];
	}
	bool want = c.want_desc;
	std::string m;
	Use a = use_now();
	if (run_case(p, s, c, m) != PASS) {
		return DISCARD; // what is wrong there is for other checks to say
	}
	int n = *s.nrec;
	std::string().swap(m);
	Use b = use_now();
	long desc = (long)c.desc.capacity();
	if (!s.replaying && b.bytes - a.bytes <= desc + 32 && b.counted == a.counted && b.objects == a.objects) {
		return PASS;
	}
	memcpy(again, s.rec, sizeof(uint64_t) * n);
	const int TIMES = 9; // what comes and goes does not grow so often in a row
	Use u[TIMES + 1];
	u[0] = b;
	bool bytes = true, counted = true, objects = true;
	for (int i = 0; i < TIMES && (bytes || counted || objects); i++) {
		int nrec = 0;
		{
			Src r;
			r.rec = rec;
			r.nrec = &nrec;
			r.replaying = true;
			r.replay = again;
			r.nreplay = n;
			Ctx k;
			k.want_desc = false;
			if (run_case(p, r, k, m) != PASS) {
				return DISCARD;
			}
			std::string().swap(m);
		}
		u[i + 1] = use_now();
		if (i > 0) { // the first repetition may still fill tables
			bytes = bytes && u[i + 1].bytes > u[i].bytes;
			counted = counted && u[i + 1].counted != u[i].counted && (u[i + 1].counted > u[i].counted) == (u[2].counted > u[1].counted);
			objects = objects && u[i + 1].objects > u[i].objects;
		}
	}
	c.want_desc = want;
	char t[200];
	if (objects) {
		snprintf(t, sizeof t, "%ld objects are never freed", u[TIMES].objects - u[TIMES - 1].objects);
	} else if (bytes) {
		snprintf(t, sizeof t, "%ld bytes are never given back", u[TIMES].bytes - u[TIMES - 1].bytes);
	} else if (counted) {
		snprintf(t, sizeof t, "the reported use of memory is off by %ld bytes more each time", u[TIMES].counted - u[TIMES - 1].counted);
	} else {
		return PASS;
	}
	msg = t;
	return FAIL;
}

static Outcome judge(const Prop &p, Src &s, Ctx &c, std::string &msg) { return g_memory ? memory_case(p, s, c, msg) : run_case(p, s, c, msg); }

// ---------------------------------------------------------------- worker
static void json_str(std::string &o, const std::string &s) {
	o += '"';
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') {
			o += '\\';
			o += ch;
		} else if (ch == '\n') {
			o += "\\n";
		} else if (ch < 32 || ch >= 127) {
			char b[8];
			snprintf(b, sizeof b, "\\u%04x", ch);
			o += b;
		} else {
			o += ch;
		}
	}
	o += '"';
}

struct Run {
	std::vector<Prop> sel;
	std::vector<int> cases;
	uint64_t seed;
	double deadline;
	SubStat *st;
	Shared *sh;
	Slot *slots;
};

static void worker(Run &R, Slot &slot) {
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	capture_stdout();
	limit_use();
	lib_setup();
	const int CH = 16;
	int nsub = (int)R.sel.size();
	for (int off = 0; off < nsub; off++) {
		int si = off;
		const Prop &p = R.sel[si];
		SubStat &st = R.st[si];
		while (!st.failed) {
			int from = __sync_fetch_and_add(&st.next, CH);
			if (from >= R.cases[si]) {
				break;
			}
			int to = std::min(from + CH, R.cases[si]);
			for (int i = from; i < to && !st.failed; i++) {
				if (now() > R.deadline) {
					break;
				}
				slot.sub = si;
				slot.idx = i;
				slot.nrec = 0;
				slot.failed = 0;
				slot.active = 1;
				Src s;
				s.rec = slot.rec;
				s.nrec = &slot.nrec;
				s.st = hash_mix(hash_mix(R.seed, hash_str(p.name)), (uint64_t)i);
				Ctx c;
				c.want_desc = st.samples < 3;
				set_cpu_timer(CASE_CPU_MS);
				std::string msg;
				Outcome o = judge(p, s, c, msg);
				slot.active = 0;
				if (o == DISCARD) {
					__sync_fetch_and_add(&st.discards, 1);
					continue;
				}
				__sync_fetch_and_add(&st.evals, 1);
				if (o == FAIL) {
					if (__sync_bool_compare_and_swap(&st.failed, 0, i + 1)) {
						st.fail_n = slot.nrec;
						memcpy(st.fail_rec, slot.rec, sizeof(uint64_t) * slot.nrec);
						snprintf(st.kind, sizeof st.kind, "assert");
						snprintf(st.msg, sizeof st.msg, "%s", msg.c_str());
					}
					break;
				}
				if (c.nontrivial) {
					__sync_fetch_and_add(&st.nontriv, 1);
					uint64_t h = hash_str(p.name);
					for (int k = 0; k < slot.nrec; k++) {
						h = hash_mix(h, slot.rec[k]);
					}
					long hi = __sync_fetch_and_add(&R.sh->nhash, 1);
					if (hi < HASH_CAP) {
						R.sh->hashes[hi] = h;
					}
					if (c.want_desc && !c.desc.empty()) {
						if (__sync_fetch_and_add(&st.samples, 1) < 3) {
							std::string js = "{\"check\":";
							json_str(js, p.name);
							js += ",\"case\":";
							json_str(js, c.desc.substr(0, 600));
							js += "}\n";
							int at = __sync_fetch_and_add(&R.sh->sample_len, (int)js.size());
							if (at + js.size() < sizeof(R.sh->samples)) {
								memcpy(R.sh->samples + at, js.data(), js.size());
							}
						}
					}
				}
			}
		}
	}
	set_cpu_timer(0);
	_exit(0);
}

// ---------------------------------------------------------------- shrinking
struct Cand {
	std::vector<uint64_t> ch;
	std::string kind, msg;
};

static Slot *g_shr = nullptr;
static std::string g_desc;

// runs the choices in a forked child; true if it fails
static bool fails(const Prop &p, std::vector<uint64_t> &ch, std::string &kind, std::string &msg, int cpu_ms, std::string *desc = nullptr) {
	g_shr->nrec = 0;
	g_shr->failed = 0;
	g_shr->msg[0] = 0;
	static char *descbuf = nullptr;
	if (!descbuf) {
		descbuf = shm<char>(8192);
	}
	descbuf[0] = 0;
	static int errfd = memfd_create("vt-stderr", 0);
	pid_t pid = fork();
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		capture_stdout();
		if (errfd < 0) {
			_exit(12);
		}
		if (ftruncate(errfd, 0) != 0) {
		}
		lseek(errfd, 0, SEEK_SET);
		dup2(errfd, 2);
		limit_use();
		lib_setup();
		Src s;
		s.rec = g_shr->rec;
		s.nrec = &g_shr->nrec;
		s.replaying = true;
		s.replay = ch.data();
		s.nreplay = (int)ch.size();
		Ctx c;
		c.want_desc = desc != nullptr;
		c.live_desc = desc ? descbuf : nullptr;
		std::string m;
		set_cpu_timer(cpu_ms);
		Outcome o = judge(p, s, c, m);
		if (desc) {
			snprintf(descbuf, 8192, "%s", c.desc.c_str());
		}
		if (o == FAIL) {
			g_shr->failed = 1;
			snprintf(g_shr->msg, sizeof g_shr->msg, "%s", m.c_str());
			_exit(10);
		}
		_exit(o == DISCARD ? 11 : 0);
	}
	int status = 0;
	while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
	}
	if (desc) {
		*desc = descbuf;
	}
	if (WIFEXITED(status) && (WEXITSTATUS(status) == 0 || WEXITSTATUS(status) == 11)) {
		return false;
	}
	if (g_shr->failed) {
		kind = "assert";
		msg = g_shr->msg;
	} else if (WIFSIGNALED(status) && (WTERMSIG(status) == SIGPROF || WTERMSIG(status) == SIGXCPU)) {
		kind = "hang";
		msg = "the call did not return within its CPU limit";
	} else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGXFSZ) {
		kind = "hang";
		msg = MSG_OUTPUT;
	} else if (WIFEXITED(status) && WEXITSTATUS(status) == EXIT_MEMORY) {
		kind = "hang";
		msg = MSG_MEMORY;
	} else {
		kind = "crash";
		char b[128];
		snprintf(b, sizeof b, "the process died (%s %d)", WIFSIGNALED(status) ? "signal" : "exit status", WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status));
		msg = b;
		if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) {
			kind = "killed";
		}
		std::string eb(16384, 0);
		ssize_t r = pread(errfd, &eb[0], eb.size(), 0);
		eb.resize(r < 0 ? 0 : r);
		if (getenv("VT_SHOW")) {
			fprintf(stderr, "%s\n", eb.c_str());
		}
		for (const char *key : { "runtime error: ", "ERROR: AddressSanitizer: ", "WARNING: ThreadSanitizer: ", "terminate called", "FATAL:" }) {
			size_t at = eb.find(key);
			if (at != std::string::npos) {
				size_t b0 = eb.rfind('\n', at);
				b0 = b0 == std::string::npos ? 0 : b0 + 1;
				size_t e0 = eb.find('\n', at);
				msg += ": " + eb.substr(b0, std::min((size_t)300, (e0 == std::string::npos ? eb.size() : e0) - b0));
				break;
			}
		}
		// innermost frames inside the library
		size_t at = 0;
		for (int fr = 0; fr < 3; fr++) {
			at = eb.find(" in ", at);
			if (at == std::string::npos) {
				break;
			}
			size_t e0 = eb.find('\n', at);
			msg += (fr ? " <-" : " at") + eb.substr(at + 3, std::min((size_t)160, (e0 == std::string::npos ? eb.size() : e0) - at - 3));
			at = e0 == std::string::npos ? eb.size() : e0;
		}
	}
	// normalise to what was actually consumed
	ch.assign(g_shr->rec, g_shr->rec + g_shr->nrec);
	return true;
}

static void shrink(const Prop &p, Cand &c, double budget) {
	double t0 = now();
	int cpu = c.kind == "hang" ? 3000 : 5000;
	bool progress = true;
	auto attempt = [&](std::vector<uint64_t> t) {
		if (now() - t0 > budget) {
			return false;
		}
		std::string k, m;
		std::vector<uint64_t> n = t;
		if (!fails(p, n, k, m, cpu)) {
			return false;
		}
		// must be simpler: shorter, or same length and lexicographically smaller
		if (n.size() > c.ch.size() || (n.size() == c.ch.size() && !(n < c.ch))) {
			return false;
		}
		c.ch = n;
		c.kind = k;
		c.msg = m;
		return true;
	};
	while (progress && now() - t0 < budget) {
		progress = false;
		for (size_t blk : { (size_t)64, (size_t)16, (size_t)8, (size_t)4, (size_t)3, (size_t)2, (size_t)1 }) {
			for (size_t i = c.ch.size(); i-- > 0;) {
				if (i + blk > c.ch.size()) {
					continue;
				}
				std::vector<uint64_t> t = c.ch;
				t.erase(t.begin() + i, t.begin() + i + blk);
				if (attempt(t)) {
					progress = true;
				}
				if (now() - t0 > budget) {
					return;
				}
			}
		}
		for (size_t i = 0; i < c.ch.size(); i++) {
			if (c.ch[i] == 0) {
				continue;
			}
			std::vector<uint64_t> t = c.ch;
			t[i] = 0;
			if (attempt(t)) {
				progress = true;
				continue;
			}
			uint64_t lo = 0; // known passing
			while (i < c.ch.size() && c.ch[i] - lo > 1 && now() - t0 < budget) {
				uint64_t mid = lo + (c.ch[i] - lo) / 2;
				t = c.ch;
				t[i] = mid;
				size_t before = c.ch.size();
				if (attempt(t)) {
					progress = true;
					if (c.ch.size() != before) {
						break;
					}
				} else {
					lo = mid;
				}
			}
			if (i < c.ch.size() && c.ch[i] > 0) { // also plain decrement
				t = c.ch;
				t[i]--;
				if (attempt(t)) {
					progress = true;
				}
			}
			// swap a decrement with deleting the next value (list lengths)
			if (i + 1 < c.ch.size() && c.ch[i] > 0) {
				t = c.ch;
				t[i]--;
				t.erase(t.begin() + i + 1);
				if (attempt(t)) {
					progress = true;
				}
			}
		}
	}
}

// ---------------------------------------------------------------- driver
static int drive(int argc, char **argv) {
	std::vector<std::string> ids;
	std::string only, out, replay_sub, replay_file;
	bool thorough = false;
	int jobs = 8;
	double budget = 240, scale = 1;
	int most = 0; // cases of each check, at most
	uint64_t seed = 1;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--id") {
			ids.push_back(val());
		} else if (a == "--only") {
			only = val();
		} else if (a == "--tier") {
			thorough = val() == "thorough";
		} else if (a == "--seed") {
			seed = strtoull(val().c_str(), nullptr, 10);
		} else if (a == "--jobs") {
			jobs = atoi(val().c_str());
		} else if (a == "--budget") {
			budget = atof(val().c_str());
		} else if (a == "--scale") {
			scale = atof(val().c_str());
		} else if (a == "--memory") {
			g_memory = true;
		} else if (a == "--cases") {
			most = atoi(val().c_str());
		} else if (a == "--out") {
			out = val();
		} else if (a == "--replay") {
			replay_sub = val();
			replay_file = val();
		} else if (a == "--list") {
			for (auto &p : props()) {
				printf("%s %s %d%s\n", p.id, p.name, p.quick, p.witness ? " witness" : "");
			}
			return 0;
		}
	}

	g_shr = shm<Slot>(1);

	if (!replay_sub.empty()) {
		FILE *f = fopen(replay_file.c_str(), "r");
		if (!f) {
			fprintf(stderr, "cannot open %s\n", replay_file.c_str());
			return 2;
		}
		std::vector<uint64_t> ch;
		unsigned long long v;
		while (fscanf(f, "%llu", &v) == 1) {
			ch.push_back(v);
		}
		fclose(f);
		for (auto &p : props()) {
			if (replay_sub == p.name) {
				std::string k, m, d;
				bool bad = fails(p, ch, k, m, CASE_CPU_MS, &d);
				printf("%s %s: %s%s%s\n  input: %s\n", p.id, p.name, bad ? "FAIL " : "pass", bad ? (k + ": ").c_str() : "", bad ? m.c_str() : "", d.c_str());
				return bad ? 1 : 0;
			}
		}
		fprintf(stderr, "no such check\n");
		return 2;
	}

	Run R;
	R.seed = hash_mix(12345, seed);
	for (auto &p : props()) {
		if (!ids.empty() && std::find(ids.begin(), ids.end(), p.id) == ids.end()) {
			continue;
		}
		if (!only.empty() && only != p.name) {
			continue;
		}
		R.sel.push_back(p);
		double n = p.witness ? 1 : p.quick * scale * (thorough ? p.mult : 1);
		if (g_memory && p.witness) {
			n = 1;
		} else if (most > 0 && n > most) {
			n = most;
		}
		R.cases.push_back((int)(n < 1 ? 1 : n));
	}
	int nsub = (int)R.sel.size();
	if (!nsub) {
		fprintf(stderr, "nothing selected\n");
		return 2;
	}
	double t0 = now();
	R.deadline = t0 + budget;
	R.st = shm<SubStat>(nsub);
	R.sh = shm<Shared>(1);
	R.slots = shm<Slot>(jobs);
	std::vector<pid_t> pids(jobs, 0);
	int alive = 0;
	auto spawn = [&](int j) {
		R.slots[j].active = 0;
		pid_t pid = fork();
		if (pid == 0) {
			int nul = open("/dev/null", O_WRONLY);
			dup2(nul, 2);
			worker(R, R.slots[j]);
			_exit(0);
		}
		pids[j] = pid;
		alive++;
	};
	for (int j = 0; j < jobs; j++) {
		spawn(j);
	}
	int deaths = 0;
	while (alive > 0) {
		int status = 0;
		pid_t pid = waitpid(-1, &status, 0);
		if (pid < 0) {
			if (errno == EINTR) {
				continue;
			}
			break;
		}
		int j = (int)(std::find(pids.begin(), pids.end(), pid) - pids.begin());
		if (j >= jobs) {
			continue;
		}
		alive--;
		pids[j] = 0;
		if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
			continue;
		}
		Slot &sl = R.slots[j];
		deaths++;
		if (sl.active) {
			SubStat &st = R.st[sl.sub];
			if (__sync_bool_compare_and_swap(&st.failed, 0, sl.idx + 1)) {
				st.fail_n = sl.nrec;
				memcpy(st.fail_rec, sl.rec, sizeof(uint64_t) * sl.nrec);
				bool hang = WIFSIGNALED(status) && (WTERMSIG(status) == SIGPROF || WTERMSIG(status) == SIGXCPU || WTERMSIG(status) == SIGXFSZ);
				bool killed = WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL;
				snprintf(st.kind, sizeof st.kind, "%s", hang ? "hang" : (killed ? "killed" : "crash"));
				snprintf(st.msg, sizeof st.msg, "worker died");
			}
		} else if (deaths > 50) {
			fprintf(stderr, "worker died outside a case\n");
			return 2;
		}
		spawn(j);
	}

	// results
	std::string js = "{\"subs\":[";
	int nfail = 0;
	long ev = 0, nt = 0;
	for (int i = 0; i < nsub; i++) {
		SubStat &st = R.st[i];
		ev += st.evals;
		nt += st.nontriv;
		js += i ? ",\n" : "\n";
		js += "{\"id\":";
		json_str(js, R.sel[i].id);
		js += ",\"name\":";
		json_str(js, R.sel[i].name);
		char b[256];
		snprintf(b, sizeof b, ",\"witness\":%s,\"planned\":%d,\"evals\":%ld,\"nontrivial\":%ld,\"discards\":%ld", R.sel[i].witness ? "true" : "false", R.cases[i], (long)st.evals, (long)st.nontriv, (long)st.discards);
		js += b;
		if (st.failed && (!g_memory || !strcmp(st.kind, "assert"))) {
			nfail++;
			Cand cd;
			cd.ch.assign(st.fail_rec, st.fail_rec + st.fail_n);
			cd.kind = st.kind;
			cd.msg = st.msg;
			std::string k, m;
			std::vector<uint64_t> ch = cd.ch;
			bool again = false;
			for (int t = 0; t < 3 && !again; t++) {
				ch = cd.ch;
				again = fails(R.sel[i], ch, k, m, CASE_CPU_MS);
			}
			if (again) {
				cd.kind = k;
				cd.msg = m;
				cd.ch = ch;
				if (nfail <= 8) {
					shrink(R.sel[i], cd, R.sel[i].witness ? 0 : (nfail <= 2 ? 15 : 5));
				}
			}
			std::string d;
			ch = cd.ch;
			{
				std::string k2, m2;
				int save = dup(2);
				int nul = open("/dev/null", O_WRONLY);
				dup2(nul, 2);
				fails(R.sel[i], ch, k2, m2, CASE_CPU_MS, &d);
				dup2(save, 2);
			}
			js += ",\"fail\":{\"kind\":";
			json_str(js, cd.kind);
			js += ",\"msg\":";
			json_str(js, cd.msg);
			js += ",\"reproduced\":";
			js += again ? "true" : "false";
			js += ",\"input\":";
			json_str(js, d);
			js += ",\"case\":" + std::to_string(st.failed - 1);
			js += ",\"choices\":[";
			for (size_t k2 = 0; k2 < cd.ch.size(); k2++) {
				js += (k2 ? "," : "") + std::to_string(cd.ch[k2]);
			}
			js += "]}";
		}
		js += "}";
	}
	long nh = std::min((long)R.sh->nhash, HASH_CAP);
	std::sort(R.sh->hashes, R.sh->hashes + nh);
	long distinct = std::unique(R.sh->hashes, R.sh->hashes + nh) - R.sh->hashes;
	js += "],\n\"evals\":" + std::to_string(ev) + ",\"nontrivial\":" + std::to_string(nt) + ",\"distinct\":" + std::to_string(distinct);
	js += ",\"samples\":[";
	{
		std::string all(R.sh->samples, std::min((size_t)R.sh->sample_len, sizeof(R.sh->samples)));
		size_t i = 0;
		bool first = true;
		while (i < all.size()) {
			size_t e = all.find('\n', i);
			if (e == std::string::npos) {
				break;
			}
			js += (first ? "" : ",\n") + all.substr(i, e - i);
			first = false;
			i = e + 1;
		}
	}
	js += "]}\n";
	if (out.empty()) {
		fputs(js.c_str(), stdout);
	} else {
		FILE *f = fopen(out.c_str(), "w");
		fputs(js.c_str(), f);
		fclose(f);
	}
	return nfail ? 1 : 0;
}

} // namespace vt

extern "C" const char *__asan_default_options() {
	return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0:max_allocation_size_mb=2048:handle_segv=1:handle_abort=1:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=5:detect_odr_violation=0";
}
extern "C" const char *__tsan_default_options() { return "halt_on_error=1:abort_on_error=0:exitcode=79:report_signal_unsafe=0:die_after_fork=0:history_size=4"; }
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:print_stacktrace=0:exitcode=78"; }

int main(int argc, char **argv) { return vt::drive(argc, argv); }
