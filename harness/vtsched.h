// Runs threads under generated schedules. This header goes in front of the project's sources (-include): it brings in the
// standard headers and then replaces std::atomic, std::mutex, std::thread and friends by versions that hand control over
// to a scheduler at every operation. Only one thread runs at a time, and which one goes on at each such point is drawn from
// the case's choices, so a schedule is generated, replayed and shrunk like any other input.
#pragma once
#include <bits/stdc++.h>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>

namespace sched {
bool active(); // inside a scheduled thread
void point(); // another thread may go on here
void yield(); // another thread goes on here if there is one that can
int self(); // number of the scheduled thread
bool spurious(); // a weak operation may fail for no reason
unsigned long now(); // counts the points passed so far
int spawn(std::function<void()> f); // a new scheduled thread
bool finished(int id);
void forget(int id); // nobody will join it
template <class F>
void block(F ready) { // waits until something others do makes it ready
	while (!ready()) {
		yield();
	}
}
} // namespace sched

namespace std {
template <class T>
class vt_atomic {
	std::atomic<T> v;

public:
	vt_atomic() noexcept = default;
	constexpr vt_atomic(T x) noexcept :
			v(x) {}
	vt_atomic(const vt_atomic &) = delete;
	vt_atomic &operator=(const vt_atomic &) = delete;
	bool is_lock_free() const noexcept { return v.is_lock_free(); }
	void store(T x, std::memory_order = std::memory_order_seq_cst) {
		sched::point();
		v.store(x);
	}
	T load(std::memory_order = std::memory_order_seq_cst) const {
		sched::point();
		return v.load();
	}
	T exchange(T x, std::memory_order = std::memory_order_seq_cst) {
		sched::point();
		return v.exchange(x);
	}
	bool compare_exchange_strong(T &e, T x, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) {
		sched::point();
		return v.compare_exchange_strong(e, x);
	}
	bool compare_exchange_weak(T &e, T x, std::memory_order = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) {
		sched::point();
		if (sched::spurious()) {
			e = v.load();
			return false;
		}
		return v.compare_exchange_strong(e, x);
	}
	template <class U>
	T fetch_add(U x, std::memory_order = std::memory_order_seq_cst) {
		sched::point();
		return v.fetch_add(x);
	}
	template <class U>
	T fetch_sub(U x, std::memory_order = std::memory_order_seq_cst) {
		sched::point();
		return v.fetch_sub(x);
	}
	template <class U>
	T fetch_or(U x, std::memory_order = std::memory_order_seq_cst) {
		sched::point();
		return v.fetch_or(x);
	}
	template <class U>
	T fetch_and(U x, std::memory_order = std::memory_order_seq_cst) {
		sched::point();
		return v.fetch_and(x);
	}
	operator T() const { return load(); }
	T operator=(T x) {
		store(x);
		return x;
	}
	T operator++() { return fetch_add(1) + 1; }
	T operator++(int) { return fetch_add(1); }
	T operator--() { return fetch_sub(1) - 1; }
	T operator--(int) { return fetch_sub(1); }
	template <class U>
	T operator+=(U x) { return fetch_add(x) + x; }
	template <class U>
	T operator-=(U x) { return fetch_sub(x) - x; }
};
typedef vt_atomic<bool> vt_atomic_bool;

class vt_atomic_flag {
	bool v = false;

public:
	constexpr vt_atomic_flag() noexcept = default;
	constexpr vt_atomic_flag(bool x) noexcept :
			v(x) {}
	bool test_and_set(std::memory_order = std::memory_order_seq_cst) {
		sched::point();
		bool r = v;
		v = true;
		if (r) {
			sched::yield(); // a loop around this waits for somebody else
		}
		return r;
	}
	void clear(std::memory_order = std::memory_order_seq_cst) {
		sched::point();
		v = false;
		sched::point();
	}
};

class vt_mutex {
	int owner = -2;

public:
	void lock() {
		sched::point();
		sched::block([this] { return owner == -2; });
		owner = sched::self();
	}
	bool try_lock() {
		sched::point();
		if (owner != -2) {
			return false;
		}
		owner = sched::self();
		return true;
	}
	void unlock() {
		if (owner != sched::self()) {
			std::fprintf(stderr, "a mutex unlocked by a thread that does not hold it\n");
			std::abort();
		}
		owner = -2;
		sched::point();
	}
};

class vt_recursive_mutex {
	int owner = -2, depth = 0;

public:
	void lock() {
		sched::point();
		sched::block([this] { return owner == -2 || owner == sched::self(); });
		owner = sched::self();
		depth++;
	}
	bool try_lock() {
		sched::point();
		if (owner != -2 && owner != sched::self()) {
			return false;
		}
		owner = sched::self();
		depth++;
		return true;
	}
	void unlock() {
		if (owner != sched::self() || depth < 1) {
			std::fprintf(stderr, "a mutex unlocked by a thread that does not hold it\n");
			std::abort();
		}
		if (--depth == 0) {
			owner = -2;
		}
		sched::point();
	}
};

class vt_shared_timed_mutex {
	bool writer = false;
	int readers = 0;

public:
	void lock() {
		sched::point();
		sched::block([this] { return !writer && !readers; });
		writer = true;
	}
	bool try_lock() {
		sched::point();
		return !writer && !readers ? writer = true : false;
	}
	void unlock() {
		if (!writer) {
			std::fprintf(stderr, "a lock released that was not held for writing\n");
			std::abort();
		}
		writer = false;
		sched::point();
	}
	void lock_shared() {
		sched::point();
		sched::block([this] { return !writer; });
		readers++;
	}
	bool try_lock_shared() {
		sched::point();
		if (writer) {
			return false;
		}
		readers++;
		return true;
	}
	void unlock_shared() {
		if (readers < 1) {
			std::fprintf(stderr, "a lock released that was not held for reading\n");
			std::abort();
		}
		readers--;
		sched::point();
	}
};

std::thread::id vt_id_of(int);

class vt_thread {
	std::thread real;
	int number = -1;
	std::shared_ptr<std::thread::id> known;

public:
	typedef std::thread::id id;
	vt_thread() noexcept = default;
	vt_thread(const vt_thread &) = delete;
	vt_thread(vt_thread &&o) noexcept { swap(o); }
	vt_thread &operator=(vt_thread &&o) noexcept {
		if (joinable()) {
			std::terminate();
		}
		swap(o);
		return *this;
	}
	template <class F, class... A, class = typename std::enable_if<!std::is_same<typename std::decay<F>::type, vt_thread>::value>::type>
	explicit vt_thread(F &&f, A &&...a) {
		std::function<void()> body = std::bind(std::forward<F>(f), std::forward<A>(a)...);
		if (!sched::active()) {
			real = std::thread(body);
			return;
		}
		known = std::make_shared<std::thread::id>();
		number = sched::spawn(body);
		*known = vt_id_of(number);
		sched::point(); // the new thread may well run first
	}
	~vt_thread() {
		if (joinable()) {
			std::terminate();
		}
	}
	void swap(vt_thread &o) noexcept {
		std::swap(real, o.real);
		std::swap(number, o.number);
		std::swap(known, o.known);
	}
	bool joinable() const noexcept { return number >= 0 || real.joinable(); }
	id get_id() const noexcept { return number >= 0 ? *known : real.get_id(); }
	void join() {
		if (number < 0) {
			real.join();
			return;
		}
		int n = number;
		sched::block([n] { return sched::finished(n); });
		number = -1;
	}
	void detach() {
		if (number < 0) {
			real.detach();
			return;
		}
		number = -1;
	}
};
} // namespace std

#ifdef VT_SCHED
#define atomic vt_atomic
#define atomic_bool vt_atomic_bool
#define atomic_flag vt_atomic_flag
#define mutex vt_mutex
#define recursive_mutex vt_recursive_mutex
#define shared_timed_mutex vt_shared_timed_mutex
#define thread vt_thread
#endif
