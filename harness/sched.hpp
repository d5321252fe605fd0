// Controlled scheduler: every thread of the case is a real thread, but only the one holding the token
// runs, and at each synchronisation operation (mutex, condition variable, eventfd, epoll, thread start
// and join, resolver call) the case's choice stream decides which thread continues. A schedule is
// therefore a pure function of the choices: it replays and shrinks. If no thread can run, that is a stall.
// The scheduler hides itself from ThreadSanitizer, so in a TSan build only the library's own
// synchronisation orders memory accesses. Include in one source only.
#pragma once
#include <errno.h>
#include <linux/futex.h>
#include <netdb.h>
#include <pthread.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <algorithm>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include "pbt.hpp"

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define SCHED_TSAN 1
#endif
#endif
#ifdef SCHED_TSAN
extern "C" {
void AnnotateIgnoreReadsBegin(const char *, int);
void AnnotateIgnoreReadsEnd(const char *, int);
void AnnotateIgnoreWritesBegin(const char *, int);
void AnnotateIgnoreWritesEnd(const char *, int);
void AnnotateIgnoreSyncBegin(const char *, int);
void AnnotateIgnoreSyncEnd(const char *, int);
void __tsan_acquire(void *);
void __tsan_release(void *);
}
#endif

namespace sched {
struct Ign {  // accesses and synchronisation inside are invisible to TSan
#ifdef SCHED_TSAN
	Ign() {
		AnnotateIgnoreReadsBegin(__FILE__, __LINE__);
		AnnotateIgnoreWritesBegin(__FILE__, __LINE__);
		AnnotateIgnoreSyncBegin(__FILE__, __LINE__);
	}
	~Ign() {
		AnnotateIgnoreSyncEnd(__FILE__, __LINE__);
		AnnotateIgnoreWritesEnd(__FILE__, __LINE__);
		AnnotateIgnoreReadsEnd(__FILE__, __LINE__);
	}
#else
	Ign() {}
	~Ign() {}
#endif
};
inline void hb_release(void *p) {
#ifdef SCHED_TSAN
	__tsan_release(p);
#else
	(void)p;
#endif
}
inline void hb_acquire(void *p) {
#ifdef SCHED_TSAN
	__tsan_acquire(p);
#else
	(void)p;
#endif
}

// harness bookkeeping shared by threads: only the token holder runs, and TSan does not see the accesses
template<class T>
class Hidden {
	T v;

public:
	Hidden(T t = T()) : v(t) {}
	operator T() const {
		Ign i;
		return v;
	}
	Hidden &operator=(T t) {
		Ign i;
		v = t;
		return *this;
	}
	T exchange(T t) {
		Ign i;
		T o = v;
		v   = t;
		return o;
	}
	T operator++() {
		Ign i;
		return ++v;
	}
};

struct Thr {
	int id         = 0;
	pthread_t h    = {};
	int token      = 0;
	bool done      = false;
	bool timed_out = false;
	bool background = false;
	std::function<bool()> ready;  // empty: runnable
	int64_t deadline = -1;        // virtual time, when blocked
	const char *why  = "";
};
struct Mutex {
	Thr *owner = nullptr;
};
struct EvFile {
	bool is_epoll  = false;
	bool nonblock  = false;
	uint64_t value = 0;
	// eventfd: registration
	int ep = -1;
	epoll_data_t data = {};
	bool queued = false;
	// epoll
	std::deque<int> readyq;
};

struct Sched {
	pbt::Gen *g = nullptr;
	pbt::Ctx *c = nullptr;
	bool active = false;
	unsigned switch_pct = 20, spurious_pct = 0;
	int64_t now_ns = 1000000000000LL;
	uint64_t steps = 0, switches = 0, max_steps = 200000, preemptions = 0;
	int next_id = 0;
	std::vector<std::unique_ptr<Thr>> thr;
	std::map<void *, Mutex> mutexes;
	std::map<void *, std::deque<Thr *>> waiters;
	std::map<int, EvFile> files;
	std::string violation;
	// resolver
	std::function<int(const char *node, const char *service, const addrinfo *hints, addrinfo **res, int64_t &delay_ns)> resolver;

	[[noreturn]] void fatal(const std::string &sig, const std::string &msg) {
		std::string m = msg;
		for (auto &t : thr)
			if (!t->done)
				m += "; thread " + std::to_string(t->id) + (t->ready ? std::string(" blocked in ") + t->why : std::string(" can run"));
		pbt::fatal(sig, m);
	}
	void futex_wait(int *a) {
		while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == 0)
			syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
		__atomic_store_n(a, 0, __ATOMIC_RELEASE);
	}
	void pass(Thr *t) {
		++switches;
		__atomic_store_n(&t->token, 1, __ATOMIC_RELEASE);
		syscall(SYS_futex, &t->token, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
	}
	std::vector<Thr *> runnable(Thr *except) {
		std::vector<Thr *> r;
		for (auto &t : thr)
			if (!t->done && t->ready && t->deadline >= 0 && t->deadline <= now_ns)
				t->timed_out = true;
		for (auto &t : thr)
			if (t.get() != except && !t->done && (!t->ready || t->timed_out || t->ready()))
				r.push_back(t.get());
		return r;
	}
	void count() {
		if (++steps > max_steps)
			fatal("spin", "the schedule does not end after " + std::to_string(max_steps) + " steps");
	}
	// chooses who continues when the current thread cannot
	Thr *next(Thr *self) {
		while (true) {
			auto r = runnable(nullptr);
			if (!r.empty())
				return r[g->below(r.size())];
			Thr *best = nullptr;
			for (auto &t : thr)
				if (!t->done && t->deadline >= 0 && (!best || t->deadline < best->deadline))
					best = t.get();
			if (!best || best->deadline - now_ns > 1000000000LL * 600)
				fatal("stall", "no thread can continue");
			now_ns          = std::max(now_ns, best->deadline);
			best->timed_out = true;
		}
		(void)self;
	}
	void point();                                                                              // may switch
	bool block(const char *why, std::function<bool()> ready, int64_t deadline = -1);  // false on timeout
	void exit_thread(Thr *self);
};
extern Sched *S;
extern thread_local Thr *self;
Sched *S = nullptr;
thread_local Thr *self = nullptr;

inline void Sched::point() {
	count();
	auto r = runnable(self);
	if (r.empty())
		return;
	if (g->below(100) < 100 - switch_pct)
		return;
	++preemptions;
	Thr *t = r[g->below(r.size())];
	Thr *me = self;
	pass(t);
	futex_wait(&me->token);
}
inline bool Sched::block(const char *why, std::function<bool()> ready, int64_t deadline) {
	count();
	Thr *me       = self;
	me->ready     = std::move(ready);
	me->deadline  = deadline;
	me->timed_out = false;
	me->why       = why;
	Thr *t        = next(me);
	bool to = false;
	if (t != me) {
		// t->timed_out is kept for t
		pass(t);
		futex_wait(&me->token);
	}
	to            = me->timed_out && !me->ready();
	me->ready     = nullptr;
	me->deadline  = -1;
	me->timed_out = false;
	return !to;
}
inline void Sched::exit_thread(Thr *me) {
	me->done = true;
	pass(next(me));
}
inline bool on() { return S && S->active && self; }
// harness interface
inline void point() {
	Ign i;
	if (on())
		S->point();
}
inline uint64_t choose(uint64_t n) {
	Ign i;
	return S->g->below(n);
}
// not visible to TSan as synchronisation: the predicate must use atomics
inline void wait_until(const char *why, std::function<bool()> ready) {
	Ign i;
	if (!ready())
		S->block(why, std::move(ready));
}
inline void sleep_ns(int64_t ns) {
	Ign i;
	S->block("sleep", [] { return false; }, S->now_ns + ns);
}
struct Case {
	Case(pbt::Gen &g, pbt::Ctx &c) {
		Ign i;
		if (!S)
			S = new Sched;
		S->g = &g, S->c = &c;
		S->steps = S->switches = S->preemptions = 0;
		S->violation.clear();
		S->thr.erase(std::remove_if(S->thr.begin(), S->thr.end(), [](std::unique_ptr<Thr> &t) { return t->done; }), S->thr.end());
		if (!self) {
			S->thr.emplace_back(new Thr);
			self     = S->thr.back().get();
			self->id = S->next_id++;
		}
		S->switch_pct = unsigned(g.of(std::vector<int>{20, 3, 50, 80}));
		S->active = true;
	}
	// waits until only background threads are left, and those are idle
	void drain() {
		Ign i;
		Thr *me = self;
		auto idle = [me] {
			for (auto &t : S->thr)
				if (t.get() != me && !t->done && (!t->ready || t->deadline >= 0 || t->ready()))
					return false;
			return true;
		};
		if (!idle())
			S->block("end of case", idle);
	}
	~Case() {
		Ign i;
		S->active = false;
		S->g      = nullptr;
	}
};
struct State {  // layout of std::thread::_State
	virtual ~State() {}
	virtual void run() = 0;
};
struct Wrapped : State {
	State *inner;
	Thr *thr;
	~Wrapped() override;
	void run() override;
};
__attribute__((no_sanitize("vptr"))) Wrapped::~Wrapped() { delete inner; }
__attribute__((no_sanitize("vptr"))) void Wrapped::run() {
	{
		Ign i;
		self = thr;
		S->futex_wait(&thr->token);
		thr->ready = nullptr;
	}
	inner->run();
	{
		Ign i;
		S->exit_thread(thr);
	}
}
inline int err(int e) {
	errno = e;
	return -1;
}
inline void queue(int fd) {
	auto &f = S->files[fd];
	if (f.ep >= 0 && !f.queued) {
		f.queued = true;
		S->files[f.ep].readyq.push_back(fd);
	}
}
inline bool mine(int fd) { return S && fd >= 1000 && S->files.count(fd); }
inline int add(EvFile f) {
	int fd = 1000;
	while (S->files.count(fd))
		++fd;
	S->files[fd] = f;
	return fd;
}
inline char *hb(int fd) {
	static char a[4096];
	return &a[fd & 4095];
}
}  // namespace sched

extern "C" {
#define SCHED_REAL(ret, name, ...) ret __real_##name(__VA_ARGS__)
SCHED_REAL(int, pthread_mutex_lock, pthread_mutex_t *);
SCHED_REAL(int, pthread_mutex_unlock, pthread_mutex_t *);
SCHED_REAL(void, _ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE, std::condition_variable *, std::unique_lock<std::mutex> *);
SCHED_REAL(void, _ZNSt18condition_variable10notify_oneEv, std::condition_variable *);
SCHED_REAL(void, _ZNSt18condition_variable10notify_allEv, std::condition_variable *);
SCHED_REAL(void, _ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE, std::thread *, sched::State **, void (*)());
SCHED_REAL(void, _ZNSt6thread4joinEv, std::thread *);
SCHED_REAL(int, epoll_create1, int);
SCHED_REAL(int, epoll_ctl, int, int, int, struct epoll_event *);
SCHED_REAL(int, epoll_wait, int, struct epoll_event *, int, int);
SCHED_REAL(int, eventfd, unsigned, int);
SCHED_REAL(int, eventfd_read, int, eventfd_t *);
SCHED_REAL(int, eventfd_write, int, eventfd_t);
SCHED_REAL(int, close, int);
SCHED_REAL(int, getaddrinfo, const char *, const char *, const struct addrinfo *, struct addrinfo **);
SCHED_REAL(void, freeaddrinfo, struct addrinfo *);
int64_t __real__ZNSt6chrono3_V212steady_clock3nowEv();
using namespace sched;

int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() {
	Ign i;
	return S && S->active ? S->now_ns : __real__ZNSt6chrono3_V212steady_clock3nowEv();
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
	{
		Ign i;
		if (on()) {
			S->point();
			auto &x = S->mutexes[m];
			if (x.owner == self)
				S->fatal("deadlock", "mutex locked twice by one thread");
			if (x.owner)
				S->block("mutex", [&x] { return !x.owner; });
			x.owner = self;
		}
	}
	return __real_pthread_mutex_lock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
	int r = __real_pthread_mutex_unlock(m);
	Ign i;
	if (on()) {
		auto it = S->mutexes.find(m);
		if (it != S->mutexes.end()) {
			it->second.owner = nullptr;
			S->point();
		}
	}
	return r;
}
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(std::condition_variable *cv, std::unique_lock<std::mutex> *l) {
	if (!on())
		return __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(cv, l);
	auto m = l->mutex()->native_handle();
	__real_pthread_mutex_unlock(m);
	{
		Ign i;
		auto &x = S->mutexes[m];
		x.owner = nullptr;
		auto &q = S->waiters[cv];
		Thr *me = self;
		q.push_back(me);
		if (S->spurious_pct && S->g->below(100) >= 100 - S->spurious_pct)
			q.erase(std::remove(q.begin(), q.end(), me), q.end());  // wakes spuriously
		S->block("condition variable", [me, &q, &x] { return !x.owner && std::find(q.begin(), q.end(), me) == q.end(); });
		x.owner = me;
	}
	__real_pthread_mutex_lock(m);
}
void __wrap__ZNSt18condition_variable10notify_oneEv(std::condition_variable *cv) {
	if (!on())
		return __real__ZNSt18condition_variable10notify_oneEv(cv);
	Ign i;
	auto &q = S->waiters[cv];
	if (!q.empty())
		q.erase(q.begin() + long(S->g->below(q.size())));
	S->point();
}
void __wrap__ZNSt18condition_variable10notify_allEv(std::condition_variable *cv) {
	if (!on())
		return __real__ZNSt18condition_variable10notify_allEv(cv);
	Ign i;
	S->waiters[cv].clear();
	S->point();
}
__attribute__((no_sanitize("vptr"))) void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(
    std::thread *t, State **st, void (*dep)()) {
	if (!on())
		return __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(t, st, dep);
	Wrapped *w;
	Thr *n;
	{
		Ign i;
		w        = new Wrapped;
		w->inner = *st;
		*st      = nullptr;
		S->thr.emplace_back(new Thr);
		n       = S->thr.back().get();
		n->id   = S->next_id++;
		w->thr  = n;
	}
	State *s = w;
	__real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(t, &s, dep);
	{
		Ign i;
		n->h = t->native_handle();
	}
	delete s;
}
void __wrap__ZNSt6thread4joinEv(std::thread *t) {
	{
		Ign i;
		if (on()) {
			auto h = t->native_handle();
			for (auto &x : S->thr)
				if (x->h && pthread_equal(x->h, h)) {
					Thr *o = x.get();
					S->point();
					if (!o->done)
						S->block("join", [o] { return o->done; });
					o->h = {};
					break;
				}
		}
	}
	__real__ZNSt6thread4joinEv(t);
}
int __wrap_epoll_create1(int f) {
	Ign i;
	if (!on())
		return __real_epoll_create1(f);
	EvFile e;
	e.is_epoll = true;
	return add(e);
}
int __wrap_eventfd(unsigned v, int flags) {
	Ign i;
	if (!on())
		return __real_eventfd(v, flags);
	EvFile e;
	e.value    = v;
	e.nonblock = flags & EFD_NONBLOCK;
	return add(e);
}
int __wrap_eventfd_write(int fd, eventfd_t v) {
	{
		Ign i;
		if (on())
			S->point();
		if (!on() || !mine(fd)) {
			if (S && fd >= 1000) {
				if (S->active)
					S->fatal("bad-descriptor", "wake-up of a descriptor that is not open");
				return 0;
			}
			return __real_eventfd_write(fd, v);
		}
	}
	hb_release(hb(fd));
	Ign i;
	S->files[fd].value += v;
	queue(fd);
	S->point();
	return 0;
}
int __wrap_eventfd_read(int fd, eventfd_t *v) {
	{
		Ign i;
		if (!mine(fd))
			return __real_eventfd_read(fd, v);
		S->point();
		auto &f = S->files[fd];
		if (!f.value) {
			if (!f.nonblock)
				S->fatal("blocking", "blocking read of the wake-up descriptor");
			return err(EAGAIN);
		}
		*v      = f.value;
		f.value = 0;
	}
	hb_acquire(hb(fd));
	return 0;
}
int __wrap_epoll_ctl(int epfd, int op, int fd, struct epoll_event *ev) {
	Ign i;
	if (!mine(epfd))
		return __real_epoll_ctl(epfd, op, fd, ev);
	if (!mine(fd) || op != EPOLL_CTL_ADD)
		return err(EBADF);
	auto &f = S->files[fd];
	f.ep    = epfd;
	f.data  = ev->data;
	if (f.value)
		queue(fd);
	return 0;
}
int __wrap_epoll_wait(int epfd, struct epoll_event *evs, int max, int timeout) {
	int n = 0;
	std::vector<int> got;
	{
		Ign i;
		if (!mine(epfd))
			return __real_epoll_wait(epfd, evs, max, timeout);
		S->point();
		auto collect = [&] {
			auto &e = S->files[epfd];
			while (!e.readyq.empty() && n < max) {
				int fd = e.readyq.front();
				e.readyq.pop_front();
				auto it = S->files.find(fd);
				if (it == S->files.end())
					continue;
				it->second.queued = false;
				if (!it->second.value)
					continue;
				evs[n].events = EPOLLIN;
				evs[n].data   = it->second.data;
				got.push_back(fd);
				++n;
			}
			return n != 0;
		};
		if (!collect() && timeout != 0) {
			S->block("epoll_wait", [epfd] { return !S->files[epfd].readyq.empty(); }, timeout < 0 ? -1 : S->now_ns + int64_t(timeout) * 1000000);
			collect();
		}
	}
	for (int fd : got)
		hb_acquire(hb(fd));
	return n;
}
int __wrap_close(int fd) {
	Ign i;
	if (!S || fd < 1000 || !S->files.count(fd))
		return __real_close(fd);
	S->files.erase(fd);
	return 0;
}
int __wrap_getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res) {
	Ign i;
	if (!S || !S->resolver)
		return EAI_FAIL;
	S->point();
	int64_t delay = 0;
	int r         = S->resolver(node, service, hints, res, delay);
	if (delay)
		S->block("resolver", [] { return false; }, S->now_ns + delay);
	S->point();
	return r;
}
void __wrap_freeaddrinfo(struct addrinfo *a) {
	while (a) {
		auto n = a->ai_next;
		free(a->ai_addr);
		free(a);
		a = n;
	}
}
}  // extern C
