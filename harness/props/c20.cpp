// C20: cross-thread calls and thread shutdown, under a controlled scheduler (sched.hpp).
#include <crab/crab.hpp>
#include <list>
#include "sched.hpp"

const char *const PROP_ID   = "C20";
const char *const PROP_RULE =
    "A case runs 1-3 crab::Thread run loops with 1-4 watchers each and 1-3 further threads that call the watchers, cancel and start "
    "short-lived crab::Threads; handlers call, cancel and destroy watchers of their own loop, call watchers of other loops and cancel loops. "
    "Which thread continues at every lock, wake-up, wait, start and join is chosen by the case. Non-trivial: at least 3 watcher calls made by a "
    "thread other than the owner and at least 5 pre-emptions of a thread that could have continued.";

namespace {
using sched::Ign;
struct LoopBox;
enum Kind { STABLE, ONESHOT, GUARDED };
struct W {
	int id        = 0;
	Kind kind     = STABLE;
	LoopBox *box  = nullptr;
	std::unique_ptr<crab::Watcher> w;
	std::mutex guard;  // GUARDED only
	sched::Hidden<bool> alive{false}, used{false};
	// model, only touched inside Ign
	uint64_t started = 0, done = 0, cancel_done = 0, runs = 0, runs_since_cancel = 0;
	uint64_t last_call = 0, last_run = 0, last_cancel = 0;  // logical time of the beginning (cancel: end)
};
struct LoopBox {
	int id = 0;
	std::unique_ptr<crab::Thread> th;
	std::thread::id tid;
	crab::RunLoop *loop = nullptr;
	std::vector<std::unique_ptr<W>> ws;
	sched::Hidden<bool> stop{false}, ended{false};
	int budget = 0;
	std::unique_ptr<crab::Timer> timer;
	std::unique_ptr<crab::Idle> idle;
	sched::Hidden<int> ticks;
};
struct Hist {
	pbt::Gen &g;
	pbt::Ctx &c;
	std::vector<std::unique_ptr<LoopBox>> loops;
	uint64_t t = 0;  // logical time
	uint64_t foreign_calls = 0;
	int budget = 24;
	sched::Hidden<bool> destroyed_in_own{false}, cancelled{false}, destroyed_other{false}, cross{false}, threads{false}, oneshots{false}, ends_loop{false};
	Hist(pbt::Gen &g_, pbt::Ctx &c_) : g(g_), c(c_) {}

	void bad(const char *sig, const std::string &m) { pbt::fatal(sig, m); }
	void log(const std::string &s) { PBT_LOG(c, s << "\n"); }
	std::string name(W *w) { return "watcher " + std::to_string(w->box->id) + "." + std::to_string(w->id); }
	W *any(LoopBox *b) {
		Ign i;
		if (!b)
			b = loops[sched::choose(loops.size())].get();
		return b->ws[sched::choose(b->ws.size())].get();
	}
	bool spend() {
		Ign i;
		if (budget <= 0)
			return false;
		--budget;
		return true;
	}
	void do_call(W *w) {
		{
			Ign i;
			++w->started;
			w->last_call = ++t;
			if (std::this_thread::get_id() != w->box->tid)
				++foreign_calls;
			log("thread " + std::to_string(sched::self->id) + " calls " + name(w));
		}
		w->w->call();
		{
			Ign i;
			++t;
			++w->done;
			log("thread " + std::to_string(sched::self->id) + " called " + name(w));
		}
	}
	// callable from any thread
	void call(W *w) {
		switch (w->kind) {
		case STABLE: do_call(w); break;
		case ONESHOT:
			if (!w->used.exchange(true)) {
				oneshots = true;
				{
					Ign i;
					++w->started;
					w->last_call = ++t;
					++foreign_calls;
					log("thread " + std::to_string(sched::self->id) + " calls one-shot " + name(w));
				}
				w->w->call();
				Ign i;
				++t;
				log("one-shot call of " + name(w) + " returned");
			}
			break;
		case GUARDED: {
			std::unique_lock<std::mutex> l(w->guard);
			if (w->alive)
				do_call(w);
			break;
		}
		}
	}
	void cancel(W *w) {
		uint64_t d;
		{
			Ign i;
			d = w->done;
			log("cancel " + name(w));
		}
		w->w->cancel();
		Ign i;
		cancelled            = true;
		w->cancel_done       = d;
		w->runs_since_cancel = 0;
		w->last_cancel       = ++t;
		log("cancelled " + name(w));
	}
	void destroy(W *w) {
		std::unique_lock<std::mutex> l(w->guard);
		if (!w->alive.exchange(false))
			return;
		{
			Ign i;
			log("destroy " + name(w));
		}
		w->w.reset();
	}
	void on_watcher(W *w) {
		{
			Ign i;
			++t;
			log("handler of " + name(w));
			if (std::this_thread::get_id() != w->box->tid)
				bad("wrong-thread", "handler of " + name(w) + " runs in a thread that is not its loop's");
			if (!w->alive)
				bad("after-destroy", "handler of destroyed " + name(w));
			++w->runs;
			++w->runs_since_cancel;
			w->last_run = t;
			if (w->runs > w->started)
				bad("run-without-call", "handler of " + name(w) + " ran " + std::to_string(w->runs) + " times for " + std::to_string(w->started) + " calls");
			if (w->runs_since_cancel > w->started - w->cancel_done)
				bad("run-after-cancel", "handler of " + name(w) + " ran after cancel without a new call");
		}
		LoopBox *b = w->box;
		if (w->kind == ONESHOT) {
			w->alive = false;
			{
				Ign i;
				log("one-shot handler destroys " + name(w));
			}
			w->w.reset();
			if (sched::choose(4) == 3)
				crab::RunLoop::current()->cancel();
			return;
		}
		for (int n = int(sched::choose(3)); n > 0 && spend(); --n)
			loop_action(b, w);
	}
	void loop_action(LoopBox *b, W *own) {
		switch (sched::choose(10)) {
		case 0: {
			W *o = any(nullptr);
			if (o->box != b)
				cross = true;
			call(o);
			break;
		}
		case 1:
			if (own && own->alive)
				call(own);
			break;
		case 2:
		case 3: {
			W *o = any(b);
			if (o->kind != ONESHOT && o->alive)
				cancel(o);
			break;
		}
		case 4:
			if (own && own->kind == GUARDED && own->alive) {
				destroyed_in_own = true;
				destroy(own);
			}
			break;
		case 5: {
			W *o = any(b);
			if (o->kind == GUARDED && o->alive) {
				destroyed_other = true;
				destroy(o);
			}
			break;
		}
		case 6: crab::RunLoop::current()->cancel(); break;
		case 7:
			if (b->timer && !b->timer->is_set() && b->ticks < 4) {
				++b->ticks;
				b->timer->once(double(sched::choose(3)) * 0.25);
			}
			break;
		case 8:
			if (b->idle)
				b->idle->set_active(sched::choose(2) == 0);
			break;
		default: call(any(b)); break;
		}
	}
	void loop_main(LoopBox *b) {
		{
			Ign i;
			b->tid = std::this_thread::get_id();
		}
		b->loop = crab::RunLoop::current();
		b->timer.reset(new crab::Timer([this, b] {
			if (spend())
				loop_action(b, nullptr);
		}));
		b->idle.reset(new crab::Idle([this, b] {
			b->idle->set_active(false);
			if (spend())
				loop_action(b, nullptr);
		}));
		b->idle->set_active(false);
		for (auto &w : b->ws) {
			W *p = w.get();
			p->w.reset(new crab::Watcher([this, p] { on_watcher(p); }));
			p->alive = true;
		}
		{
			std::unique_lock<std::mutex> l(ready_mu);
			++ready;
		}
		while (!b->stop)
			crab::RunLoop::current()->run();
		{
			Ign i;
			log("loop " + std::to_string(b->id) + " ends");
		}
		for (auto &w : b->ws) {
			w->alive = false;
			w->w.reset();
		}
		b->timer.reset();
		b->idle.reset();
		b->ended = true;
	}
	std::mutex ready_mu;
	sched::Hidden<int> ready{0};

	// the handler of the only watcher ends the loop, so the loop can be gone before call() returns
	void short_loop() {
		ends_loop = true;
		std::mutex mu;
		std::condition_variable cv;
		crab::Watcher *published = nullptr;
		int ran                  = 0;
		bool other_called        = sched::choose(3) != 0;
		{
			Ign i;
			log("short-lived loop ended by its watcher");
		}
		crab::Thread t([&] {
			std::unique_ptr<crab::Watcher> w;
			w.reset(new crab::Watcher([&] {
				++ran;
				w.reset();
				crab::RunLoop::current()->cancel();
			}));
			{
				std::unique_lock<std::mutex> l(mu);
				published = w.get();
				cv.notify_one();
			}
			crab::Watcher other([] {});  // its call can wake the loop up earlier
			if (other_called)
				other.call();
			crab::RunLoop::current()->run();
			std::unique_lock<std::mutex> l(mu);
			published = nullptr;
			cv.notify_one();
		});
		crab::Watcher *w;
		{
			std::unique_lock<std::mutex> l(mu);
			while (!published)
				cv.wait(l);
			w = published;
		}
		w->call();
		std::unique_lock<std::mutex> l(mu);
		while (published)
			cv.wait(l);
		if (ran != 1)
			bad("run-count", "handler of a watcher called once ran " + std::to_string(ran) + " times");
	}
	void short_thread() {
		threads     = true;
		int kind    = int(sched::choose(6));
		if (kind == 5)
			return short_loop();
		bool cancel = sched::choose(2) == 1;
		sched::Hidden<int> phase{0};
		{
			Ign i;
			log("short-lived Thread kind " + std::to_string(kind));
		}
		{
			crab::Thread t([&phase, kind] {
				phase = 1;
				std::unique_ptr<crab::Timer> tm;
				if (kind == 2) {
					tm.reset(new crab::Timer([] { crab::RunLoop::current()->cancel(); }));
					tm->once(0.001);
				}
				if (kind == 3) {
					tm.reset(new crab::Timer([] {}));
					tm->once(100.);
				}
				if (kind != 0)
					crab::RunLoop::current()->run();
				if (kind == 4)
					sched::point();
				tm.reset();
				phase = 2;
			});
			for (int n = int(sched::choose(3)); n; --n)
				sched::point();
			if (cancel)
				t.cancel();
		}
		if (phase != 2)
			bad("thread-not-joined", "crab::Thread was destroyed but its function did not end (or did not run)");
	}
	void caller(int ops) {
		for (int n = 0; n != ops; ++n) {
			switch (sched::choose(12)) {
			case 0: {
				short_thread();
				break;
			}
			case 1: {
				auto b = loops[sched::choose(loops.size())].get();
				b->th->cancel();
				break;
			}
			case 2: sched::point(); break;
			case 3: sched::sleep_ns(int64_t(sched::choose(4)) * 100000000); break;
			default: call(any(nullptr));
			}
		}
	}
	bool settled(W *w) {  // no call is outstanding
		if (!w->alive)
			return true;
		return w->last_run >= w->last_call || w->last_cancel >= w->last_call;
	}
	void run() {
		int nl = 1 + int(g.below(3));
		for (int i = 0; i != nl; ++i) {
			loops.emplace_back(new LoopBox);
			auto b = loops.back().get();
			b->id  = i;
			int nw = 1 + int(g.below(4));
			for (int k = 0; k != nw; ++k) {
				b->ws.emplace_back(new W);
				b->ws.back()->id   = k;
				b->ws.back()->box  = b;
				b->ws.back()->kind = Kind(g.pick({3, 2, 2}));
			}
		}
		for (auto &b : loops) {
			auto p = b.get();
			p->th.reset(new crab::Thread([this, p] { loop_main(p); }));
		}
		sched::wait_until("loops to start", [&] { return ready == int(loops.size()); });
		{ std::unique_lock<std::mutex> l(ready_mu); }
		{
			std::list<std::thread> ts;
			int nc = 1 + int(g.below(3));
			std::vector<int> ops;
			for (int i = 0; i != nc; ++i)
				ops.push_back(1 + int(g.below(6)));
			for (int n : ops)
				ts.emplace_back([this, n] { caller(n); });
			for (auto &t : ts)
				t.join();
		}
		{
			Ign i;
			log("callers joined");
		}
		// every watcher call must be followed by its handler
		sched::Thr *me = sched::self;
		sched::wait_until("handlers of called watchers", [this, me] { return idle(me); });
		size_t order = g.below(loops.size());
		for (size_t k = 0; k != loops.size(); ++k) {
			auto b  = loops[(k + order) % loops.size()].get();
			b->stop = true;
			if (g.below(3) == 0)
				b->th->cancel();
		}
		for (size_t k = 0; k != loops.size(); ++k) {
			auto b = loops[(k + order) % loops.size()].get();
			b->th.reset();
			if (!b->ended)
				bad("thread-not-joined", "crab::Thread was destroyed but its function did not end");
		}
	}
	// loops may only be stopped when nothing is outstanding, otherwise a call would be lost by the harness
	bool idle(sched::Thr *me) {
		for (auto &b : loops)
			for (auto &w : b->ws)
				if (!settled(w.get()))
					return false;
		for (auto &t : sched::S->thr)  // nobody is inside a handler
			if (t.get() != me && !t->done && !t->background && (!t->ready || std::strcmp(t->why, "epoll_wait")))
				return false;
		return true;
	}
};
}  // namespace

void prop_case(pbt::Gen &g, pbt::Ctx &c) {
	sched::Case k(g, c);
	uint64_t foreign;
	{
		Hist h(g, c);
		h.run();
		k.drain();
		foreign = h.foreign_calls;
		if (h.destroyed_in_own)
			c.cls("destroyed in own handler");
		if (h.oneshots)
			c.cls("one-shot destroyed in handler of a foreign call");
		if (h.destroyed_other)
			c.cls("other watcher destroyed");
		if (h.cancelled)
			c.cls("cancelled");
		if (h.cross)
			c.cls("loop calls another loop");
		if (h.threads)
			c.cls("short-lived crab::Thread");
		if (h.ends_loop)
			c.cls("loop ended by the called watcher");
		if (h.loops.size() > 1)
			c.cls("several loops");
	}
	if (sched::S->preemptions >= 5 && foreign >= 3)
		c.nontrivial();
}
