#include <crab/crab.hpp>
#include "../sim.hpp"
const char *const PROP_ID   = "C16";
const char *const PROP_RULE =
    "a history of up to 60 operations (arm by seconds, duration or time point, postpone, bring forward, cancel, destroy and create, cancel the loop and run it again) on up to 8 timers, made from outside, from "
    "timer handlers (also on the timer itself) and from a wake-up handler at generated moments of a virtual clock, with late and interrupted waits and slow handlers, compared with a model of the armed timers; "
    "non-trivial: at least two timers were armed together and something was re-armed, cancelled or destroyed while armed";
using namespace crab;
using namespace pbt;
using std::chrono::nanoseconds;

namespace {
struct Hist {
	Gen &g;
	Ctx &c;
	sim::World &w;
	RunLoop loop;
	struct T {
		std::unique_ptr<Timer> t;
		bool armed = false, postponed = false;
		int64_t due = 0, base = 0;
		int gen = 0;
	};
	std::vector<T> ts;
	Watcher poke;
	int budget;
	bool cancelled = false, in_handler = false, interesting = false, together = false;
	int fired = 0, overdue_polls = 0, runs_left = 3;
	std::string error_sig, error;

	static int64_t ns(steady_clock::time_point t) { return t.time_since_epoch().count(); }
	void fail(const char *sig, const std::string &m) {
		if (error.empty())
			error_sig = sig, error = m;
		throw sim::Abort{};
	}
	Hist(Gen &g_, Ctx &c_, sim::World &w_) : g(g_), c(c_), w(w_), poke([this] { on_poke(); }) {
		ts.resize(1 + g.below(8));
		budget        = int(g.urange(1, 60));
		w.late_ns     = g.flag() ? 0 : 3000000;
		w.max_step_ns = g.flag() ? 0 : 50000000;
		w.max_waits   = 5000;
		w.max_calls   = 1000000;
		for (size_t i = 0; i != ts.size(); ++i)
			make(i);
		w.on_wait  = [this] { on_wait(); };
		w.actions  = [this]() -> size_t { return budget > 0 ? 1 : 0; };
		w.do_action = [this](size_t) {
			if (g.chance(1, 3))
				poke.call();
		};
		w.on_quiet = [this](int timeout) { return quiet(timeout); };
	}
	void make(size_t i) {
		ts[i].t.reset();
		int gen = ++ts[i].gen;
		ts[i].armed = ts[i].postponed = false;
		ts[i].t.reset(new Timer([this, i, gen] { on_timer(i, gen); }));
	}
	void on_wait() {
		int64_t lnow = ns(loop.now());
		if (lnow > w.now_ns)
			fail("clock", "RunLoop::now() is in the future");
	}
	// the wait the loop is going to make: called with its timeout when nothing else can happen
	bool quiet(int timeout) {
		bool any = false, due = false;
		int64_t lnow = ns(loop.now());
		for (auto &t : ts)
			if (t.armed) {
				if (t.due < lnow + int64_t(7200) * 1000000000)
					any = true;
				if (t.due <= lnow)
					due = true;
				// int64 arithmetic is safe: timeout is at most 30 minutes
				if (timeout > 0 && lnow + int64_t(timeout) * 1000000 > std::max(t.due, lnow) + (t.due > std::numeric_limits<int64_t>::max() - 2000000 ? 0 : 1000001))
					fail("oversleep", "loop goes to sleep for " + std::to_string(timeout) + " ms though a timer is due in " + std::to_string(t.due - lnow) + " ns");
			}
		if (timeout < 0 || timeout > RunLoop::MAX_SLEEP_MS)
			fail("timeout", "unexpected wait timeout");
		if (due && ++overdue_polls > 100)
			fail("not-fired", "a due timer is not fired");
		if (!any && budget <= 0) {
			end();
			return true;
		}
		return false;
	}
	void end() {
		PBT_LOG(c, "  quiet: loop.cancel()\n");
		cancelled = true;
		runs_left = 0;
		loop.cancel();
	}
	void enter() {
		if (cancelled)
			fail("after-cancel", "a handler runs after RunLoop::cancel()");
		if (in_handler)
			fail("nested", "handlers are nested");
		in_handler = true;
	}
	void leave() {
		if (g.chance(1, 10))
			w.now_ns += int64_t(g.below(20000000));  // slow handler
		in_handler = false;
	}
	void on_poke() {
		enter();
		PBT_LOG(c, " poke at " << w.now_ns % 1000000000000LL << "\n");
		ops();
		leave();
	}
	void on_timer(size_t i, int gen) {
		enter();
		T &t = ts[i];
		PBT_LOG(c, " fire t" << i << " at " << w.now_ns % 1000000000000LL << "\n");
		if (t.gen != gen)
			fail("destroyed", "handler of a destroyed timer ran");
		if (!t.armed)
			fail("not-armed", "handler ran though the timer was not armed (fired twice, or cancelled)");
		if (w.now_ns < t.due)
			fail("early", "fired " + std::to_string(t.due - w.now_ns) + " ns early");
		if (ns(loop.now()) < t.due)
			fail("early-now", "RunLoop::now() in the handler is before the timer's time");
		if (t.t->is_set())
			fail("is-set", "is_set() in the handler");
		if (!t.postponed)
			for (auto &o : ts)
				if (&o != &t && o.armed && !o.postponed && o.due < t.due - 2)  // 2 ns for the conversion from double
					fail("order", "fired before a timer with an earlier time");
		t.armed = false;
		++fired;
		overdue_polls = 0;
		ops();
		leave();
	}
	int64_t delay() {
		static const std::vector<int64_t> v = {0, 1, 999999, 1000000, 1000001, 1500000, 2000000, 1000000000, 5000000000LL, 15000000000LL, 1800000000000LL, 1800001000000LL, 1799999999999LL, 3600000000000LL};
		switch (g.pick({3, 3, 2, 1})) {
		case 0: return g.of(v);
		case 1: return int64_t(g.below(10000000));
		case 2: return int64_t(g.below(4000000000ULL));
		default: return -int64_t(g.below(3) * 1000000);
		}
	}
	void arm(T &t, size_t i) {
		int64_t now = ns(loop.now()), due;
		bool was    = t.armed;
		switch (g.pick({3, 3, 3, 1})) {
		case 0: {
			double d = double(delay()) / 1e9;
			due      = d <= 0 ? now : now + int64_t(d * 1e9);
			PBT_LOG(c, "  t" << i << ".once(" << d << "s)\n");
			t.t->once(d);
			due = d <= 0 ? now : due - 1;  // rounding of the conversion
			break;
		}
		case 1: {
			int64_t d = delay();
			due       = now + std::max<int64_t>(d, 0);
			PBT_LOG(c, "  t" << i << ".once(" << d << "ns)\n");
			t.t->once(nanoseconds(d));
			break;
		}
		case 2: {
			due = now + delay();
			if (g.flag()) {  // the same moment as another timer, or next to it
				auto &o = ts[g.below(ts.size())];
				if (o.armed && o.due < std::numeric_limits<int64_t>::max() - 10)
					due = o.due + g.range(-1, 1);
			}
			PBT_LOG(c, "  t" << i << ".once_at(now+" << due - now << "ns)\n");
			t.t->once_at(steady_clock::time_point(nanoseconds(due)));
			break;
		}
		default:
			due = std::numeric_limits<int64_t>::max();
			PBT_LOG(c, "  t" << i << ".once(for ever)\n");
			if (g.flag())
				t.t->once(1e300);
			else
				t.t->once(steady_clock::duration::max());
		}
		if (was)
			interesting = true;
		if (was && due >= t.base)
			t.postponed = true;
		else
			t.base = due, t.postponed = false;
		t.due   = due;
		t.armed = true;
		size_t n = 0;
		for (auto &o : ts)
			n += o.armed;
		if (n > 1)
			together = true;
	}
	void ops() {
		for (size_t k = g.below(4); k-- && budget > 0; --budget) {
			size_t i = g.below(ts.size());
			T &t     = ts[i];
			switch (g.pick({10, 3, 2, 1})) {
			case 0: arm(t, i); break;
			case 1:
				PBT_LOG(c, "  t" << i << ".cancel()\n");
				if (t.armed)
					interesting = true, c.cls("cancel-armed");
				t.t->cancel();
				t.armed = false;
				break;
			case 2:
				PBT_LOG(c, "  t" << i << " destroyed and created\n");
				if (t.armed)
					interesting = true, c.cls("destroy-armed");
				make(i);
				break;
			default:
				if (runs_left > 0 && !cancelled) {
					PBT_LOG(c, "  loop.cancel()\n");
					c.cls("cancel-and-rerun");
					loop.cancel();
					cancelled = true;
					runs_left--;
				}
			}
			for (auto &o : ts)
				if (o.t->is_set() != o.armed)
					fail("is-set", "is_set() is wrong");
		}
	}
	void go() {
		bool again = true;
		while (again) {
			ops();
			PBT_LOG(c, "run\n");
			loop.run();
			again = runs_left > 0;
			if (!cancelled)
				fail("returned", "run() returned though the loop was not cancelled");
			cancelled = false;
			if (!again)
				break;
			if (runs_left == 0)
				again = false;
		}
	}
};
}  // namespace
void prop_case(Gen &g, Ctx &c) {
	sim::World w(g, c);
	{
		Hist h(g, c, w);
		try {
			h.go();
		} catch (const sim::Abort &) {
		}
		if (!h.error.empty())
			c.fail(h.error_sig, h.error);
		if (h.fired)
			c.cls("fired");
		if (h.together)
			c.cls("two armed");
		if (h.together && h.interesting)
			c.nontrivial();
	}
	w.finish();
}
