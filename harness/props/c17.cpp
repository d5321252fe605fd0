#include <crab/crab.hpp>
#include "../sim.hpp"
const char *const PROP_ID   = "C17";
const char *const PROP_RULE =
    "a loop with generated sources (idle handlers, timers including ones that re-arm themselves with zero delay, a watcher that calls itself, TCP connections whose peers keep sending), whose handlers switch each "
    "other on and off, destroy and create idles and timers, and cancel the loop (also from another thread while it waits, and before it runs) followed by another run; after every step the model knows which handlers "
    "may run and which must run soon; non-trivial: at least two kinds of sources ran and one was switched off or the loop was cancelled";
using namespace crab;
using namespace pbt;

namespace {
enum { STARVE = 1500 };
struct Hist {
	Gen &g;
	Ctx &c;
	sim::World &w;
	RunLoop loop;
	std::string error_sig, error;
	bool cancelled = false, in_handler = false, interesting = false;
	uint64_t count = 0, limit;  // handler invocations
	unsigned kinds = 0;
	int runs_left, budget;

	struct I {
		std::unique_ptr<Idle> h;
		bool active = false;
		int gen     = 0;
		uint64_t runs = 0;
		std::vector<uint64_t> others;  // runs of the others when this one last ran; ~0 not comparable
	};
	std::vector<I> idles;
	struct T {
		std::unique_ptr<Timer> h;
		bool armed = false;
		int64_t due = 0;
		uint64_t due_count = 0;  // handler count when first seen due
		int64_t period = 0;
	};
	std::vector<T> timers;
	std::unique_ptr<Watcher> watcher;
	bool called = false, self_call = false;
	uint64_t called_count = 0;
	std::unique_ptr<TCPAcceptor> acceptor;
	struct S {
		std::unique_ptr<TCPSocket> h;
		sim::EndP peer;
		uint64_t got = 0, waiting_since = 0;
		bool waiting = false, busy = false;
	};
	std::vector<S> socks;
	std::vector<sim::EndP> peers;
	size_t connects = 0;

	void fail(const char *sig, const std::string &m) {
		if (error.empty())
			error_sig = sig, error = m;
		throw sim::Abort{};
	}
	Hist(Gen &g_, Ctx &c_, sim::World &w_) : g(g_), c(c_), w(w_) {
		limit       = g.chance(1, 12) ? 4 * STARVE : g.urange(20, 300);
		budget      = int(g.urange(0, 60));
		if (limit > 1000)
			budget = int(g.urange(0, 6));
		runs_left   = int(g.below(4));
		w.max_waits = 40000;
		w.eintr_pct = 2;
		idles.resize(g.below(4));
		timers.resize(g.below(4));
		for (size_t i = 0; i != idles.size(); ++i)
			make_idle(i);
		for (size_t i = 0; i != timers.size(); ++i) {
			timers[i].h.reset(new Timer([this, i] { on_timer(i); }));
			timers[i].period = g.pick({3, 2, 1}) == 0 ? 0 : int64_t(g.below(2) ? 1 : 1000) * int64_t(g.below(3000));
			arm(i, timers[i].period);
		}
		if (g.flag()) {
			watcher.reset(new Watcher([this] { on_watcher(); }));
			self_call = g.flag();
			call();
		}
		size_t nconn = g.below(4);
		acceptor.reset(new TCPAcceptor(Address("127.0.0.1", 80), [this] { on_accept(); }));
		for (size_t i = 0; i != nconn; ++i)
			connect();
		w.on_wait = [this] {
			for (auto &t : timers)
				if (t.armed && t.due > w.now_ns)
					t.due_count = count;
		};
		w.actions   = [this]() -> size_t { return 3; };
		w.do_action = [this](size_t a) { action(a); };
		w.after_event = [this] { look(); };
		w.on_quiet  = [this](int) { return false; };
	}
	void connect() {
		auto p = w.connect_raw(80);
		++connects;
		if (p)
			peers.push_back(p);
	}
	void make_idle(size_t i) {
		idles[i].h.reset();
		int gen = ++idles[i].gen;
		idles[i].h.reset(new Idle([this, i, gen] { on_idle(i, gen); }));
		set_idle(i, true, true);
	}
	void set_idle(size_t i, bool a, bool created = false) {
		if (!created)
			idles[i].h->set_active(a);
		idles[i].active = a;
		for (auto &o : idles) {
			o.others.resize(idles.size());
			o.others[i] = ~0ULL;  // joined, left or moved in the queue: comparable again after its next run
		}
		idles[i].others.assign(idles.size(), ~0ULL);
		if (idles[i].h->is_active() != a)
			fail("is-active", "is_active() is wrong");
	}
	void arm(size_t i, int64_t d) {
		timers[i].h->once(std::chrono::nanoseconds(d));
		timers[i].armed     = true;
		timers[i].due       = loop.now().time_since_epoch().count() + d;
		timers[i].due_count = count;
	}
	void call() {
		if (!called)
			called_count = count;
		called = true;
		watcher->call();
	}
	void look() {  // which sockets have something to read now
		for (auto &s : socks)
			if (s.h && s.h->is_open() && !s.waiting) {
				auto e = s.peer->peer;
				if (e && (!e->rq.empty() || e->rfin || e->dead)) {
					s.waiting       = true;
					s.waiting_since = count;
				}
			}
	}
	void action(size_t a) {  // what the world does while the loop is inside its system call
		w.now_ns += int64_t(g.below(200000));
		switch (a) {
		case 0:
			if (!peers.empty()) {
				auto &p = peers[g.below(peers.size())];
				p->send(std::string(1 + g.below(20), 'x'));
			}
			break;
		case 1:
			if (watcher && g.chance(1, 4)) {
				call();
				c.cls("call-in-wait");
			}
			break;
		default:
			if (g.chance(1, 40) && !cancelled) {
				PBT_LOG(c, "cancel from another thread\n");
				c.cls("cancel-in-wait");
				cancelled = interesting = true;
				loop.cancel();
			} else if (connects < 5 && g.chance(1, 10))
				connect();
		}
		if (!cancelled && ++quiet_guard > 20000)
			stop();
	}
	uint64_t quiet_guard = 0;
	void stop() {
		cancelled = true;
		runs_left = 0;
		loop.cancel();
	}
	void enter(unsigned kind) {
		if (cancelled)
			fail("after-cancel", "a handler runs after RunLoop::cancel()");
		if (in_handler)
			fail("nested", "handlers are nested");
		in_handler = true;
		kinds |= kind;
		++count;
		w.now_ns += 1 + int64_t(g.below(30000));
		for (size_t i = 0; i != timers.size(); ++i)
			if (timers[i].armed && timers[i].due <= w.now_ns && count - timers[i].due_count > STARVE)
				fail("starved-timer", "a due timer did not run while " + std::to_string(STARVE) + " other handlers ran");
		for (auto &s : socks)
			if (s.h && s.waiting && count - s.waiting_since > STARVE)
				fail("starved-socket", "a readable socket was not served while " + std::to_string(STARVE) + " other handlers ran");
		if (called && count - called_count > STARVE)
			fail("starved-watcher", "a called watcher did not run while " + std::to_string(STARVE) + " other handlers ran");
		look();
	}
	void leave() {
		ops();
		for (auto &t : timers)
			if (t.armed && t.due > w.now_ns)
				t.due_count = count;
		if (count >= limit && !cancelled)
			stop();
		in_handler = false;
	}
	void on_idle(size_t i, int gen) {
		enter(1);
		I &x = idles[i];
		PBT_LOG(c, "idle" << i << "\n");
		if (x.gen != gen)
			fail("destroyed", "handler of a destroyed idle ran");
		if (!x.active)
			fail("inactive", "handler of an inactive idle ran");
		for (size_t k = 0; k != idles.size(); ++k)
			if (k != i && idles[k].active && x.others.size() > k && x.others[k] != ~0ULL && idles[k].runs == x.others[k])
				fail("unfair-idle", "an idle handler ran twice while another active one did not run");
		x.runs++;
		for (size_t k = 0; k != idles.size(); ++k) {
			x.others.resize(idles.size());
			x.others[k] = idles[k].runs;
		}
		leave();
	}
	void on_timer(size_t i) {
		enter(2);
		PBT_LOG(c, "timer" << i << "\n");
		auto &t = timers[i];
		if (!t.armed || t.due > w.now_ns)
			fail("timer", "timer handler ran early or unarmed");
		t.armed = false;
		if (limit > 1000 || g.chance(9, 10))
			arm(i, t.period);
		leave();
	}
	void on_watcher() {
		enter(4);
		PBT_LOG(c, "watcher\n");
		if (!called)
			fail("watcher", "watcher handler ran without a call");
		called = false;
		if (self_call)
			call();
		leave();
	}
	void on_accept() {
		enter(8);
		PBT_LOG(c, "accept\n");
		while (acceptor->can_accept()) {
			size_t i = socks.size();
			socks.emplace_back();
			socks[i].h.reset(new TCPSocket([this, i] { on_sock(i); }));
			Address a;
			socks[i].h->accept(*acceptor, &a);
			for (auto &p : peers)
				if (sim::port_of(p->local) == a.get_port())
					socks[i].peer = p;
			socks[i].busy = g.flag();
			if (!socks[i].peer)
				fail("accept-address", "accepted address is not the peer's");
		}
		look();
		leave();
	}
	void on_sock(size_t i) {
		enter(16);
		PBT_LOG(c, "socket" << i << "\n");
		S &s = socks[i];
		if (!s.h)
			fail("destroyed", "handler of a destroyed socket ran");
		uint8_t buf[64];
		while (s.h->read_some(buf, sizeof(buf)))
			;
		s.waiting = false;
		if (s.busy && s.h->is_open()) {  // more data right after the last read
			s.peer->send("y");
			w.deliver(*s.peer, 1);
		}
		look();
		leave();
	}
	void ops() {
		for (size_t k = g.below(3); k-- && budget > 0; --budget) {
			switch (g.pick({4, 3, 1, 1, 1})) {
			case 0:
				if (!idles.empty()) {
					size_t i = g.below(idles.size());
					bool a   = g.flag();
					PBT_LOG(c, "  idle" << i << (a ? " on\n" : " off\n"));
					if (!a && idles[i].active)
						interesting = true, c.cls("idle-off");
					set_idle(i, a);
				}
				break;
			case 1:
				if (!timers.empty()) {
					size_t i = g.below(timers.size());
					timers[i].h->cancel();
					timers[i].armed = false;
					if (g.flag())
						arm(i, timers[i].period);
				}
				break;
			case 2:
				if (!idles.empty()) {
					size_t i = g.below(idles.size());
					PBT_LOG(c, "  idle" << i << " destroyed and created\n");
					make_idle(i);
				}
				break;
			case 3:
				if (!socks.empty()) {
					auto &s = socks[g.below(socks.size())];
					PBT_LOG(c, "  socket destroyed\n");
					s.h.reset();
					s.waiting = false;
				}
				break;
			default:
				if (!cancelled && limit < 1000 && (in_handler || g.flag())) {
					PBT_LOG(c, "  cancel\n");
					c.cls(in_handler ? "cancel-in-handler" : "cancel-before-run");
					cancelled = interesting = true;
					loop.cancel();
				}
			}
		}
	}
	void go() {
		while (true) {
			ops();
			bool before  = cancelled;
			uint64_t old = count;
			PBT_LOG(c, "run\n");
			quiet_guard = 0;
			loop.run();
			if (!cancelled)
				fail("returned", "run() returned though the loop was not cancelled");
			if (before && count != old)
				fail("after-cancel", "run() of a cancelled loop called handlers");
			cancelled = false;
			if (runs_left-- <= 0 || count >= limit)
				break;
		}
	}
};
}  // namespace
void prop_case(Gen &g, Ctx &c) {
	sim::World w(g, c);
	{
		std::unique_ptr<Hist> h;
		try {
			h.reset(new Hist(g, c, w));
			h->go();
		} catch (const sim::Abort &) {
		}
		if (!h->error.empty())
			c.fail(h->error_sig, h->error);
		if (h->limit > 1000)
			c.cls("long run");
		static const char *names[] = {"idle ran", "timer ran", "watcher ran", "acceptor ran", "socket ran"};
		int n = 0;
		for (int i = 0; i != 5; ++i)
			if (h->kinds & (1U << i))
				c.cls(names[i]), ++n;
		if (n > 1 && h->interesting)
			c.nontrivial();
	}
	w.finish();
}
