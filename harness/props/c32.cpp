// Signals as events of the loop, on the real kernel. Only signals to this very thread are raised (and to the process
// when it has no other thread), every signal used has a counting disposition, so nothing can end the process by default.
#include <crab/crab.hpp>
#include <dirent.h>
#include <signal.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <set>
#include "../pbt.hpp"
const char *const PROP_ID   = "C32";
const char *const PROP_RULE =
    "histories of up to 60 operations on up to 4 Signal objects with generated signal sets (default, single, several, real-time), real kernel: raise (to thread, to process, queued, also from handlers), create, destroy (with signals pending, "
    "from a timer, from its own handler), replace the handler, let the loop run until it has nothing to do; every raise must reach exactly the side (Signal handler or ordinary disposition) it belongs to; "
    "non-trivial: a handler replaced, or a raise inside of a handler, or an object destroyed with its signal pending, or two objects with raises";
using namespace crab;
using namespace pbt;

namespace {
volatile sig_atomic_t caught[65];
void on_signal(int s) { caught[s] = caught[s] + 1; }

const std::vector<int> &all_signals() {
	static const std::vector<int> v{SIGINT, SIGTERM, SIGHUP, SIGUSR1, SIGUSR2, SIGWINCH, SIGURG, SIGCONT, SIGRTMIN + 3, SIGRTMIN + 7};
	return v;
}
bool single_thread() {
	size_t n = 0;
	if (DIR *d = opendir("/proc/self/task")) {
		while (dirent *e = readdir(d))
			n += e->d_name[0] != '.';
		closedir(d);
	}
	return n == 1;
}
struct Dispositions {
	std::map<int, struct sigaction> old;
	sigset_t mask;
	Dispositions() {
		sigset_t ours;
		sigemptyset(&ours);
		for (int s : all_signals()) {
			struct sigaction a {};
			a.sa_handler = on_signal;
			sigaction(s, &a, &old[s]);
			sigaddset(&ours, s);
			caught[s] = 0;
		}
		pthread_sigmask(SIG_UNBLOCK, &ours, &mask);
	}
	~Dispositions() {
		sigset_t ours;
		sigemptyset(&ours);
		for (int s : all_signals())
			sigaddset(&ours, s);
		pthread_sigmask(SIG_UNBLOCK, &ours, nullptr);  // whatever is still pending is counted
		for (auto &o : old)
			sigaction(o.first, &o.second, nullptr);
		pthread_sigmask(SIG_SETMASK, &mask, nullptr);
	}
};
struct Sub {
	int id;
	std::vector<int> set;
	std::unique_ptr<Signal> obj;
	int version     = 0;  // of its handler
	bool pending    = false;
	uint64_t raised = 0, calls = 0;
	std::map<int, uint64_t> waiting;  // raises since the handler last began, per signal
	int raise_in_handler = 0;  // so many times, the handler raises one of its own signals
	bool die_in_handler  = false, swap_in_handler = false;
};
struct Hist {
	Gen &g;
	Ctx &c;
	RunLoop loop;
	std::vector<std::unique_ptr<Sub>> subs;
	std::map<int, uint64_t> want;  // raises that belong to the ordinary disposition
	std::map<int, uint64_t> lax;   // pending ones, unblocked by destruction, of which merging may lose some
	bool alone, nt = false;
	int ids = 0;
	Hist(Gen &g_, Ctx &c_) : g(g_), c(c_), alone(single_thread()) {}
	Sub *owner(int s) {
		for (auto &b : subs)
			if (b->obj && std::count(b->set.begin(), b->set.end(), s))
				return b.get();
		return nullptr;
	}
	Handler handler(Sub *b) {
		int v = ++b->version;
		return [this, b, v] {
			Hist *h = this;
			Sub *s  = b;
			h->called(s, v);
		};
	}
	void called(Sub *b, int v) {
		PBT_LOG(c, "handler " << b->id << " version " << v << "\n");
		c.check(b->obj != nullptr, "after-destruction", "handler called after its Signal was destroyed");
		c.eq(v, b->version, "old-handler", "handler that was called");
		c.check(b->pending, "spurious", "handler called though none of its signals was raised since the last call");
		b->pending = false;
		b->waiting.clear();
		++b->calls;
		c.check(b->calls <= b->raised, "too-often", "handler called more often than its signals were raised");
		if (b->raise_in_handler) {
			--b->raise_in_handler;
			nt = true;
			raise_one(b->set[g.below(b->set.size())]);
		}
		if (b->die_in_handler) {
			b->die_in_handler = false;
			destroy(b);
		}
	}
	void raise_one(int s) {
		Sub *b  = owner(s);
		int how = int(g.below(3));
		PBT_LOG(c, "raise " << s << " way " << how << (b ? " for object " + std::to_string(b->id) : "") << "\n");
		if (how == 1 && alone)
			kill(getpid(), s);
		else if (how == 2 && alone) {
			sigval v{};
			sigqueue(getpid(), s, v);
		} else
			raise(s);
		if (b) {
			b->pending = true;
			++b->raised;
			++b->waiting[s];
		} else
			++want[s];
	}
	void create() {
		std::vector<int> free;
		for (int s : all_signals())
			if (!owner(s))
				free.push_back(s);
		if (free.empty())
			return;
		subs.emplace_back(new Sub);
		Sub *b = subs.back().get();
		b->id  = ++ids;
		std::vector<int> arg;
		if (!owner(SIGINT) && !owner(SIGTERM) && g.flag())
			b->set = {SIGINT, SIGTERM};
		else {
			for (size_t n = 1 + g.below(3); n-- && !free.empty();) {
				size_t i = g.below(free.size());
				arg.push_back(free[i]);
				free.erase(free.begin() + std::ptrdiff_t(i));
			}
			if (g.chance(1, 8))
				arg.push_back(arg[0]);
			b->set = arg;
		}
		PBT_LOG(c, "create " << b->id << " for");
		for (int s : b->set)
			PBT_LOG(c, " " << s);
		PBT_LOG(c, (arg.empty() ? " (default)\n" : "\n"));
		if (arg.empty() && g.flag())
			b->obj.reset(new Signal(handler(b)));
		else
			b->obj.reset(new Signal(handler(b), arg));
	}
	void destroy(Sub *b) {
		PBT_LOG(c, "destroy " << b->id << "\n");
		if (b->pending) {
			nt = true;
			c.cls("destroyed while pending");
		}
		auto p = std::move(b->obj);
		// what is pending and was not read goes to the ordinary disposition now; several of one signal may be merged,
		// and one that the loop has read already is lost
		for (auto &w : b->waiting)
			lax[w.first] += w.second;
		b->waiting.clear();
		b->pending = false;
		p.reset();
	}
	Sub *any() {
		std::vector<Sub *> v;
		for (auto &b : subs)
			if (b->obj)
				v.push_back(b.get());
		return v.empty() ? nullptr : v[g.below(v.size())];
	}
	// runs the loop until three idle turns found nothing else to do
	void settle() {
		int turns = 0;
		Idle idle([&] {
			if (++turns == 3)
				loop.cancel();
		});
		loop.run();
		for (auto &b : subs)
			if (b->obj)
				c.check(!b->pending, "not-called", "signal was raised but the handler of its object " + std::to_string(b->id) + " was not called");
		verify();
	}
	void verify() {
		for (int s : all_signals()) {
			uint64_t got = uint64_t(caught[s]), lo = want[s], hi = want[s] + lax[s];
			if (got < lo || got > hi)
				throw Failure{"ordinary-disposition", "signal " + std::to_string(s) + " reached its ordinary disposition " + std::to_string(got) + " times instead of " + std::to_string(lo) + (hi == lo ? "" : " to " + std::to_string(hi))};
		}
	}
	void op(bool inside = false) {
		switch (g.pick({6, 3, 4, 2, 2, 2, 2, 1})) {
		case 0: raise_one(all_signals()[g.below(all_signals().size())]); break;
		case 1:
			if (std::count_if(subs.begin(), subs.end(), [](const std::unique_ptr<Sub> &b) { return bool(b->obj); }) < 4)
				create();
			break;
		case 2:
			if (!inside)
				settle();
			break;
		case 3:
			if (Sub *b = any())
				destroy(b);
			break;
		case 4:
			if (Sub *b = any()) {
				PBT_LOG(c, "replace the handler of " << b->id << "\n");
				b->obj->set_handler(handler(b));
				c.cls("handler replaced");
				nt = true;
			}
			break;
		case 5:
			if (Sub *b = any()) {
				PBT_LOG(c, "handler of " << b->id << " will raise\n");
				b->raise_in_handler = 1 + int(g.below(3));
			}
			break;
		case 6:
			if (Sub *b = any())
				raise_one(b->set[g.below(b->set.size())]);
			break;
		default:
			if (Sub *b = any()) {
				PBT_LOG(c, "handler of " << b->id << " will destroy it\n");
				b->die_in_handler = true;
			}
		}
	}
};
}  // namespace

void prop_case(Gen &g, Ctx &c) {
	Dispositions d;
	Hist h(g, c);
	h.create();
	for (size_t n = g.urange(1, 60); n--;) {
		if (g.chance(1, 6)) {  // from inside of the loop
			bool done = false;
			Timer t([&] {
				h.op(true);
				done = true;
			});
			t.once(0);
			size_t limit = 0;
			Idle idle([&] {
				if (done || ++limit > 1000)
					h.loop.cancel();
			});
			h.loop.run();
			c.check(done, "timer", "timer without delay does not fire");
		} else
			h.op();
		h.verify();
	}
	h.settle();
	size_t used = 0;
	for (auto &b : h.subs) {
		used += b->raised != 0;
		if (b->obj)
			h.destroy(b.get());
	}
	h.verify();
	if (used > 1)
		c.cls("several objects");
	if (h.nt || used > 1)
		c.nontrivial();
}
